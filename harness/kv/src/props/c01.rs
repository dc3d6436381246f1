//! C01: session and login state against a reference state machine.
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open { rw: bool },
    OpenBadFlags,
    OpenBadSlot,
    Close(u8),
    CloseAll,
    /// who: 0 user 1 so 2 context-specific 3 nonsense; good: right pin
    Login { s: u8, who: u8, good: bool },
    Logout(u8),
    Dead(u8, u8),
    Restart,
    InitTokenBusy,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }

fn strat() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        8 => prop::bool::weighted(0.75).prop_map(|rw| Op::Open { rw }),
        1 => Just(Op::OpenBadFlags),
        1 => Just(Op::OpenBadSlot),
        5 => any::<u8>().prop_map(Op::Close),
        1 => Just(Op::CloseAll),
        9 => (any::<u8>(), prop_oneof![5 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop::bool::weighted(0.8)).prop_map(|(s, who, good)| Op::Login { s, who, good }),
        5 => any::<u8>().prop_map(Op::Logout),
        2 => (any::<u8>(), 0u8..5).prop_map(|(a, b)| Op::Dead(a, b)),
        1 => Just(Op::Restart),
        1 => Just(Op::InitTokenBusy),
    ];
    (prop_oneof![3 => Just(Db::Sqlite), 1 => Just(Db::Nss)], prop::collection::vec(op, 3..40)).prop_map(|(db, ops)| Case { db, ops }).boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Who { No, User, So }

struct M { live: Vec<(u64, bool)>, dead: Vec<u64>, used: Vec<u64>, who: Who, fails: [u32; 2] }

fn expect_state(rw: bool, w: Who) -> u64 {
    match (rw, w) {
        (false, Who::No) => CKS_RO_PUBLIC_SESSION,
        (true, Who::No) => CKS_RW_PUBLIC_SESSION,
        (false, Who::User) => CKS_RO_USER_FUNCTIONS,
        (true, Who::User) => CKS_RW_USER_FUNCTIONS,
        (_, Who::So) => CKS_RW_SO_FUNCTIONS,
    }
}

fn invariant(t: &Tok, m: &M, after: &str) -> R {
    for (h, rw) in &m.live {
        let (rv, i) = t.p.sess_info(*h);
        ensure!(rv == CKR_OK, "live-session-lost", "after {after}: live session {h} -> {}", rvname(rv));
        let e = expect_state(*rw, m.who);
        ensure!(i.state == e, "session-state", "after {after}: session {h} rw={rw} with login {:?} reports state {} instead of {}", m.who, i.state, e);
        ensure!(i.slotID == t.slot, "session-slot", "after {after}: session {h} reports slot {}", i.slotID);
        let f = CKF_SERIAL_SESSION | if *rw { CKF_RW_SESSION } else { 0 };
        ensure!(i.flags == f, "session-flags", "after {after}: session {h} flags {:x}", i.flags);
    }
    for h in &m.dead {
        let (rv, _) = t.p.sess_info(*h);
        ensure!(rv == CKR_SESSION_HANDLE_INVALID, "dead-session-alive", "after {after}: closed session {h} -> {}", rvname(rv));
    }
    let (rv, ti) = t.p.token_info(t.slot);
    ensure!(rv == CKR_OK, "token-info", "after {after}: C_GetTokenInfo {}", rvname(rv));
    let (n, nrw) = (m.live.len() as u64, m.live.iter().filter(|x| x.1).count() as u64);
    if ti.ulSessionCount != CK_UNAVAILABLE_INFORMATION {
        ensure!(ti.ulSessionCount == n, "session-count", "after {after}: token reports {} sessions, {n} are live", ti.ulSessionCount);
    }
    if ti.ulRwSessionCount != CK_UNAVAILABLE_INFORMATION {
        ensure!(ti.ulRwSessionCount == nrw, "rw-session-count", "after {after}: token reports {} rw sessions, {nrw} are live", ti.ulRwSessionCount);
    }
    Ok(())
}

fn run(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(c.db);
    let mut m = M { live: vec![], dead: vec![], used: vec![], who: Who::No, fails: [0, 0] };
    let mut changes = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let name = format!("#{n} {op:?}");
        let pick = |i: u8, m: &M| if m.live.is_empty() { None } else { Some(i as usize * m.live.len() / 256) };
        match op {
            Op::Open { rw } => {
                let (rv, h) = t.p.open(t.slot, *rw);
                if !*rw && m.who == Who::So {
                    ensure!(rv == CKR_SESSION_READ_WRITE_SO_EXISTS, "ro-open-under-so", "{name}: {}", rvname(rv));
                    cx.hit("ro-open-under-so");
                } else {
                    ensure!(rv == CKR_OK, "open", "{name}: {}", rvname(rv));
                    ensure!(!m.used.contains(&h) && h != 0, "handle-reuse", "{name}: session handle {h} was handed out before");
                    m.used.push(h);
                    m.live.push((h, *rw));
                    if m.who != Who::No { cx.hit("open-while-logged-in"); }
                }
            }
            Op::OpenBadFlags => {
                let mut h: CK_ULONG = 0;
                let rv = unsafe { t.p.f.C_OpenSession.unwrap()(t.slot, CKF_RW_SESSION, std::ptr::null_mut(), None, &mut h) };
                ensure!(rv != CKR_OK, "open-parallel", "{name}: {}", rvname(rv));
            }
            Op::OpenBadSlot => {
                let (rv, _) = t.p.open(t.slot + 77, true);
                ensure!(rv == CKR_SLOT_ID_INVALID, "open-bad-slot", "{name}: {}", rvname(rv));
            }
            Op::Close(i) => if let Some(k) = pick(*i, &m) {
                let (h, _) = m.live.remove(k);
                let rv = t.p.close(h);
                ensure!(rv == CKR_OK, "close", "{name}: {}", rvname(rv));
                m.dead.push(h);
                if m.live.is_empty() { if m.who != Who::No { cx.hit("last-close-logs-out"); } m.who = Who::No; }
            },
            Op::CloseAll => {
                let rv = t.p.close_all(t.slot);
                ensure!(rv == CKR_OK, "close-all", "{name}: {}", rvname(rv));
                m.dead.extend(m.live.drain(..).map(|x| x.0));
                m.who = Who::No;
            }
            Op::Login { s, who, good } => if let Some(k) = pick(*s, &m) {
                let h = m.live[k].0;
                let role = (*who & 1) as usize;
                // stay away from lockout, which is another property
                let good = *good || (*who < 2 && m.fails[role] >= 4);
                let mut pin = if *who == 1 { SO.to_vec() } else { USER.to_vec() };
                if !good { pin[2] ^= 1; }
                let ut = match who { 0 => CKU_USER, 1 => CKU_SO, 2 => CKU_CONTEXT_SPECIFIC, _ => 77 };
                let rv = t.p.login(h, ut, &pin);
                let mut okset: Vec<u64> = vec![];
                match who {
                    2 => {
                        // no operation asks for it
                        ensure!(rv != CKR_OK, "context-login-without-operation", "{name}: accepted");
                        okset.extend([CKR_OPERATION_NOT_INITIALIZED, CKR_USER_NOT_LOGGED_IN, CKR_PIN_INCORRECT]);
                    }
                    3 => okset.push(CKR_USER_TYPE_INVALID),
                    _ => {
                        let w = if *who == 0 { Who::User } else { Who::So };
                        if m.who == w { okset.push(CKR_USER_ALREADY_LOGGED_IN); }
                        else if m.who != Who::No { okset.push(CKR_USER_ANOTHER_ALREADY_LOGGED_IN); }
                        let ro = m.live.iter().any(|x| !x.1);
                        if w == Who::So && ro { okset.push(CKR_SESSION_READ_ONLY_EXISTS); cx.hit("so-login-with-ro"); }
                        let so_nss = w == Who::So && c.db == Db::Nss;
                        if so_nss { okset.extend([CKR_PIN_INCORRECT, CKR_USER_TYPE_INVALID, CKR_PIN_LOCKED, CKR_GENERAL_ERROR]); }
                        if !good { okset.push(CKR_PIN_INCORRECT); }
                        if okset.is_empty() { okset.push(CKR_OK); }
                        if m.who == Who::No && !(w == Who::So && ro) && !so_nss {
                            if good { m.fails[role] = 0 } else { m.fails[role] += 1 }
                        } else if !good { m.fails[role] += 1 }
                    }
                }
                ensure!(okset.contains(&rv), "login-code", "{name}: login as {ut} (right pin: {good}) with {:?} logged in gave {}", m.who, rvname(rv));
                if rv == CKR_OK {
                    m.who = if *who == 0 { Who::User } else { Who::So };
                    changes += 1;
                    cx.hit(if *who == 0 { "user-login" } else { "so-login" });
                }
            },
            Op::Logout(i) => if let Some(k) = pick(*i, &m) {
                let rv = t.p.logout(m.live[k].0);
                let e = if m.who == Who::No { CKR_USER_NOT_LOGGED_IN } else { CKR_OK };
                ensure!(rv == e, "logout", "{name}: {} instead of {}", rvname(rv), rvname(e));
                if e == CKR_OK { changes += 1; }
                m.who = Who::No;
            },
            Op::Dead(i, what) => if !m.dead.is_empty() {
                let h = m.dead[*i as usize * m.dead.len() / 256];
                let rv = match what {
                    0 => t.p.close(h),
                    1 => t.p.login(h, CKU_USER, USER),
                    2 => t.p.logout(h),
                    3 => t.p.create(h, &tm! {CKA_CLASS => CKO_DATA}).0,
                    _ => t.p.find_init(h, &[]),
                };
                ensure!(rv == CKR_SESSION_HANDLE_INVALID, "dead-handle", "{name}: call on closed session gave {}", rvname(rv));
            },
            Op::Restart => {
                let rv = t.p.finalize();
                ensure!(rv == CKR_OK, "finalize", "{name}: {}", rvname(rv));
                let (rv, _) = t.p.open(t.slot, true);
                ensure!(rv == CKR_CRYPTOKI_NOT_INITIALIZED, "call-after-finalize", "{name}: {}", rvname(rv));
                let rv = t.p.initialize(Some(&t.conf));
                ensure!(rv == CKR_OK, "initialize", "{name}: {}", rvname(rv));
                m.live.clear(); m.dead.clear(); m.used.clear();
                m.who = Who::No;
            }
            Op::InitTokenBusy => if !m.live.is_empty() {
                let rv = t.p.init_token(t.slot, SO, "x");
                ensure!(rv == CKR_SESSION_EXISTS, "init-token-with-sessions", "{name}: {}", rvname(rv));
            },
        }
        invariant(&t, &m, &name)?;
    }
    if changes >= 1 && c.ops.len() >= 5 { cx.nt(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01", level: "exploration", workers: 8, hang_s: 60,
        rule: "random histories of 3..40 session/login calls over one token (sqlite 3: nss 1), every live session's state compared with a reference machine after each call; non-trivial: at least 5 calls and at least one successful login or logout",
        assumptions: &["PKCS#11 leaves the precedence between several applicable error codes open: any applicable one is accepted"],
        groups: vec![gen_("history", 9000, 90000, strat, run)],
    }
}
