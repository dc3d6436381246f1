//! C02: PINs against a model of roles, PINs and failure counters.
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// how a PIN for a call is picked
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pin {
    /// the current PIN of the role the call is about, of the other role
    Right, Other,
    /// some PIN that was current once
    Old(u8),
    /// the right one without its last byte, with one more byte, with one bit flipped
    Cut, More(u8), Flip(u8, u8),
    Fresh(Vec<u8>),
    Empty, Null,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open(bool),
    CloseAll,
    /// session, as the SO
    Login(u8, bool, Pin),
    Logout(u8),
    /// old and new
    Set(u8, Pin, Pin),
    Init(u8, Pin),
    /// several wrong logins in a row
    Fail(u8, bool, u8),
    InitToken(Pin, u8),
    Restart,
    /// create a token object, private or not
    Make(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { pub db: Db, pub blank: bool, pub ops: Vec<Op> }

fn fresh() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => "[a-zA-Z0-9 ]{8,20}".prop_map(|s| s.into_bytes()),
        2 => "[a-z]{0,7}".prop_map(|s| s.into_bytes()),
        1 => prop::collection::vec(1u8..=255, 8..=8),
        1 => prop::collection::vec(1u8..=255, 60..70),
        1 => prop::collection::vec(1u8..=255, 120..520),
        1 => "[äöüßéλ中]{8,12}".prop_map(|s| s.into_bytes()),
    ].boxed()
}
fn wrong() -> BoxedStrategy<Pin> {
    prop_oneof![
        3 => Just(Pin::Other),
        4 => any::<u8>().prop_map(Pin::Old),
        3 => Just(Pin::Cut),
        3 => (1u8..=255).prop_map(Pin::More),
        4 => (any::<u8>(), 0u8..8).prop_map(|(a, b)| Pin::Flip(a, b)),
        3 => fresh().prop_map(Pin::Fresh),
        1 => Just(Pin::Empty),
        1 => Just(Pin::Null),
    ].boxed()
}
fn pin(right: u32) -> BoxedStrategy<Pin> { prop_oneof![right => Just(Pin::Right), 10 => wrong()].boxed() }
fn newpin() -> BoxedStrategy<Pin> { prop_oneof![8 => fresh().prop_map(Pin::Fresh), 1 => Just(Pin::Right), 1 => Just(Pin::Other), 2 => any::<u8>().prop_map(Pin::Old), 1 => Just(Pin::Cut), 1 => (1u8..=255).prop_map(Pin::More), 1 => Just(Pin::Empty)].boxed() }
pub fn history(db: Db, inits: u32) -> BoxedStrategy<Case> {
    let u = || any::<u8>();
    let op = prop_oneof![
        4 => prop::bool::weighted(0.8).prop_map(Op::Open),
        4 + inits => Just(Op::CloseAll),
        12 => (u(), prop::bool::weighted(0.4), pin(14)).prop_map(|(s, so, p)| Op::Login(s, so, p)),
        5 => u().prop_map(Op::Logout),
        7 => (u(), pin(18), newpin()).prop_map(|(s, o, n)| Op::Set(s, o, n)),
        5 => (u(), newpin()).prop_map(|(s, n)| Op::Init(s, n)),
        3 => (u(), prop::bool::weighted(0.3), 1u8..12).prop_map(|(s, so, n)| Op::Fail(s, so, n)),
        1 + inits => (pin(20), any::<u8>()).prop_map(|(p, l)| Op::InitToken(p, l)),
        4 => Just(Op::Restart),
        2 + inits => (u(), any::<bool>()).prop_map(|(s, p)| Op::Make(s, p)),
    ];
    (prop::bool::weighted(0.15), prop::collection::vec(op, 6..34)).prop_map(move |(blank, ops)| Case { db, blank, ops }).boxed()
}

const LIMIT: u32 = 10;
#[derive(Clone, Debug)]
struct Role { pin: Option<Vec<u8>>, fails: u32 }
struct M<'a> {
    t: &'a Tok,
    init: bool,
    /// USER, SO
    role: [Role; 2],
    old: Vec<Vec<u8>>,
    who: Option<usize>,
    sess: Vec<(u64, bool)>,
    label: String,
    serial: Option<[u8; 16]>,
    /// unique id, private, value
    objs: Vec<(Vec<u8>, bool, Vec<u8>)>,
    hist: u32,
    min: usize,
    max: usize,
}
const ROLE: [&str; 2] = ["User", "SO"];
const UT: [u64; 2] = [CKU_USER, CKU_SO];

impl<'a> M<'a> {
    fn s(&self, i: u8) -> Option<(u64, bool)> { if self.sess.is_empty() { None } else { Some(self.sess[i as usize * self.sess.len() / 256]) } }
    fn nss(&self) -> bool { self.t.db == Db::Nss }
    /// None: a null pointer
    fn pick(&self, p: &Pin, role: usize) -> Option<Vec<u8>> {
        let cur = self.role[role].pin.clone().unwrap_or_else(|| b"nothing-set".to_vec());
        Some(match p {
            Pin::Right => cur,
            Pin::Other => self.role[1 - role].pin.clone().unwrap_or_else(|| b"never-set".to_vec()),
            Pin::Old(i) => if self.old.is_empty() { b"none-before".to_vec() } else { self.old[*i as usize * self.old.len() / 256].clone() },
            Pin::Cut => cur[..cur.len() - 1].to_vec(),
            Pin::More(b) => { let mut c = cur; c.push(*b); c }
            Pin::Flip(i, b) => { let mut c = cur; let n = c.len(); c[*i as usize * n / 256] ^= 1 << b; if c.contains(&0) { c = b"flipped away".to_vec(); } c }
            Pin::Fresh(v) => v.clone(),
            Pin::Empty => vec![],
            Pin::Null => return None,
        })
    }
    fn good_new(&self, p: &[u8]) -> bool { p.len() >= self.min && p.len() <= self.max }
    fn set(&mut self, role: usize, p: &[u8]) {
        if let Some(o) = self.role[role].pin.take() { self.old.push(o); }
        self.role[role] = Role { pin: Some(p.to_vec()), fails: 0 };
    }
    /// what an authentication attempt must answer, and its effect on the counter
    fn auth(&mut self, role: usize, p: &[u8]) -> Rv {
        let counted = !self.nss();
        let r = &mut self.role[role];
        let Some(cur) = &r.pin else { return if role == 1 { CKR_OK } else { CKR_USER_PIN_NOT_INITIALIZED } };
        if counted && r.fails >= LIMIT { return CKR_PIN_LOCKED; }
        if cur == p { r.fails = 0; CKR_OK } else {
            r.fails += 1;
            if counted && r.fails >= LIMIT { CKR_PIN_LOCKED } else { CKR_PIN_INCORRECT }
        }
    }
    fn flags(&self, role: usize) -> u64 {
        let (low, last, locked) = if role == 0 { (CKF_USER_PIN_COUNT_LOW, CKF_USER_PIN_FINAL_TRY, CKF_USER_PIN_LOCKED) } else { (CKF_SO_PIN_COUNT_LOW, CKF_SO_PIN_FINAL_TRY, CKF_SO_PIN_LOCKED) };
        let r = &self.role[role];
        if self.nss() || r.pin.is_none() || !self.init { return 0; }
        match LIMIT - r.fails { 0 => locked, 1 => last, 2 | 3 => low, _ => 0 }
    }
    fn check(&mut self, cx: &mut Cx, after: &str) -> R {
        let (rv, ti) = self.t.p.token_info(self.t.slot);
        ensure!(rv == CKR_OK, "token-info", "{after}: C_GetTokenInfo {}", rvname(rv));
        let f = ti.flags;
        ensure!((f & CKF_TOKEN_INITIALIZED != 0) == self.init, "token-initialized", "{after}: flags {f:x} but the token is{} initialized", if self.init { "" } else { " not" });
        ensure!((f & CKF_USER_PIN_INITIALIZED != 0) == (self.init && self.role[0].pin.is_some()), "pin-initialized", "{after}: flags {f:x}, a User PIN is{} set", if self.role[0].pin.is_some() { "" } else { " not" });
        let mask = CKF_USER_PIN_COUNT_LOW | CKF_USER_PIN_FINAL_TRY | CKF_USER_PIN_LOCKED | CKF_SO_PIN_COUNT_LOW | CKF_SO_PIN_FINAL_TRY | CKF_SO_PIN_LOCKED;
        let want = self.flags(0) | self.flags(1);
        if want != 0 { cx.hit("failures show in the flags"); }
        ensure!(f & mask == want, "pin-flags", "{after}: PIN flags {:x} instead of {want:x} ({} User failures, {} SO failures)", f & mask, self.role[0].fails, self.role[1].fails);
        if self.init && !self.nss() {
            let l = format!("{:32}", self.label);
            ensure!(ti.label.as_ref() == l.as_bytes(), "label", "{after}: label {:?} instead of {l:?}", String::from_utf8_lossy(ti.label.as_ref()));
        }
        for (h, rw) in &self.sess {
            let (rv, i) = self.t.p.sess_info(*h);
            let e = match (self.who, rw) { (None, false) => CKS_RO_PUBLIC_SESSION, (None, true) => CKS_RW_PUBLIC_SESSION, (Some(0), false) => CKS_RO_USER_FUNCTIONS, (Some(0), true) => CKS_RW_USER_FUNCTIONS, _ => CKS_RW_SO_FUNCTIONS };
            ensure!(rv == CKR_OK && i.state == e, "login-state", "{after}: session state {} instead of {e} ({})", i.state, rvname(rv));
        }
        if let Some((s, _)) = self.sess.first() {
            for (uid, private, val) in &self.objs {
                let seen = !*private || self.who == Some(0);
                let (rv, v) = self.t.p.find(*s, &tm! { CKA_UNIQUE_ID => uid.clone() });
                ensure!(rv == CKR_OK && v.len() == seen as usize, "objects-changed", "{after}: object {} (private {private}) is found {} times ({})", hex(uid), v.len(), rvname(rv));
                if seen && (self.who == Some(0) || !self.nss()) { let r = self.t.p.get1(*s, v[0], CKA_MODULUS); ensure!(r.as_ref() == Ok(val), "objects-changed", "{after}: object {} reads {r:?}", hex(uid)); }
            }
            let (rv, v) = self.t.p.find(*s, &tm! { CKA_TOKEN => true });
            let n = self.objs.iter().filter(|o| !o.1 || self.who == Some(0)).count();
            ensure!(rv == CKR_OK && v.len() == n, "objects-changed", "{after}: {} token objects instead of {n} ({})", v.len(), rvname(rv));
        }
        Ok(())
    }
    fn step(&mut self, cx: &mut Cx, n: usize, op: &Op) -> R {
        let p = self.t.p;
        let name = format!("#{n} {op:?}").chars().take(200).collect::<String>();
        match op {
            Op::Open(rw) => {
                let (rv, h) = p.open(self.t.slot, *rw);
                if !self.init { ensure!(rv != CKR_OK, "open", "{name}: session on a token that was never initialized: {}", rvname(rv)); }
                else if !*rw && self.who == Some(1) { ensure!(rv == CKR_SESSION_READ_WRITE_SO_EXISTS, "open", "{name}: {}", rvname(rv)); }
                else { ensure!(rv == CKR_OK, "open", "{name}: {}", rvname(rv)); self.sess.push((h, *rw)); }
            }
            Op::CloseAll => { let rv = p.close_all(self.t.slot); ensure!(rv == CKR_OK || !self.init, "close", "{name}: {}", rvname(rv)); self.sess.clear(); self.who = None; }
            Op::Fail(s, so, k) => {
                // logins that can only fail, on a token where nobody is logged in
                if self.who.is_some() { return Ok(()); }
                for i in 0..*k { self.step(cx, n, &Op::Login(*s, *so, if i % 2 == 0 { Pin::Cut } else { Pin::Flip(i * 20, i % 7) }))?; }
            }
            Op::Login(s, so, pin) => if let Some((s, _)) = self.s(*s) {
                let role = *so as usize;
                if self.nss() && *so && self.role[0].pin.is_none() {
                    // there is no SO PIN to check: anything is taken until the User PIN is set
                    if self.who.is_some() || self.sess.iter().any(|x| !x.1) { return Ok(()); }
                    let rv = p.login(s, CKU_SO, SO);
                    ensure!(rv == CKR_OK, "login", "{name}: {}", rvname(rv));
                    self.who = Some(1);
                    return Ok(());
                }
                let arg = self.pick(pin, role);
                let rv = match &arg { Some(v) => p.login(s, UT[role], v), None => unsafe { p.f.C_Login.unwrap()(s, UT[role], std::ptr::null_mut(), 0) } };
                let mut ok = vec![];
                if self.who == Some(role) { ok.push(CKR_USER_ALREADY_LOGGED_IN); }
                else if self.who.is_some() { ok.push(CKR_USER_ANOTHER_ALREADY_LOGGED_IN); }
                if *so && self.sess.iter().any(|x| !x.1) { ok.push(CKR_SESSION_READ_ONLY_EXISTS); }
                if self.nss() && *so { ok.push(CKR_USER_TYPE_INVALID); }
                if ok.is_empty() {
                    let e = self.auth(role, arg.as_deref().unwrap_or(&[]));
                    ok.push(e);
                    if e == CKR_PIN_LOCKED { ok.push(CKR_PIN_INCORRECT); }
                    if e == CKR_PIN_INCORRECT && arg.as_deref().map_or(true, |v| v.len() < self.min || v.len() > self.max) { ok.extend([CKR_PIN_LEN_RANGE, CKR_PIN_INVALID, CKR_ARGUMENTS_BAD]); }
                    if e == CKR_OK { self.who = Some(role); self.hist += 1; cx.hit(&format!("{} login", ROLE[role])); }
                    else { cx.hit(if e == CKR_PIN_LOCKED { "locked" } else { "wrong PIN" }); }
                    if e == CKR_PIN_LOCKED && matches!(pin, Pin::Right) { cx.hit("right PIN of a locked role"); }
                }
                ensure!(ok.contains(&rv), "login", "{name}: login of the {} gave {} instead of {}", ROLE[role], rvname(rv), ok.iter().map(|x| rvname(*x)).collect::<Vec<_>>().join("/"));
            },
            Op::Logout(s) => if let Some((s, _)) = self.s(*s) {
                let rv = p.logout(s);
                let e = if self.who.is_some() { CKR_OK } else { CKR_USER_NOT_LOGGED_IN };
                ensure!(rv == e, "logout", "{name}: {}", rvname(rv));
                self.who = None;
            },
            Op::Set(s, old, new) => if let Some((s, rw)) = self.s(*s) {
                let role = self.who.unwrap_or(0);
                let new = self.pick(new, role).unwrap_or_default();
                // one thing wrong at a time: which one is reported, and whether it counts, is not specified
                let pre = !rw || !self.good_new(&new);
                let old = if pre { Pin::Right } else { old.clone() };
                let Some(o) = self.pick(&old, role) else { return Ok(()) };
                if self.nss() && role == 1 { return Ok(()); }
                let rv = p.set_pin(s, &o, &new);
                if pre {
                    let locked = !self.nss() && self.role[role].fails >= LIMIT;
                    let fit = [(!rw, CKR_SESSION_READ_ONLY), (!self.good_new(&new), CKR_PIN_LEN_RANGE), (!self.good_new(&new), CKR_PIN_INVALID), (!self.good_new(&new) && new.is_empty(), CKR_ARGUMENTS_BAD), (locked, CKR_PIN_LOCKED), (self.role[role].pin.is_none(), CKR_USER_PIN_NOT_INITIALIZED)];
                    ensure!(fit.iter().any(|x| x.0 && x.1 == rv), "set-pin-refusal", "{name}: C_SetPIN to a PIN of {} bytes in a rw={rw} session gave {}", new.len(), rvname(rv));
                    cx.hit("PIN of a bad length or read-only session");
                } else if o.is_empty() {
                    ensure!(rv != CKR_OK, "set-pin", "{name}: C_SetPIN with an empty old PIN accepted");
                } else {
                    let e = self.auth(role, &o);
                    let mut ok = vec![e];
                    if e == CKR_PIN_LOCKED { ok.push(CKR_PIN_INCORRECT); }
                    if e == CKR_PIN_INCORRECT && !self.good_new(&o) { ok.extend([CKR_PIN_LEN_RANGE, CKR_PIN_INVALID]); }
                    ensure!(ok.contains(&rv), "set-pin", "{name}: C_SetPIN of the {} gave {} instead of {}", ROLE[role], rvname(rv), rvname(e));
                    if rv == CKR_OK { self.set(role, &new); self.hist += 1; cx.hit(&format!("{} PIN changed", ROLE[role])); }
                }
            },
            Op::Init(s, new) => if let Some((s, _)) = self.s(*s) {
                let new = self.pick(new, 0).unwrap_or_default();
                let rv = p.init_pin(s, &new);
                let good = self.good_new(&new);
                if self.who != Some(1) { ensure!(rv == CKR_USER_NOT_LOGGED_IN || !good && (rv == CKR_PIN_LEN_RANGE || rv == CKR_PIN_INVALID), "init-pin", "{name}: C_InitPIN without the SO: {}", rvname(rv)); cx.hit("C_InitPIN without the SO"); }
                else if !good { ensure!(rv == CKR_PIN_LEN_RANGE || rv == CKR_PIN_INVALID || new.is_empty() && rv == CKR_ARGUMENTS_BAD, "init-pin-length", "{name}: C_InitPIN to a PIN of {} bytes: {}", new.len(), rvname(rv)); cx.hit("PIN of a bad length or read-only session"); }
                else {
                    ensure!(rv == CKR_OK, "init-pin", "{name}: C_InitPIN: {}", rvname(rv));
                    if self.role[0].fails >= LIMIT { cx.hit("locked User PIN reset"); }
                    self.set(0, &new);
                    self.hist += 1;
                    cx.hit("User PIN set by the SO");
                }
            },
            Op::InitToken(pin, l) => {
                let label = format!("label {l}");
                let fresh_init = !self.init || self.role[1].pin.is_none() && self.nss();
                let arg = if self.init { self.pick(pin, 1) } else { Some(match pin { Pin::Fresh(v) => v.clone(), _ => SO.to_vec() }) };
                let Some(arg) = arg else { return Ok(()) };
                if fresh_init && self.nss() && arg.len() < self.min { return Ok(()); }
                let rv = p.init_token(self.t.slot, &arg, &label);
                if !self.sess.is_empty() { ensure!(rv == CKR_SESSION_EXISTS, "init-token-with-sessions", "{name}: {}", rvname(rv)); cx.hit("C_InitToken with sessions"); return Ok(()); }
                if self.nss() && self.role[0].pin.is_some() { ensure!(rv != CKR_OK, "init-token", "{name}: C_InitToken without any PIN to check accepted"); return Ok(()); }
                if !self.init {
                    if !self.good_new(&arg) && !self.nss() { ensure!(rv != CKR_OK, "init-token-length", "{name}: C_InitToken with a PIN of {} bytes: {}", arg.len(), rvname(rv)); return Ok(()); }
                    ensure!(rv == CKR_OK, "init-token", "{name}: C_InitToken: {}", rvname(rv));
                } else if !self.nss() {
                    let e = self.auth(1, &arg);
                    let mut ok = vec![e];
                    if e == CKR_PIN_LOCKED { ok.push(CKR_PIN_INCORRECT); }
                    if e == CKR_PIN_INCORRECT && !self.good_new(&arg) { ok.extend([CKR_PIN_LEN_RANGE, CKR_PIN_INVALID]); }
                    ensure!(ok.contains(&rv), "init-token", "{name}: C_InitToken gave {} instead of {}", rvname(rv), rvname(e));
                    if rv != CKR_OK { cx.hit("C_InitToken refused"); return Ok(()); }
                } else { ensure!(rv == CKR_OK, "init-token", "{name}: C_InitToken: {}", rvname(rv)); }
                if self.init { cx.hit("token wiped"); if !self.objs.is_empty() { cx.hit("objects wiped"); } }
                for r in 0..2 { if let Some(o) = self.role[r].pin.take() { self.old.push(o); } self.role[r].fails = 0; }
                if !self.nss() { self.role[1].pin = Some(arg); }
                self.init = true;
                self.label = label;
                self.objs.clear();
                self.hist += 1;
            }
            Op::Restart => {
                let rv = self.t.restart();
                ensure!(rv == CKR_OK, "restart", "{name}: {}", rvname(rv));
                self.sess.clear(); self.who = None;
                if self.init { let (rv, h) = p.open(self.t.slot, true); ensure!(rv == CKR_OK, "open", "{name}: {}", rvname(rv)); self.sess.push((h, true)); }
                cx.hit("restart");
            }
            Op::Make(s, private) => if let Some((s, rw)) = self.s(*s) {
                if self.objs.len() >= 4 || !rw || self.who != Some(0) { return Ok(()); }
                let mut m = unhex(crate::rsakeys::KEYS[0].n);
                m[5] ^= self.objs.len() as u8 + self.old.len() as u8;
                let (rv, h) = p.create(s, &tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_RSA, CKA_MODULUS => m.clone(), CKA_PUBLIC_EXPONENT => vec![1u8, 0, 1], CKA_TOKEN => true, CKA_PRIVATE => *private });
                ensure!(rv == CKR_OK, "create", "{name}: {}", rvname(rv));
                let uid = p.get1(s, h, CKA_UNIQUE_ID).unwrap_or_default();
                self.objs.push((uid, *private, m));
            },
        }
        self.check(cx, &name)
    }
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
    let t = if c.blank { let t = cx.tok.raw(c.db, "", ""); let rv = t.p.initialize(Some(&t.conf)); ensure!(rv == CKR_OK, "initialize", "{}", rvname(rv)); t } else { cx.tok.fresh(c.db) };
    let (_, ti) = t.p.token_info(t.slot);
    let max = if c.db == Db::Nss { 500 } else if ti.ulMaxPinLen == 0 || ti.ulMaxPinLen == CK_UNAVAILABLE_INFORMATION { usize::MAX } else { ti.ulMaxPinLen as usize };
    let none = Role { pin: None, fails: 0 };
    let some = |p: &[u8]| Role { pin: Some(p.to_vec()), fails: 0 };
    let mut m = M { t: &t, init: !c.blank, role: [if c.blank { none.clone() } else { some(USER) }, if c.blank || c.db == Db::Nss { none } else { some(SO) }], old: vec![], who: None, sess: vec![], label: "kvtoken".into(), serial: None, objs: vec![], hist: 0, min: ti.ulMinPinLen as usize, max };
    m.serial = None;
    m.check(cx, "at first")?;
    for (n, op) in c.ops.iter().enumerate() { m.step(cx, n, op)?; }
    // after all that only the current PINs work
    m.step(cx, 900, &Op::Restart)?;
    for so in [false, true] {
        if !m.init { break; }
        for p in m.old.clone().into_iter().rev().take(2) {
            if m.role[so as usize].fails + 1 < LIMIT && m.role[so as usize].pin.as_ref() != Some(&p) { m.step(cx, 901, &Op::Login(0, so, Pin::Fresh(p)))?; }
        }
        m.step(cx, 902, &Op::Login(0, so, Pin::Right))?;
        m.step(cx, 903, &Op::CloseAll)?;
        m.step(cx, 904, &Op::Open(true))?;
    }
    if m.hist >= 3 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C02", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when at least three logins, PIN changes or initializations succeeded",
        assumptions: &["PINs contain no zero bytes (PBKDF2 takes a password and the same password with zeros appended for the same)", "NSS databases have no SO PIN and no failure counter: the SO may log in without one until a User PIN is set, and that is all that is checked for it"],
        groups: vec![
            gen_("sqlite", 900, 40000, || history(Db::Sqlite, 0), run),
            gen_("nss", 300, 10000, || history(Db::Nss, 0), run),
        ] }
}
