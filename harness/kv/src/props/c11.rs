//! C11: what the token stores survives crashes, power failures and failing
//! files: every operation happens or does not.
use crate::crypt::*;
use crate::objmodel::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::props::c15::curves;
use crate::run::*;
use crate::tok::*;
use crate::vfs::{self, Fault};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

const NEWPIN: &[u8] = b"another-pin-55";
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Create(Kind, u8, u16), Copy(u8, u16), Set(u8, u16), Destroy(u8), GenKey(Kind, u8), GenPair(u8), Unwrap(u8), Derive(u8), KeyMat,
    UserPin, UserPinSo, SoPin, InitPin, InitToken, BadLogin(bool), GoodLogin(bool, u8), Hotp,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { nss: bool, setup: Vec<Spec>, op: Op, faults: Vec<(Fault, u16)> }

fn op() -> BoxedStrategy<Op> {
    let kind = (0usize..KINDS.len()).prop_map(|i| KINDS[i]);
    let sec = prop_oneof![Just(Kind::Aes), Just(Kind::Generic), Just(Kind::Hmac)];
    let size = prop_oneof![3 => 0u16..200, 1 => 200u16..6000, 1 => 6000u16..20000];
    prop_oneof![
        4 => (kind, any::<u8>(), size.clone()).prop_map(|(k, s, n)| Op::Create(k, s, n)),
        3 => (any::<u8>(), size.clone()).prop_map(|(i, n)| Op::Copy(i, n)),
        4 => (any::<u8>(), size).prop_map(|(i, n)| Op::Set(i, n)),
        4 => any::<u8>().prop_map(Op::Destroy),
        2 => (sec, any::<u8>()).prop_map(|(k, s)| Op::GenKey(k, s)),
        3 => any::<u8>().prop_map(Op::GenPair),
        2 => any::<u8>().prop_map(Op::Unwrap),
        2 => any::<u8>().prop_map(Op::Derive),
        2 => Just(Op::KeyMat),
        4 => Just(Op::UserPin), 1 => Just(Op::UserPinSo), 3 => Just(Op::SoPin), 3 => Just(Op::InitPin), 4 => Just(Op::InitToken),
        2 => any::<bool>().prop_map(Op::BadLogin), 2 => (any::<bool>(), 0u8..4).prop_map(|(a, b)| Op::GoodLogin(a, b)),
        2 => Just(Op::Hotp),
    ].boxed()
}
fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![4 => Just(Fault::Crash), 2 => Just(Fault::Torn), 4 => any::<u16>().prop_map(Fault::Power), 3 => Just(Fault::Fail), 2 => Just(Fault::Full), 2 => Just(Fault::Read)].boxed()
}
fn cases() -> BoxedStrategy<Case> {
    (prop_oneof![3 => Just(false), 2 => Just(true)], prop::collection::vec(useful(&KINDS, 1.0), 1..4), op(), prop::collection::vec((fault(), prop_oneof![3 => any::<u16>(), 1 => 60000u16..=65535]), 1..6))
        .prop_map(|(nss, setup, op, faults)| Case { nss, setup, op, faults }).boxed()
}

/// everything a restarted application can find out about a token
#[derive(Clone, Debug, PartialEq)]
struct Snap { label: String, flags: u64, so: Option<&'static str>, user: Option<&'static str>, objs: Vec<(BTreeMap<u64, Option<Vec<u8>>>, Vec<u8>)> }
type Objs = Vec<(BTreeMap<u64, Option<Vec<u8>>>, Vec<u8>)>;

fn objects(p: &P, s: u64, what: &str) -> R<Objs> {
    let (rv, hs) = p.find(s, &tm! { CKA_TOKEN => true });
    ensure!(rv == CKR_OK, "broken", "{what}: C_FindObjects: {}", rvname(rv));
    let mut v: Objs = vec![];
    let mut all = ALL.to_vec();
    all.extend([CKA_OTP_COUNTER, CKA_OTP_LENGTH, CKA_OTP_FORMAT]);
    for h in hs {
        let (rv, vals) = p.get(s, h, &all);
        ensure!(matches!(rv, CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID | CKR_OK), "broken", "{what}: object {h} can not be read: {}", rvname(rv));
        let a: BTreeMap<u64, Option<Vec<u8>>> = all.iter().copied().zip(vals).collect();
        let is = |x: u64| a[&x].as_deref() == Some(&[1][..]);
        let num = |x: u64| a[&x].as_ref().map(|v| v.iter().rev().fold(0u64, |n, b| n << 8 | *b as u64));
        // what the key computes, for parts of it that can not be read
        let fp = match (num(CKA_CLASS), num(CKA_KEY_TYPE)) {
            _ if is(CKA_ALWAYS_AUTHENTICATE) => Ok(vec![]),
            (Some(CKO_SECRET_KEY), Some(CKK_AES)) if is(CKA_ENCRYPT) => p.enc(s, &Mech::new(CKM_AES_ECB), h, &[7; 16]),
            (Some(CKO_SECRET_KEY), Some(CKK_GENERIC_SECRET | CKK_SHA256_HMAC)) if is(CKA_SIGN) => p.sig(s, &Mech::new(CKM_SHA256_HMAC), h, b"fingerprint"),
            (Some(CKO_PRIVATE_KEY), Some(CKK_RSA)) if is(CKA_SIGN) => p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), h, b"fingerprint"),
            (Some(CKO_PRIVATE_KEY), Some(CKK_EC)) if is(CKA_SIGN) => p.sig(s, &Mech::new(CKM_ECDSA_SHA256), h, b"fingerprint").map(|_| vec![1]),
            _ => Ok(vec![]),
        };
        let fp = match fp { Ok(f) => f, Err(rv @ (CKR_MECHANISM_INVALID | CKR_KEY_SIZE_RANGE | CKR_KEY_TYPE_INCONSISTENT | CKR_KEY_FUNCTION_NOT_PERMITTED)) => format!("{}", rvname(rv)).into_bytes(), Err(rv) => viol("broken", format!("{what}: key {h} does not work: {} ({a:x?})", rvname(rv)))? };
        v.push((a, fp));
    }
    v.sort();
    Ok(v)
}
/// examines a token by using it, in the directory of a configuration no longer needed
fn examine(t: &Tok, what: &str) -> R<Snap> {
    let p = t.p;
    let rv = p.initialize(Some(&t.conf));
    ensure!(rv == CKR_OK, "bricked", "{what}: C_Initialize: {}", rvname(rv));
    let (rv, ti) = p.token_info(t.slot);
    ensure!(rv == CKR_OK, "bricked", "{what}: C_GetTokenInfo: {}", rvname(rv));
    ensure!(ti.flags & CKF_TOKEN_INITIALIZED != 0, "bricked", "{what}: the token is not initialised any more");
    let label = String::from_utf8_lossy(&ti.label).trim_end().to_string();
    let s = t.open(true);
    let which = |u: u64, pins: &[(&'static str, &[u8])]| -> R<Option<&'static str>> {
        for (n, pin) in pins {
            match p.login(s, u, pin) {
                CKR_OK => { return Ok(Some(*n)); }
                CKR_PIN_INCORRECT | CKR_PIN_LEN_RANGE => (),
                CKR_USER_PIN_NOT_INITIALIZED => return Ok(Some("none")),
                CKR_USER_TYPE_INVALID if u == CKU_SO => return Ok(None),
                rv => viol("broken", format!("{what}: login of {u} with the {n} PIN: {}", rvname(rv)))?,
            }
        }
        viol("locked-out", format!("{what}: no PIN works for user {u}"))
    };
    // an SO pin that nobody set is the worst of all
    let so = which(CKU_SO, &[("old", SO), ("new", NEWPIN)]);
    let so = match so {
        Ok(Some(x)) => { p.logout(s); Some(x) }
        Ok(None) => None,
        Err(e) => { if p.login(s, CKU_SO, b"") == CKR_OK { viol("empty-so-pin", format!("{what}: the SO can log in with an empty PIN"))? } return Err(e); }
    };
    let user = which(CKU_USER, &[("old", USER), ("new", NEWPIN)])?;
    let objs = objects(&p, s, what)?;
    // still in working order
    if user.is_some() && user != Some("none") {
        let (rv, o) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![9u8; 16], CKA_TOKEN => true, CKA_ENCRYPT => true, CKA_LABEL => "afterwards", CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
        ensure!(rv == CKR_OK, "broken", "{what}: creating a token object afterwards: {}", rvname(rv));
        ensure!(p.get1(s, o, CKA_VALUE) == Ok(vec![9u8; 16]), "broken", "{what}: the object created afterwards can not be read");
        ensure!(objects(&p, s, what)?.len() == objs.len() + 1, "broken", "{what}: creating one object afterwards leaves {} instead of {}", objects(&p, s, what)?.len(), objs.len() + 1);
        let rv = p.destroy(s, o);
        ensure!(rv == CKR_OK, "broken", "{what}: destroying an object afterwards: {}", rvname(rv));
        ensure!(objects(&p, s, what)? == objs, "broken", "{what}: other objects changed afterwards");
    }
    p.finalize();
    let keep = CKF_LOGIN_REQUIRED | CKF_USER_PIN_INITIALIZED | CKF_USER_PIN_COUNT_LOW | CKF_SO_PIN_COUNT_LOW | CKF_USER_PIN_LOCKED | CKF_SO_PIN_LOCKED | CKF_USER_PIN_FINAL_TRY | CKF_SO_PIN_FINAL_TRY;
    Ok(Snap { label, flags: ti.flags & keep, so, user, objs })
}

fn data(seed: u16, n: u16) -> Vec<u8> { (0..n as u32).map(|i| (i.wrapping_mul(2654435761) >> 11) as u8 ^ seed as u8).collect() }
fn tok(t: Tmpl) -> Tmpl { let mut t = t; tset(&mut t, CKA_TOKEN, V::B(true)); t }

/// brings the freshly started library to where the operation can be called, then calls it
fn act(t: &Tok, op: Op, go: impl FnOnce()) -> R<(Rv, u64)> {
    let p = t.p;
    let s = t.open(true);
    let login = |u: u64, pin: &[u8]| -> R { let rv = p.login(s, u, pin); ensure!(rv == CKR_OK, "setup", "login: {}", rvname(rv)); Ok(()) };
    match op {
        Op::SoPin | Op::InitPin => if t.db == Db::Sqlite { login(CKU_SO, SO)? } else { login(CKU_USER, USER)? },
        Op::UserPinSo | Op::InitToken | Op::BadLogin(_) => (),
        Op::GoodLogin(so, n) => for _ in 0..n { p.login(s, if so { CKU_SO } else { CKU_USER }, b"wrong-wrong"); },
        _ => login(CKU_USER, USER)?,
    }
    let (_, hs) = p.find(s, &tm! { CKA_TOKEN => true });
    let pick = |i: u8| hs.get(i as usize * hs.len() / 256).copied().unwrap_or(0);
    let helper = |v: &[u8]| -> R<u64> { let (rv, o) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => if v.len() == 32 { CKK_AES } else { CKK_GENERIC_SECRET }, CKA_VALUE => v.to_vec(), CKA_UNWRAP => true, CKA_DERIVE => true, CKA_TOKEN => false, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true }); ensure!(rv == CKR_OK, "setup", "helper: {}", rvname(rv)); Ok(o) };
    let sec = |k: Kind, l: &str| tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => k.ckk(), CKA_TOKEN => true, CKA_LABEL => l, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_SIGN => true };
    let rv = match op {
        Op::Create(k, seed, n) => {
            let sp = Spec { kind: k, origin: Origin::Create, seed, token: Some(true), opts: vec![], bad: Bad::No };
            let mut tp = tok(sp.plan(77).t);
            if k == Kind::Data { tset(&mut tp, CKA_VALUE, V::X(data(1, n))); }
            if k.key() { tset(&mut tp, CKA_ID, V::X(data(1, n))); }
            go();
            p.create(s, &tp).0
        }
        Op::Copy(i, n) => { let l = "c".repeat(n as usize % 5000); go(); p.copy(s, pick(i), &tm! { CKA_LABEL => &*l, CKA_TOKEN => true }).0 }
        Op::Set(i, n) => { let l = "l".repeat(n as usize % 9000); go(); p.set(s, pick(i), &tm! { CKA_LABEL => &*l }) }
        Op::Destroy(i) => { go(); p.destroy(s, pick(i)) }
        Op::GenKey(k, n) => { let mut tp = sec(k, "generated"); if k != Kind::Hmac { tp.push((CKA_VALUE_LEN, V::U([16, 24, 32][n as usize % 3]))); } go(); p.genkey(s, &Mech::new(gen_mech(k)), &tp).0 }
        Op::GenPair(i) => { go(); p.genpair(s, &Mech::new(CKM_EC_KEY_PAIR_GEN), &tm! { CKA_EC_PARAMS => curves()[i as usize % 3].oid.clone(), CKA_TOKEN => true, CKA_LABEL => "pair-public", CKA_VERIFY => true, CKA_PRIVATE => false }, &tm! { CKA_TOKEN => true, CKA_LABEL => "pair-private", CKA_SIGN => true }).0 }
        Op::Unwrap(i) => { let kek = bytes_of(7, 32, b"kek"); let w = helper(&kek)?; let blob = refc::aes::kwp(&kek, &[0xa6, 0x59, 0x59, 0xa6], &bytes_of(i, 24, b"un")); go(); p.unwrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), w, &blob, &sec(Kind::Generic, "unwrapped")).0 }
        Op::Derive(i) => { let b = helper(&bytes_of(i, 20, b"der"))?; let mut m = Mech::new(CKM_CONCATENATE_BASE_AND_DATA); let (ptr, len) = m.keep(b"0123456789"); m.set(CK_KEY_DERIVATION_STRING_DATA { pData: ptr, ulLen: len }); go(); p.derive(s, &m, b, &sec(Kind::Generic, "derived")).0 }
        Op::KeyMat => {
            let (rv, b) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => bytes_of(3, 48, b"ms"), CKA_DERIVE => true, CKA_TOKEN => false, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
            ensure!(rv == CKR_OK, "setup", "master secret: {}", rvname(rv));
            let mut m = Mech::new(CKM_TLS12_KEY_AND_MAC_DERIVE);
            let mut iv = [0u8; 32];
            let mut out = CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: iv.as_mut_ptr(), pIVServer: unsafe { iv.as_mut_ptr().add(16) } };
            let (c, cl) = m.keep(&[1; 32]); let (sr, sl) = m.keep(&[2; 32]);
            m.set(CK_TLS12_KEY_MAT_PARAMS { ulMacSizeInBits: 256, ulKeySizeInBits: 128, ulIVSizeInBits: 128, bIsExport: 0, RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: c, ulClientRandomLen: cl, pServerRandom: sr, ulServerRandomLen: sl }, pReturnedKeyMaterial: &mut out, prfHashMechanism: CKM_SHA256 });
            go();
            p.derive(s, &m, b, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true }).0
        }
        Op::UserPin | Op::UserPinSo => { go(); p.set_pin(s, USER, NEWPIN) }
        Op::SoPin => { go(); p.set_pin(s, SO, NEWPIN) }
        Op::InitPin => { go(); p.init_pin(s, NEWPIN) }
        Op::InitToken => { p.close(s); go(); p.init_token(t.slot, SO, "renewed") }
        Op::BadLogin(so) => { go(); p.login(s, if so { CKU_SO } else { CKU_USER }, b"wrong-wrong") }
        Op::GoodLogin(so, _) => { go(); if so { p.login(s, CKU_SO, SO) } else { p.login(s, CKU_USER, USER) } }
        Op::Hotp => {
            let h = hs.iter().copied().find(|h| p.get_ulong(s, *h, CKA_CLASS) == Ok(CKO_OTP_KEY)).unwrap_or(0);
            go();
            let mut buf = vec![0u8; 4096];
            let mut l = buf.len() as CK_ULONG;
            let rv = p.sign_init(s, &Mech::new(CKM_HOTP), h);
            if rv != CKR_OK { rv } else { unsafe { (p.f.C_Sign.unwrap())(s, NB.as_ptr() as *mut u8, 0, buf.as_mut_ptr(), &mut l) } }
        }
    };
    Ok((rv, s))
}
/// values made at random, which differ from one time to the next
fn masked(op: Op, s: &Snap, before: &Snap) -> Snap {
    let mut s = s.clone();
    for o in s.objs.iter_mut() {
        if before.objs.contains(o) { continue; }
        o.0.insert(CKA_UNIQUE_ID, None);
        if matches!(op, Op::GenKey(..) | Op::GenPair(_)) {
            let label = o.0[&CKA_LABEL].clone().unwrap_or_default();
            if label == b"generated" || label.starts_with(b"pair-") {
                for a in [CKA_VALUE, CKA_EC_POINT, CKA_PUBLIC_KEY_INFO] { if let Some(Some(v)) = o.0.get_mut(&a) { *v = vec![v.len() as u8]; } }
                o.1 = vec![];
            }
        }
    }
    s.objs.sort();
    s
}
fn restore(from: &Path, t: &Tok) {
    for f in t.dbfiles() { let _ = std::fs::remove_file(f); }
    for e in std::fs::read_dir(from).expect("base").flatten() { std::fs::copy(e.path(), t.dir.join(e.file_name())).expect("restore"); }
}
fn diff(a: &Snap, b: &Snap) -> String {
    let mut v = vec![];
    if (&a.label, a.flags, a.so, a.user) != (&b.label, b.flags, b.so, b.user) { v.push(format!("{:?} / {:?}", (&a.label, a.flags, a.so, a.user), (&b.label, b.flags, b.so, b.user))); }
    let show = |o: &(BTreeMap<u64, Option<Vec<u8>>>, Vec<u8>)| o.0.iter().filter(|x| x.1.is_some() && matches!(*x.0, CKA_CLASS | CKA_LABEL | CKA_KEY_TYPE | CKA_VALUE | CKA_OTP_COUNTER)).map(|(k, v)| format!("{k:x}={}", v.as_ref().map(|v| hex(&v[..v.len().min(20)])).unwrap_or_default())).collect::<Vec<_>>().join(" ");
    for o in &a.objs { if !b.objs.contains(o) { v.push(format!("extra object {}", show(o))); } }
    for o in &b.objs { if !a.objs.contains(o) { v.push(format!("missing object {}", show(o))); } }
    v.join("; ")
}

struct Base(PathBuf);
impl Drop for Base { fn drop(&mut self) { vfs::disarm(); if self.0.components().count() > 3 { let _ = std::fs::remove_dir_all(&self.0); } } }

fn run(c: &Case, cx: &mut Cx) -> R {
    vfs::install();
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = t.p;
    // what the token holds
    let s = t.user();
    for (i, sp) in c.setup.iter().enumerate() {
        let tp = tok(Spec { origin: Origin::Create, ..sp.clone() }.plan(i).t);
        p.create(s, &tp);
    }
    if c.op == Op::Hotp { p.create(s, &tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_VALUE => bytes_of(1, 20, b"otp"), CKA_OTP_COUNTER => vec![0u8, 0, 0, 0, 0, 0, 1, 7], CKA_OTP_LENGTH => 6u64, CKA_OTP_FORMAT => CK_OTP_FORMAT_DECIMAL, CKA_TOKEN => true, CKA_LABEL => "otp", CKA_SENSITIVE => false, CKA_EXTRACTABLE => true }); }
    p.finalize();
    let base = Base(t.dir.with_extension("base"));
    std::fs::create_dir_all(&base.0).expect("base");
    for f in t.dbfiles() { std::fs::copy(&f, base.0.join(f.file_name().unwrap())).expect("copy"); }
    let before = examine(&t, "before")?;
    // undisturbed
    restore(&base.0, &t);
    ensure!(p.initialize(Some(&t.conf)) == CKR_OK, "setup", "initialize");
    let (clean, _) = act(&t, c.op, || vfs::arm(&t.dir, None))?;
    let (nw, nr) = vfs::count();
    let log = vfs::log();
    vfs::disarm();
    p.finalize();
    let name = format!("{:?}", c.op).split('(').next().unwrap().to_string();
    let after = examine(&t, &format!("{:?} undisturbed", c.op))?;
    let after = masked(c.op, &after, &before);
    // logins with failed attempts before them start from neither
    cx.hit(&format!("{name}{}: {}", if c.nss { " (nss)" } else { "" }, if clean == CKR_OK { "works".to_string() } else { rvname(clean) }));
    for (f, at) in &c.faults {
        let n = if *f == Fault::Read { nr } else { nw };
        // the last one is right after the operation
        let k = *at as u64 * (n + f.dies() as u64) / 65536;
        restore(&base.0, &t);
        ensure!(p.initialize(Some(&t.conf)) == CKR_OK, "setup", "initialize");
        let (rv, s) = act(&t, c.op, || vfs::arm(&t.dir, Some((*f, k))))?;
        let fired = vfs::fired();
        let what = format!("{:?} with {f:?} at {k} of {n}{}, returned {}", c.op, if *f == Fault::Read { String::new() } else { format!(" ({})", log.get(k as usize).cloned().unwrap_or_default()) }, rvname(rv));
        let login = matches!(c.op, Op::BadLogin(_) | Op::GoodLogin(..));
        if !f.dies() {
            vfs::disarm();
            // an error means that nothing happened, right now too
            if rv != CKR_OK && !login && c.op != Op::InitToken && s != 0 && !matches!(c.op, Op::SoPin | Op::InitPin | Op::UserPinSo) {
                let live = objects(&p, s, &what)?;
                ensure!(live == before.objs, "half-done-live", "{what}: the objects seen now differ: {}", diff(&Snap { objs: live, ..before.clone() }, &before));
            }
        }
        p.finalize();
        vfs::disarm();
        if let Fault::Power(seed) = f { vfs::power(*seed as u64); }
        let now = examine(&t, &what)?;
        let now = masked(c.op, &now, &before);
        ensure!(now == before || now == after || (login && Snap { flags: 0, ..now.clone() } == Snap { flags: 0, ..before.clone() }), "half-done", "{what}: neither as before nor as after. compared to before: {}. compared to after: {}", diff(&now, &before), diff(&now, &after));
        if rv == CKR_OK && !login { ensure!(now == after, "lost", "{what}: reported as done, but: {}", diff(&now, &after)); }
        if rv != CKR_OK && !f.dies() && !login && clean == CKR_OK { ensure!(now == before, "half-done", "{what}: reported as failed, but: {}", diff(&now, &before)); }
        if clean == CKR_OK && before != after { cx.nt(); }
        cx.hit(&format!("{:?}{}: {}", f, if fired { "" } else { " not reached" }, if now == before { "before" } else { "after" }).replace(|c: char| c.is_ascii_digit(), ""));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11", level: "exploration", workers: 8, hang_s: 120,
        rule: "a fault was injected into an operation that changes the token",
        assumptions: &[
            "a deleted file stays deleted after a power failure; sectors of 512 bytes are written whole",
            "the counter of failed logins is only kept when it can be written: logins are judged without it",
        ],
        groups: vec![gen_("faults", 500, 12000, cases, run)],
    }
}
