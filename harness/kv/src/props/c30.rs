//! C30: one-time passwords.
use crate::crypt::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::hash::{hotp_with, H};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad { None, Length(u64), Format(u64), Counter(u8), Time, Challenge, TimeReq, PinReq, ValueLen(u8), Flag(u8), Mechs, Class, Mech2 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Key { len: u8, seed: Hx, digits: Option<u8>, counter: Option<u64>, req: Option<u8>, token: bool, private: bool, generate: bool, sens: bool, modifiable: bool, bad: Bad }
/// parameters of the mechanism
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Par { None, Empty, Counter(u64), Short(u8), Friendly, BadFlags(u32), Unknown(u64), NullList, Two(u64) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op { Make(Key), SignInit(u8, u8, Par), Sign(u8, u8), VerifyInit(u8, u8, Par), Verify(u8, i8, u8), SetCounter(u8, u64), BadCounter(u8, u8), Cancel(u8), Copy(u8, bool), Restart, Relogin, Destroy(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ops: Vec<Op> }
fn counter() -> BoxedStrategy<u64> { prop_oneof![4 => 0u64..20, 2 => any::<u64>(), 2 => (0u64..8).prop_map(|x| u64::MAX - x), 1 => (0u64..3).prop_map(|x| (1 << 32) - 1 + x), 1 => Just(255u64)].boxed() }
fn cases() -> BoxedStrategy<Case> {
    let bad = prop_oneof![30 => Just(Bad::None), 1 => prop_oneof![Just(5u64), Just(9), Just(0), Just(u64::MAX), Just(10)].prop_map(Bad::Length), 1 => (1u64..6).prop_map(Bad::Format), 1 => (0u8..20).prop_map(Bad::Counter), 1 => Just(Bad::Time), 1 => Just(Bad::Challenge), 1 => Just(Bad::TimeReq), 1 => Just(Bad::PinReq), 1 => any::<u8>().prop_map(Bad::ValueLen), 1 => (0u8..4).prop_map(Bad::Flag), 1 => Just(Bad::Mechs), 1 => Just(Bad::Class), 1 => Just(Bad::Mech2)];
    let key = (0u8..3, hx(64), prop::option::of(6u8..9), prop::option::of(counter()), prop_oneof![3 => Just(None), 2 => (0u8..3).prop_map(Some)], any::<bool>(), prop::bool::weighted(0.7), prop::bool::weighted(0.3), prop::bool::weighted(0.2), prop::bool::weighted(0.9), bad)
        .prop_map(|(len, seed, digits, counter, req, token, private, generate, sens, modifiable, bad)| Key { len, seed, digits, counter, req, token, private, generate, sens, modifiable, bad }).boxed();
    let first = key.clone().prop_map(|mut k| { k.bad = Bad::None; k.modifiable = true; k });
    let par = || prop_oneof![12 => Just(Par::None), 1 => Just(Par::Empty), 4 => counter().prop_map(Par::Counter), 1 => (0u8..20).prop_map(Par::Short), 1 => Just(Par::Friendly), 1 => any::<u32>().prop_map(Par::BadFlags), 1 => prop_oneof![Just(0u64), Just(1), Just(2), Just(3), Just(5), Just(7), any::<u64>()].prop_map(Par::Unknown), 1 => Just(Par::NullList), 1 => counter().prop_map(Par::Two)];
    let op = prop_oneof![
        3 => key.prop_map(Op::Make), 10 => (0u8..3, any::<u8>(), par()).prop_map(|(s, k, p)| Op::SignInit(s, k, p)), 10 => (0u8..3, 0u8..6).prop_map(|(s, v)| Op::Sign(s, v)),
        8 => (0u8..3, any::<u8>(), par()).prop_map(|(s, k, p)| Op::VerifyInit(s, k, p)), 8 => (0u8..3, -3i8..8, 0u8..12).prop_map(|(s, o, v)| Op::Verify(s, o, v)),
        2 => (any::<u8>(), counter()).prop_map(|(k, c)| Op::SetCounter(k, c)), 1 => (any::<u8>(), 0u8..20).prop_map(|(k, n)| Op::BadCounter(k, n)), 1 => (0u8..3).prop_map(Op::Cancel), 1 => (any::<u8>(), any::<bool>()).prop_map(|(k, t)| Op::Copy(k, t)),
        1 => Just(Op::Restart), 1 => Just(Op::Relogin), 1 => any::<u8>().prop_map(Op::Destroy)];
    (first, prop::collection::vec(op, 4..60)).prop_map(|(k, mut ops)| { ops.insert(0, Op::Make(k)); Case { ops } }).boxed()
}

#[derive(Clone, Debug)]
struct M { h: Obj, val: Option<Vec<u8>>, c: Vec<u8>, digits: usize, req: u64, token: bool, modifiable: bool, uid: Vec<u8>, spent: BTreeSet<u64>, at: u64 }
impl M {
    fn otp(&self, c: u64) -> Option<String> { let v = self.val.as_ref()?; Some(hotp_with(match v.len() { 20 => H::Sha1, 32 => H::Sha256, _ => H::Sha512 }, v, c, self.digits as u32)) }
    fn count(&self) -> Option<u64> { Some(u64::from_be_bytes(self.c.as_slice().try_into().ok()?)) }
}
/// an operation that was started: the key, its counter if the caller gave it, the counter it started with
#[derive(Clone, Debug)]
struct Act { key: u64, given: Option<Vec<u8>>, start: Vec<u8>, sign: bool }
const REQS: [u64; 3] = [CK_OTP_PARAM_IGNORED, CK_OTP_PARAM_OPTIONAL, CK_OTP_PARAM_MANDATORY];
const VLEN: [usize; 3] = [20, 32, 64];

fn mech(par: &Par) -> Mech {
    let mut m = Mech::new(CKM_HOTP);
    let mut list = vec![];
    let mut one = |m: &mut Mech, t: u64, b: &[u8]| { let (p, l) = m.keep_exact(b); list.push(CK_OTP_PARAM { type_: t, pValue: p as *mut _, ulValueLen: l }); };
    match par {
        Par::None => return m,
        Par::Empty => {}
        Par::Counter(c) => one(&mut m, CK_OTP_COUNTER, &c.to_be_bytes()),
        Par::Short(n) => one(&mut m, CK_OTP_COUNTER, &vec![0; *n as usize]),
        Par::Friendly => one(&mut m, CK_OTP_FLAGS, &CKF_USER_FRIENDLY_OTP.to_ne_bytes()),
        Par::BadFlags(f) => one(&mut m, CK_OTP_FLAGS, &((*f as u64) | 1).to_ne_bytes()),
        Par::Unknown(t) => one(&mut m, *t, &[0; 8]),
        Par::NullList => {}
        Par::Two(c) => { one(&mut m, CK_OTP_FLAGS, &CKF_USER_FRIENDLY_OTP.to_ne_bytes()); one(&mut m, CK_OTP_COUNTER, &c.to_be_bytes()); }
    }
    let n = if *par == Par::NullList { 1 } else { list.len() as u64 };
    let bytes: Vec<u8> = list.iter().flat_map(|x| { let mut v = x.type_.to_ne_bytes().to_vec(); v.extend((x.pValue as u64).to_ne_bytes()); v.extend(x.ulValueLen.to_ne_bytes()); v }).collect();
    let (p, _) = if bytes.is_empty() { (std::ptr::null_mut(), 0) } else { m.keep(&bytes) };
    m.set(CK_OTP_PARAMS { pParams: p as *mut _, ulCount: n });
    m
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Sqlite);
    let p = t.p;
    t.user();
    let mut ss = [t.open(true), t.open(true), t.open(false)];
    let mut keys: Vec<M> = vec![];
    let mut act: [Option<Act>; 3] = [None, None, None];
    let mut next = 0u64;
    for (n, op) in c.ops.iter().enumerate() {
        let what = format!("step {n} {op:?}");
        let pick = |k: u8| if keys.is_empty() { None } else { Some(k as usize % keys.len()) };
        match op {
            Op::Make(k) => {
                let s = ss[0];
                let val = k.seed[..VLEN[k.len as usize]].to_vec();
                let mut tm = tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_TOKEN => k.token, CKA_PRIVATE => k.private, CKA_SENSITIVE => k.sens && !k.generate, CKA_EXTRACTABLE => true, CKA_MODIFIABLE => k.modifiable };
                if k.generate { tset(&mut tm, CKA_VALUE_LEN, val.len() as u64); } else { tset(&mut tm, CKA_VALUE, val.clone()); }
                if let Some(d) = k.digits { tset(&mut tm, CKA_OTP_LENGTH, d as u64); }
                if let Some(c) = k.counter { tset(&mut tm, CKA_OTP_COUNTER, c.to_be_bytes().to_vec()); }
                if let Some(r) = k.req { tset(&mut tm, CKA_OTP_COUNTER_REQUIREMENT, REQS[r as usize]); }
                let mut refuse = true;
                match &k.bad {
                    Bad::None => refuse = false,
                    Bad::Length(l) => tset(&mut tm, CKA_OTP_LENGTH, *l),
                    Bad::Format(f) => tset(&mut tm, CKA_OTP_FORMAT, *f),
                    Bad::Counter(n) => { if *n == 8 { continue; } tset(&mut tm, CKA_OTP_COUNTER, vec![0u8; *n as usize]); }
                    Bad::Time => tset(&mut tm, CKA_OTP_TIME, "20260101000000"),
                    Bad::Challenge => tset(&mut tm, CKA_OTP_CHALLENGE_REQUIREMENT, CK_OTP_PARAM_MANDATORY),
                    Bad::TimeReq => tset(&mut tm, CKA_OTP_TIME_REQUIREMENT, CK_OTP_PARAM_OPTIONAL),
                    Bad::PinReq => tset(&mut tm, CKA_OTP_PIN_REQUIREMENT, CK_OTP_PARAM_MANDATORY),
                    Bad::ValueLen(n) => { if VLEN.contains(&(*n as usize)) { continue; } if k.generate { tset(&mut tm, CKA_VALUE_LEN, *n as u64) } else { tset(&mut tm, CKA_VALUE, vec![7u8; *n as usize]) } }
                    Bad::Flag(f) => tset(&mut tm, [CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP][*f as usize], true),
                    Bad::Mechs => tset(&mut tm, CKA_ALLOWED_MECHANISMS, CKM_SHA_1_HMAC.to_ne_bytes().to_vec()),
                    Bad::Class => tset(&mut tm, CKA_CLASS, CKO_SECRET_KEY),
                    Bad::Mech2 => tset(&mut tm, CKA_ALLOWED_MECHANISMS, [CKM_HOTP.to_ne_bytes(), CKM_SHA_1_HMAC.to_ne_bytes()].concat()),
                }
                let (rv, h) = if k.generate { p.genkey(s, &Mech::new(CKM_HOTP_KEY_GEN), &tm) } else { p.create(s, &tm) };
                if refuse { ensure!(rv != CKR_OK, "accepted", "{what}: accepted"); cx.hit("refused key"); continue; }
                ensure!(rv == CKR_OK, "key", "{what}: {}", rvname(rv));
                let val = if k.generate { let v = p.get1(s, h, CKA_VALUE); ensure!(v.as_ref().is_ok_and(|v| v.len() == val.len()), "key", "{what}: value {v:x?}"); v.ok() } else { Some(val) };
                next += 1;
                keys.push(M { h, val, c: k.counter.unwrap_or(0).to_be_bytes().to_vec(), digits: k.digits.unwrap_or(6) as usize, req: k.req.map_or(CK_OTP_PARAM_IGNORED, |r| REQS[r as usize]), token: k.token, modifiable: k.modifiable, uid: p.get1(s, h, CKA_UNIQUE_ID).unwrap_or_default(), spent: BTreeSet::new(), at: next });
                cx.hit(if k.generate { "generated" } else { "created" });
            }
            Op::SignInit(i, k, par) | Op::VerifyInit(i, k, par) => {
                let sign = matches!(op, Op::SignInit(..));
                let i = *i as usize;
                let Some(k) = pick(*k) else { continue };
                if act[i].is_some() { continue; }
                let m = mech(par);
                let rv = if sign { p.sign_init(ss[i], &m, keys[k].h) } else { p.verify_init(ss[i], &m, keys[k].h) };
                let own = keys[k].req == CK_OTP_PARAM_IGNORED;
                let given: Option<Vec<u8>> = match par { Par::Counter(c) | Par::Two(c) => Some(c.to_be_bytes().to_vec()), Par::Short(n) => Some(vec![0; *n as usize]), _ => None };
                let mut ok = !matches!(par, Par::BadFlags(_) | Par::NullList) && !matches!(par, Par::Unknown(t) if *t != CK_OTP_COUNTER && *t != CK_OTP_FLAGS);
                let mut either = false;
                if ok { match &given {
                    Some(g) if !own => ok = g.len() == 8,
                    Some(g) => { if g.len() != 8 { either = true; } ok = keys[k].c.len() == 8 }
                    None => ok = keys[k].req != CK_OTP_PARAM_MANDATORY && keys[k].c.len() == 8,
                } }
                if matches!(par, Par::Unknown(CK_OTP_COUNTER) | Par::Unknown(CK_OTP_FLAGS)) { either = true; }
                if !either || !ok { ensure!((rv == CKR_OK) == ok, "init", "{what} on {:?}: {}", keys[k], rvname(rv)); }
                if rv == CKR_OK {
                    if matches!(par, Par::Unknown(_)) { p.cancel(ss[i], CKF_SIGN | CKF_VERIFY); continue; }
                    act[i] = Some(Act { key: keys[k].at, given: if own { None } else { given }, start: keys[k].c.clone(), sign });
                    if keys[k].token { cx.hit("token key"); }
                } else { cx.hit("refused start"); }
            }
            Op::Sign(i, via) => {
                let i = *i as usize;
                let Some(a) = act[i].clone() else { continue };
                if !a.sign { continue; }
                let k = keys.iter().position(|m| m.at == a.key);
                let s = ss[i];
                // buffer variants first
                let f = p.f.C_Sign.unwrap();
                let mut len = 0u64;
                let d = [0u8; 1];
                if via & 1 != 0 {
                    let rv = unsafe { f(s, d.as_ptr() as *mut u8, 0, std::ptr::null_mut(), &mut len) };
                    if k.is_some() { ensure!(rv == CKR_OK && len >= 6, "query", "{what}: {} {len}", rvname(rv)); }
                }
                let mut buf = vec![0u64; 64];
                let bytes = |b: &[u64]| -> Vec<u8> { b.iter().flat_map(|x| x.to_ne_bytes()).collect() };
                let base = buf.as_mut_ptr() as *mut u8;
                if via & 2 != 0 {
                    len = 13;
                    let rv = unsafe { f(s, d.as_ptr() as *mut u8, 0, base, &mut len) };
                    ensure!(rv != CKR_OK, "buffer", "{what}: 13 bytes are enough");
                    if rv != CKR_BUFFER_TOO_SMALL { act[i] = None; continue; }
                    ensure!(bytes(&buf).iter().all(|b| *b == 0), "buffer", "{what}: written to a buffer that is too small");
                }
                len = 512;
                let rv = unsafe { if via & 4 != 0 { p.f.C_SignFinal.unwrap()(s, base, &mut len) } else { f(s, d.as_ptr() as *mut u8, 0, base, &mut len) } };
                act[i] = None;
                // the password in the result
                let raw = bytes(&buf);
                let Some(k) = k else { continue };
                let counter = match &a.given { Some(g) => u64::from_be_bytes(g.as_slice().try_into().unwrap()), None => match keys[k].count() { Some(c) => c, None => continue } };
                let Some(want) = keys[k].otp(counter) else { continue };
                if rv != CKR_OK {
                    // must not give the password away
                    if let Some(c) = keys[k].count() { for x in c.saturating_sub(3)..=c.saturating_add(3) { let o = keys[k].otp(x).unwrap(); ensure!(!raw.windows(o.len()).any(|w| w == o.as_bytes()), "leak", "{what} on {:?}: {} but the password of counter {x} is in the buffer", keys[k], rvname(rv)); } }
                    // it may be refused when the counter moved meanwhile, is at its end, or can not be kept
                    let why = a.given.is_none() && (counter == u64::MAX || !keys[k].modifiable || a.start != keys[k].c);
                    cx.hit(if why { "not possible" } else { "refused at the end" });
                    ensure!(why, "sign", "{what} on {:?} with {a:?}: {}", keys[k], rvname(rv));
                    if a.start != keys[k].c { cx.hit("stale"); }
                } else {
                    let info = unsafe { std::ptr::read_unaligned(base as *const CK_OTP_SIGNATURE_INFO) };
                    ensure!(info.ulCount >= 1 && !info.pParams.is_null(), "result", "{what}: result {}", hex(&raw[..64]));
                    let mut got = None;
                    for j in 0..info.ulCount.min(8) {
                        let q = unsafe { std::ptr::read_unaligned(info.pParams.add(j as usize)) };
                        let v = q.pValue as usize;
                        ensure!(v >= base as usize && v + q.ulValueLen as usize <= base as usize + len as usize, "result", "{what}: a value outside the buffer");
                        let v = raw[v - base as usize..][..q.ulValueLen as usize].to_vec();
                        if q.type_ == CK_OTP_VALUE { got = Some(v); } else if q.type_ == CK_OTP_COUNTER { ensure!(v == counter.to_be_bytes(), "result", "{what}: counter {}", hex(&v)); }
                    }
                    let got = got.unwrap_or_default();
                    ensure!(got == want.as_bytes(), "otp", "{what} on {:?} with {a:?}: {:?}, expected {want} for counter {counter}", keys[k], String::from_utf8_lossy(&got));
                    cx.nt();
                    if a.given.is_none() {
                        ensure!(counter != u64::MAX, "spent-twice", "{what}: the last counter value was used: nothing can follow");
                        ensure!(keys[k].spent.insert(counter), "spent-twice", "{what}: counter {counter} used again");
                        keys[k].c = (counter + 1).to_be_bytes().to_vec();
                        cx.hit("password");
                    } else { cx.hit("password for given counter"); }
                }
            }
            Op::Verify(i, off, how) => {
                let i = *i as usize;
                let Some(a) = act[i].clone() else { continue };
                if a.sign { continue; }
                act[i] = None;
                let Some(k) = keys.iter().position(|m| m.at == a.key) else { p.cancel(ss[i], CKF_VERIFY); continue };
                let counter = match &a.given { Some(g) => u64::from_be_bytes(g.as_slice().try_into().unwrap()), None => match keys[k].count() { Some(c) => c, None => { p.cancel(ss[i], CKF_VERIFY); continue } } };
                let try_ = counter.wrapping_add_signed(*off as i64);
                let Some(o) = keys[k].otp(try_) else { continue };
                let mut b = o.into_bytes();
                match how { 0 => { b.pop(); } 1 => b.push(b'0'), 2 => { let l = b.len(); b[l - 1] = b'0' + (b[l - 1] - b'0' + 1) % 10; } 3 => b[0] ^= 0x80, _ => {} }
                // what matches in the window
                let hit: Vec<u64> = (0..5).filter_map(|j| counter.checked_add(j)).filter(|x| keys[k].otp(*x).unwrap().as_bytes() == b).collect();
                let rv = if how & 4 != 0 { let rv = p.verify_final(ss[i], &b); rv } else { p.verify(ss[i], b"", &b) };
                if rv == CKR_OK {
                    ensure!(!hit.is_empty(), "verified", "{what} on {:?} with {a:?}: {:?} accepted at counter {counter}", keys[k], String::from_utf8_lossy(&b));
                    cx.nt();
                    cx.hit("verified");
                    if a.given.is_none() { ensure!(hit[0] != u64::MAX, "spent-twice", "{what}: the last counter value was accepted: nothing can follow"); keys[k].c = (hit[0] + 1).to_be_bytes().to_vec(); }
                } else {
                    if !hit.is_empty() {
                        let why = hit[0] == u64::MAX || counter > u64::MAX - 5 || (a.given.is_none() && (!keys[k].modifiable || a.start != keys[k].c));
                        ensure!(why, "not-verified", "{what} on {:?} with {a:?}: {:?} at counter {counter}: {}", keys[k], String::from_utf8_lossy(&b), rvname(rv));
                        if a.start != keys[k].c { cx.hit("stale"); }
                    } else { cx.hit("not verified"); }
                }
            }
            Op::SetCounter(k, v) => {
                let Some(k) = pick(*k) else { continue };
                let rv = p.set(ss[0], keys[k].h, &tm! { CKA_OTP_COUNTER => v.to_be_bytes().to_vec() });
                ensure!((rv == CKR_OK) == keys[k].modifiable, "set", "{what} on {:?}: {}", keys[k], rvname(rv));
                if rv == CKR_OK { keys[k].c = v.to_be_bytes().to_vec(); keys[k].spent.clear(); cx.hit("counter set"); }
            }
            Op::BadCounter(k, n) => {
                let Some(k) = pick(*k) else { continue };
                let rv = p.set(ss[0], keys[k].h, &tm! { CKA_OTP_COUNTER => vec![0u8; *n as usize] });
                if rv == CKR_OK { keys[k].c = vec![0; *n as usize]; keys[k].spent.clear(); }
            }
            Op::Cancel(i) => { let i = *i as usize; if act[i].take().is_some() { let rv = p.cancel(ss[i], CKF_SIGN | CKF_VERIFY); ensure!(rv == CKR_OK, "cancel", "{what}: {}", rvname(rv)); } }
            Op::Copy(k, tok) => {
                let Some(k) = pick(*k) else { continue };
                let (rv, h) = p.copy(ss[0], keys[k].h, &tm! { CKA_TOKEN => *tok });
                if rv != CKR_OK { continue; }
                next += 1;
                let m = M { h, token: *tok, spent: BTreeSet::new(), at: next, uid: p.get1(ss[0], h, CKA_UNIQUE_ID).unwrap_or_default(), ..keys[k].clone() };
                keys.push(m);
                cx.hit("copied");
            }
            Op::Destroy(k) => { let Some(k) = pick(*k) else { continue }; let rv = p.destroy(ss[0], keys[k].h); ensure!(rv == CKR_OK, "destroy", "{what}: {}", rvname(rv)); keys.remove(k); }
            Op::Restart | Op::Relogin => {
                if matches!(op, Op::Restart) { t.restart(); } else { p.close_all(t.slot); }
                t.user();
                ss = [t.open(true), t.open(true), t.open(false)];
                act = [None, None, None];
                keys.retain(|m| m.token);
                for m in keys.iter_mut() {
                    let (rv, v) = p.find(ss[0], &tm! { CKA_UNIQUE_ID => m.uid.clone() });
                    ensure!(rv == CKR_OK && v.len() == 1, "lost", "{what}: {m:?} found {v:?}");
                    m.h = v[0];
                }
                cx.hit("restarted");
            }
        }
        for m in &keys {
            let (a, b) = (p.get1(ss[0], m.h, CKA_OTP_COUNTER), p.get_ulong(ss[0], m.h, CKA_OTP_LENGTH));
            ensure!(a.as_ref() == Ok(&m.c) && b == Ok(m.digits as u64), "counter", "{what}: key {m:?} has counter {a:x?} and length {b:?}");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C30", level: "exploration", workers: 8, hang_s: 60,
        rule: "at least one password was produced or accepted and compared with the standard",
        assumptions: &["the hash follows from the length of the key (SHA-1, SHA-256, SHA-512), as the library defines it", "verification looks five counter values ahead, as RFC 4226 recommends", "an operation whose counter was spent by another one since it was started may be refused when it is finished", "setting CKA_OTP_COUNTER is the user's own decision to reuse values"],
        groups: vec![gen_("history", 1500, 40000, cases, run)] }
}
