//! C28: concurrent use.
use crate::crypt::*;
use crate::noise;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::hash::{hotp_with, H};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise { seed: u64, rare: Vec<u8>, points: Vec<(u8, u8, u16, u16)> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open(u8, bool), Close(u8), CloseAll(u8), Info(u8), Tok(u8), Login(u8, bool, u8), Logout(u8), Make { s: u8, token: bool, private: bool, label: u8, fresh_key: bool }, Destroy(u8, u8), Get(u8, u8), Set(u8, u8, u8),
    Find(u8, u8), Hotp(u8), Random(u8), Pin(u8, u8, u8), InitPin(u8, u8), InitToken(u8), Copy(u8, u8, bool, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { nss: Vec<bool>, setup: Vec<Op>, threads: Vec<Vec<Op>>, noise: Noise }

fn noise_() -> BoxedStrategy<Noise> {
    (1u64.., prop::collection::vec(prop_oneof![2 => Just(32u8), 4 => 4u8..9, 2 => 2u8..4], 4), prop::collection::vec((0u8..5, 0u8..4, prop_oneof![0u16..60, 0u16..600, 0u16..4000], 100u16..4000), 0..5))
        .prop_map(|(seed, rare, points)| Noise { seed, rare, points }).boxed()
}
impl Noise {
    fn plan(&self, t: usize) -> noise::Plan {
        let mut points = [(0, 0); 4];
        for (th, i, at, us) in &self.points { if *th as usize == t { points[*i as usize] = (*at as u32 + 1, *us as u32); } }
        noise::Plan { rng: self.seed.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(t as u32 * 13) | 1, rare: self.rare[t % 4], points }
    }
}
/// what a history concentrates on
fn op(focus: u8) -> BoxedStrategy<Op> {
    let b = any::<u8>;
    let sess = prop_oneof![3 => (b(), prop::bool::weighted(0.7)).prop_map(|(s, rw)| Op::Open(s, rw)), 3 => b().prop_map(Op::Close), 1 => b().prop_map(Op::CloseAll), 3 => b().prop_map(Op::Info), 2 => b().prop_map(Op::Tok)];
    let login = prop_oneof![5 => (b(), prop::bool::weighted(0.2), prop_oneof![6 => Just(0u8), 1 => 1u8..3]).prop_map(|(s, so, k)| Op::Login(s, so, k)), 4 => b().prop_map(Op::Logout), 2 => b().prop_map(Op::Info)];
    let make = (b(), any::<bool>(), any::<bool>(), 0u8..4, prop::bool::weighted(0.3)).prop_map(|(s, token, private, label, fresh_key)| Op::Make { s, token, private, label, fresh_key });
    let obj = prop_oneof![4 => make, 2 => (b(), b()).prop_map(|(s, o)| Op::Destroy(s, o)), 3 => (b(), b()).prop_map(|(s, o)| Op::Get(s, o)), 3 => (b(), b(), 0u8..4).prop_map(|(s, o, l)| Op::Set(s, o, l)), 3 => (b(), 0u8..4).prop_map(|(s, l)| Op::Find(s, l)),
        1 => (b(), b(), any::<bool>(), 0u8..4).prop_map(|(s, o, t, l)| Op::Copy(s, o, t, l))];
    let pin = prop_oneof![4 => (b(), 0u8..3, 0u8..3).prop_map(|(s, a, z)| Op::Pin(s, a, z)), 1 => (b(), 0u8..3).prop_map(|(s, z)| Op::InitPin(s, z)), 1 => b().prop_map(Op::InitToken)];
    let other = prop_oneof![3 => b().prop_map(Op::Hotp), 1 => b().prop_map(Op::Random)];
    let w = |f: u8| if focus == f { 8u32 } else { 2 };
    prop_oneof![w(0) => sess, w(1) => login, w(2) => obj, w(3) => other, if focus == 4 { 5 } else { 1 } => pin].boxed()
}
fn histories() -> BoxedStrategy<Case> {
    let setup = prop_oneof![8 => (0u8..2, any::<bool>()).prop_map(|(s, rw)| Op::Open(s, rw)), 2 => Just(Op::Login(0, false, 0)), 1 => Just(Op::Login(1, true, 0)), 4 => op(2)];
    (prop_oneof![4 => Just(vec![false]), 1 => Just(vec![true]), 1 => Just(vec![false, false]), 1 => Just(vec![false, true])], prop::bool::weighted(0.7), prop::collection::vec(setup, 1..7), 0u8..6, 2usize..5).prop_flat_map(|(nss, user, mut setup, focus, nt)| {
        setup.insert(0, Op::Open(0, true));
        if user { setup.insert(1, Op::Login(0, false, 0)); }
        (Just(nss), Just(setup), prop::collection::vec(prop::collection::vec(op(focus), 1..=(18 / nt).min(7)), nt), noise_())
    }).prop_map(|(nss, setup, threads, noise)| Case { nss, setup, threads, noise }).boxed()
}

// ---------------------------------------------------------------- model
const PINS: [&[u8]; 3] = [USER, b"second-pin", b"third-pin-12"];
const LABEL: [&str; 4] = ["c28-a", "c28-b", "c28-c", "c28-d"];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct ObjM { label: u8, token: bool, private: bool, sess: u64 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct SlotM { who: u8, pin: Option<u8>, objs: BTreeMap<u64, ObjM>, sess: BTreeMap<u64, bool>, used: BTreeSet<u64>, nss: bool, hotp: u64, hotp_h: u64 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { slots: Vec<SlotM>, sess: BTreeSet<u64> }
/// a call as it was made
#[derive(Clone, Debug)]
enum Ev {
    Open { slot: usize, rw: bool, rv: Rv, h: u64 }, Close { s: u64, rv: Rv }, CloseAll { slot: usize, rv: Rv }, Info { s: u64, rv: Rv, state: u64 }, Tok { slot: usize, rv: Rv, n: u64, rw: u64 },
    Login { s: u64, so: bool, pin: u8, rv: Rv }, Logout { s: u64, rv: Rv }, Make { s: u64, token: bool, private: bool, label: u8, rv: Rv, h: u64 }, Destroy { s: u64, o: u64, rv: Rv }, Get { s: u64, o: u64, r: Result<Vec<u8>, Rv> },
    Set { s: u64, o: u64, label: u8, rv: Rv }, Find { s: u64, label: u8, rv: Rv, got: Option<BTreeSet<u64>> }, Hotp { s: u64, rv: Rv, code: String }, Pin { s: u64, from: u8, to: u8, rv: Rv }, InitPin { s: u64, to: u8, rv: Rv },
    InitToken { slot: usize, rv: Rv }, Copy { s: u64, o: u64, token: bool, label: u8, rv: Rv, h: u64 }, Nop,
}
#[derive(Clone, Debug)]
struct Event { th: usize, inv: u64, res: u64, ev: Ev }

impl SlotM {
    fn state(&self, rw: bool) -> u64 {
        match (self.who, rw) { (0, false) => CKS_RO_PUBLIC_SESSION, (0, true) => CKS_RW_PUBLIC_SESSION, (1, false) => CKS_RO_USER_FUNCTIONS, (1, true) => CKS_RW_USER_FUNCTIONS, _ => CKS_RW_SO_FUNCTIONS }
    }
    fn sees(&self, o: &ObjM) -> bool { !o.private || self.who == 1 }
    fn logout(&mut self) { self.who = 0; self.objs.retain(|_, o| o.token || !o.private); }
    fn drop_session(&mut self, s: u64) {
        self.sess.remove(&s);
        self.objs.retain(|_, o| o.token || o.sess != s);
        if self.sess.is_empty() { self.logout(); }
    }
    fn fresh(&mut self, h: u64) -> bool { self.used.insert(h) }
}
impl Model {
    fn of(&self, s: u64) -> Option<usize> { self.slots.iter().position(|x| x.sess.contains_key(&s)) }
    /// the state after the call, when the result is one it may have
    fn apply(&self, e: &Ev, hv: &[u8]) -> Option<Model> {
        let mut m = self.clone();
        let same = |ok: bool| if ok { Some(self.clone()) } else { None };
        let refused = |rv: Rv| same(rv != CKR_OK);
        // calls on a session that does not exist are refused
        let on = match e { Ev::Close { s, rv } | Ev::Info { s, rv, .. } | Ev::Login { s, rv, .. } | Ev::Logout { s, rv } | Ev::Make { s, rv, .. } | Ev::Destroy { s, rv, .. } | Ev::Set { s, rv, .. } | Ev::Find { s, rv, .. } | Ev::Hotp { s, rv, .. } | Ev::Pin { s, rv, .. } | Ev::InitPin { s, rv, .. } | Ev::Copy { s, rv, .. } => Some((*s, *rv)),
            Ev::Get { s, r, .. } => Some((*s, r.as_ref().err().copied().unwrap_or(CKR_OK))), _ => None };
        let i = match on { Some((s, rv)) => match self.of(s) { None => return same(rv == CKR_SESSION_HANDLE_INVALID), Some(i) => i }, None => 0 };
        match e {
            Ev::Nop => return same(true),
            Ev::Open { slot, rw, rv, h } => {
                let k = &mut m.slots[*slot];
                if k.who == 2 && !*rw { return refused(*rv); }
                if *rv != CKR_OK || !m.sess.insert(*h) { return None; }
                k.sess.insert(*h, *rw);
            }
            Ev::Close { s, rv } => { if *rv != CKR_OK { return None; } m.slots[i].drop_session(*s); }
            Ev::CloseAll { slot, rv } => { if *rv != CKR_OK { return None; } let k = &mut m.slots[*slot]; k.sess.clear(); k.objs.retain(|_, o| o.token); k.logout(); }
            Ev::Info { s, rv, state } => return same(*rv == CKR_OK && *state == self.slots[i].state(self.slots[i].sess[s])),
            Ev::Tok { slot, rv, n, rw } => { let k = &self.slots[*slot]; return same(*rv == CKR_OK && *n == k.sess.len() as u64 && *rw == k.sess.values().filter(|x| **x).count() as u64); }
            Ev::Login { so, pin, rv, .. } => {
                let k = &mut m.slots[i];
                // NSS tokens know no security officer
                if *so && k.nss { return refused(*rv); }
                let who = if *so { 2 } else { 1 };
                if k.who == who { return same(*rv == CKR_USER_ALREADY_LOGGED_IN || *so && *rv == CKR_SESSION_READ_ONLY_EXISTS && k.sess.values().any(|x| !*x)); }
                if k.who != 0 { return same(*rv == CKR_USER_ANOTHER_ALREADY_LOGGED_IN || *so && *rv == CKR_SESSION_READ_ONLY_EXISTS && k.sess.values().any(|x| !*x)); }
                if *so && k.sess.values().any(|x| !*x) { return same(*rv == CKR_SESSION_READ_ONLY_EXISTS); }
                if !*so && k.pin.is_none() { return same(*rv == CKR_USER_PIN_NOT_INITIALIZED); }
                if (*so && *pin != 0) || (!*so && k.pin != Some(*pin)) { return same(*rv == CKR_PIN_INCORRECT); }
                if *rv != CKR_OK { return None; }
                k.who = who;
            }
            Ev::Logout { rv, .. } => {
                let k = &mut m.slots[i];
                if k.who == 0 { return same(*rv == CKR_USER_NOT_LOGGED_IN); }
                if *rv != CKR_OK { return None; }
                k.logout();
            }
            Ev::Make { s, token, private, label, rv, h } => {
                let k = &mut m.slots[i];
                if *token && (!k.sess[s] || k.who == 0) || *token && *private && k.who != 1 { return refused(*rv); }
                // what the security officer may store is left open
                if k.who == 2 && *token && *rv != CKR_OK { return same(true); }
                if *rv != CKR_OK || !k.fresh(*h) { return None; }
                k.objs.insert(*h, ObjM { label: *label, token: *token, private: *private, sess: *s });
            }
            Ev::Copy { s, o, token, label, rv, h } => {
                let k = &mut m.slots[i];
                let Some(from) = k.objs.get(o).filter(|x| k.sees(x)).cloned() else { return refused(*rv) };
                if *token && (!k.sess[s] || k.who == 0 || from.private && k.who != 1) { return refused(*rv); }
                if k.who != 1 && (*token || from.token) && *rv != CKR_OK { return same(true); }
                if *rv != CKR_OK || !k.fresh(*h) { return None; }
                k.objs.insert(*h, ObjM { label: *label, token: *token, private: from.private, sess: *s });
            }
            Ev::Destroy { s, o, rv } => {
                let k = &mut m.slots[i];
                let Some(x) = k.objs.get(o) else { return refused(*rv) };
                if !k.sees(x) || x.token && !k.sess[s] { return refused(*rv); }
                if x.token && k.who != 1 && *rv != CKR_OK { return same(true); }
                if *rv != CKR_OK { return None; }
                k.objs.remove(o);
            }
            Ev::Get { o, r, .. } => {
                let k = &self.slots[i];
                match (k.objs.get(o).filter(|x| k.sees(x)), r) { (None, Err(_)) => return same(true), (Some(x), Ok(v)) => return same(v == LABEL[x.label as usize].as_bytes()), _ => return None }
            }
            Ev::Set { s, o, label, rv } => {
                let k = &mut m.slots[i];
                let Some(x) = k.objs.get(o) else { return refused(*rv) };
                if !k.sees(x) || x.token && !k.sess[s] { return refused(*rv); }
                if x.token && k.who != 1 && *rv != CKR_OK { return same(true); }
                if *rv != CKR_OK { return None; }
                k.objs.get_mut(o).unwrap().label = *label;
            }
            Ev::Find { label, rv, got, .. } => {
                if *rv != CKR_OK { return None; }
                let k = &self.slots[i];
                let want: BTreeSet<u64> = k.objs.iter().filter(|(_, x)| x.label == *label && k.sees(x)).map(|(h, _)| *h).collect();
                return same(got.as_ref().is_none_or(|g| *g == want));
            }
            Ev::Hotp { rv, code, .. } => {
                let k = &mut m.slots[i];
                if k.hotp_h == 0 { return refused(*rv); }
                // refused when the counter moved since the operation was started
                if *rv != CKR_OK { return same(true); }
                if *code != hotp_with(H::Sha1, hv, k.hotp, 6) { return None; }
                k.hotp += 1;
            }
            Ev::Pin { s, from, to, rv } => {
                let k = &mut m.slots[i];
                if !k.sess[s] { return refused(*rv); }
                // the security officer changes the own PIN
                if k.who == 2 { if *from != 0 || *rv != CKR_OK { return refused(*rv); } return None; }
                if k.pin != Some(*from) { return refused(*rv); }
                if *rv != CKR_OK { return None; }
                k.pin = Some(*to);
                if k.who == 0 { k.logout(); }
            }
            Ev::InitPin { to, rv, .. } => {
                let k = &mut m.slots[i];
                if k.who != 2 { return same(*rv == CKR_USER_NOT_LOGGED_IN); }
                if *rv != CKR_OK { return same(k.nss); }
                k.pin = Some(*to);
            }
            Ev::InitToken { slot, rv } => {
                let k = &mut m.slots[*slot];
                if !k.sess.is_empty() { return same(*rv == CKR_SESSION_EXISTS); }
                if *rv != CKR_OK { return same(k.nss); }
                k.objs.clear(); k.used.clear(); k.pin = None; k.who = 0; k.hotp_h = 0;
            }
        }
        Some(m)
    }
}
/// a serial order that explains the events; when there is none, the longest explained prefix
fn serial(m: &Model, ths: &[Vec<&Event>], hv: &[u8]) -> Result<Model, (usize, Vec<usize>)> {
    fn go(m: &Model, pos: &mut Vec<usize>, ths: &[Vec<&Event>], seen: &mut HashSet<u64>, best: &mut (usize, Vec<usize>), hv: &[u8]) -> Option<Model> {
        let n: usize = pos.iter().sum();
        if n >= best.0 { *best = (n, pos.clone()); }
        if pos.iter().zip(ths).all(|(p, t)| *p == t.len()) { return Some(m.clone()); }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        pos.hash(&mut h); m.hash(&mut h);
        if !seen.insert(h.finish()) { return None; }
        let first = pos.iter().zip(ths).filter_map(|(p, t)| t.get(*p)).map(|e| e.res).min().unwrap();
        for t in 0..ths.len() {
            let Some(e) = ths[t].get(pos[t]) else { continue };
            if e.inv > first { continue; }
            if let Some(m2) = m.apply(&e.ev, hv) {
                pos[t] += 1;
                if let Some(r) = go(&m2, pos, ths, seen, best, hv) { return Some(r); }
                pos[t] -= 1;
            }
        }
        None
    }
    let mut best = (0, vec![]);
    go(m, &mut vec![0; ths.len()], ths, &mut HashSet::new(), &mut best, hv).ok_or(best)
}

// ---------------------------------------------------------------- execution
struct Sh { p: P, ids: Vec<u64>, hotp: Vec<u64>, nss: Vec<bool>, clock: AtomicU64, /// sessions: slot, handle, thread
    sess: Mutex<Vec<(usize, u64, usize)>>, objs: Mutex<Vec<(usize, u64)>>, rnd: Mutex<Vec<Vec<u8>>>, pins: AtomicU64 }
unsafe impl Send for Sh {}
unsafe impl Sync for Sh {}
fn tmpl(nss: bool, token: bool, private: bool, label: u8, fresh_key: bool) -> Tmpl {
    if fresh_key { return tm! { CKA_TOKEN => token, CKA_PRIVATE => private, CKA_LABEL => LABEL[label as usize], CKA_VALUE_LEN => 16u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_ENCRYPT => true }; }
    if nss { return tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => token, CKA_PRIVATE => private, CKA_LABEL => LABEL[label as usize], CKA_VALUE => vec![7u8; 16], CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_ENCRYPT => true }; }
    tm! { CKA_CLASS => CKO_DATA, CKA_TOKEN => token, CKA_PRIVATE => private, CKA_LABEL => LABEL[label as usize], CKA_VALUE => vec![7u8; 9] }
}
impl Sh {
    fn now(&self) -> u64 { self.clock.fetch_add(1, Ordering::SeqCst) }
    /// any session; mostly one of the thread
    fn any(&self, th: usize, i: u8) -> u64 {
        let t = self.sess.lock().unwrap();
        if t.is_empty() { return 0; }
        if i % 4 != 0 { drop(t); return self.own(th, i); }
        t[i as usize / 4 % t.len()].1
    }
    fn own(&self, th: usize, i: u8) -> u64 {
        let t = self.sess.lock().unwrap();
        let v: Vec<u64> = t.iter().filter(|x| x.2 == th).map(|x| x.1).collect();
        if v.is_empty() { return 0; }
        v[i as usize % v.len()]
    }
    fn slot_of(&self, s: u64) -> usize { self.sess.lock().unwrap().iter().find(|x| x.1 == s).map(|x| x.0).unwrap_or(0) }
    fn obj(&self, slot: usize, i: u8) -> u64 {
        let t = self.objs.lock().unwrap();
        let v: Vec<u64> = t.iter().filter(|x| x.0 == slot).map(|x| x.1).collect();
        if v.is_empty() { return 0x7fff_0000; }
        v[i as usize % v.len()]
    }
    fn slot(&self, i: u8) -> usize { i as usize % self.ids.len() }
    fn exec(&self, th: usize, op: &Op) -> Event {
        let p = &self.p;
        let t = |inv: u64, ev: Ev| Event { th, inv, res: self.now(), ev };
        match op {
            Op::Open(i, rw) => { let slot = self.slot(*i); let inv = self.now(); let (rv, h) = p.open(self.ids[slot], *rw); let e = t(inv, Ev::Open { slot, rw: *rw, rv, h }); if rv == CKR_OK { self.sess.lock().unwrap().push((slot, h, th)); } e }
            Op::Close(i) => { let s = self.any(th, *i); let inv = self.now(); let rv = p.close(s); t(inv, Ev::Close { s, rv }) }
            Op::CloseAll(i) => { let slot = self.slot(*i); let inv = self.now(); let rv = p.close_all(self.ids[slot]); t(inv, Ev::CloseAll { slot, rv }) }
            Op::Info(i) => { let s = self.any(th, *i); let inv = self.now(); let (rv, x) = p.sess_info(s); t(inv, Ev::Info { s, rv, state: x.state }) }
            Op::Tok(i) => { let slot = self.slot(*i); let inv = self.now(); let (rv, x) = p.token_info(self.ids[slot]); t(inv, Ev::Tok { slot, rv, n: x.ulSessionCount, rw: x.ulRwSessionCount }) }
            Op::Login(i, so, k) => {
                let s = self.any(th, *i);
                // few enough that nothing is ever locked
                if self.pins.fetch_add(1, Ordering::SeqCst) >= 8 { return Event { th, inv: self.now(), res: self.now(), ev: Ev::Nop }; }
                let pin: &[u8] = if *so { if *k == 0 { SO } else { b"not-the-so-pin" } } else { PINS[*k as usize] };
                let inv = self.now();
                let rv = p.login(s, if *so { CKU_SO } else { CKU_USER } as u64, pin);
                t(inv, Ev::Login { s, so: *so, pin: *k, rv })
            }
            Op::Logout(i) => { let s = self.any(th, *i); let inv = self.now(); let rv = p.logout(s); t(inv, Ev::Logout { s, rv }) }
            Op::Make { s, token, private, label, fresh_key } => {
                let s = self.any(th, *s);
                let slot = self.slot_of(s);
                // private session objects without a login are not judged
                let private = *private && *token;
                let tm = tmpl(self.nss[slot], *token, private, *label, *fresh_key);
                let inv = self.now();
                let (rv, h) = if *fresh_key { p.genkey(s, &Mech::new(CKM_AES_KEY_GEN), &tm) } else { p.create(s, &tm) };
                let e = t(inv, Ev::Make { s, token: *token, private, label: *label, rv, h });
                if rv == CKR_OK { self.objs.lock().unwrap().push((slot, h)); }
                e
            }
            Op::Copy(s, o, token, label) => {
                let s = self.any(th, *s);
                let slot = self.slot_of(s);
                let o = self.obj(slot, *o);
                let inv = self.now();
                let (rv, h) = p.copy(s, o, &tm! { CKA_TOKEN => *token, CKA_LABEL => LABEL[*label as usize] });
                let e = t(inv, Ev::Copy { s, o, token: *token, label: *label, rv, h });
                if rv == CKR_OK { self.objs.lock().unwrap().push((slot, h)); }
                e
            }
            Op::Destroy(s, o) => { let s = self.any(th, *s); let o = self.obj(self.slot_of(s), *o); let inv = self.now(); let rv = p.destroy(s, o); t(inv, Ev::Destroy { s, o, rv }) }
            Op::Get(s, o) => { let s = self.any(th, *s); let o = self.obj(self.slot_of(s), *o); let inv = self.now(); let mut b = [0u8; 64]; let mut a = CK_ATTRIBUTE { type_: CKA_LABEL, pValue: b.as_mut_ptr() as *mut _, ulValueLen: 64 }; let rv = unsafe { p.f.C_GetAttributeValue.unwrap()(s, o, &mut a, 1) }; let r = if rv == CKR_OK { Ok(b[..(a.ulValueLen as usize).min(64)].to_vec()) } else { Err(rv) }; t(inv, Ev::Get { s, o, r }) }
            Op::Set(s, o, label) => { let s = self.any(th, *s); let o = self.obj(self.slot_of(s), *o); let inv = self.now(); let rv = p.set(s, o, &tm! { CKA_LABEL => LABEL[*label as usize] }); t(inv, Ev::Set { s, o, label: *label, rv }) }
            Op::Find(s, label) => {
                let s = self.own(th, *s);
                let inv = self.now();
                let rv = p.find_init(s, &tm! { CKA_LABEL => LABEL[*label as usize] });
                let mut e = t(inv, Ev::Nop);
                let mut got = BTreeSet::new();
                let mut whole = rv == CKR_OK;
                while whole { let (rv, v) = p.find_next(s, 3); if rv != CKR_OK { whole = false; break; } if v.is_empty() { break; } got.extend(v); }
                if rv == CKR_OK { p.find_final(s); }
                e.ev = Ev::Find { s, label: *label, rv, got: if whole { Some(got) } else { None } };
                e
            }
            Op::Hotp(s) => {
                let s = self.own(th, *s);
                let slot = self.slot_of(s);
                if self.hotp[slot] == 0 { return Event { th, inv: self.now(), res: self.now(), ev: Ev::Nop }; }
                let m = Mech::new(CKM_HOTP);
                let rv = p.sign_init(s, &m, self.hotp[slot]);
                if rv != CKR_OK { return Event { th, inv: self.now(), res: self.now(), ev: Ev::Nop }; }
                let mut buf = [0u64; 64];
                let mut len = 512u64;
                let inv = self.now();
                let rv = unsafe { p.f.C_Sign.unwrap()(s, buf.as_ptr() as *mut u8, 0, buf.as_mut_ptr() as *mut u8, &mut len) };
                let mut e = t(inv, Ev::Nop);
                let mut code = String::new();
                if rv == CKR_OK {
                    let si = unsafe { &*(buf.as_ptr() as *const CK_OTP_SIGNATURE_INFO) };
                    for i in 0..si.ulCount as usize { let x = unsafe { &*si.pParams.add(i) }; if x.type_ == CK_OTP_VALUE { code = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(x.pValue as *const u8, x.ulValueLen as usize) }).to_string(); } }
                }
                e.ev = Ev::Hotp { s, rv, code };
                e
            }
            Op::Random(s) => { let s = self.any(th, *s); let (rv, b) = p.random(s, 16); if rv == CKR_OK { self.rnd.lock().unwrap().push(b); } Event { th, inv: self.now(), res: self.now(), ev: Ev::Nop } }
            Op::Pin(s, from, to) => {
                let s = self.any(th, *s);
                if self.pins.fetch_add(1, Ordering::SeqCst) >= 8 { return Event { th, inv: self.now(), res: self.now(), ev: Ev::Nop }; }
                let inv = self.now();
                let rv = p.set_pin(s, PINS[*from as usize], PINS[*to as usize]);
                t(inv, Ev::Pin { s, from: *from, to: *to, rv })
            }
            Op::InitPin(s, to) => { let s = self.any(th, *s); let inv = self.now(); let rv = p.init_pin(s, PINS[*to as usize]); t(inv, Ev::InitPin { s, to: *to, rv }) }
            Op::InitToken(i) => { let slot = self.slot(*i); let inv = self.now(); let rv = p.init_token(self.ids[slot], SO, "c28"); t(inv, Ev::InitToken { slot, rv }) }
        }
    }
}
fn show(ev: &[&Event]) -> String { let mut v: Vec<&&Event> = ev.iter().collect(); v.sort_by_key(|e| e.inv); v.iter().map(|e| format!("[{}] {}-{} {}", e.th, e.inv, e.res, text(&e.ev))).collect::<Vec<_>>().join("; ") }
fn text(e: &Ev) -> String { let s = format!("{e:?}"); let mut o = s.clone(); if let Some(i) = s.find("rv: ") { let n: String = s[i + 4..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(x) = n.parse::<u64>() { o = s.replacen(&format!("rv: {n}"), &rvname(x), 1); } } o }

fn history(c: &Case, cx: &mut Cx) -> R {
    for round in 0..2 { round_(c, cx, round)?; }
    Ok(())
}
fn round_(c: &Case, cx: &mut Cx, round: u64) -> R {
    let dbs: Vec<(u64, Db)> = c.nss.iter().enumerate().map(|(i, n)| (i as u64 + 1, if *n { Db::Nss } else { Db::Sqlite })).collect();
    let toks = cx.tok.several(&dbs, "");
    let p = toks[0].p;
    let hv = [0x31u8; 20];
    let nt = c.threads.len();
    let ids: Vec<u64> = dbs.iter().map(|x| x.0).collect();
    // a one-time password key on every token that can have one
    let mut hotp = vec![0; ids.len()];
    let mut slots: Vec<SlotM> = c.nss.iter().map(|n| SlotM { who: 0, pin: Some(0), objs: BTreeMap::new(), sess: BTreeMap::new(), used: BTreeSet::new(), nss: *n, hotp: 5, hotp_h: 0 }).collect();
    for i in 0..ids.len() {
        if c.nss[i] { continue; }
        let (rv, s) = p.open(ids[i], true);
        if rv != CKR_OK || p.login(s, CKU_USER as u64, USER) != CKR_OK { panic!("setup"); }
        hotp[i] = must(&p, s, &tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_TOKEN => true, CKA_PRIVATE => false, CKA_VALUE => hv.to_vec(), CKA_OTP_LENGTH => 6u64, CKA_OTP_COUNTER => 5u64.to_be_bytes().to_vec() }, "hotp key");
        slots[i].used.insert(hotp[i]);
        slots[i].hotp_h = hotp[i];
        p.close(s);
    }
    let mut model = Model { slots, sess: BTreeSet::new() };
    let sh = Sh { p, ids: ids.clone(), hotp, nss: c.nss.clone(), clock: AtomicU64::new(1), sess: Mutex::new(vec![]), objs: Mutex::new(vec![]), rnd: Mutex::new(vec![]), pins: AtomicU64::new(0) };
    let mut all: Vec<Event> = vec![];
    for (i, o) in c.setup.iter().enumerate() { if matches!(o, Op::CloseAll(_) | Op::InitToken(_)) { continue; } let e = sh.exec(i % nt, o); all.push(e); }
    // the setup must be as a single thread would see it
    for (i, e) in all.iter().enumerate() {
        match model.apply(&e.ev, &hv) { Some(m) => model = m, None => return viol("setup", format!("single threaded: {}", show(&all[..=i].iter().collect::<Vec<_>>()))) }
    }
    let start = sh.clock.load(Ordering::SeqCst);
    let bar = Barrier::new(nt);
    let ths: Vec<Vec<Event>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c.threads.iter().enumerate().map(|(t, ops)| {
            let (sh, bar) = (&sh, &bar);
            let mut plan = c.noise.plan(t);
            plan.rng = plan.rng.wrapping_add(round * 0x1234567) | 1;
            sc.spawn(move || {
                bar.wait();
                noise::on(plan);
                let v: Vec<Event> = ops.iter().map(|o| sh.exec(t, o)).collect();
                noise::off();
                v
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    // what is left, as one thread sees it
    let mut tail: Vec<Event> = vec![];
    for i in 0..ids.len() { tail.push(sh.exec(nt, &Op::Tok(i as u8))); }
    let all_s: Vec<u64> = sh.sess.lock().unwrap().iter().map(|x| x.1).collect();
    for s in all_s { let inv = sh.now(); let (rv, x) = p.sess_info(s); tail.push(Event { th: nt, inv, res: sh.now(), ev: Ev::Info { s, rv, state: x.state } }); }
    for i in 0..ids.len() {
        let e = sh.exec(nt, &Op::Open(i as u8, true));
        let Ev::Open { h, rv, .. } = e.ev else { unreachable!() };
        tail.push(e);
        if rv != CKR_OK { continue; }
        for l in 0..4u8 { let inv = sh.now(); let (rv, v) = p.find(h, &tm! { CKA_LABEL => LABEL[l as usize] }); tail.push(Event { th: nt, inv, res: sh.now(), ev: Ev::Find { s: h, label: l, rv, got: Some(v.into_iter().collect()) } }); }
        let objs: Vec<u64> = sh.objs.lock().unwrap().iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        for o in objs { let inv = sh.now(); let r = p.get1(h, o, CKA_LABEL); tail.push(Event { th: nt, inv, res: sh.now(), ev: Ev::Get { s: h, o, r } }); }
    }
    let mut lists: Vec<Vec<&Event>> = ths.iter().map(|v| v.iter().collect()).collect();
    lists.push(tail.iter().collect());
    let overlap = lists[..nt].iter().flatten().filter(|e| lists[..nt].iter().flatten().any(|f| f.th != e.th && f.inv < e.res && e.inv < f.res)).count();
    let end = match serial(&model, &lists, &hv) {
        Ok(m) => m,
        Err((n, pos)) => {
            let next: Vec<&Event> = pos.iter().zip(&lists).filter_map(|(p, t)| t.get(*p)).copied().collect();
            return viol("not-serial", format!("no serial order explains the calls (thread, start-end, call): setup {}; calls from {start}: {}; at most {n} calls can be explained, not then {}", show(&all.iter().collect::<Vec<_>>()), show(&lists.concat()), show(&next)));
        }
    };
    { let r = sh.rnd.lock().unwrap(); let u: HashSet<&Vec<u8>> = r.iter().collect(); ensure!(u.len() == r.len(), "random", "the same random bytes were given twice: {r:02x?}"); }
    // and what is stored
    let rv = toks[0].restart();
    ensure!(rv == CKR_OK, "restart", "{}", rvname(rv));
    for i in 0..ids.len() {
        let (rv, s) = p.open(ids[i], true);
        ensure!(rv == CKR_OK, "restart", "open {}", rvname(rv));
        let k = &end.slots[i];
        if let Some(pin) = k.pin { let rv = p.login(s, CKU_USER as u64, PINS[pin as usize]); ensure!(rv == CKR_OK, "stored-pin", "after the restart the PIN {} gives {}: {}", pin, rvname(rv), show(&lists.concat())); }
        for l in 0..4u8 {
            let want = k.objs.values().filter(|o| o.token && o.label == l && (k.pin.is_some() || !o.private)).count();
            let (rv, v) = p.find(s, &tm! { CKA_LABEL => LABEL[l as usize] });
            ensure!(rv == CKR_OK && v.len() == want, "stored-objects", "after the restart {} {} objects with label {l} instead of {want}: setup {}; {}", rvname(rv), v.len(), show(&all.iter().collect::<Vec<_>>()), show(&lists.concat()));
        }
        if k.hotp_h != 0 {
            let (_, v) = p.find(s, &tm! { CKA_CLASS => CKO_OTP_KEY });
            let c = v.first().map(|o| p.get1(s, *o, CKA_OTP_COUNTER));
            ensure!(c == Some(Ok(k.hotp.to_be_bytes().to_vec())), "stored-counter", "after the restart the counter is {c:?} instead of {}: {}", k.hotp, show(&lists.concat()));
        }
    }
    for e in ths.iter().flatten() { let s = format!("{:?}", e.ev); cx.hit(&format!("{}{}", s.split([' ', '{']).next().unwrap(), if s.contains("rv: 0") || s.contains("Ok(") { " ok" } else { "" })); }
    cx.hitn("overlapping calls", overlap as u64);
    if overlap > 1 { cx.nt(); }
    Ok(())
}

// ---------------------------------------------------------------- independent threads
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step { Task(Task), /// objects of the thread: create, change, search, destroy
    Objs { token: bool, private: bool, n: u8 }, Shared(u8, Hx), Gen(u8), Pause }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pest { Tok, Mechs, Sess, Random, Find, Pin, Login, Objs, State }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Alone { nss: bool, threads: Vec<Vec<Step>>, pests: Vec<Vec<Pest>>, noise: Noise }
fn alones() -> BoxedStrategy<Alone> {
    let step = prop_oneof![5 => task(false).prop_map(Step::Task), 2 => task(true).prop_map(Step::Task), 4 => (any::<bool>(), any::<bool>(), 1u8..4).prop_map(|(token, private, n)| Step::Objs { token, private, n }), 3 => (0u8..4, hx(40)).prop_map(|(k, d)| Step::Shared(k, d)), 1 => any::<u8>().prop_map(Step::Gen)];
    let pest = prop_oneof![Just(Pest::Tok), Just(Pest::Mechs), Just(Pest::Sess), Just(Pest::Random), Just(Pest::Find), Just(Pest::Pin), Just(Pest::Login), Just(Pest::Objs), Just(Pest::State)];
    (prop::bool::weighted(0.2), prop::collection::vec(prop::collection::vec(step, 1..8), 2..5), prop::collection::vec(prop::collection::vec(pest, 1..6), 0..3), noise_()).prop_map(|(nss, threads, pests, noise)| Alone { nss, threads, pests, noise }).boxed()
}
struct Keys { aes: u64, hmac: u64, ecp: u64, ecv: u64 }
struct Px(P);
unsafe impl Send for Px {}
unsafe impl Sync for Px {}
fn steps(th: usize, p: &P, slot: u64, steps: &[Step], nss: bool, ks: &Keys, cx: &mut Cx, made: &Mutex<Vec<Vec<u8>>>, left: &Mutex<BTreeMap<String, usize>>) -> R {
    let (rv, s) = p.open(slot, true);
    ensure!(rv == CKR_OK, "open", "{}", rvname(rv));
    for (n, st) in steps.iter().enumerate() {
        match st {
            Step::Task(t) => {
                let mut r = Run::new(p, s, t);
                while !r.done { r.step(cx)?; }
                r.verdict(cx)?;
            }
            Step::Objs { token, private, n: k } => {
                let label = format!("own-{th}-{n}");
                let mut hs = vec![];
                for i in 0..*k {
                    let mut t = tmpl(nss, *token, *private, 0, false);
                    tset(&mut t, CKA_LABEL, label.as_str());
                    tset(&mut t, CKA_VALUE, vec![th as u8 * 16 + i; 16]);
                    let (rv, h) = p.create(s, &t);
                    ensure!(rv == CKR_OK, "create", "thread {th} step {n}: {}", rvname(rv));
                    hs.push(h);
                }
                let (rv, v) = p.find(s, &tm! { CKA_LABEL => label.as_str() });
                ensure!(rv == CKR_OK && v.iter().collect::<BTreeSet<_>>() == hs.iter().collect(), "search", "thread {th} step {n}: {} {v:?} instead of {hs:?}", rvname(rv));
                for (i, h) in hs.iter().enumerate() { let r = p.get1(s, *h, CKA_VALUE); ensure!(r == Ok(vec![th as u8 * 16 + i as u8; 16]), "value", "thread {th} step {n}: {r:?}"); }
                let nl = format!("{label}-new");
                let rv = p.set(s, hs[0], &tm! { CKA_LABEL => nl.as_str() });
                ensure!(rv == CKR_OK, "set", "thread {th} step {n}: {}", rvname(rv));
                let r = p.get1(s, hs[0], CKA_LABEL);
                ensure!(r == Ok(nl.as_bytes().to_vec()), "set", "thread {th} step {n}: {r:?}");
                let last = *hs.last().unwrap();
                if hs.len() > 1 {
                    let rv = p.destroy(s, last);
                    ensure!(rv == CKR_OK, "destroy", "thread {th} step {n}: {}", rvname(rv));
                    let r = p.get1(s, last, CKA_LABEL);
                    ensure!(r.is_err(), "destroy", "thread {th} step {n}: the destroyed object is still there");
                }
                if *token { let mut l = left.lock().unwrap(); l.insert(nl, 1); l.insert(label, hs.len().saturating_sub(2)); }
            }
            Step::Shared(k, d) => {
                match k % 3 {
                    0 => { let r = p.sig(s, &Mech::new(CKM_SHA256_HMAC), ks.hmac, d); ensure!(r == Ok(refc::hash::hmac(H::Sha256, &[0x42; 32], d)), "shared-key", "thread {th} step {n}: {r:02x?}"); }
                    1 => {
                        let m = Mech::bytes(CKM_AES_CBC_PAD, &[9; 16]);
                        let r = p.enc(s, &m, ks.aes, d);
                        let Ok(c) = r else { return viol("shared-key", format!("thread {th} step {n}: encryption {r:?}")) };
                        let r = p.dec(s, &m, ks.aes, &c);
                        ensure!(r == Ok(d.0.clone()), "shared-key", "thread {th} step {n}: {r:02x?}");
                    }
                    _ => {
                        let m = Mech::new(CKM_ECDSA_SHA256);
                        let r = p.sig(s, &m, ks.ecp, d);
                        let Ok(c) = r else { return viol("shared-key", format!("thread {th} step {n}: signature {r:?}")) };
                        let rv = p.ver(s, &m, ks.ecv, d, &c);
                        ensure!(rv == CKR_OK, "shared-key", "thread {th} step {n}: {}", rvname(rv));
                    }
                }
            }
            Step::Gen(_) => {
                let (rv, h) = p.genkey(s, &Mech::new(CKM_AES_KEY_GEN), &tm! { CKA_VALUE_LEN => 16u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
                ensure!(rv == CKR_OK, "generate", "{}", rvname(rv));
                let r = p.get1(s, h, CKA_VALUE);
                let Ok(v) = r else { return viol("generate", format!("{r:?}")) };
                made.lock().unwrap().push(v);
                let (rv, b) = p.random(s, 16);
                ensure!(rv == CKR_OK, "random", "{}", rvname(rv));
                made.lock().unwrap().push(b);
            }
            Step::Pause => (),
        }
    }
    let rv = p.close(s);
    ensure!(rv == CKR_OK, "close", "{}", rvname(rv));
    Ok(())
}
fn pests(p: &P, slot: u64, v: &[Pest], pin: bool, made: &Mutex<Vec<Vec<u8>>>) -> R {
    let (rv, s) = p.open(slot, true);
    ensure!(rv == CKR_OK, "open", "{}", rvname(rv));
    for x in v.iter().cycle().take(v.len() * 2) {
        match x {
            Pest::Tok => { let (rv, ti) = p.token_info(slot); ensure!(rv == CKR_OK && ti.ulSessionCount >= 2, "token-info", "{} {}", rvname(rv), { ti.ulSessionCount }); let (rv, _) = p.slot_info(slot); ensure!(rv == CKR_OK, "slot-info", "{}", rvname(rv)); }
            Pest::Mechs => { let (rv, l) = p.mech_list(slot); ensure!(rv == CKR_OK && l.len() > 50, "mechanisms", "{}", rvname(rv)); }
            Pest::Sess => { let (rv, h) = p.open(slot, false); ensure!(rv == CKR_OK, "open", "{}", rvname(rv)); let (rv, i) = p.sess_info(h); ensure!(rv == CKR_OK && i.state == CKS_RO_USER_FUNCTIONS, "session", "{} {}", rvname(rv), { i.state }); let rv = p.close(h); ensure!(rv == CKR_OK, "close", "{}", rvname(rv)); }
            Pest::Random => { let (rv, b) = p.random(s, 16); ensure!(rv == CKR_OK, "random", "{}", rvname(rv)); made.lock().unwrap().push(b); p.seed(s, b"seed"); }
            Pest::Find => { let (rv, _) = p.find(s, &tm! { CKA_CLASS => CKO_DATA }); ensure!(rv == CKR_OK, "search", "{}", rvname(rv)); }
            Pest::Pin => if pin { let rv = p.set_pin(s, USER, PINS[1]); ensure!(rv == CKR_OK, "pin", "{}", rvname(rv)); let rv = p.set_pin(s, PINS[1], USER); ensure!(rv == CKR_OK, "pin", "{}", rvname(rv)); }
            Pest::Login => { let rv = p.login(s, CKU_USER as u64, USER); ensure!(rv == CKR_USER_ALREADY_LOGGED_IN, "login", "{}", rvname(rv)); }
            Pest::Objs => { let (rv, h) = p.create(s, &tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => vec![1u8] }); ensure!(rv == CKR_OK, "create", "{}", rvname(rv)); let rv = p.destroy(s, h); ensure!(rv == CKR_OK, "destroy", "{}", rvname(rv)); }
            Pest::State => { let mut n = 0u64; let _ = unsafe { p.f.C_GetOperationState.unwrap()(s, std::ptr::null_mut(), &mut n) }; }
        }
    }
    let rv = p.close(s);
    ensure!(rv == CKR_OK, "close", "{}", rvname(rv));
    Ok(())
}
fn alone(c: &Alone, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = t.p;
    let keeper = t.user();
    let ec = test_ec();
    let mut et = ec_priv_tmpl(&ec.0, &ec.1);
    tset(&mut et, CKA_TOKEN, false);
    let ks = Keys {
        aes: must(&p, keeper, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => true, CKA_VALUE => vec![0x11u8; 16], CKA_ENCRYPT => true, CKA_DECRYPT => true }, "aes"),
        hmac: must(&p, keeper, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_TOKEN => true, CKA_VALUE => vec![0x42u8; 32], CKA_SIGN => true }, "hmac"),
        ecp: must(&p, keeper, &et, "ec"), ecv: ec_pub(&p, keeper, &ec.0, &ec.2),
    };
    let made = Mutex::new(vec![]);
    let left = Mutex::new(BTreeMap::new());
    let n = c.threads.len();
    let bar = Barrier::new(n + c.pests.len());
    let px = Px(p);
    let rs: Vec<(R, BTreeMap<String, u64>)> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, st) in c.threads.iter().enumerate() {
            let (px, ks, made, left, bar, slot) = (&px, &ks, &made, &left, &bar, t.slot);
            let plan = c.noise.plan(i);
            let mut own = cx.light(&format!("t{i}"));
            hs.push(sc.spawn(move || { let px = px; bar.wait(); noise::on(plan); let r = steps(i, &px.0, slot, st, c.nss, ks, &mut own, made, left); noise::off(); (r, own.hits) }));
        }
        for (i, v) in c.pests.iter().enumerate() {
            let (px, made, bar, slot) = (&px, &made, &bar, t.slot);
            let plan = c.noise.plan(n + i);
            hs.push(sc.spawn(move || { let px = px; bar.wait(); noise::on(plan); let r = pests(&px.0, slot, v, i == 0, made); noise::off(); (r, BTreeMap::new()) }));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for (r, h) in rs { r?; for (k, v) in h { cx.hitn(&k, v); } }
    { let r = made.lock().unwrap(); let u: HashSet<&Vec<u8>> = r.iter().collect(); ensure!(u.len() == r.len(), "random", "the same random bytes or keys were made twice: {r:02x?}"); }
    let (rv, ti) = p.token_info(t.slot);
    ensure!(rv == CKR_OK && ti.ulSessionCount == 1, "sessions", "{} sessions are left", { ti.ulSessionCount });
    let check = |s: u64, what: &str| -> R {
        for (l, n) in left.lock().unwrap().iter() { let (rv, v) = p.find(s, &tm! { CKA_LABEL => l.as_str() }); ensure!(rv == CKR_OK && v.len() == *n, "left", "{what}: {} {} objects {l} instead of {n}", rvname(rv), v.len()); }
        Ok(())
    };
    check(keeper, "at the end")?;
    let rv = t.restart();
    ensure!(rv == CKR_OK, "restart", "{}", rvname(rv));
    let s = t.user();
    check(s, "after the restart")?;
    cx.nt();
    Ok(())
}

// ---------------------------------------------------------------- starting and ending
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Starts { n: u8, rounds: u8, readers: u8, noise: Noise }
fn starts_() -> BoxedStrategy<Starts> { (2u8..6, 1u8..4, 0u8..3, noise_()).prop_map(|(n, rounds, readers, noise)| Starts { n, rounds, readers, noise }).boxed() }
fn starts(c: &Starts, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Sqlite);
    let p = t.p;
    let s = t.user();
    must(&p, s, &tm! { CKA_CLASS => CKO_DATA, CKA_TOKEN => true, CKA_LABEL => "kept", CKA_VALUE => vec![1u8] }, "data");
    p.finalize();
    let px = Px(p);
    for _ in 0..c.rounds {
        for end in [false, true] {
            let bar = Barrier::new(c.n as usize + c.readers as usize);
            let (rvs, seen): (Vec<Rv>, Vec<(Rv, Vec<u64>)>) = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..c.n as usize).map(|i| { let (px, bar, conf) = (&px, &bar, t.conf.clone()); let plan = c.noise.plan(i); sc.spawn(move || { let px = px; bar.wait(); noise::on(plan); let r = if end { px.0.finalize() } else { px.0.initialize(Some(&conf)) }; noise::off(); r }) }).collect();
                let rs: Vec<_> = (0..c.readers as usize).map(|i| { let (px, bar) = (&px, &bar); let plan = c.noise.plan(i + 2); sc.spawn(move || { let px = px; bar.wait(); noise::on(plan); let r = px.0.slots(true); noise::off(); r }) }).collect();
                (hs.into_iter().map(|h| h.join().unwrap()).collect(), rs.into_iter().map(|h| h.join().unwrap()).collect())
            });
            let other = if end { CKR_CRYPTOKI_NOT_INITIALIZED } else { CKR_CRYPTOKI_ALREADY_INITIALIZED };
            ensure!(rvs.iter().filter(|r| **r == CKR_OK).count() == 1 && rvs.iter().all(|r| *r == CKR_OK || *r == other), "starts", "{} by {} threads at once: {:?}", if end { "C_Finalize" } else { "C_Initialize" }, c.n, rvs.iter().map(|r| rvname(*r)).collect::<Vec<_>>());
            for (rv, v) in seen { ensure!(rv == CKR_CRYPTOKI_NOT_INITIALIZED || rv == CKR_OK && v == [t.slot], "half-way", "C_GetSlotList: {} {v:?}", rvname(rv)); }
            if !end {
                let s = t.user();
                let (rv, v) = p.find(s, &tm! { CKA_LABEL => "kept" });
                ensure!(rv == CKR_OK && v.len() == 1, "kept", "{} {v:?}", rvname(rv));
            }
        }
    }
    let rv = p.initialize(Some(&t.conf));
    ensure!(rv == CKR_OK, "again", "{}", rvname(rv));
    cx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28", level: "exploration", workers: 4, hang_s: 20,
        rule: "histories: 2 to 4 threads with generated calls on shared and own sessions of one or two slots, under generated pauses at allocations inside the calls; non-trivial when calls really overlapped. alone: threads with their own sessions computing, storing and searching while others disturb; starts: several threads initialize and finalize at once",
        assumptions: &["schedules are those the machine takes under the injected pauses; they are sampled, not enumerated", "a call that must fail may fail with any error where the model does not fix one", "what the security officer may store, and what may be changed on the token without a login, is left open", "concurrent C_Finalize with other calls is not judged beyond C_GetSlotList"],
        groups: vec![gen_("histories", 2000, 40000, histories, history), gen_("alone", 500, 10000, alones, alone), gen_("starts", 200, 3000, starts_, starts)],
    }
}
