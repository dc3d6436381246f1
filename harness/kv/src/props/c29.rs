//! C29: what happens in one slot is of no consequence to another.
use crate::objmodel::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step { W(u8, Op), BadPin(u8, bool), OtherPin(u8, u8), Lock(u8, bool), Reinit(u8), Cross(u8, u8, u8, u8), Begin(u8, u8), End(u8), InitPin(u8), Restart, BadSlot(u64, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { slots: Vec<(u64, Db)>, ops: Vec<Step> }
const KINDS29: [Kind; 9] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Trust, Kind::Cert];
const SQ: [Kind; 10] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Trust, Kind::Cert, Kind::Data];

fn cases() -> BoxedStrategy<Case> {
    let u = any::<u8>;
    let world = prop_oneof![
        2 => any::<bool>().prop_map(Op::Open), 2 => u().prop_map(Op::Close),
        8 => (u(), prop_oneof![useful(&KINDS29, 0.6), useful(&SQ, 0.5)]).prop_map(|(s, x)| Op::Make(s, x)),
        2 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        2 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        3 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        2 => (u(), u(), prop::collection::vec(u(), 24)).prop_map(|(s, o, l)| Op::Find(s, o, l)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Use(s, o)),
        1 => (u(), u(), u()).prop_map(|(s, o, k)| Op::Probe(s, o, k)),
        4 => u().prop_map(Op::Logout), 3 => (u(), prop::bool::weighted(0.4)).prop_map(|(s, so)| Op::Login(s, so)),
        2 => Just(Op::CloseAll), 2 => Just(Op::CloseEach), 2 => (u(), u()).prop_map(|(s, k)| Op::Pin(s, k)),
    ];
    let step = prop_oneof![
        20 => (u(), world).prop_map(|(i, o)| Step::W(i, o)),
        2 => (u(), any::<bool>()).prop_map(|(i, so)| Step::BadPin(i, so)), 2 => (u(), u()).prop_map(|(i, j)| Step::OtherPin(i, j)),
        1 => (u(), any::<bool>()).prop_map(|(i, so)| Step::Lock(i, so)), 1 => u().prop_map(Step::Reinit), 1 => u().prop_map(Step::InitPin),
        5 => (u(), u(), u(), u()).prop_map(|(i, j, o, k)| Step::Cross(i, j, o, k)),
        2 => (u(), u()).prop_map(|(i, k)| Step::Begin(i, k)), 2 => u().prop_map(Step::End),
        1 => Just(Step::Restart), 1 => (prop_oneof![any::<u64>(), 0u64..12], u()).prop_map(|(s, k)| Step::BadSlot(s, k)),
    ];
    let id = || prop_oneof![Just(0u64), 1u64..10, Just(4096), Just(u32::MAX as u64 - 1)];
    let db = || prop_oneof![2 => Just(Db::Sqlite), 1 => Just(Db::Nss)];
    let first = (u(), u(), useful(&KINDS29, 0.6)).prop_map(|(i, s, x)| Step::W(i, Op::Make(s, x)));
    (prop::collection::vec((id(), db()), 2..4), prop::collection::vec(first, 2..8), prop::collection::vec(step, 10..60)).prop_map(|(mut slots, mut ops, more)| {
        ops.extend(more);
        let mut seen = std::collections::BTreeSet::new();
        for s in slots.iter_mut() { while !seen.insert(s.0) { s.0 = (s.0 + 1) % 5000; } }
        Case { slots, ops }
    }).boxed()
}

/// what can be seen of a slot from outside its objects
#[derive(PartialEq, Debug)]
struct View { token: (Rv, String, Vec<u64>), slot: (Rv, u64), sess: Vec<(u64, Rv, u64, u64, u64)>, objects: Option<(Rv, Vec<u64>)> }
fn view(w: &World, extra: &[u64]) -> View {
    let p = w.t.p;
    let (rv, ti) = p.token_info(w.t.slot);
    let (rs, si) = p.slot_info(w.t.slot);
    let mut sess = vec![];
    for s in w.sess.iter().map(|x| x.0).chain([w.helper]).chain(extra.iter().copied()) { let (rv, i) = p.sess_info(s); sess.push((s, rv, i.slotID, i.state, i.flags)); }
    sess.sort();
    let text = [&ti.label[..], &ti.manufacturerID, &ti.model, &ti.serialNumber].concat();
    let nums = vec![ti.flags, ti.ulMaxSessionCount, ti.ulSessionCount, ti.ulMaxRwSessionCount, ti.ulRwSessionCount, ti.ulMaxPinLen, ti.ulMinPinLen];
    let objects = w.sess.first().map(|s| { let (rv, mut v) = p.find(s.0, &[]); v.sort(); (rv, v) });
    View { token: (rv, String::from_utf8_lossy(&text).to_string(), nums), slot: (rs, si.flags), sess, objects }
}
/// an operation left unfinished while other things happen
struct Pending { slot: usize, s: u64, k: u8, done: Vec<u8>, out: Vec<u8>, key: u64 }
const PIECE: &[u8] = b"sixteen byte msg";
fn expect(k: u8, d: &[u8]) -> Vec<u8> {
    match k % 3 {
        0 => refc::hash::H::Sha256.hash(d),
        1 => refc::hash::hmac(refc::hash::H::Sha384, &[k; 20], d),
        _ => d.chunks(16).flat_map(|c| refc::aes::Aes::new(&[k; 16]).enc(c.try_into().unwrap())).collect(),
    }
}

struct Worlds { w: Vec<Option<World>>, pending: Vec<Pending> }
impl Worlds {
    fn at(&mut self, i: u8) -> usize { i as usize % self.w.len() }
    fn get(&mut self, i: usize) -> &mut World { self.w[i].as_mut().unwrap() }
    fn views(&self, but: usize) -> Vec<(usize, View)> {
        (0..self.w.len()).filter(|j| *j != but).map(|j| { let x: Vec<u64> = self.pending.iter().filter(|p| p.slot == j).map(|p| p.s).collect(); (j, view(self.w[j].as_ref().unwrap(), &x)) }).collect()
    }
    fn lost(&mut self, i: usize) { for x in self.pending.iter().filter(|x| x.slot == i) { if let Some(w) = self.w[i].as_mut() { w.builtin.remove(&x.key); } } self.pending.retain(|x| x.slot != i); }
    fn reinit(&mut self, i: usize, cx: &mut Cx) -> R {
        self.lost(i);
        let mut w = self.w[i].take().unwrap();
        let p = w.t.p;
        let slot = w.t.slot;
        p.close_all(slot);
        let rv = p.init_token(slot, SO, "another label");
        ensure!(rv == CKR_OK, "reinit", "C_InitToken of slot {slot}: {}", rvname(rv));
        let s = w.t.open(true);
        ensure!(p.login(s, CKU_SO, SO) == CKR_OK && p.init_pin(s, USER) == CKR_OK && p.logout(s) == CKR_OK, "reinit", "setting up slot {slot} again");
        p.close(s);
        *w.t.pin.borrow_mut() = USER.to_vec();
        w.objs.clear();
        let World { t, .. } = w;
        self.w[i] = Some(World::new(t)?);
        cx.hit("reinitialised");
        Ok(())
    }
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut ws = Worlds { w: vec![], pending: vec![] };
    let toks = cx.tok.several(&c.slots, "");
    let p = toks[0].p;
    let conf = toks[0].conf.clone();
    for t in toks { ws.w.push(Some(World::new(t)?)); }
    for i in 0..c.slots.len() { let w = ws.get(i); w.step(cx, &Op::Pin(0, i as u8))?; }
    let (rv, mut ids) = p.slots(true);
    let mut want: Vec<u64> = c.slots.iter().map(|s| s.0).collect();
    ids.sort(); want.sort();
    ensure!(rv == CKR_OK && ids == want, "slot-list", "slots {want:?} are configured, {} and {ids:?} listed", rvname(rv));
    let mut acted = std::collections::BTreeSet::new();
    for (n, step) in c.ops.iter().enumerate() {
        // everything known about the slots that are not meant
        let me = match step { Step::W(i, _) | Step::BadPin(i, _) | Step::OtherPin(i, _) | Step::Lock(i, _) | Step::Reinit(i) | Step::Cross(i, ..) | Step::Begin(i, _) | Step::InitPin(i) => ws.at(*i), Step::End(k) => if ws.pending.is_empty() { continue } else { let n = ws.pending.len(); ws.pending[*k as usize % n].slot }, Step::Restart | Step::BadSlot(..) => usize::MAX };
        let before = ws.views(me);
        let what = format!("step {n} {}", format!("{step:?}").chars().take(200).collect::<String>());
        let mut view_too = true;
        match step {
            Step::W(_, o) => {
                if matches!(o, Op::CloseEach) { for x in ws.pending.iter().filter(|x| x.slot == me) { p.close(x.s); } cx.hit("last session closed"); }
                if matches!(o, Op::CloseAll | Op::CloseEach) { ws.lost(me); }
                ws.get(me).step(cx, o)?;
                acted.insert(me);
            }
            Step::BadPin(_, so) => {
                let w = ws.get(me);
                let s = w.helper;
                if w.who != Who::None || *so && w.t.db == Db::Nss { continue; }
                let rv = p.login(s, if *so { CKU_SO } else { CKU_USER }, b"not-the-pin-at-all");
                ensure!(rv == CKR_PIN_INCORRECT || *so && rv == CKR_SESSION_READ_ONLY_EXISTS, "setup", "{what}: {}", rvname(rv));
                // the counter goes back
                if *so { if p.login(s, CKU_SO, SO) == CKR_OK { p.logout(s); } } else { w.step(cx, &Op::Login(0, false))?; }
                cx.hit("wrong PIN");
            }
            Step::OtherPin(_, j) => {
                let j = ws.at(*j);
                let pin = ws.get(j).t.pin.borrow().clone();
                let w = ws.get(me);
                if me == j || w.who != Who::None || *w.t.pin.borrow() == pin { continue; }
                let rv = p.login(w.helper, CKU_USER, &pin);
                ensure!(rv == CKR_PIN_INCORRECT, "other-pin", "{what}: the PIN of another slot at login: {}", rvname(rv));
                w.step(cx, &Op::Login(0, false))?;
                cx.hit("PIN of another slot");
            }
            Step::Lock(_, so) => {
                let w = ws.get(me);
                if w.t.db == Db::Nss { continue; }
                let s = w.helper;
                p.logout(s);
                p.close_all(w.t.slot);
                let s = w.t.open(true);
                // the SO is needed to get out of it
                let (u, n) = if *so { (CKU_SO, 8) } else { (CKU_USER, 12) };
                for _ in 0..n { p.login(s, u, b"not-the-pin-at-all"); }
                let (_, ti) = p.token_info(w.t.slot);
                if !*so { ensure!(ti.flags & CKF_USER_PIN_LOCKED != 0, "setup", "{what}: not locked"); }
                for (j, v) in &before { let now = view(ws.w[*j].as_ref().unwrap(), &[]); ensure!(now.token == v.token, "token-info", "{what}: token information of slot {} becomes {:x?}, was {:x?}", c.slots[*j].0, now.token, v.token); }
                ws.reinit(me, cx)?;
                cx.hit("locked");
            }
            Step::InitPin(_) => {
                let w = ws.get(me);
                if w.t.db == Db::Nss || w.sess.iter().any(|x| !x.1) { continue; }
                if w.who == Who::User { w.step(cx, &Op::Logout(0))?; }
                if w.who == Who::None { w.step(cx, &Op::Login(0, true))?; }
                let rv = p.init_pin(w.sess.first().map(|s| s.0).unwrap_or(w.helper), b"from the SO");
                ensure!(rv == CKR_OK, "init-pin", "{what}: {}", rvname(rv));
                *w.t.pin.borrow_mut() = b"from the SO".to_vec();
                w.step(cx, &Op::Logout(0))?;
                w.step(cx, &Op::Login(0, false))?;
                cx.hit("PIN set by the SO");
            }
            Step::Reinit(_) => { if ws.get(me).t.db == Db::Nss { continue; } ws.reinit(me, cx)?; acted.insert(me); }
            Step::Cross(_, j, o, k) => {
                // a session of one slot, an object of another
                let j = ws.at(*j);
                if j == me { continue; }
                let w2 = ws.get(j);
                let Some(o) = w2.o(*o) else { continue };
                let (h, uid) = (w2.objs[o].h, w2.objs[o].uid());
                let w = ws.get(me);
                let Some((s, _)) = w.sess.first().copied() else { continue };
                let known = w.builtin.contains(&h) || w.objs.iter().any(|o| o.h == h);
                if known {
                    if let Ok(v) = p.get1(s, h, CKA_UNIQUE_ID) { ensure!(v != uid, "foreign-object", "{what}: handle {h} in a session of slot {} is the object of slot {}", c.slots[me].0, c.slots[j].0); }
                    cx.hit("same handle in both slots");
                } else {
                    let rv = match k % 8 { 0 => p.get(s, h, &[CKA_LABEL]).0, 1 => p.set(s, h, &tm! { CKA_LABEL => "stolen" }), 2 => p.copy(s, h, &[]).0, 3 => p.destroy(s, h), 4 => p.size(s, h).0, 5 => p.encrypt_init(s, &Mech::new(CKM_AES_ECB), h), 6 => p.sign_init(s, &Mech::new(CKM_SHA256_HMAC), h), _ => p.wrap(s, &Mech::new(CKM_AES_KEY_WRAP), h, h).0 };
                    ensure!(matches!(rv, CKR_OBJECT_HANDLE_INVALID | CKR_KEY_HANDLE_INVALID | CKR_WRAPPING_KEY_HANDLE_INVALID), "foreign-object", "{what}: call {} on the object of slot {} in a session of slot {}: {}", k % 8, c.slots[j].0, c.slots[me].0, rvname(rv));
                    cx.hit("handle of another slot");
                    cx.nt();
                }
                let (rv, v) = p.find(s, &tm! { CKA_UNIQUE_ID => uid });
                ensure!(rv == CKR_OK && v.is_empty(), "foreign-object", "{what}: a search in slot {} finds the object of slot {}: {} {v:?}", c.slots[me].0, c.slots[j].0, rvname(rv));
            }
            Step::Begin(_, k) => {
                if ws.pending.len() > 4 || ws.get(me).who == Who::So { continue; }
                let w = ws.get(me);
                let s = w.t.open(true);
                let (rv, key) = match k % 3 { 1 => p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => vec![*k; 20], CKA_TOKEN => false, CKA_PRIVATE => false, CKA_SIGN => true }), 2 => p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![*k; 16], CKA_TOKEN => false, CKA_PRIVATE => false, CKA_ENCRYPT => true }), _ => (CKR_OK, 0) };
                ensure!(rv == CKR_OK, "setup", "{what}: {}", rvname(rv));
                let rv = match k % 3 { 0 => p.digest_init(s, &Mech::new(CKM_SHA256)), 1 => p.sign_init(s, &Mech::new(CKM_SHA384_HMAC), key), _ => p.encrypt_init(s, &Mech::new(CKM_AES_ECB), key) };
                ensure!(rv == CKR_OK, "setup", "{what}: init: {}", rvname(rv));
                if key != 0 {
                    // known to nobody but this session
                    w.builtin.insert(key); w.used.insert(key);
                }
                let mut out = vec![];
                match k % 3 { 0 => { p.digest_update(s, PIECE); } 1 => { p.sign_update(s, PIECE); } _ => out = p.encrypt_update(s, PIECE).1 }
                ws.pending.push(Pending { slot: me, s, k: *k, done: PIECE.to_vec(), out, key });
                cx.hit("operation begun");
            }
            Step::End(_) => {
                let Step::End(k) = step else { unreachable!() };
                let n = ws.pending.len();
                let mut x = ws.pending.swap_remove(*k as usize % n);
                let mut data = x.done.clone();
                let mut out = x.out.clone();
                for _ in 0..2 { data.extend(PIECE); match x.k % 3 { 0 => { p.digest_update(x.s, PIECE); } 1 => { p.sign_update(x.s, PIECE); } _ => out.extend(p.encrypt_update(x.s, PIECE).1) } }
                x.done = data;
                let (rv, got) = match x.k % 3 { 0 => p.digest_final(x.s), 1 => p.sign_final(x.s), _ => { let (rv, v) = p.encrypt_final(x.s); out.extend(v); (rv, out) } };
                ensure!(rv == CKR_OK && got == expect(x.k, &x.done), "operation", "{what}: an operation of slot {} gives {} {} after calls on other slots", c.slots[x.slot].0, rvname(rv), hex(&got));
                p.close(x.s);
                if x.key != 0 { ws.get(x.slot).builtin.remove(&x.key); }
                cx.hit("operation finished");
            }
            Step::Restart => {
                for i in 0..c.slots.len() { ws.lost(i); }
                ensure!(p.finalize() == CKR_OK && p.initialize(Some(&conf)) == CKR_OK, "restart", "{what}");
                for w in ws.w.iter_mut() { let w = w.as_mut().unwrap(); w.relogin(&what)?; }
                view_too = false;
            }
            Step::BadSlot(s, k) => {
                if c.slots.iter().any(|x| x.0 == *s) { continue; }
                let rv = match k % 5 { 0 => p.open(*s, true).0, 1 => p.token_info(*s).0, 2 => p.slot_info(*s).0, 3 => p.close_all(*s), _ => p.init_token(*s, SO, "nowhere") };
                ensure!(rv == CKR_SLOT_ID_INVALID, "bad-slot", "{what}: {}", rvname(rv));
            }
        }
        if view_too {
            let now = ws.views(me);
            for ((j, a), (_, b)) in before.iter().zip(&now) { ensure!(a == b, "seen-elsewhere", "{what} in slot {:?} changes slot {}: {b:x?}, was {a:x?}", c.slots.get(me), c.slots[*j].0); }
        }
        for j in 0..ws.w.len() { if j != me && (n % 3 == 0 || !matches!(step, Step::W(..))) && !matches!(step, Step::End(_) | Step::Begin(..)) { ws.get(j).all(&format!("slot {}, {what} on slot {:?}", c.slots[j].0, c.slots.get(me)))?; } }
        if acted.len() > 1 { cx.nt(); }
    }
    for j in 0..ws.w.len() { ws.get(j).all(&format!("slot {}, at the end", c.slots[j].0))?; }
    // the files of the first one hold the configuration
    while let Some(w) = ws.w.pop() { drop(w); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C29", level: "exploration", workers: 8, hang_s: 60,
        rule: "objects, sessions or logins changed in at least two slots, or a handle of one slot was used in another",
        assumptions: &["object handles are numbered per slot, so the same number may mean different objects in different slots; it must never mean the other slot's object", "two slots are never configured over the same files"],
        groups: vec![gen_("slots", 260, 8000, cases, run)] }
}
