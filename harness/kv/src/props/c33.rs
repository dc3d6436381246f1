//! C33: initializing a token wipes it, and only the SO may.
use super::c02;
use crate::objmodel::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, before: Vec<Op>, bad: Vec<(u8, u8)>, sopin: u8, label: String, restart: bool, after: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
fn strat(db: Db, kinds: &'static [Kind]) -> BoxedStrategy<Case> {
    let u = || any::<u8>();
    let op = move || prop_oneof![
        10 => (u(), useful(kinds, 0.8)).prop_map(|(s, x)| Op::Make(s, x)),
        2 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        1 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        2 => (u(), u()).prop_map(|(s, k)| Op::Pin(s, k)),
        1 => Just(Op::Restart),
        1 => any::<bool>().prop_map(Op::Open),
    ];
    (prop::collection::vec(op(), 2..12), prop::collection::vec((u(), u()), 0..5), 0u8..3, "[a-zA-Z0-9é ]{0,40}", any::<bool>(), prop::collection::vec(op(), 0..6))
        .prop_map(move |(before, bad, sopin, label, restart, after)| Case { db, before, bad, sopin, label, restart, after }).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    for op in &c.before { w.step(cx, op)?; }
    let p = w.t.p;
    let slot = w.t.slot;
    let rv = p.init_token(slot, SO, "busy");
    ensure!(rv == CKR_SESSION_EXISTS, "init-with-sessions", "C_InitToken with sessions open: {}", rvname(rv));
    w.all("C_InitToken with sessions open")?;
    let user = w.t.pin.borrow().clone();
    // refused attempts change nothing
    let mut fails = 0;
    for (how, n) in &c.bad {
        p.close_all(slot);
        let mut pin = SO.to_vec();
        match how % 6 { 0 => pin = user.clone(), 1 => { pin.pop(); } 2 => pin.push(n.max(&1).clone()), 3 => { let i = *n as usize * pin.len() / 256; pin[i] ^= 1; } 4 => pin.clear(), _ => pin = b"some other pin".to_vec() }
        let rv = p.init_token(slot, &pin, "refused");
        ensure!(rv != CKR_OK, "init-wrong-pin", "C_InitToken with a wrong SO PIN ({}) accepted", hex(&pin));
        fails += 1;
        cx.hit("wrong SO PIN");
        let rv = if n & 1 == 0 { w.t.restart() } else { CKR_OK };
        ensure!(rv == CKR_OK, "restart", "{}", rvname(rv));
        w.relogin("a refused C_InitToken")?;
        w.all("a refused C_InitToken")?;
        if fails == 3 { break; }
    }
    let old: Vec<(u64, Vec<u8>)> = w.objs.iter().map(|o| (o.h, o.uid())).collect();
    let n = w.objs.iter().filter(|o| o.token()).count();
    p.close_all(slot);
    let (_, before) = p.token_info(slot);
    let rv = p.init_token(slot, SO, &c.label);
    if c.db == Db::Nss {
        // an NSS database has no SO PIN that could allow it
        ensure!(rv != CKR_OK, "init-wrong-pin", "C_InitToken of an NSS token whose User PIN is set was accepted");
        w.relogin("a refused C_InitToken")?;
        w.all("a refused C_InitToken")?;
        if n > 0 { cx.nt(); }
        return Ok(());
    }
    ensure!(rv == CKR_OK, "init", "C_InitToken with the SO PIN: {}", rvname(rv));
    if c.restart { let rv = w.t.restart(); ensure!(rv == CKR_OK, "restart", "{}", rvname(rv)); }
    let (rv, ti) = p.token_info(slot);
    ensure!(rv == CKR_OK && ti.flags & CKF_TOKEN_INITIALIZED != 0 && ti.flags & CKF_USER_PIN_INITIALIZED == 0, "flags", "flags after C_InitToken {:x}", ti.flags);
    let mut l: Vec<u8> = c.label.bytes().chain(std::iter::repeat(b' ')).take(32).collect();
    l.truncate(32);
    ensure!(ti.label.to_vec() == l, "label", "label {:?} instead of {:?}", String::from_utf8_lossy(ti.label.as_ref()), String::from_utf8_lossy(&l));
    ensure!(ti.serialNumber != before.serialNumber, "serial", "the serial number stays {:?}", String::from_utf8_lossy(ti.serialNumber.as_ref()));
    let s = w.t.open(true);
    let rv = p.login(s, CKU_USER, &user);
    ensure!(rv == CKR_USER_PIN_NOT_INITIALIZED, "old-user-pin", "User login after C_InitToken: {}", rvname(rv));
    let empty = |who: &str| -> R {
        let (rv, v) = p.find(s, &[]);
        ensure!(rv == CKR_OK, "find", "{who}: {}", rvname(rv));
        for h in v { let cl = p.get_ulong(s, h, CKA_CLASS); ensure!(matches!(cl, Ok(CKO_MECHANISM) | Ok(CKO_PROFILE)), "objects-left", "{who}: object {h} of class {cl:x?} is there after C_InitToken"); }
        for (_, uid) in &old { let (_, v) = p.find(s, &tm! { CKA_UNIQUE_ID => uid.clone() }); ensure!(v.is_empty(), "objects-left", "{who}: an object of the old token is found by its unique id"); }
        Ok(())
    };
    empty("nobody logged in")?;
    for (h, uid) in &old {
        // the handle of an old object may be in use for a built-in object now
        if let Ok(u) = p.get1(s, *h, CKA_UNIQUE_ID) { ensure!(&u != uid, "objects-left", "the handle {h} of an old object still works"); let cl = p.get_ulong(s, *h, CKA_CLASS); ensure!(matches!(cl, Ok(CKO_MECHANISM) | Ok(CKO_PROFILE)), "objects-left", "handle {h} leads to an object of class {cl:x?}"); }
    }
    // C_SetPIN and C_InitPIN can not set a User PIN for just anyone
    let newpin = format!("the new pin {}", c.sopin).into_bytes();
    let rv = p.set_pin(s, &user, &newpin);
    ensure!(rv != CKR_OK, "set-pin", "C_SetPIN set a first User PIN");
    let rv = p.init_pin(s, &newpin);
    ensure!(rv == CKR_USER_NOT_LOGGED_IN, "init-pin", "C_InitPIN without the SO: {}", rvname(rv));
    let rv = p.login(s, CKU_SO, SO);
    ensure!(rv == CKR_OK, "so-login", "SO login after C_InitToken: {}", rvname(rv));
    empty("SO logged in")?;
    let rv = p.init_pin(s, &newpin);
    ensure!(rv == CKR_OK, "init-pin", "C_InitPIN: {}", rvname(rv));
    p.logout(s);
    let rv = p.login(s, CKU_USER, &user);
    ensure!(rv == CKR_PIN_INCORRECT, "old-user-pin", "login with the old User PIN: {}", rvname(rv));
    let rv = p.login(s, CKU_USER, &newpin);
    ensure!(rv == CKR_OK, "new-user-pin", "login with the new User PIN: {}", rvname(rv));
    empty("User logged in")?;
    p.close_all(slot);
    // and it works like any other token
    *w.t.pin.borrow_mut() = newpin;
    w.objs.clear();
    w.relogin("C_InitToken")?;
    for op in &c.after { w.step(cx, op)?; }
    w.all("the end")?;
    if n > 0 { cx.nt(); cx.hit(if c.restart { "wiped, then restarted" } else { "wiped" }); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C33", level: "exploration", workers: 8, hang_s: 60,
        rule: "a case is non-trivial when the token held objects at the last C_InitToken, or (PIN histories) when at least three logins, PIN changes or initializations succeeded",
        assumptions: &["an NSS database has no SO PIN: its initialization is refused as soon as a User PIN is set"],
        groups: vec![
            gen_("wipe", 500, 20000, || strat(Db::Sqlite, &KINDS), run),
            gen_("wipe-nss", 60, 1500, || strat(Db::Nss, &KEYK), run),
            gen_("pins", 500, 20000, || c02::history(Db::Sqlite, 6), c02::run),
            gen_("pins-nss", 100, 3000, || c02::history(Db::Nss, 6), c02::run),
        ] }
}
