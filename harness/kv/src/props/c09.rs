//! C09: secrets and PINs never reach the disk in the clear.
use crate::crypt::*;
use crate::objmodel::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::props::c18::dh_priv_tmpl;
use crate::run::*;
use crate::tok::*;
use crate::vfs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step { W(Op), Raw(u8, u8, u16), Session(u8, u16), Twin(u8, u8), Bad(u8), Scan }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { db: Db, ops: Vec<Step>, pins: Vec<u8> }
const KEYS9: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPriv, Kind::EcPriv, Kind::Mont, Kind::RsaPriv, Kind::Aes];
fn steps(db: Db) -> BoxedStrategy<Case> {
    let u = || any::<u8>();
    let w = prop_oneof![
        9 => (u(), useful(&KEYS9, 0.85)).prop_map(|(s, x)| Op::Make(s, x)),
        3 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        3 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        4 => (u(), u()).prop_map(|(s, o)| Op::Use(s, o)),
        2 => Just(Op::Restart),
        2 => (u(), u()).prop_map(|(s, k)| Op::Pin(s, k)),
    ];
    let op = prop_oneof![4 => (u(), u(), 40u16..6000).prop_map(|(k, s, n)| Step::Raw(k, s, n)), 2 => (u(), 16u16..6000).prop_map(|(k, n)| Step::Session(k, n)), 2 => (u(), u()).prop_map(|(k, s)| Step::Twin(k, s)), 1 => u().prop_map(Step::Bad), 1 => Just(Step::Scan)];
    let scan = prop_oneof![10 => w.prop_map(Step::W), 1 => Just(Step::Scan)];
    (prop::collection::vec(scan, 0..12), prop::collection::vec(op, 0..8), prop::collection::vec(0u8..8, 0..5)).prop_map(move |(mut ops, raw, pins)| { ops.extend(raw); Case { db, ops, pins } }).boxed()
}
fn windows(b: &[u8]) -> watch::Windows { watch::windows(b) }
/// every secret of a key of this kind and seed
fn secrets(k: Kind, seed: u8) -> watch::Windows {
    let sp = Spec { kind: k, origin: Origin::Create, seed, token: Some(true), opts: vec![], bad: Bad::No };
    let mut w = windows(&sp.value());
    for a in sp.material() { if k.secrets().contains(&a.0) { w.extend(windows(&a.1.bytes())); } }
    w
}
/// the encoded value of a private key holds public parts too
fn only_secret(k: Kind, seed: u8) -> watch::Windows {
    if k.secret() { return secrets(k, seed); }
    let sp = Spec { kind: k, origin: Origin::Create, seed, token: Some(true), opts: vec![], bad: Bad::No };
    sp.material().iter().filter(|a| k.secrets().contains(&a.0)).flat_map(|a| windows(&a.1.bytes())).collect()
}
fn disk(t: &Tok, all: &watch::Windows) -> R {
    for f in t.dbfiles() {
        let d = std::fs::read(&f).unwrap_or_default();
        if let Some(i) = d.windows(8).position(|x| all.contains(x)) { viol("secret-on-disk", format!("{} holds secret bytes in the clear at offset {i}: {}", f.file_name().unwrap().to_string_lossy(), hex(&d[i..i + 8])))?; }
    }
    Ok(())
}
/// no two stored secrets look the same
fn twins(t: &Tok, cx: &mut Cx) -> R {
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut add = |v: Vec<u8>, what: String| -> R {
        if v.len() < 16 { return Ok(()); }
        if let Some(o) = seen.get(&v) { viol("equal-ciphertexts", format!("{what} and {o} are stored as the same bytes"))?; }
        seen.insert(v, what);
        Ok(())
    };
    let secret = [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];
    let rows: rusqlite::Result<Vec<(i64, u64, Vec<u8>)>> = (|| {
        let mut v = vec![];
        match t.db {
            Db::Sqlite => {
                let c = rusqlite::Connection::open(t.dir.join("token.sql"))?;
                let mut q = c.prepare("select id, attr, val from objects where id in (select id from objects where attr = 0 and val in (3, 4, 8)) and typeof(val) = 'blob'")?;
                let mut r = q.query([])?;
                while let Some(r) = r.next()? { v.push((r.get(0)?, r.get::<_, i64>(1)? as u64, r.get(2)?)); }
            }
            Db::Nss => {
                let c = rusqlite::Connection::open(t.dir.join("key4.db"))?;
                for a in secret {
                    let mut q = c.prepare(&format!("select id, a{a:x} from nssPrivate where typeof(a{a:x}) = 'blob'"))?;
                    let mut r = q.query([])?;
                    while let Some(r) = r.next()? { v.push((r.get(0)?, a, r.get(1)?)); }
                }
            }
        }
        Ok(v)
    })();
    let rows = rows.unwrap_or_else(|e| panic!("reading the database: {e}"));
    for (id, a, v) in rows { if secret.contains(&a) { cx.hit("stored secret"); add(v, format!("attribute {a:#x} of object {id}"))?; } }
    Ok(())
}

struct Guard;
impl Drop for Guard { fn drop(&mut self) { vfs::watch(None); } }
fn run(c: &Case, cx: &mut Cx) -> R {
    vfs::install();
    let t = cx.tok.fresh(c.db);
    let _g = Guard;
    let mut all: watch::Windows = windows(SO);
    for p in [USER, b"user pin 0", b"user pin 1", b"user pin 2"] { all.extend(windows(p)); }
    vfs::watch(Some(all.clone()));
    let mut w = World::new(t)?;
    let mut n = 0u32;
    let mut stored = 0;
    // objects made behind the back of the model
    let mut raw = false;
    let mut add = |all: &mut watch::Windows, x: watch::Windows| { vfs::watch_more(x.clone()); all.extend(x); };
    let p = w.t.p;
    for op in &c.ops {
        n += 1;
        let s = w.helper;
        raw |= !matches!(op, Step::W(_) | Step::Scan);
        match op {
            Step::W(_) if raw => (),
            Step::W(o) => {
                if let Op::Make(_, sp) = o { add(&mut all, only_secret(sp.kind, sp.seed)); }
                // what else may go wrong here is for other properties to say
                if w.step(cx, o).is_err() { cx.hit("stopped"); break; }
                // generated keys that can be read
                for o in &w.objs { if o.token() { stored += 1; for a in o.kind.secrets() { if let Some(Some(v)) = o.a.get(a) { add(&mut all, windows(v)); } } } }
            }
            Step::Raw(k, seed, len) => {
                let l = format!("raw{n}");
                let v = bytes_of(*seed, *len as usize, b"raw secret");
                add(&mut all, windows(&v[..v.len().min(600)]));
                let f = |c: u64, kt: u64, sens: bool| tm! { CKA_CLASS => c, CKA_KEY_TYPE => kt, CKA_TOKEN => true, CKA_LABEL => &*l, CKA_SENSITIVE => sens, CKA_EXTRACTABLE => !sens, CKA_PRIVATE => *seed & 1 == 1 };
                let sens = *seed & 2 == 2;
                let rv = match k % 5 {
                    0 => { let mut t = f(CKO_OTP_KEY, CKK_HOTP, sens); t.push((CKA_VALUE, V::X(v[..20].to_vec()))); t.push((CKA_OTP_LENGTH, V::U(6))); p.create(s, &t).0 }
                    1 => { let mut t = dh_priv_tmpl(0, &v[..32]); for a in f(CKO_PRIVATE_KEY, CKK_DH, sens) { tset(&mut t, a.0, a.1); } p.create(s, &t).0 }
                    2 => { let mut t = f(CKO_SECRET_KEY, CKK_GENERIC_SECRET, sens); t.push((CKA_VALUE, V::X(v))); p.create(s, &t).0 }
                    3 => { // derived, and the whole value known
                        let (rv, b) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => v[..16].to_vec(), CKA_DERIVE => true, CKA_TOKEN => false, CKA_SENSITIVE => sens, CKA_EXTRACTABLE => true });
                        if rv != CKR_OK { continue; }
                        let mut m = Mech::new(CKM_CONCATENATE_BASE_AND_DATA);
                        let (ptr, dl) = m.keep(&v[8..16]); m.set(CK_KEY_DERIVATION_STRING_DATA { pData: ptr, ulLen: dl });
                        p.derive(s, &m, b, &f(CKO_SECRET_KEY, CKK_GENERIC_SECRET, sens)).0
                    }
                    _ => { // a set value replaced by another
                        let mut t = f(CKO_SECRET_KEY, CKK_AES, sens); t.push((CKA_VALUE, V::X(v[..16].to_vec()))); let (rv, o) = p.create(s, &t);
                        if rv == CKR_OK { p.copy(s, o, &tm! { CKA_LABEL => "copy", CKA_SENSITIVE => true }); p.set(s, o, &tm! { CKA_SENSITIVE => true }); p.set(s, o, &tm! { CKA_LABEL => "again" }); }
                        rv
                    }
                };
                if rv == CKR_OK { stored += 1; }
                cx.hit(&format!("raw {} {:?}: {}", k % 5, c.db, rvname(rv)));
            }
            Step::Session(k, len) => {
                let v = bytes_of(*k, *len as usize, b"session object");
                add(&mut all, windows(&v[..v.len().min(600)]));
                let id = bytes_of(*k, 24, b"session id");
                add(&mut all, windows(&id));
                let t = match k % 3 {
                    0 => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => v, CKA_TOKEN => false, CKA_PRIVATE => false },
                    1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => v, CKA_ID => id.clone(), CKA_TOKEN => false },
                    _ => tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_SUBJECT => id.clone(), CKA_VALUE => v, CKA_ID => id.clone(), CKA_TOKEN => false },
                };
                let (rv, o) = p.create(s, &t);
                cx.hit(&format!("session object: {}", rvname(rv)));
                if rv == CKR_OK { let (r2, _) = p.copy(s, o, &tm! { CKA_LABEL => "session copy" }); let _ = r2; p.find(s, &tm! { CKA_ID => id }); }
            }
            Step::Twin(k, seed) => {
                let kind = [Kind::Aes, Kind::RsaPriv, Kind::EcPriv, Kind::Generic, Kind::Mont][*k as usize % 5];
                add(&mut all, only_secret(kind, *seed));
                for i in 0..2 {
                    let sp = Spec { kind, origin: Origin::Create, seed: *seed, token: Some(true), opts: vec![], bad: Bad::No };
                    let mut t = sp.plan(500 + i).t;
                    tset(&mut t, CKA_ID, V::X(vec![i as u8 + 1, n as u8]));
                    if p.create(s, &t).0 == CKR_OK { stored += 1; cx.hit("twin"); }
                }
            }
            Step::Bad(k) => { let mut pin = USER.to_vec(); pin.push(*k); add(&mut all, windows(&pin)); p.login(s, CKU_CONTEXT_SPECIFIC, &pin); }
            Step::Scan => { w.t.p.finalize(); disk(&w.t, &all)?; twins(&w.t, cx)?; let rv = w.t.p.initialize(Some(&w.t.conf)); ensure!(rv == CKR_OK, "setup", "initialize: {}", rvname(rv)); if raw { w.helper = w.t.user(); } else if w.relogin("scan").is_err() { cx.hit("stopped"); break; } }
        }
        if let Some(l) = vfs::leak() { viol("secret-written", format!("{op:?} ({:?}) writes secret bytes in the clear: {l}", c.db))?; }
        disk(&w.t, &all)?;
    }
    // the PINs of the token
    let (mut so, mut user) = (SO.to_vec(), w.t.pin.borrow().clone());
    w.t.p.finalize();
    ensure!(p.initialize(Some(&w.t.conf)) == CKR_OK, "setup", "initialize");
    for (i, k) in c.pins.iter().enumerate() {
        let s = w.t.open(true);
        let new = hex(&bytes_of(i as u8 * 16 + k, 7, b"pin")).into_bytes();
        add(&mut all, windows(&new));
        let rv = match k {
            0 => { let rv = p.set_pin(s, &user, &new); if rv == CKR_OK { user = new; } rv }
            1 => { p.login(s, CKU_USER, &user); let rv = p.set_pin(s, &user, &new); if rv == CKR_OK { user = new; } rv }
            2 => { p.login(s, CKU_SO, &so); let rv = p.set_pin(s, &so, &new); if rv == CKR_OK { so = new; } rv }
            3 => { p.login(s, CKU_SO, &so); let rv = p.init_pin(s, &new); if rv == CKR_OK { user = new; } rv }
            4 => p.login(s, CKU_USER, &new),
            5 => p.login(s, CKU_SO, &new),
            6 => p.set_pin(s, &new, b"whatever-else"),
            _ => { p.close(s); p.init_token(w.t.slot, &so, "fresh label") }
        };
        cx.hit(&format!("pins {k} {:?}: {}", c.db, rvname(rv)));
        p.logout(s);
        p.close_all(w.t.slot);
        if let Some(l) = vfs::leak() { viol("pin-written", format!("PIN operation {k} ({:?}) writes a PIN or secret in the clear: {l}", c.db))?; }
        disk(&w.t, &all)?;
    }
    p.finalize();
    disk(&w.t, &all)?;
    twins(&w.t, cx)?;
    if let Some(l) = vfs::leak() { viol("secret-written", format!("{:?}: secret bytes written in the clear: {l}", c.db))?; }
    if stored > 0 || !c.pins.is_empty() { cx.nt(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when it stored secrets on the token or changed a PIN",
        assumptions: &["a secret is on disk when 8 consecutive bytes of it (at least 4 different ones) are written to any file or found in one", "secrets the check can not know (generated keys that can not be read) are not looked for"],
        groups: vec![gen_("sqlite", 400, 15000, || steps(Db::Sqlite), run), gen_("nss", 120, 5000, || steps(Db::Nss), run)],
    }
}
