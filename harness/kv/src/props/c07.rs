//! C07: the object store against a model.
use crate::objmodel::*;
use crate::run::*;
use crate::tok::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::rsakeys::KEYS;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
fn ops(kinds: &'static [Kind]) -> BoxedStrategy<Vec<Op>> {
    let u = || any::<u8>();
    let op = prop_oneof![
        2 => prop::bool::weighted(0.6).prop_map(Op::Open),
        1 => u().prop_map(Op::Close), 1 => Just(Op::CloseEach),
        10 => (u(), spec(kinds, 6, 0.6)).prop_map(|(s, x)| Op::Make(s, x)),
        4 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        5 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        5 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        6 => (u(), u(), prop::collection::vec((u(), u()), 1..8)).prop_map(|(s, o, l)| Op::Get(s, o, l)),
        1 => (u(), u()).prop_map(|(s, o)| Op::Size(s, o)),
        2 => (u(), u(), u()).prop_map(|(s, o, w)| Op::Dead(s, o, w)),
    ];
    prop_oneof![3 => prop::collection::vec(op.clone(), 4..30), 1 => (prop::collection::vec(op.clone(), 2..12), prop::collection::vec(op, 2..12)).prop_map(|(mut a, b)| { a.push(Op::CloseAll); a.extend(b); a })].boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    for op in &c.ops { w.step(cx, op)?; }
    w.all("at the end")?;
    if w.n >= 4 && w.used.len() > w.builtin.len() + 1 { cx.nt(); }
    Ok(())
}
/// two limits of the NSS storage that are recorded findings
fn limits(c: &u8, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Nss);
    let s = t.user();
    cx.nt();
    if *c == 0 {
        let mechs = CKM_AES_CBC.to_ne_bytes().to_vec();
        let k = must(&t.p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![7u8; 16], CKA_TOKEN => true, CKA_ALLOWED_MECHANISMS => mechs.clone() }, "key");
        let r = t.p.get1(s, k, CKA_ALLOWED_MECHANISMS);
        if r != Ok(mechs) { return cx.known("nss-mechanisms", format!("CKA_ALLOWED_MECHANISMS of a key created on an NSS token reads back as {r:?}")); }
    } else {
        let id = vec![0xa5u8, 0, 0x5a];
        let k = must(&t.p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![7u8; 16], CKA_TOKEN => true, CKA_ID => id.clone() }, "key");
        let r = t.p.get1(s, k, CKA_ID);
        if r != Ok(id) { return cx.known("nss-null-marker", format!("CKA_ID a5005a of a key on an NSS token reads back as {r:?}")); }
    }
    Ok(())
}
/// tokens configured to overwrite duplicates instead of adding objects
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DK { Aes, Gen, Pub, Rsa(bool), Cert, Trust }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp { Make { k: DK, id: u8, private: bool, sens: bool, v: u8 }, Who(bool), Restart }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DCase { db: Db, mode: u8, ops: Vec<DOp> }
fn dcases() -> BoxedStrategy<DCase> {
    let k = prop_oneof![3 => Just(DK::Aes), 1 => Just(DK::Gen), 2 => Just(DK::Pub), 3 => any::<bool>().prop_map(DK::Rsa), 2 => Just(DK::Cert), 1 => Just(DK::Trust)];
    let op = prop_oneof![10 => (k, 0u8..3, any::<bool>(), any::<bool>(), 0u8..5).prop_map(|(k, id, private, sens, v)| DOp::Make { k, id, private, sens, v }), 2 => any::<bool>().prop_map(DOp::Who), 1 => Just(DOp::Restart)];
    (prop_oneof![3 => Just(Db::Sqlite), 1 => Just(Db::Nss)], prop_oneof![4 => Just(3u8), 2 => Just(2u8), 1 => Just(1u8), 1 => Just(0u8)], prop::collection::vec(op, 3..14)).prop_map(|(db, mode, ops)| DCase { db, mode, ops }).boxed()
}
struct DObj { h: Obj, k: DK, id: u8, private: bool, sens: bool, v: u8, label: String }
fn dtmpl(o: &DObj) -> Tmpl {
    let mut t = match o.k {
        DK::Aes => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![o.v + 1; 16 + 8 * (o.v as usize % 3)], CKA_ID => vec![o.id], CKA_SENSITIVE => o.sens, CKA_EXTRACTABLE => !o.sens },
        DK::Gen => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => vec![o.v + 1; 5 + o.v as usize], CKA_ID => vec![o.id], CKA_SENSITIVE => o.sens, CKA_EXTRACTABLE => !o.sens },
        DK::Pub => { let mut t = rsa_pub_tmpl(&KEYS[o.v as usize]); tset(&mut t, CKA_ID, vec![o.id]); t }
        DK::Rsa(crt) => { let mut t = rsa_priv_tmpl(&KEYS[o.v as usize], crt); tset(&mut t, CKA_ID, vec![o.id]); tset(&mut t, CKA_SENSITIVE, o.sens); tset(&mut t, CKA_EXTRACTABLE, !o.sens); t }
        DK::Cert => tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_SUBJECT => vec![0x30u8, 0], CKA_ISSUER => vec![0x30u8, 2, 5, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, o.id], CKA_VALUE => vec![0x30u8, 3, 2, 1, o.v] },
        DK::Trust => tm! { CKA_CLASS => CKO_TRUST, CKA_ISSUER => vec![0x30u8, 2, 5, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, o.id], CKA_HASH_OF_CERTIFICATE => vec![o.v; 32], CKA_NAME_HASH_ALGORITHM => CKM_SHA256 },
    };
    tset(&mut t, CKA_TOKEN, true);
    tset(&mut t, CKA_PRIVATE, o.private);
    tset(&mut t, CKA_LABEL, o.label.as_str());
    t
}
fn dcheck(p: &P, s: Sess, user: bool, objs: &[DObj], what: &str) -> R {
    let (rv, f) = p.find(s, &vec![]);
    ensure!(rv == CKR_OK, "dedup", "{what}: C_FindObjects {}", rvname(rv));
    let mut got: Vec<String> = f.iter().filter_map(|o| p.get1(s, *o, CKA_LABEL).ok()).map(|l| String::from_utf8_lossy(&l).into_owned()).filter(|l| l.starts_with("d-")).collect();
    let mut want: Vec<String> = objs.iter().filter(|o| user || !o.private).map(|o| o.label.clone()).collect();
    got.sort(); want.sort();
    ensure!(got == want, "dedup-objects", "{what}: objects {got:?} instead of {want:?}");
    for o in objs.iter().filter(|o| user || !o.private) {
        let f = p.find(s, &tm! { CKA_LABEL => o.label.as_str() }).1;
        ensure!(f.len() == 1, "dedup-objects", "{what}: {} objects {}", f.len(), o.label);
        let crt = rsa_priv_tmpl(&KEYS[0], true).into_iter().skip(rsa_priv_tmpl(&KEYS[0], false).len()).map(|a| a.0).collect::<Vec<_>>();
        let full = match o.k { DK::Rsa(_) => { let mut x = dtmpl(o); let l = rsa_priv_tmpl(&KEYS[o.v as usize], true); for a in l { if crt.contains(&a.0) && tget(&x, a.0).is_none() { x.push(a); } } x } _ => dtmpl(o) };
        for (a, v) in &full {
            let g = p.get1(s, f[0], *a);
            let secret = o.sens && (*a == CKA_VALUE && matches!(o.k, DK::Aes | DK::Gen) || matches!(o.k, DK::Rsa(_)) && (*a == CKA_PRIVATE_EXPONENT || crt.contains(a)));
            let ok = match &g { _ if secret => g.is_err(), Ok(x) if x.is_empty() => crt.contains(a) && o.k == DK::Rsa(false), Ok(x) => *x == v.bytes(), Err(_) => crt.contains(a) && o.k == DK::Rsa(false) };
            ensure!(ok, "dedup-value", "{what}: attribute {a:#x} of {} ({:?}, sensitive {}) reads {}", o.label, o.k, o.sens, match g { Ok(x) => hex(&x), Err(r) => rvname(r).to_string() });
        }
        if let DK::Rsa(_) = o.k {
            let m = Mech::new(CKM_RSA_PKCS);
            let mut rv = p.sign_init(s, &m, f[0]);
            let mut sig = vec![];
            if rv == CKR_OK { (rv, sig) = p.sign(s, b"data"); }
            ensure!(rv == CKR_OK && !sig.is_empty(), "dedup-use", "{what}: signing with {}: {}", o.label, rvname(rv));
            let w = must(p, s, &rsa_pub_tmpl(&KEYS[o.v as usize]), "public key");
            let rv = p.ver(s, &m, w, b"data", &sig);
            ensure!(rv == CKR_OK, "dedup-use", "{what}: the signature of {} is not one of its key: {}", o.label, rvname(rv));
            p.destroy(s, w);
        }
    }
    Ok(())
}
fn dedup(c: &DCase, cx: &mut Cx) -> R {
    let extra = match c.mode { 0 => "", 1 => "objects_dedup = \"TrustOnly\"\n", 2 => "objects_dedup = \"TrustAndCertificates\"\n", _ => "objects_dedup = \"All\"\n" };
    let t = cx.tok.fresh_conf(c.db, extra, "");
    let mut s = t.user();
    let mut user = true;
    let mut objs: Vec<DObj> = vec![];
    let mut over = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let mut look = i % 4 == 3;
        let what = format!("#{i} {op:?} as {}", if user { "user" } else { "SO" });
        match op {
            DOp::Who(u) => {
                if *u != user && c.db == Db::Sqlite { t.p.logout(s); let rv = if *u { t.p.login(s, CKU_USER, USER) } else { t.p.login(s, CKU_SO, SO) }; ensure!(rv == CKR_OK, "dedup", "{what}: login {}", rvname(rv)); user = *u; }
            }
            DOp::Restart => { let rv = t.restart(); ensure!(rv == CKR_OK, "dedup", "{what}: {}", rvname(rv)); s = t.user(); user = true; for o in objs.iter_mut() { o.h = 0; } }
            DOp::Make { k, id, private, sens, v } => {
                let secret = matches!(k, DK::Aes | DK::Gen | DK::Rsa(_));
                let private = if c.db == Db::Nss { secret } else { *private && *k != DK::Trust };
                if private && !user || (secret && !user) { continue; }
                if c.db == Db::Nss && matches!(k, DK::Cert | DK::Trust) { continue; }
                let n = DObj { h: 0, k: *k, id: *id, private, sens: *sens && secret, v: *v, label: format!("d-{i}") };
                let class = |k: DK| match k { DK::Rsa(_) => DK::Rsa(true), x => x };
                let may = match k { DK::Trust => true, DK::Cert => c.mode >= 2, _ => c.mode == 3 };
                let m: Vec<usize> = (0..objs.len()).filter(|j| may && class(objs[*j].k) == class(*k) && objs[*j].id == *id && (user || !objs[*j].private)).collect();
                let (rv, h) = t.p.create(s, &dtmpl(&n));
                if !m.is_empty() { look = true; over += 1; cx.hit("duplicate"); }
                match m.len() {
                    0 => { ensure!(rv == CKR_OK, "dedup", "{what}: {}", rvname(rv)); ensure!(objs.iter().all(|o| o.h != h), "dedup-handle", "{what}: handle {h} of another object"); objs.push(DObj { h, ..n }); }
                    _ if c.mode == 0 => ensure!(rv != CKR_OK, "dedup", "{what}: a second trust object"),
                    1 => {
                        ensure!(rv == CKR_OK, "dedup", "{what}: {} although a duplicate exists", rvname(rv));
                        ensure!(objs[m[0]].h == 0 || objs[m[0]].h == h, "dedup-handle", "{what}: handle {h} instead of {}", objs[m[0]].h);
                        objs[m[0]] = DObj { h, ..n };
                    }
                    _ => ensure!(rv != CKR_OK, "dedup", "{what}: accepted although {} duplicates exist", m.len()),
                }
            }
        }
        if look { dcheck(&t.p, s, user, &objs, &what)?; }
    }
    if !user { t.p.logout(s); let rv = t.p.login(s, CKU_USER, USER); ensure!(rv == CKR_OK, "dedup", "login: {}", rvname(rv)); }
    dcheck(&t.p, s, true, &objs, "at the end")?;
    if over > 0 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C07", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when it has at least four calls and created at least two objects",
        assumptions: &[],
        groups: vec![
            gen_("sqlite", 900, 30000, || ops(&KINDS).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("nss", 400, 10000, || ops(&KEYK).prop_map(|ops| Case { db: Db::Nss, ops }).boxed(), run),
            gen_("dedup", 900, 40000, dcases, dedup),
            fixed("nss-limits", vec![0u8, 1], limits),
        ] }
}
