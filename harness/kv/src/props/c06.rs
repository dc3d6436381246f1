//! C06: provenance can not be forged and protections can not be undone.
use super::c05::{table, Act, Kk, Mx};
use crate::objmodel::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
const PRIV: [Kind; 6] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPriv, Kind::EcPriv, Kind::Mont];
fn chain(kinds: &'static [Kind], bad: u32, token: f64) -> BoxedStrategy<Vec<Op>> {
    let u = || any::<u8>();
    // selectors biased to the protection flags: 9..=12 pick a flag, 13 a constant attribute, 14 key material
    let sel = prop_oneof![6 => (9u16..13, 0u16..4096), 2 => (Just(13u16), 0u16..4096), 2 => (Just(14u16), 0u16..4096), 3 => (0u16..16, 0u16..4096)].prop_map(|(c, i)| c | i << 4);
    let ch = || prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec((sel.clone(), raws()), 1..3), 4 => prop::collection::vec((sel.clone(), raws()), 2..6)];
    let op = prop_oneof![
        1 => any::<bool>().prop_map(Op::Open),
        8 => (u(), spec(kinds, bad, token)).prop_map(|(s, x)| Op::Make(s, x)),
        8 => (u(), u(), ch()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        12 => (u(), u(), ch()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
    ];
    (spec(kinds, 0, token), prop::collection::vec(op, 4..24)).prop_map(|(x, mut v)| { v.insert(0, Op::Make(0, x)); v }).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    for op in &c.ops { w.step(cx, op)?; }
    w.all("at the end")?;
    if c.ops.iter().filter(|o| matches!(o, Op::Copy(..) | Op::Set(..))).count() >= 2 && w.used.len() > w.builtin.len() { cx.nt(); }
    Ok(())
}
/// keys derived with every mechanism: what they claim about their past
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BaseG { made: bool, sens: bool, ext: bool, late: bool, copied: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DerG { m: Mx, k: u8, base: BaseG, other: BaseG, ask: [Option<bool>; 2], token: bool, again: Option<[Option<bool>; 2]> }
fn bases() -> BoxedStrategy<BaseG> { (any::<bool>(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.15), prop::bool::weighted(0.2)).prop_map(|(made, sens, ext, late, copied)| BaseG { made, sens, ext, late, copied }).boxed() }
fn ders() -> BoxedStrategy<DerG> {
    let ms: Vec<Mx> = table().iter().filter(|(m, a)| *a == Act::Derive && !matches!(m, Mx::PubPriv | Mx::Hkdf(true) | Mx::ConKey2)).map(|x| x.0).collect();
    let ask = || [prop::option::of(any::<bool>()), prop::option::of(any::<bool>())];
    (prop::sample::select(ms), any::<u8>(), bases(), bases(), ask(), prop::bool::weighted(0.2), prop::option::of(ask())).prop_map(|(m, k, base, other, ask, token, again)| DerG { m, k, base, other, ask, token, again }).boxed()
}
#[derive(Clone, Copy, Debug)]
struct Past { sens: bool, ext: bool, always: bool, never: bool }
fn base_key(p: &P, s: Sess, k: Kk, b: &BaseG) -> Result<(Obj, Past), Viol> {
    let fl = tm! { CKA_TOKEN => false, CKA_PRIVATE => false, CKA_DERIVE => true, CKA_SENSITIVE => b.sens && !b.late, CKA_EXTRACTABLE => b.ext || b.late };
    let gm = match k { Kk::Aes => Some((CKM_AES_KEY_GEN, 32u64)), Kk::Generic => Some((CKM_GENERIC_SECRET_KEY_GEN, 48)), Kk::Hkdf => Some((CKM_HKDF_KEY_GEN, 32)), _ => None };
    let pg = match k {
        Kk::EcPriv => Some((CKM_EC_KEY_PAIR_GEN, tm! { CKA_EC_PARAMS => test_ec().0.clone() })),
        Kk::MontPriv => Some((CKM_EC_MONTGOMERY_KEY_PAIR_GEN, tm! { CKA_EC_PARAMS => super::c18::mont_oid(false) })),
        _ => None,
    };
    let (rv, mut o, local) = if b.made && gm.is_some() {
        let (m, n) = gm.unwrap();
        let mut t = fl.clone(); t.push((CKA_VALUE_LEN, V::U(n)));
        let (rv, o) = p.genkey(s, &Mech::new(m), &t); (rv, o, true)
    } else if b.made && pg.is_some() {
        let (m, mut t) = pg.unwrap();
        t.extend(tm! { CKA_TOKEN => false, CKA_PRIVATE => false });
        let (rv, q, o) = p.genpair(s, &Mech::new(m), &t, &fl);
        if rv == CKR_OK { p.destroy(s, q); }
        (rv, o, true)
    } else { let mut t = k.tmpl(); t.extend(fl); let (rv, o) = p.create(s, &t); (rv, o, false) };
    ensure!(rv == CKR_OK, "base", "base key {k:?} {b:?}: {}", rvname(rv));
    let past = Past { sens: b.sens, ext: b.ext, always: local && b.sens && !b.late, never: local && !b.ext && !b.late };
    if b.late {
        if b.sens { let rv = p.set(s, o, &tm! { CKA_SENSITIVE => true }); ensure!(rv == CKR_OK, "base", "CKA_SENSITIVE: {}", rvname(rv)); }
        if !b.ext { let rv = p.set(s, o, &tm! { CKA_EXTRACTABLE => false }); ensure!(rv == CKR_OK, "base", "CKA_EXTRACTABLE: {}", rvname(rv)); }
    }
    if b.copied { let (rv, c) = p.copy(s, o, &tm! { CKA_LABEL => "copy" }); ensure!(rv == CKR_OK, "base", "copy: {}", rvname(rv)); p.destroy(s, o); o = c; }
    Ok((o, past))
}
/// the flags of a derived key; what its own past is
fn derived(p: &P, s: Sess, o: Obj, b: Past, ask: &[Option<bool>; 2], what: &str) -> Result<Past, Viol> {
    let f = |a: u64| p.get_bool(s, o, a);
    let (se, ex, al, ne, lo) = (f(CKA_SENSITIVE), f(CKA_EXTRACTABLE), f(CKA_ALWAYS_SENSITIVE), f(CKA_NEVER_EXTRACTABLE), f(CKA_LOCAL));
    let (Ok(se), Ok(ex)) = (se, ex) else { return viol("derived-flags", format!("{what}: sensitive {se:?} extractable {ex:?}")) };
    ensure!(lo == Ok(false), "provenance", "{what}: CKA_LOCAL is {lo:?}");
    ensure!(al == Ok(b.always && se), "provenance", "{what}: CKA_ALWAYS_SENSITIVE is {al:?}, CKA_SENSITIVE {se}");
    ensure!(ne == Ok(b.never && !ex), "provenance", "{what}: CKA_NEVER_EXTRACTABLE is {ne:?}, CKA_EXTRACTABLE {ex}");
    if let Ok(m) = p.get_ulong(s, o, CKA_KEY_GEN_MECHANISM) { ensure!(m == CK_UNAVAILABLE_INFORMATION as u64, "provenance", "{what}: CKA_KEY_GEN_MECHANISM is {m:#x}"); }
    // a key that was asked to be protected is
    ensure!(ask[0] != Some(true) || se, "derived-flags", "{what}: not sensitive");
    ensure!(ask[1] != Some(false) || !ex, "derived-flags", "{what}: extractable");
    let v = p.get1(s, o, CKA_VALUE);
    ensure!(v.is_ok() == (!se && ex), "derived-value", "{what}: sensitive {se} extractable {ex}, the value reads {:?}", v.map(|v| v.len()));
    Ok(Past { sens: se, ext: ex, always: b.always && se, never: b.never && !ex })
}
fn run_der(c: &DerG, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let fits = c.m.fits(Act::Derive);
    let k = fits[c.k as usize % fits.len()];
    let (key, past) = base_key(&p, s, k, &c.base)?;
    let two = matches!(c.m, Mx::ConKey | Mx::HkdfSalt);
    let (other, past2) = base_key(&p, s, Kk::Generic, &c.other)?;
    // the salt of HKDF does not become part of the key
    let past = if c.m == Mx::ConKey { Past { sens: past.sens || past2.sens, ext: past.ext && past2.ext, always: past.always && past2.always, never: past.never && past2.never } } else { past };
    let m = c.m.mech(k, if c.m == Mx::HkdfSalt { other } else { key }, other);
    let tmpl = |ask: &[Option<bool>; 2], n: u64| {
        let mut t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => n, CKA_TOKEN => c.token, CKA_PRIVATE => false, CKA_DERIVE => true };
        if let Some(b) = ask[0] { t.push((CKA_SENSITIVE, V::B(b))); }
        if let Some(b) = ask[1] { t.push((CKA_EXTRACTABLE, V::B(b))); }
        t
    };
    let what = format!("{:?} from {k:?} {:?}{} with sensitive {:?} extractable {:?}", c.m, c.base, if two { format!(" and {:?}", c.other) } else { String::new() }, c.ask[0], c.ask[1]);
    let (rv, o) = p.derive(s, &m, key, &tmpl(&c.ask, if matches!(c.m, Mx::Master(_)) { 48 } else { 16 }));
    let weaker = past.sens && c.ask[0] == Some(false) || !past.ext && c.ask[1] == Some(true);
    let random_pms = matches!(c.m, Mx::Master(_)) && c.base.made;
    ensure!(rv == CKR_OK || weaker || random_pms, "derive", "{what}: {}", rvname(rv));
    let mut all = vec![key, other];
    if rv == CKR_OK {
        let n = derived(&p, s, o, past, &c.ask, &what)?;
        all.push(o);
        cx.hit(&format!("{:?}", c.m).split('(').next().unwrap().to_string());
        if past.always || past.never { cx.hit("protected since birth"); cx.nt(); }
        if let Some(ask) = c.again.as_ref().filter(|_| !matches!(c.m, Mx::Master(_))) {
            let what = format!("{what}, then SHA-256 with {ask:?}");
            let (rv, q) = p.derive(s, &Mech::new(CKM_SHA256_KEY_DERIVATION), o, &tmpl(ask, 16));
            ensure!(rv == CKR_OK || n.sens && ask[0] == Some(false) || !n.ext && ask[1] == Some(true), "derive", "{what}: {}", rvname(rv));
            if rv == CKR_OK { derived(&p, s, q, n, ask, &what)?; all.push(q); }
        }
    }
    for o in all { p.destroy(s, o); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C06", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when it made an object and then tried at least two changes or copies",
        assumptions: &["what a copy may change beyond the library rules (CKA_TOKEN, CKA_PRIVATE, CKA_MODIFIABLE, as the specification says) is allowed", "attributes outside the written rules (certificate parts, validation data) are not judged"],
        groups: vec![
            gen_("classes", 700, 30000, || chain(&KINDS, 35, 0.4).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("protected-keys", 700, 30000, || chain(&PRIV, 15, 0.5).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("derived", 12000, 400000, ders, run_der),
            gen_("nss", 150, 6000, || chain(&KEYK, 20, 0.6).prop_map(|ops| Case { db: Db::Nss, ops }).boxed(), run),
        ] }
}
