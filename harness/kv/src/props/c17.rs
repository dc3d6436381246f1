//! C17: key derivation.
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::kdf::{self, Prf};
use refc::{aes, hash};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kt { Unset, Generic, Aes, Mac(u8) }
/// what the caller asks for in the template
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape { pub kt: Kt, pub len: Option<u16>, pub sens: Option<bool>, pub extr: Option<bool>, pub label: bool }
pub fn len_strat() -> BoxedStrategy<Option<u16>> {
    prop_oneof![3 => Just(None), 4 => (1u16..=80).prop_map(Some), 3 => prop::sample::select(vec![16u16, 24, 32]).prop_map(Some), 1 => (80u16..600).prop_map(Some), 1 => Just(Some(0))].boxed()
}
pub fn shape() -> BoxedStrategy<Shape> {
    (prop_oneof![2 => Just(Kt::Unset), 6 => Just(Kt::Generic), 3 => Just(Kt::Aes), 1 => (0u8..11).prop_map(Kt::Mac)], len_strat(),
        prop_oneof![5 => Just(Some(false)), 1 => Just(Some(true)), 1 => Just(None)], prop_oneof![5 => Just(Some(true)), 1 => Just(Some(false)), 1 => Just(None)], any::<bool>())
        .prop_map(|(kt, len, sens, extr, label)| Shape { kt, len, sens, extr, label }).boxed()
}
impl Shape {
    pub fn ckk(&self) -> u64 { match self.kt { Kt::Unset | Kt::Generic => CKK_GENERIC_SECRET, Kt::Aes => CKK_AES, Kt::Mac(i) => HT[i as usize].kt } }
    pub fn tmpl(&self) -> Tmpl {
        let mut t = tm! { CKA_CLASS => CKO_SECRET_KEY };
        if self.kt != Kt::Unset { t.extend(tm! { CKA_KEY_TYPE => self.ckk() }); }
        if let Some(l) = self.len { t.extend(tm! { CKA_VALUE_LEN => l as u64 }); }
        if let Some(b) = self.sens { t.extend(tm! { CKA_SENSITIVE => b }); }
        if let Some(b) = self.extr { t.extend(tm! { CKA_EXTRACTABLE => b }); }
        if self.label { t.extend(tm! { CKA_LABEL => "derived", CKA_ID => vec![7u8, 8] }); }
        if matches!(self.kt, Kt::Mac(_)) { t.extend(tm! { CKA_SIGN => true }); }
        t
    }
    /// the length to derive when `avail` bytes exist, none when it can not be
    pub fn keylen(&self, avail: usize) -> Option<usize> {
        let l = match (self.len, self.kt) {
            (Some(l), _) => l as usize,
            (None, Kt::Aes) => *[32, 24, 16].iter().find(|l| **l <= avail)?,
            (None, Kt::Mac(i)) => HT[i as usize].h.len(),
            (None, _) => avail,
        };
        if l == 0 || l > avail || self.kt == Kt::Aes && !matches!(l, 16 | 24 | 32) { None } else { Some(l) }
    }
    /// a MAC key of another size than its hash: whether it is possible is not specified
    pub fn odd_mac(&self) -> bool { matches!((self.kt, self.len), (Kt::Mac(i), Some(l)) if l as usize != HT[i as usize].h.len()) }
}

pub struct Base { pub sens: bool, pub extr: bool }
/// secret and data objects of the slot
fn count(p: &P, s: Sess) -> usize { p.find(s, &tm! { CKA_CLASS => CKO_SECRET_KEY }).1.len() + p.find(s, &tm! { CKA_CLASS => CKO_DATA }).1.len() }

/// compare the value of a key, readable or not
pub fn check_value(p: &P, s: Sess, o: Obj, ckk: u64, want: &[u8], what: &str) -> R<bool> {
    let readable = !p.get_bool(s, o, CKA_SENSITIVE).unwrap_or(true) && p.get_bool(s, o, CKA_EXTRACTABLE).unwrap_or(false);
    if readable {
        let v = p.get1(s, o, CKA_VALUE);
        ensure!(v.as_deref() == Ok(want), "value", "{what}: value {:?} instead of {}", v.map(|v| hex(&v)), hex(want));
    } else if ckk == CKK_GENERIC_SECRET || ckk == CKK_AES {
        ensure!(p.get1(s, o, CKA_VALUE).is_err(), "sensitive-value", "{what}: the value of a sensitive or unextractable key can be read");
        let rv = p.digest_init(s, &Mech::new(CKM_SHA256));
        let rv = if rv == CKR_OK { p.digest_key(s, o) } else { rv };
        ensure!(rv == CKR_OK, "digest-key", "{what}: digesting the derived key {}", rvname(rv));
        let (rv, d) = p.digest_final(s);
        ensure!(rv == CKR_OK && d == hash::H::Sha256.hash(want), "value", "{what}: derived key is not {}", hex(want));
    } else if let Some(t) = HT.iter().find(|t| t.kt == ckk) {
        let m = p.sig(s, &Mech::new(t.hmac), o, b"probe");
        ensure!(m.as_deref() == Ok(&hash::hmac(t.h, want, b"probe")[..]), "value", "{what}: derived key is not {} ({:?})", hex(want), m.map(|m| hex(&m)));
    }
    Ok(readable)
}
/// verdict and object of a derivation into a single key
pub fn judge(p: &P, s: Sess, cx: &mut Cx, sh: &Shape, want: Option<Vec<u8>>, may_refuse: bool, inherit: Option<Base>, before: usize, rv: Rv, o: Obj, what: &str) -> R {
    let Some(want) = want else {
        if rv == CKR_OK { p.destroy(s, o); }
        ensure!(rv != CKR_OK, "accepted", "{what} with {sh:?} succeeded");
        ensure!(count(p, s) == before, "leftover", "{what} with {sh:?} failed ({}) and left an object", rvname(rv));
        cx.hit("refused");
        return Ok(());
    };
    if rv != CKR_OK {
        ensure!(may_refuse || sh.odd_mac(), "refused", "{what} with {sh:?}: {}", rvname(rv));
        ensure!(count(p, s) == before, "leftover", "{what} with {sh:?} failed ({}) and left an object", rvname(rv));
        cx.hit("refused where allowed");
        return Ok(());
    }
    let ckk = sh.ckk();
    let rd = check_value(p, s, o, ckk, &want, &format!("{what} with {sh:?}"))?;
    cx.hit(if rd { "value read" } else { "value probed" });
    let (mut sens, mut extr) = (sh.sens.unwrap_or(true), sh.extr.unwrap_or(false));
    if let Some(b) = &inherit { sens |= b.sens; extr &= b.extr; }
    let g = |a| p.get_ulong(s, o, a);
    ensure!(g(CKA_CLASS) == Ok(CKO_SECRET_KEY) && g(CKA_KEY_TYPE) == Ok(ckk) && g(CKA_VALUE_LEN) == Ok(want.len() as u64), "shape",
        "{what} with {sh:?}: class {:?} type {:?} length {:?}", g(CKA_CLASS), g(CKA_KEY_TYPE), g(CKA_VALUE_LEN));
    let b = |a| p.get_bool(s, o, a);
    // the default of a concatenation of two keys is not specified when neither forces it
    if what.starts_with("CONCATENATE_BASE_AND_KEY") {
        let free = |forced: bool, t: Option<bool>| !forced && t.is_none();
        if free(inherit.as_ref().is_some_and(|b| b.sens), sh.sens) { if let Ok(v) = b(CKA_SENSITIVE) { sens = v; } }
        if free(inherit.as_ref().is_some_and(|b| !b.extr), sh.extr) { if let Ok(v) = b(CKA_EXTRACTABLE) { extr = v; } }
    }
    ensure!(b(CKA_SENSITIVE) == Ok(sens) && b(CKA_EXTRACTABLE) == Ok(extr), "protection", "{what} with {sh:?} (base {}): sensitive {:?} extractable {:?}",
        inherit.map(|b| format!("sensitive {} extractable {}", b.sens, b.extr)).unwrap_or_default(), b(CKA_SENSITIVE), b(CKA_EXTRACTABLE));
    // the base keys are imported, so what is derived never was protected all along
    if !what.starts_with("PBKDF2") {
        ensure!(b(CKA_LOCAL) == Ok(false) && b(CKA_ALWAYS_SENSITIVE) == Ok(false) && b(CKA_NEVER_EXTRACTABLE) == Ok(false), "provenance", "{what} from an imported key: local {:?} always sensitive {:?} never extractable {:?}", b(CKA_LOCAL), b(CKA_ALWAYS_SENSITIVE), b(CKA_NEVER_EXTRACTABLE));
    }
    if sh.label { ensure!(p.get1(s, o, CKA_LABEL).as_deref() == Ok(b"derived") && p.get1(s, o, CKA_ID).as_deref() == Ok(&[7, 8]), "template", "{what}: label or id of the template lost"); }
    ensure!(b(CKA_TOKEN) == Ok(false), "token", "{what}: token object {:?}", b(CKA_TOKEN));
    p.destroy(s, o);
    ensure!(count(p, s) == before, "leftover", "{what}: more than one object was created");
    cx.nt();
    Ok(())
}
fn base(p: &P, s: Sess, kt: u64, v: &[u8], b: &Base) -> Obj { secret(p, s, kt, v, &tm! { CKA_DERIVE => true, CKA_SENSITIVE => b.sens, CKA_EXTRACTABLE => b.extr }) }

// ---------------------------------------------------------------- simple derivations
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Simple { BaseKey(Hx, bool, bool), BaseData(Hx), DataBase(Hx), Xor(Hx), Extract(u16), Hash(u8), Ecb(Hx), Cbc([u8; 16], Hx) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimpleCase { k: Hx, aes: bool, sens: bool, extr: bool, f: Simple, sh: Shape }
fn simples() -> BoxedStrategy<SimpleCase> {
    let k = prop_oneof![3 => hx(1..=70usize), 2 => prop_oneof![hx(16), hx(24), hx(32)]];
    let data = prop_oneof![6 => hx(1..=70usize), 2 => (1usize..5).prop_flat_map(|n| hx(16 * n)), 1 => hx(0..=1usize)].boxed();
    let blocks = prop_oneof![6 => (1usize..5).prop_flat_map(|n| hx(16 * n)), 1 => hx(0..=40usize)].boxed();
    let f = prop_oneof![
        2 => (data.clone(), prop::bool::weighted(0.3), prop::bool::weighted(0.8)).prop_map(|(d, a, b)| Simple::BaseKey(d, a, b)), 1 => data.clone().prop_map(Simple::BaseData), 1 => data.clone().prop_map(Simple::DataBase),
        2 => data.prop_map(Simple::Xor), 3 => prop_oneof![4 => 0u16..560, 1 => 0u16..5000].prop_map(Simple::Extract), 2 => (0u8..11).prop_map(Simple::Hash),
        2 => blocks.clone().prop_map(Simple::Ecb), 2 => (any::<[u8; 16]>(), blocks).prop_map(|(i, d)| Simple::Cbc(i, d))];
    (k, prop::bool::weighted(0.2), prop::bool::weighted(0.25), prop::bool::weighted(0.75), f, shape()).prop_map(|(k, aes, sens, extr, f, sh)| SimpleCase { k, aes, sens, extr, f, sh }).boxed()
}
fn run_simple(c: &SimpleCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let mut k = c.k.0.clone();
    let need_aes = matches!(c.f, Simple::Ecb(_) | Simple::Cbc(..));
    let is_aes = c.aes || need_aes;
    if is_aes { k.resize(match k.len() { 0..=16 => 16, 17..=24 => 24, _ => 32 }, 0x77); }
    let b = Base { sens: c.sens, extr: c.extr };
    let o = base(&p, s, if is_aes { CKK_AES } else { CKK_GENERIC_SECRET }, &k, &b);
    let str_data = |ckm: u64, d: &[u8]| { let mut m = Mech::new(ckm); let (q, l) = m.keep(d); m.set(CK_KEY_DERIVATION_STRING_DATA { pData: q, ulLen: l }); m };
    let mut inherit = Some(Base { sens: c.sens, extr: c.extr });
    let mut sh = c.sh.clone();
    let mut may = false;
    let (what, m, avail): (String, Mech, Option<Vec<u8>>) = match &c.f {
        Simple::BaseKey(v, se, ex) => {
            let v = if v.is_empty() { vec![9] } else { v.0.clone() };
            let o2 = base(&p, s, CKK_GENERIC_SECRET, &v, &Base { sens: *se, extr: *ex });
            inherit = Some(Base { sens: c.sens || *se, extr: c.extr && *ex });
            ("CONCATENATE_BASE_AND_KEY".into(), Mech::with(CKM_CONCATENATE_BASE_AND_KEY, o2), Some([&k[..], &v].concat()))
        }
        Simple::BaseData(d) => ("CONCATENATE_BASE_AND_DATA".into(), str_data(CKM_CONCATENATE_BASE_AND_DATA, d), (!d.is_empty()).then(|| [&k[..], d].concat())),
        Simple::DataBase(d) => ("CONCATENATE_DATA_AND_BASE".into(), str_data(CKM_CONCATENATE_DATA_AND_BASE, d), (!d.is_empty()).then(|| [&d[..], &k].concat())),
        Simple::Xor(d) => ("XOR_BASE_AND_DATA".into(), str_data(CKM_XOR_BASE_AND_DATA, d), (!d.is_empty()).then(|| d.iter().zip(&k).map(|(a, b)| a ^ b).collect())),
        Simple::Extract(off) => {
            let n = k.len() * 8;
            let off_ = *off as usize;
            may = off_ >= n;
            let bit = |i: usize| { let i = (off_ + i) % n; k[i / 8] >> (7 - i % 8) & 1 };
            let v = (0..k.len()).map(|i| (0..8).fold(0u8, |a, j| a << 1 | bit(8 * i + j))).collect();
            (format!("EXTRACT_KEY_FROM_KEY at {off}"), Mech::with(CKM_EXTRACT_KEY_FROM_KEY, *off as CK_ULONG), Some(v))
        }
        Simple::Hash(h) => { inherit = None; (format!("{} key derivation", HT[*h as usize].name), Mech::new(HT[*h as usize].kder), Some(HT[*h as usize].h.hash(&k))) }
        Simple::Ecb(d) => {
            inherit = None;
            let m = str_data(CKM_AES_ECB_ENCRYPT_DATA, d);
            ("AES_ECB_ENCRYPT_DATA".into(), m, (!d.is_empty() && d.len() % 16 == 0).then(|| aes::ecb(&k, d, true)))
        }
        Simple::Cbc(iv, d) => {
            inherit = None;
            let mut m = Mech::new(CKM_AES_CBC_ENCRYPT_DATA);
            let (q, l) = m.keep(d);
            m.set(CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: *iv, pData: q, length: l });
            ("AES_CBC_ENCRYPT_DATA".into(), m, (!d.is_empty() && d.len() % 16 == 0).then(|| aes::cbc_enc(&k, iv, d)))
        }
    };
    if need_aes {
        // the key type is required, and another length than that of the data may be refused
        if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }

    }
    let want = avail.and_then(|a| sh.keylen(a.len()).map(|l| a[..l].to_vec()));
    let before = count(&p, s);
    let (rv, d) = p.derive(s, &m, o, &sh.tmpl());
    cx.hit(what.split(" at").next().unwrap());
    judge(&p, s, cx, &sh, want, may, inherit, before, rv, d, &format!("{what} of a {} byte key", k.len()))
}

// ---------------------------------------------------------------- HKDF
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Salt { Null, Data(Hx), Key(Hx) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hkdf { h: u8, ext: bool, exp: bool, salt: Salt, info: Hx, k: Hx, /// base: generic, HKDF key, data object
    bt: u8, data: bool, sh: Shape, big: bool }
fn hkdfs() -> BoxedStrategy<Hkdf> {
    (0u8..11, prop_oneof![4 => Just((true, true)), 3 => Just((true, false)), 3 => Just((false, true)), 1 => Just((false, false))],
        prop_oneof![2 => Just(Salt::Null), 3 => hx(1..=150usize).prop_map(Salt::Data), 2 => hx(1..=80usize).prop_map(Salt::Key)], hx(0..=90usize), hx(1..=150usize), 0u8..6, prop::bool::weighted(0.25), shape(), prop::bool::weighted(0.05))
        .prop_map(|(h, (ext, exp), salt, info, k, bt, data, sh, big)| Hkdf { h, ext, exp, salt, info, k, bt, data, sh, big }).boxed()
}
fn run_hkdf(c: &Hkdf, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    let hl = t.h.len();
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    if c.big { sh.kt = Kt::Generic; sh.len = Some((255 * hl + (c.k[0] as usize % 3) - 1) as u16); }
    if c.ext && !c.exp && c.k.len() % 3 != 0 && sh.kt == Kt::Generic { sh.len = Some(hl as u16); }
    let isdata = c.bt == 2;
    let mut k = c.k.0.clone();
    if isdata && k.len() % 4 != 0 { k.resize(hl, 3); }
    let b = match c.bt {
        2 => must(&p, s, &tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => k.clone() }, "data object"),
        1 => base(&p, s, CKK_HKDF, &k, &Base { sens: false, extr: true }),
        _ => base(&p, s, CKK_GENERIC_SECRET, &k, &Base { sens: c.bt == 3, extr: c.bt != 4 }),
    };
    let mut m = Mech::new(if c.data { CKM_HKDF_DATA } else { CKM_HKDF_DERIVE });
    let (mut st, mut sp, mut sl, mut hk) = (CKF_HKDF_SALT_NULL as CK_ULONG, std::ptr::null_mut(), 0, CK_INVALID_HANDLE);
    match &c.salt {
        Salt::Null => {}
        Salt::Data(d) => { st = CKF_HKDF_SALT_DATA as CK_ULONG; (sp, sl) = m.keep(d); }
        Salt::Key(d) => { st = CKF_HKDF_SALT_KEY as CK_ULONG; hk = base(&p, s, CKK_GENERIC_SECRET, d, &Base { sens: true, extr: false }); }
    }
    let (ip, il) = m.keep(&c.info);
    m.set(CK_HKDF_PARAMS { bExtract: c.ext as u8, bExpand: c.exp as u8, prfHashMechanism: t.ckm, ulSaltType: st, pSalt: sp, ulSaltLen: sl, hSaltKey: hk, pInfo: ip, ulInfoLen: il });
    let salt = match &c.salt { Salt::Null => vec![0; hl], Salt::Data(d) | Salt::Key(d) => d.0.clone() };
    let prk = if c.ext { kdf::hkdf_extract(t.h, &salt, &k) } else { k.clone() };
    let max = if c.exp { 255 * hl } else { hl };
    // with no length asked for, the length of the hash is the default
    let n = match sh.len { None if !c.data => match sh.kt { Kt::Generic => Some(hl), Kt::Mac(_) if c.exp => sh.keylen(max), _ => sh.keylen(hl) }, None => Some(hl), Some(l) if c.data => (l > 0 && l as usize <= max).then_some(l as usize), _ => sh.keylen(max) };
    let mut want = n.filter(|n| c.exp || *n <= prk.len()).map(|n| if c.exp { kdf::hkdf_expand(t.h, &prk, &c.info, n) } else { prk[..n].to_vec() });
    // default sizes for keys with a size of their own may be refused; extraction alone may only give the full hash
    let mut may = sh.len.is_none() && !matches!(sh.kt, Kt::Generic) || !c.exp && n != Some(hl);
    if !c.ext && !c.exp { want = None; }
    if isdata && (!c.ext || c.salt == Salt::Null || k.len() != hl) { want = None; }
    if isdata && c.salt != Salt::Null && matches!(c.salt, Salt::Key(_)) { may = true; } // not required by the standard
    let what = format!("{} {} {} {}", if c.data { "HKDF_DATA" } else { "HKDF_DERIVE" }, t.name, match (c.ext, c.exp) { (true, true) => "extract and expand", (true, _) => "extract", (_, true) => "expand", _ => "nothing" }, match c.salt { Salt::Null => "no salt", Salt::Data(_) => "salt", _ => "salt key" });
    cx.hit(&what.replace(t.name, "").replace("  ", " "));
    let before = count(&p, s);
    if c.data {
        let mut tt = tm! { CKA_CLASS => CKO_DATA };
        if let Some(l) = sh.len { tt.extend(tm! { CKA_VALUE_LEN => l as u64 }); }
        let (rv, o) = p.derive(s, &m, b, &tt);
        match want {
            None => {
                ensure!(rv != CKR_OK, "accepted", "{what} with length {:?} succeeded", sh.len);
                ensure!(count(&p, s) == before, "leftover", "{what} failed and left an object");
            }
            Some(_) if rv != CKR_OK => ensure!(may, "refused", "{what} with length {:?}: {}", sh.len, rvname(rv)),
            Some(w) => {
                let v = p.get1(s, o, CKA_VALUE);
                ensure!(p.get_ulong(s, o, CKA_CLASS) == Ok(CKO_DATA) && v.as_deref() == Ok(&w[..]), "value", "{what} of {}: {:?} instead of {}", hex(&k), v.map(|v| hex(&v)), hex(&w));
                p.destroy(s, o);
                cx.nt();
            }
        }
        return Ok(());
    }
    let (rv, o) = p.derive(s, &m, b, &sh.tmpl());
    judge(&p, s, cx, &sh, want, may, None, before, rv, o, &format!("{what} of {}", hex(&k)))
}

// ---------------------------------------------------------------- PBKDF2
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pb { prf: u8, pw: Hx, salt: Hx, it: u8, sh: Shape }
const PBPRF: [(u64, usize); 7] = [(CKP_PKCS5_PBKD2_HMAC_SHA1, 0), (CKP_PKCS5_PBKD2_HMAC_SHA224, 1), (CKP_PKCS5_PBKD2_HMAC_SHA256, 2), (CKP_PKCS5_PBKD2_HMAC_SHA384, 3), (CKP_PKCS5_PBKD2_HMAC_SHA512, 4), (CKP_PKCS5_PBKD2_HMAC_SHA512_224, 9), (CKP_PKCS5_PBKD2_HMAC_SHA512_256, 10)];
fn pbs() -> BoxedStrategy<Pb> {
    (0u8..7, hx(0..=150usize), hx(0..=90usize), prop_oneof![1 => Just(0u8), 2 => Just(1), 6 => 2u8..20], shape()).prop_map(|(prf, pw, salt, it, sh)| Pb { prf, pw, salt, it, sh }).boxed()
}
fn run_pb(c: &Pb, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let (ck, hi) = PBPRF[c.prf as usize];
    let t = HT.iter().find(|t| t.name == HT[hi].name).unwrap();
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    let mut m = Mech::new(CKM_PKCS5_PBKD2);
    let (sp, sl) = m.keep(&c.salt);
    let (pp, pl) = m.keep(&c.pw);
    m.set(CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED, pSaltSourceData: sp as *mut _, ulSaltSourceDataLen: sl, iterations: c.it as CK_ULONG, prf: ck, pPrfData: std::ptr::null_mut(), ulPrfDataLen: 0, pPassword: pp, ulPasswordLen: pl });
    let n = match sh.len { Some(_) => sh.keylen(usize::MAX), None if matches!(sh.kt, Kt::Mac(i) if HT[i as usize].h.len() > t.h.len()) => sh.keylen(usize::MAX), None => sh.keylen(t.h.len()) };
    let mut want = n.map(|n| kdf::pbkdf2(t.h, &c.pw, &c.salt, c.it as u32, n));
    if c.it == 0 || c.salt.is_empty() { want = None; }
    let before = count(&p, s);
    let (rv, o) = p.genkey(s, &m, &sh.tmpl());
    let what = format!("PBKDF2 {} with {} iterations, password of {}, salt of {}", t.name, c.it, c.pw.len(), c.salt.len());
    cx.hit(&format!("PBKDF2 {}", t.name));
    if rv == CKR_OK && want.is_some() {
        let (se, ex) = (sh.sens.unwrap_or(true), sh.extr.unwrap_or(false));
        let b = |a| p.get_bool(s, o, a);
        ensure!(b(CKA_LOCAL) == Ok(true) && p.get_ulong(s, o, CKA_KEY_GEN_MECHANISM) == Ok(CKM_PKCS5_PBKD2) && b(CKA_ALWAYS_SENSITIVE) == Ok(se) && b(CKA_NEVER_EXTRACTABLE) == Ok(!ex), "provenance",
            "{what}: local {:?} always sensitive {:?} never extractable {:?}", b(CKA_LOCAL), b(CKA_ALWAYS_SENSITIVE), b(CKA_NEVER_EXTRACTABLE));
    }
    judge(&p, s, cx, &sh, want, false, None, before, rv, o, &what)
}

// ---------------------------------------------------------------- SP 800-108
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dp { Iter(Option<(bool, u8)>), Ctr(bool, u8), Bytes(Hx), Len { keys: bool, le: bool, w: u8 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sp { fb: bool, /// 0..11 HMAC, 11 CMAC
    prf: u8, k: Hx, own: bool, dp: Vec<Dp>, iv: Hx, sh: Shape, add: Vec<Shape> }
fn sps() -> BoxedStrategy<Sp> {
    let w32 = prop_oneof![12 => prop::sample::select(vec![8u8, 16, 24, 32]), 1 => prop::sample::select(vec![0u8, 7, 40, 64])];
    let w64 = prop_oneof![16 => prop::sample::select(vec![8u8, 16, 24, 32, 40, 48, 56, 64]), 1 => prop::sample::select(vec![0u8, 12, 72])];
    let len = (any::<bool>(), any::<bool>(), w64).prop_map(|(keys, le, w)| Dp::Len { keys, le, w });
    let bytes = prop_oneof![10 => hx(1..=70usize), 1 => Just(Hx(vec![0])), 1 => Just(Hx(vec![]))].prop_map(Dp::Bytes);
    let ctr = (any::<bool>(), w32).boxed();
    let any_ = prop_oneof![4 => bytes, 2 => len, 1 => ctr.clone().prop_map(|(a, b)| Dp::Ctr(a, b)), 1 => ctr.clone().prop_map(|x| Dp::Iter(Some(x))), 1 => Just(Dp::Iter(None))];
    (any::<bool>(), 0u8..12, hx(1..=150usize), prop::bool::weighted(0.15), prop::collection::vec(any_, 0..5), ctr.clone(), prop::option::weighted(0.6, ctr), any::<u8>(), prop::bool::weighted(0.12), hx(0..=70usize), shape(), prop::collection::vec(shape(), 0..3))
        .prop_map(|(fb, prf, k, own, mut dp, (a, b), c, pos, wild, iv, mut sh, mut add)| {
            if !wild {
                // the required elements once each, at any place
                dp.retain(|d| matches!(d, Dp::Bytes(b) if !b.is_empty()) || matches!(d, Dp::Len { w, .. } if (8..=64).contains(w) && w % 8 == 0));
                let mut seen = false;
                dp.retain(|d| !matches!(d, Dp::Len { .. }) || !std::mem::replace(&mut seen, true));
                let ok = |w: u8| matches!(w, 8 | 16 | 24 | 32);
                let at = pos as usize % (dp.len() + 1);
                dp.insert(at, if fb { Dp::Iter(None) } else { Dp::Iter(Some((a, if ok(b) { b } else { 16 }))) });
                if fb { if let Some((l, w)) = c { dp.insert(pos as usize / 7 % (dp.len() + 1), Dp::Ctr(l, if ok(w) { w } else { 8 })); } }
                // and sensible keys
                for x in std::iter::once(&mut sh).chain(add.iter_mut()) {
                    if x.len.is_none() || x.len == Some(0) { x.len = Some(match x.kt { Kt::Mac(i) => HT[i as usize].h.len() as u16, _ => 32 }); }
                    if x.kt == Kt::Aes { x.len = Some([16, 24, 32][x.len.unwrap() as usize % 3]); }
                }
            }
            for x in std::iter::once(&mut sh).chain(add.iter_mut()) { if x.kt == Kt::Unset { x.kt = Kt::Generic; } }
            Sp { fb, prf, k, own, dp, iv, sh, add }
        }).boxed()
}
fn enc_int(v: u64, w: u8, le: bool) -> Vec<u8> {
    let n = w as usize / 8;
    if le { v.to_le_bytes()[..n].to_vec() } else { v.to_be_bytes()[8 - n..].to_vec() }
}
fn run_sp(c: &Sp, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let cmac = c.prf == 11;
    let mut k = c.k.0.clone();
    if cmac { k.resize([16, 24, 32][k.len() % 3], 1); }
    let prf = if cmac { Prf::Cmac } else { Prf::Hmac(HT[c.prf as usize].h) };
    let kt = if cmac { CKK_AES } else if c.own { k.resize(HT[c.prf as usize].h.len(), 2); HT[c.prf as usize].kt } else { CKK_GENERIC_SECRET };
    let b = base(&p, s, kt, &k, &Base { sens: true, extr: false });
    let mut m = Mech::new(if c.fb { CKM_SP800_108_FEEDBACK_KDF } else { CKM_SP800_108_COUNTER_KDF });
    fn raw<T: Copy>(m: &mut Mech, v: T) -> (*mut u8, CK_ULONG) { let b = unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, std::mem::size_of::<T>()) }; m.keep(b) }
    let mut params = vec![];
    for d in &c.dp {
        let (t, (q, l)) = match d {
            Dp::Iter(None) => (CK_SP800_108_ITERATION_VARIABLE, (std::ptr::null_mut(), 0)),
            Dp::Iter(Some((le, w))) => (CK_SP800_108_ITERATION_VARIABLE, raw(&mut m, CK_SP800_108_COUNTER_FORMAT { bLittleEndian: *le as u8, ulWidthInBits: *w as CK_ULONG })),
            Dp::Ctr(le, w) => (CK_SP800_108_COUNTER, raw(&mut m, CK_SP800_108_COUNTER_FORMAT { bLittleEndian: *le as u8, ulWidthInBits: *w as CK_ULONG })),
            Dp::Bytes(x) => (CK_SP800_108_BYTE_ARRAY, m.keep(x)),
            Dp::Len { keys, le, w } => (CK_SP800_108_DKM_LENGTH, raw(&mut m, CK_SP800_108_DKM_LENGTH_FORMAT { dkmLengthMethod: if *keys { CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS } else { CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS }, bLittleEndian: *le as u8, ulWidthInBits: *w as CK_ULONG })),
        };
        params.push(CK_PRF_DATA_PARAM { type_: t, pValue: q as *mut _, ulValueLen: l });
    }
    let mut handles = vec![0xdead_u64 as CK_OBJECT_HANDLE; c.add.len()];
    let tm_: Vec<Tmpl> = c.add.iter().map(|a| a.tmpl()).collect();
    let mut cts: Vec<CT> = tm_.iter().map(|t| CT::new(t)).collect();
    let mut dks: Vec<CK_DERIVED_KEY> = cts.iter_mut().zip(handles.iter_mut()).map(|(t, h)| CK_DERIVED_KEY { pTemplate: t.ptr(), ulAttributeCount: t.len(), phKey: h }).collect();
    let prft = if cmac { CKM_AES_CMAC } else { HT[c.prf as usize].hmac };
    let (ivp, ivl) = m.keep(&c.iv);
    let dkp = if dks.is_empty() { std::ptr::null_mut() } else { dks.as_mut_ptr() };
    if c.fb {
        m.set(CK_SP800_108_FEEDBACK_KDF_PARAMS { prfType: prft, ulNumberOfDataParams: params.len() as CK_ULONG, pDataParams: params.as_mut_ptr(), ulIVLen: ivl, pIV: ivp, ulAdditionalDerivedKeys: dks.len() as CK_ULONG, pAdditionalDerivedKeys: dkp });
    } else {
        m.set(CK_SP800_108_KDF_PARAMS { prfType: prft, ulNumberOfDataParams: params.len() as CK_ULONG, pDataParams: params.as_mut_ptr(), ulAdditionalDerivedKeys: dks.len() as CK_ULONG, pAdditionalDerivedKeys: dkp });
    }
    // reference
    let seg = prf.len();
    let round = |n: usize| n.div_ceil(seg) * seg;
    let mut odd = c.sh.odd_mac();
    let lens: Option<Vec<usize>> = std::iter::once(&c.sh).chain(&c.add).map(|x| { odd |= x.odd_mac(); x.len.and_then(|_| x.keylen(usize::MAX)) }).collect();
    let mut ok = c.dp.iter().filter(|d| matches!(d, Dp::Iter(_))).count() == 1 && c.dp.iter().filter(|d| matches!(d, Dp::Len { .. })).count() <= 1 && c.dp.iter().filter(|d| matches!(d, Dp::Ctr(..))).count() <= c.fb as usize;
    for d in &c.dp {
        ok &= match d { Dp::Iter(None) => c.fb, Dp::Iter(Some((_, w))) => !c.fb && matches!(w, 8 | 16 | 24 | 32), Dp::Ctr(_, w) => c.fb && matches!(w, 8 | 16 | 24 | 32), Dp::Bytes(b) => !b.is_empty(), Dp::Len { w, .. } => (8..=64).contains(w) && w % 8 == 0 };
    }
    let mut want = None;
    if let (true, Some(lens)) = (ok, &lens) {
        let (kl, sl) = (lens.iter().sum::<usize>(), lens.iter().map(|l| round(*l)).sum::<usize>());
        let mut dkm: Vec<u8> = vec![];
        let mut prev = c.iv.0.clone();
        let mut fits = true;
        for i in 1..=(sl / seg) as u64 {
            let mut x = vec![];
            for d in &c.dp {
                match d {
                    Dp::Iter(None) => x.extend(&prev),
                    Dp::Iter(Some((le, w))) | Dp::Ctr(le, w) => { fits &= *w >= 64 || i < 1 << w; x.extend(enc_int(i, *w, *le)); }
                    Dp::Bytes(b) => x.extend(&b.0),
                    Dp::Len { keys, le, w } => { let bits = 8 * if *keys { kl } else { sl } as u64; x.extend(enc_int(bits, *w, *le)); }
                }
            }
            prev = prf.mac(&k, &x);
            dkm.extend(&prev);
        }
        if fits { want = Some((dkm, lens.clone())); }
    }
    let before = count(&p, s);
    let (rv, o) = p.derive(s, &m, b, &c.sh.tmpl());
    drop(dks);
    let what = format!("{} with {}", if c.fb { "SP800_108_FEEDBACK_KDF" } else { "SP800_108_COUNTER_KDF" }, if cmac { "AES-CMAC" } else { HT[c.prf as usize].name });
    cx.hit(&what);
    let Some((dkm, lens)) = want else {
        ensure!(rv != CKR_OK, "accepted", "{what}: succeeded with parameters {:?} and keys {:?} {:?}", c.dp, c.sh, c.add);
        ensure!(count(&p, s) == before, "leftover", "{what} failed and left an object");
        cx.hit("refused");
        return Ok(());
    };
    if rv != CKR_OK {
        ensure!(odd, "refused", "{what}: {} for parameters {:?} and keys {:?} {:?}", rvname(rv), c.dp, c.sh, c.add);
        ensure!(count(&p, s) == before, "leftover", "{what} failed and left an object");
        return Ok(());
    }
    let mut pos = 0;
    for (i, (x, l)) in std::iter::once(&c.sh).chain(&c.add).zip(&lens).enumerate() {
        let h = if i == 0 { o } else { handles[i - 1] };
        let w = &dkm[pos..pos + l];
        check_value(&p, s, h, x.ckk(), w, &format!("{what}, key {i}, parameters {:?}, {x:?}", c.dp))?;
        ensure!(p.get_ulong(s, h, CKA_KEY_TYPE) == Ok(x.ckk()) && p.get_ulong(s, h, CKA_VALUE_LEN) == Ok(*l as u64), "shape", "{what}: key {i} {x:?} has type {:?} length {:?}", p.get_ulong(s, h, CKA_KEY_TYPE), p.get_ulong(s, h, CKA_VALUE_LEN));
        pos += round(*l);
    }
    ensure!(count(&p, s) == before + lens.len(), "leftover", "{what}: {} objects for {} keys", count(&p, s) - before, lens.len());
    cx.hit(&format!("{} keys", lens.len()));
    cx.nt();
    Ok(())
}

// ---------------------------------------------------------------- TLS 1.2
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tls { Master { dh: bool, ver: bool }, Extended { dh: bool, ver: bool, hash: Hx }, Keys { safe: bool, mac: u8, key: u8, iv: u8 }, Kdf { old: bool, label: Hx, ctx: Hx } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TlsCase { t: Tls, h: u8, k: Hx, cr: Hx, sr: Hx, sh: Shape }
fn tlss() -> BoxedStrategy<TlsCase> {
    let r = prop_oneof![20 => hx(32), 1 => hx(0..=40usize)].boxed();
    let t = prop_oneof![
        2 => (any::<bool>(), any::<bool>()).prop_map(|(dh, ver)| Tls::Master { dh, ver }),
        2 => (any::<bool>(), any::<bool>(), hx(0..=70usize)).prop_map(|(dh, ver, hash)| Tls::Extended { dh, ver, hash }),
        3 => (any::<bool>(), prop_oneof![Just(0u8), Just(20), 0u8..70], prop_oneof![Just(16u8), Just(32), 0u8..70], prop_oneof![Just(0u8), Just(16), 0u8..40]).prop_map(|(safe, mac, key, iv)| Tls::Keys { safe, mac, key, iv }),
        3 => (any::<bool>(), hx(0..=40usize), hx(0..=40usize)).prop_map(|(old, label, ctx)| Tls::Kdf { old, label, ctx })];
    (t, 0u8..11, prop_oneof![4 => hx(48), 1 => hx(2..=150usize)], r.clone(), r, shape()).prop_map(|(t, h, k, cr, sr, sh)| TlsCase { t, h, k, cr, sr, sh }).boxed()
}
fn run_tls(c: &TlsCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    let b = base(&p, s, CKK_GENERIC_SECRET, &c.k, &Base { sens: false, extr: true });
    let mut sh = c.sh.clone();
    let mut m = Mech::new(0);
    let (cp, cl) = m.keep(&c.cr);
    let (sp, sl) = m.keep(&c.sr);
    let ri = CK_SSL3_RANDOM_DATA { pClientRandom: cp, ulClientRandomLen: cl, pServerRandom: sp, ulServerRandomLen: sl };
    let rok = c.cr.len() == 32 && c.sr.len() == 32;
    let mut ver = Box::new(CK_VERSION { major: 0xa5, minor: 0x5a });
    let before = count(&p, s);
    match &c.t {
        Tls::Master { dh, ver: v } | Tls::Extended { dh, ver: v, .. } => {
            let vp: *mut CK_VERSION = if *v { &mut *ver } else { std::ptr::null_mut() };
            let (seed, label, name): (Vec<u8>, &[u8], _) = if let Tls::Extended { hash, .. } = &c.t {
                m.raw_mut().mechanism = if *dh { CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH } else { CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE };
                let (hp, hl) = m.keep(hash);
                m.set(CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS { prfHashMechanism: t.ckm, pSessionHash: hp, ulSessionHashLen: hl, pVersion: vp });
                (hash.0.clone(), b"extended master secret", "TLS12_EXTENDED_MASTER_KEY_DERIVE")
            } else {
                m.raw_mut().mechanism = if *dh { CKM_TLS12_MASTER_KEY_DERIVE_DH } else { CKM_TLS12_MASTER_KEY_DERIVE };
                m.set(CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: ri, pVersion: vp, prfHashMechanism: t.ckm });
                ([&c.cr[..], &c.sr].concat(), b"master secret", "TLS12_MASTER_KEY_DERIVE")
            };
            let ext = matches!(c.t, Tls::Extended { .. });
            sh.sens = Some(false);
            sh.extr = Some(true);
            if let Kt::Mac(_) = sh.kt { sh.kt = Kt::Unset; }
            if sh.len.is_some_and(|l| l > 64) { sh.len = Some(48); }
            let ok = (ext || rok) && (!*dh || !*v) && (*dh || c.k.len() == 48) && sh.len.is_none_or(|l| l == 48) && sh.kt != Kt::Aes;
            let want = ok.then(|| kdf::tls12(t.h, &c.k, label, &seed, 48));
            let (rv, o) = p.derive(s, &m, b, &sh.tmpl());
            if rv == CKR_OK && *v && want.is_some() { ensure!(ver.major == c.k[0] && ver.minor == c.k[1], "version", "{name}: version {}.{} from secret {}", ver.major, ver.minor, hex(&c.k)); }
            if rv != CKR_OK { ensure!(ver.major == 0xa5 && ver.minor == 0x5a, "version", "{name}: failed ({}) and wrote the version", rvname(rv)); }
            cx.hit(&format!("{name}{}", if *dh { "_DH" } else { "" }));
            judge(&p, s, cx, &sh, want, ext && matches!(&c.t, Tls::Extended { hash, .. } if hash.is_empty()), None, before, rv, o, &format!("{name} (DH {dh}) {}", t.name))
        }
        Tls::Kdf { old, label, ctx } => {
            m.raw_mut().mechanism = if *old { CKM_TLS12_KDF } else { CKM_TLS_KDF };
            let (lp, ll) = m.keep(label);
            let (xp, xl) = m.keep(ctx);
            m.set(CK_TLS_KDF_PARAMS { prfMechanism: t.ckm, pLabel: lp, ulLabelLength: ll, RandomInfo: ri, pContextData: xp, ulContextDataLength: xl });
            let n = sh.len.and_then(|_| sh.keylen(usize::MAX));
            let want = n.filter(|_| rok && !label.is_empty()).map(|n| kdf::tls12(t.h, &c.k, label, &[&c.cr[..], &c.sr, ctx].concat(), n));
            // the standard wants a length; one the key type has may do
            let want = if sh.len.is_none() && matches!(sh.kt, Kt::Mac(_)) { return Ok(()) } else { want };
            let (rv, o) = p.derive(s, &m, b, &sh.tmpl());
            cx.hit("TLS_KDF");
            judge(&p, s, cx, &sh, want, false, None, before, rv, o, &format!("TLS_KDF {}", t.name))
        }
        Tls::Keys { safe, mac, key, iv } => {
            m.raw_mut().mechanism = if *safe { CKM_TLS12_KEY_SAFE_DERIVE } else { CKM_TLS12_KEY_AND_MAC_DERIVE };
            let (mut civ, mut siv) = (vec![0x5au8; *iv as usize + 8], vec![0x5au8; *iv as usize + 8]);
            let mut out = Box::new(CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: civ.as_mut_ptr(), pIVServer: siv.as_mut_ptr() });
            m.set(CK_TLS12_KEY_MAT_PARAMS { ulMacSizeInBits: *mac as CK_ULONG * 8, ulKeySizeInBits: *key as CK_ULONG * 8, ulIVSizeInBits: *iv as CK_ULONG * 8, bIsExport: 0, RandomInfo: ri, pReturnedKeyMaterial: &mut *out, prfHashMechanism: t.ckm });
            if let Kt::Mac(_) = sh.kt { sh.kt = Kt::Generic; }
            let kl = if *key == 0 { 48 } else { *key as usize };
            sh.len = if c.k[0] % 4 == 0 { Some(kl as u16) } else if c.k[0] % 16 == 1 { sh.len } else { None };
            let ivn = if *safe { 0 } else { *iv as usize };
            let ml = *mac as usize;
            let mut ok = rok && sh.len.is_none_or(|l| l as usize == kl) && sh.sens != Some(true) && sh.extr != Some(false) && (sh.kt != Kt::Aes || matches!(kl, 16 | 24 | 32));
            if c.k.len() < 2 { ok = false; }
            let rv = F!(p.C_DeriveKey(s, m.ptr(), b, CT::new(&sh.tmpl()).ptr(), sh.tmpl().len() as CK_ULONG, std::ptr::null_mut()));
            let what = format!("{} {} mac {ml} key {key} iv {iv}", if *safe { "TLS12_KEY_SAFE_DERIVE" } else { "TLS12_KEY_AND_MAC_DERIVE" }, t.name);
            cx.hit(what.split(' ').next().unwrap());
            if !ok {
                ensure!(rv != CKR_OK, "accepted", "{what} succeeded with {sh:?}");
                ensure!(count(&p, s) == before, "leftover", "{what} failed and left an object");
                return Ok(());
            }
            ensure!(rv == CKR_OK, "refused", "{what} with {sh:?}: {}", rvname(rv));
            let kb = kdf::tls12(t.h, &c.k, b"key expansion", &[&c.sr[..], &c.cr].concat(), 2 * (ml + kl + ivn));
            let mut pos = 0;
            let mut n = 0;
            for (name, h, l, ckk) in [("client MAC key", out.hClientMacSecret, ml, CKK_GENERIC_SECRET), ("server MAC key", out.hServerMacSecret, ml, CKK_GENERIC_SECRET), ("client key", out.hClientKey, kl, sh.ckk()), ("server key", out.hServerKey, kl, sh.ckk())] {
                if l == 0 { ensure!(h == 0, "handle", "{what}: handle for an absent {name}"); continue; }
                let w = &kb[pos..pos + l];
                pos += l;
                n += 1;
                ensure!(p.get_ulong(s, h, CKA_KEY_TYPE) == Ok(ckk) && p.get_ulong(s, h, CKA_VALUE_LEN) == Ok(l as u64), "shape", "{what}: {name} has type {:?} length {:?}", p.get_ulong(s, h, CKA_KEY_TYPE), p.get_ulong(s, h, CKA_VALUE_LEN));
                check_value(&p, s, h, ckk, w, &format!("{what}: {name}"))?;
            }
            ensure!(civ[..ivn] == kb[pos..pos + ivn] && siv[..ivn] == kb[pos + ivn..], "iv", "{what}: IVs {} {} instead of {}", hex(&civ[..ivn]), hex(&siv[..ivn]), hex(&kb[pos..]));
            ensure!(civ[ivn..].iter().chain(&siv[ivn..]).all(|b| *b == 0x5a), "overrun", "{what}: wrote past the IV");
            ensure!(count(&p, s) == before + n, "leftover", "{what}: {} objects", count(&p, s) - before);
            cx.nt();
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- SSH
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ssh { h: u8, letter: u8, k: Hx, hash: Hx, sid: Hx, sh: Shape }
fn sshs() -> BoxedStrategy<Ssh> {
    (0u8..11, prop_oneof![12 => b'A'..=b'F', 1 => any::<u8>()], hx(1..=150usize), hx(1..=70usize), hx(1..=70usize), shape()).prop_map(|(h, letter, k, hash, sid, sh)| Ssh { h, letter, k, hash, sid, sh }).boxed()
}
fn run_ssh(c: &Ssh, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    let b = base(&p, s, CKK_GENERIC_SECRET, &c.k, &Base { sens: true, extr: false });
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    let mut m = Mech::new(KRM_SSHKDF_DERIVE);
    let (hp, hl) = m.keep(&c.hash);
    let (sp, sl) = m.keep(&c.sid);
    m.set(KR_SSHKDF_PARAMS { prfHashMechanism: t.ckm, derivedKeyType: c.letter, pExchangeHash: hp, ulExchangeHashLen: hl, pSessionId: sp, ulSessionIdLen: sl });
    let lok = (b'A'..=b'F').contains(&c.letter);
    let before = count(&p, s);
    let what = format!("SSHKDF {} {}", t.name, c.letter as char);
    cx.hit(&format!("SSHKDF {}", if lok { c.letter as char } else { '?' }));
    if c.letter == b'A' || c.letter == b'B' {
        let mut tt = tm! { CKA_CLASS => CKO_DATA };
        if let Some(l) = sh.len { tt.extend(tm! { CKA_VALUE_LEN => l as u64 }); }
        let (rv, o) = p.derive(s, &m, b, &tt);
        match sh.len {
            None | Some(0) => { ensure!(rv != CKR_OK, "accepted", "{what} without a length succeeded"); ensure!(count(&p, s) == before, "leftover", "{what} failed and left an object"); }
            Some(l) => {
                let w = kdf::ssh(t.h, &c.k, &c.hash, &c.sid, c.letter, l as usize);
                ensure!(rv == CKR_OK, "refused", "{what} of {l}: {}", rvname(rv));
                let v = p.get1(s, o, CKA_VALUE);
                ensure!(v.as_deref() == Ok(&w[..]), "value", "{what}: {:?} instead of {}", v.map(|v| hex(&v)), hex(&w));
                cx.nt();
            }
        }
        return Ok(());
    }
    if sh.len.is_none() && matches!(sh.kt, Kt::Mac(_)) { return Ok(()); }
    let want = sh.len.and_then(|_| sh.keylen(usize::MAX)).filter(|_| lok).map(|n| kdf::ssh(t.h, &c.k, &c.hash, &c.sid, c.letter, n));
    let (rv, o) = p.derive(s, &m, b, &sh.tmpl());
    judge(&p, s, cx, &sh, want, false, None, before, rv, o, &what)
}

pub fn prop() -> Prop {
    Prop {
        id: "C17", level: "exploration", workers: 8, hang_s: 60,
        rule: "derivations of every mechanism with generated base keys, parameters and templates; the key value (read, or digested or used when it is protected), class, type, length and protection compared with an independent implementation, refusals checked to leave no object; non-trivial: a derived value was compared",
        assumptions: &["a derived HMAC key of another size than its hash may be refused", "an AES data-encryption derivation may refuse a length other than that of the data", "HKDF extraction alone may refuse a length other than that of the hash; a default length for a key type with its own sizes may be refused", "EXTRACT_KEY_FROM_KEY with an offset past the key may be refused or wrap around"],
        groups: vec![gen_("simple", 40000, 1200000, simples, run_simple), gen_("hkdf", 30000, 900000, hkdfs, run_hkdf), gen_("pbkdf2", 20000, 500000, pbs, run_pb), gen_("sp800-108", 30000, 900000, sps, run_sp), gen_("tls", 30000, 900000, tlss, run_tls), gen_("ssh", 20000, 600000, sshs, run_ssh)],
    }
}
