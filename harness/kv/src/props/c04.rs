//! C04: secret bytes of sensitive or unextractable keys never cross the API.
use super::c05::{Act, Kk, Mx};
use super::c15::curves;
use super::c18::{dh_priv_tmpl, groups, mont_oid};
use super::c19::Target;
use crate::crypt::*;
use crate::objmodel::bytes_of;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::rsakeys::KEYS;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::ptr::null_mut;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kd { Aes, Generic(u8), Mac(u8), Hkdf, Hotp, Rsa(u8, bool), Ec(u8), Mont(bool), Dh }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum From { Create, Generate, Unwrap, Derive }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style { Exact, Big, Tiny, SizeOnly }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// read attributes, in this order
    Get(u8, Vec<u8>, Style),
    Set(u8, Vec<u8>), Copy(u8, Vec<u8>), Find(u8, u8, u8), Wrap(u8, u8, bool), Derive(u8, u8, u8, bool), Use(u8, u8), Restart, Again,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { kind: Kd, from: From, seed: u8, sens: Option<bool>, extr: Option<bool>, token: bool, private: bool, nss: bool, steps: Vec<Step> }

const SEC_ALL: [u64; 7] = [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];
impl Kd {
    fn secret(self) -> bool { matches!(self, Kd::Aes | Kd::Generic(_) | Kd::Mac(_) | Kd::Hkdf | Kd::Hotp) }
    fn nss(self) -> bool { !matches!(self, Kd::Hkdf | Kd::Hotp | Kd::Dh) }
    fn kk(self) -> Kk { match self { Kd::Aes => Kk::Aes, Kd::Generic(_) => Kk::Generic, Kd::Mac(i) => Kk::Mac(i), Kd::Hkdf => Kk::Hkdf, Kd::Hotp => Kk::Hotp, Kd::Rsa(..) => Kk::RsaPriv, Kd::Ec(_) => Kk::EcPriv, Kd::Mont(_) => Kk::MontPriv, Kd::Dh => Kk::DhPriv } }
    fn class(self) -> u64 { match self { Kd::Hotp => CKO_OTP_KEY, k if k.secret() => CKO_SECRET_KEY, _ => CKO_PRIVATE_KEY } }
    fn ckk(self) -> u64 { match self { Kd::Aes => CKK_AES, Kd::Generic(_) => CKK_GENERIC_SECRET, Kd::Mac(i) => HT[i as usize].kt, Kd::Hkdf => CKK_HKDF, Kd::Hotp => CKK_HOTP, Kd::Rsa(..) => CKK_RSA, Kd::Ec(_) => CKK_EC, Kd::Mont(_) => CKK_EC_MONTGOMERY, Kd::Dh => CKK_DH } }
    fn size(self, seed: u8) -> usize { match self { Kd::Aes => [16, 24, 32][seed as usize % 3], Kd::Generic(n) => n as usize, Kd::Mac(i) => HT[i as usize].h.len(), Kd::Hkdf => 32, Kd::Hotp => 20, _ => 0 } }
    /// how the key may come into being
    fn froms(self) -> Vec<From> {
        match self { Kd::Dh => vec![From::Create, From::Generate], Kd::Hotp => vec![From::Create, From::Generate], k if k.secret() => vec![From::Create, From::Generate, From::Unwrap, From::Derive], _ => vec![From::Create, From::Create, From::Generate, From::Unwrap] }
    }
    fn secrets(self) -> &'static [u64] { if matches!(self, Kd::Rsa(..)) { &SEC_ALL[1..] } else { &SEC_ALL[..1] } }
    fn public(self) -> &'static [u64] {
        match self { Kd::Rsa(..) => &[CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_ALWAYS_AUTHENTICATE], Kd::Ec(_) | Kd::Mont(_) => &[CKA_EC_PARAMS], Kd::Dh => &[CKA_PRIME, CKA_BASE], _ => &[CKA_VALUE_LEN] }
    }
    /// what is asked for when reading
    fn list(self) -> Vec<u64> {
        let mut v = self.secrets().to_vec();
        v.extend(self.public());
        v.extend([CKA_CLASS, CKA_KEY_TYPE, CKA_LABEL, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_ID, CKA_LOCAL, CKA_UNIQUE_ID, CKA_TOKEN, CKA_PUBLIC_KEY_INFO, CKA_MODULUS_BITS, CKA_EC_POINT, CKA_CHECK_VALUE, CKA_VALUE]);
        v
    }
    /// imported key material
    fn material(self, seed: u8) -> Tmpl {
        match self {
            Kd::Rsa(i, crt) => rsa_priv_tmpl(&KEYS[i as usize], crt).into_iter().filter(|a| SEC_ALL.contains(&a.0) || matches!(a.0, CKA_MODULUS | CKA_PUBLIC_EXPONENT)).collect(),
            Kd::Ec(c) => { let cv = &curves()[c as usize]; tm! { CKA_EC_PARAMS => cv.oid.clone(), CKA_VALUE => ec_d(c, seed) } }
            Kd::Mont(x) => tm! { CKA_EC_PARAMS => mont_oid(x), CKA_VALUE => bytes_of(seed, if x { 56 } else { 32 }, b"c04m") },
            Kd::Dh => { let v = bytes_of(seed, 30, b"c04d"); dh_priv_tmpl(0, &v).into_iter().filter(|a| matches!(a.0, CKA_PRIME | CKA_BASE | CKA_VALUE)).collect() }
            _ => tm! { CKA_VALUE => bytes_of(seed, self.size(seed), b"c04") },
        }
    }
    fn encode(self, seed: u8) -> Vec<u8> {
        match self {
            Kd::Rsa(i, _) => Target::Rsa(i).encode(),
            Kd::Ec(c) => { let d = ec_d(c, seed); super::c19::pkcs8(&[&super::c19::EC_OID[..], &curves()[c as usize].oid].concat(), &super::c19::tlv(0x30, &[vec![2, 1, 1], super::c19::tlv(4, &d)].concat())) }
            Kd::Mont(x) => Target::Mont(x, Hx(bytes_of(seed, if x { 56 } else { 32 }, b"c04m"))).encode(),
            k => bytes_of(seed, k.size(seed), b"c04"),
        }
    }
}
fn ec_d(c: u8, seed: u8) -> Vec<u8> { use refc::rsa::*; let cv = &curves()[c as usize]; i2osp(&(os2ip(&bytes_of(seed, 66, b"c04e")[..cv.flen()]) % (&cv.n - 1u8) + 1u8), cv.flen()) }

fn cases() -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        3 => Just(Kd::Aes), 4 => (9u8..100).prop_map(Kd::Generic), 2 => (0u8..11).prop_map(Kd::Mac), 1 => Just(Kd::Hkdf), 1 => Just(Kd::Hotp),
        4 => (0u8..3, prop::bool::weighted(0.8)).prop_map(|(i, c)| Kd::Rsa(i, c)), 3 => (0u8..3).prop_map(Kd::Ec), 2 => any::<bool>().prop_map(Kd::Mont), 2 => Just(Kd::Dh)];
    let st = prop_oneof![3 => Just(Style::Exact), 3 => Just(Style::Big), 1 => Just(Style::Tiny), 1 => Just(Style::SizeOnly)];
    let l = |n| prop::collection::vec(any::<u8>(), 1..n);
    let step = prop_oneof![
        6 => (any::<u8>(), l(8), st).prop_map(|(o, l, s)| Step::Get(o, l, s)), 4 => (any::<u8>(), l(4)).prop_map(|(o, l)| Step::Set(o, l)), 4 => (any::<u8>(), prop::collection::vec(any::<u8>(), 0..5)).prop_map(|(o, l)| Step::Copy(o, l)),
        2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(o, a, x)| Step::Find(o, a, x)), 3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(o, m, x)| Step::Wrap(o, m, x)), 5 => (any::<u8>(), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(o, m, t, x)| Step::Derive(o, m, t, x)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(o, m)| Step::Use(o, m)), 1 => Just(Step::Restart), 1 => Just(Step::Again)];
    let ob = |w: f64| prop_oneof![4 => prop::bool::weighted(w).prop_map(Some), 1 => Just(None)];
    (kind, any::<prop::sample::Index>(), any::<u8>(), (ob(0.6), ob(0.6)), (any::<bool>(), any::<bool>(), prop::bool::weighted(0.3)), prop::collection::vec(step, 3..16))
        .prop_map(|(kind, f, seed, (sens, extr), (token, private, nss), steps)| { let nss = nss && kind.nss(); Case { kind, from: *f.get(&kind.froms()), seed, sens, extr, token: token || nss, private: private || nss, nss, steps } }).boxed()
}

struct O { h: Obj, tainted: bool, kind: Kd, known: Option<Tmpl>, derived: bool }
struct W { p: P, s: Sess, objs: Vec<O>, helper: Obj, rsapub: Obj, base: Obj, other: Obj, watch: watch::Windows, log: String }
const HELPER: [u8; 32] = *b"c04 helper key: 32 bytes of it!!";
const KWPIV: [u8; 4] = [0xa6, 0x59, 0x59, 0xa6];
const BASE: [u8; 128] = [0x3d; 128];

impl W {
    fn helpers(&mut self) {
        let (p, s) = (&self.p, self.s);
        self.helper = must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => HELPER.to_vec(), CKA_TOKEN => false, CKA_WRAP => true, CKA_UNWRAP => true, CKA_DECRYPT => true, CKA_ENCRYPT => true }, "helper");
        let mut t = rsa_pub_tmpl(&KEYS[6]);
        for (a, v) in [(CKA_TOKEN, false), (CKA_WRAP, true)] { tset(&mut t, a, v); }
        self.rsapub = must(p, s, &t, "RSA helper");
        let mk = |v: &[u8]| must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => v, CKA_TOKEN => false, CKA_DERIVE => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true }, "base");
        self.base = mk(&BASE);
        self.other = mk(&[0x41; 24]);
    }
    fn flags(&self, h: Obj) -> R<bool> {
        let (s, e) = (self.p.get_bool(self.s, h, CKA_SENSITIVE), self.p.get_bool(self.s, h, CKA_EXTRACTABLE));
        let (Ok(s), Ok(e)) = (s, e) else { return viol("flags", format!("reading CKA_SENSITIVE and CKA_EXTRACTABLE of object {h}: {s:?} {e:?} ({})", self.log)) };
        Ok(s || !e)
    }
    /// watch once no copy is readable any more
    fn arm(&self) { if !self.objs.is_empty() && self.objs.iter().all(|o| o.tainted) { if !watch::armed() { watch::arm(self.watch.clone()); } } }
    fn leak(&self, at: &str) -> R { match watch::leak() { Some(x) => viol("leak", format!("{at}: bytes {x} of a protected key came out ({})", self.log)), None => Ok(()) } }
    /// every object is what it should be
    fn settle(&mut self, at: &str, cx: &mut Cx) -> R {
        self.leak(at)?;
        for i in 0..self.objs.len() {
            let f = self.flags(self.objs[i].h)?;
            if self.objs[i].tainted { ensure!(f, "unprotected", "{at}: the protected key {} is now neither sensitive nor unextractable ({})", self.objs[i].h, self.log); }
            if f && !self.objs[i].tainted { self.objs[i].tainted = true; cx.hit("protected later"); }
        }
        self.arm();
        Ok(())
    }
    /// no secret attribute can be read
    fn closed(&self, i: usize, at: &str, cx: &mut Cx) -> R {
        let o = &self.objs[i];
        for a in o.kind.secrets() {
            match self.p.get1(self.s, o.h, *a) {
                Ok(v) if o.tainted => ensure!(false, "readable", "{at}: attribute {a:#x} of a protected {:?} is {} ({})", o.kind, hex(&v), self.log),
                Err(rv) if !o.tainted && o.known.as_ref().is_some_and(|k| tget(k, *a).is_some()) => ensure!(false, "unreadable", "{at}: attribute {a:#x} of a {:?} that is extractable and not sensitive: {} ({})", o.kind, rvname(rv), self.log),
                Ok(v) => if let Some(w) = o.known.as_ref().and_then(|k| tget(k, *a)) { let w = w.bytes(); let z = |v: &[u8]| v.iter().position(|b| *b != 0).map_or(vec![], |i| v[i..].to_vec()); ensure!(z(&v) == z(&w), "value", "{at}: attribute {a:#x} of a {:?} is {} instead of {} ({})", o.kind, hex(&v), hex(&w), self.log); cx.hit("readable key reads back"); },
                Err(rv) => { if o.tainted { ensure!(rv == CKR_ATTRIBUTE_SENSITIVE || rv == CKR_ATTRIBUTE_TYPE_INVALID, "code", "{at}: attribute {a:#x} of a protected {:?}: {} ({})", o.kind, rvname(rv), self.log); cx.hit(&format!("unreadable {a:#x}")); } }
            }
        }
        self.leak(at)
    }
    fn get(&self, i: usize, l: &[u8], st: Style, at: &str, cx: &mut Cx) -> R {
        let o = &self.objs[i];
        let all = o.kind.list();
        let types: Vec<u64> = l.iter().map(|x| all[*x as usize % all.len()]).collect();
        // one by one
        let single: Vec<Result<Vec<u8>, Rv>> = types.iter().map(|t| self.p.get1(self.s, o.h, *t)).collect();
        let mut a: Vec<CK_ATTRIBUTE> = types.iter().map(|t| CK_ATTRIBUTE { type_: *t, pValue: null_mut(), ulValueLen: 0 }).collect();
        let mut b: Vec<GBuf> = single.iter().map(|v| GBuf::new(match (st, v) { (Style::Big, _) => 3000, (Style::Tiny, Ok(v)) => v.len().saturating_sub(1), (Style::Exact, Ok(v)) => v.len(), (Style::Exact, _) => 64, (Style::Tiny, _) => 3, _ => 0 })).collect();
        let caps: Vec<usize> = single.iter().map(|v| match (st, v) { (Style::Big, _) => 3000, (Style::Tiny, Ok(v)) => v.len().saturating_sub(1), (Style::Exact, Ok(v)) => v.len(), (Style::Exact, _) => 64, (Style::Tiny, _) => 3, _ => 0 }).collect();
        if st != Style::SizeOnly { for ((x, y), c) in a.iter_mut().zip(b.iter_mut()).zip(&caps) { x.pValue = y.ptr() as *mut _; x.ulValueLen = *c as CK_ULONG; } }
        let p = &self.p;
        let s = self.s;
        let h = o.h;
        let rv = F!(p.C_GetAttributeValue(s, h, a.as_mut_ptr(), a.len() as CK_ULONG));
        let mut want = BTreeSet::new();
        let what = format!("{at}: reading {types:x?} of a {:?} ({st:?}): {}", o.kind, rvname(rv));
        for (j, t) in types.iter().enumerate() {
            b[j].check();
            let n = a[j].ulValueLen;
            match &single[j] {
                Err(e) => {
                    want.insert(*e);
                    ensure!(n == CK_UNAVAILABLE_INFORMATION, "length", "{what}: attribute {t:#x} alone gives {}, here its length is {n} ({})", rvname(*e), self.log);
                    ensure!(b[j].untouched(), "touched", "{what}: attribute {t:#x} alone gives {}, here its buffer was written ({})", rvname(*e), self.log);
                }
                Ok(v) => {
                    if st == Style::Tiny && !v.is_empty() { want.insert(CKR_BUFFER_TOO_SMALL); ensure!(n == CK_UNAVAILABLE_INFORMATION, "length", "{what}: attribute {t:#x} has length {n} in a buffer that is too small ({})", self.log); continue; }
                    ensure!(n as usize == v.len(), "length", "{what}: attribute {t:#x} has length {n} instead of {} ({})", v.len(), self.log);
                    if st != Style::SizeOnly { ensure!(b[j].data(v.len()) == *v, "mixed", "{what}: attribute {t:#x} differs from its value alone ({})", self.log); }
                    if !want.is_empty() { cx.hit("answered beside a refused one"); }
                }
            }
        }
        if want.is_empty() { ensure!(rv == CKR_OK, "code", "{what} ({})", self.log); } else { ensure!(want.contains(&rv), "code", "{what} but the single reads give {want:x?} ({})", self.log); }
        if want.contains(&CKR_ATTRIBUTE_SENSITIVE) { cx.hit(&format!("mixed query with a secret, {st:?}")); }
        self.leak(at)
    }
    fn tmpl(&self, i: usize, l: &[u8]) -> Tmpl {
        let o = &self.objs[i];
        let mut t: Tmpl = vec![];
        for x in l {
            let (a, v): Attr = match x % 15 {
                0 | 1 => (CKA_SENSITIVE, V::B(false)), 2 | 3 => (CKA_EXTRACTABLE, V::B(true)), 4 => (CKA_SENSITIVE, V::B(true)), 5 => (CKA_EXTRACTABLE, V::B(false)),
                6 => (CKA_CLASS, V::U(CKO_DATA)), 7 => (CKA_KEY_TYPE, V::U(CKK_GENERIC_SECRET)), 8 => (CKA_TOKEN, V::B(x & 64 == 0)), 9 => (CKA_PRIVATE, V::B(x & 64 == 0)), 10 => (CKA_LABEL, V::from("new label")),
                11 => (CKA_ALWAYS_SENSITIVE, V::B(false)), 12 => (CKA_NEVER_EXTRACTABLE, V::B(false)), 13 => (CKA_ID, V::X(vec![*x; 9])),
                _ => match o.known.as_ref().and_then(|k| { let s = o.kind.secrets(); let a = s[*x as usize / 15 % s.len()]; tget(k, a).map(|v| (a, V::X(v.bytes()))) }) { Some(x) => x, None => (CKA_LABEL, V::from("x")) },
            };
            tset(&mut t, a, v);
        }
        t
    }
}

fn gen_mech(k: Kd) -> u64 { match k { Kd::Aes => CKM_AES_KEY_GEN, Kd::Generic(_) => CKM_GENERIC_SECRET_KEY_GEN, Kd::Mac(i) => HT[i as usize].keygen, Kd::Hkdf => CKM_HKDF_KEY_GEN, Kd::Hotp => CKM_HOTP_KEY_GEN, Kd::Rsa(..) => CKM_RSA_PKCS_KEY_PAIR_GEN, Kd::Ec(_) => CKM_EC_KEY_PAIR_GEN, Kd::Mont(_) => CKM_EC_MONTGOMERY_KEY_PAIR_GEN, Kd::Dh => CKM_DH_PKCS_KEY_PAIR_GEN } }

fn run(c: &Case, cx: &mut Cx) -> R { watch::disarm(); let r = go(c, cx); watch::disarm(); r }
fn go(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let s = t.user();
    let mut w = W { p: t.p, s, objs: vec![], helper: 0, rsapub: 0, base: 0, other: 0, watch: Default::default(), log: format!("{c:?}") };
    w.helpers();
    let p = &t.p;
    let k = c.kind;
    // ---- the key
    let mut x = tm! { CKA_TOKEN => c.token, CKA_PRIVATE => c.private };
    if let Some(v) = c.sens { tset(&mut x, CKA_SENSITIVE, v); }
    if let Some(v) = c.extr { tset(&mut x, CKA_EXTRACTABLE, v); }
    for a in k.kk().flags() { tset(&mut x, *a, true); }
    let mut mat = k.material(c.seed);
    let mut known = Some(mat.clone());
    let (rv, h) = match c.from {
        From::Create => { x.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() }); x.extend(mat.clone()); p.create(s, &x) }
        From::Unwrap => { x.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() }); let b = refc::aes::kwp(&HELPER, &KWPIV, &k.encode(c.seed)); p.unwrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), w.helper, &b, &x) }
        From::Derive => {
            let v = tget(&mat, CKA_VALUE).unwrap().bytes();
            let n = v.len() as u64;
            x.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk(), CKA_VALUE_LEN => n });
            let mut m = Mech::new(CKM_XOR_BASE_AND_DATA);
            let d: Vec<u8> = v.iter().map(|b| b ^ BASE[0]).collect();
            let (q, l) = m.keep(&d);
            m.set(CK_KEY_DERIVATION_STRING_DATA { pData: q, ulLen: l });
            p.derive(s, &m, w.base, &x)
        }
        From::Generate => {
            known = None;
            x.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() });
            let m = Mech::new(gen_mech(k));
            if k.secret() {
                if k == Kd::Hotp { x.extend(tm! { CKA_VALUE_LEN => 20u64 }); } else { x.extend(tm! { CKA_VALUE_LEN => k.size(c.seed) as u64 }); }
                p.genkey(s, &m, &x)
            } else {
                let mut pt = tm! { CKA_TOKEN => false };
                match k { Kd::Rsa(..) => pt.extend(tm! { CKA_MODULUS_BITS => 1024u64 }), Kd::Ec(i) => pt.extend(tm! { CKA_EC_PARAMS => curves()[i as usize].oid.clone() }), Kd::Mont(i) => pt.extend(tm! { CKA_EC_PARAMS => mont_oid(i) }), _ => pt.extend(tm! { CKA_PRIME => groups()[0].p.to_bytes_be(), CKA_BASE => vec![2u8] }) }
                let (rv, pu, pr) = p.genpair(s, &m, &pt, &x);
                if rv == CKR_OK {
                    // the public half holds nothing of it, checked below
                    w.watch = Default::default();
                    let _ = pu;
                }
                (rv, pr)
            }
        }
    };
    ensure!(rv == CKR_OK, "make", "{c:?}: {}", rvname(rv));
    cx.hit(&format!("{:?}{}", c.from, if c.nss { " (NSS)" } else { "" }));
    // ---- its secret bytes
    if c.from == From::Generate && p.get_bool(s, h, CKA_EXTRACTABLE) == Ok(true) && !matches!(k, Kd::Dh | Kd::Hotp) {
        let (rv, b) = p.wrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), w.helper, h);
        ensure!(rv == CKR_OK, "wrap", "wrapping an extractable {k:?}: {} ({c:?})", rvname(rv));
        let Some(v) = refc::aes::kwp_dec(&HELPER, &KWPIV, &b) else { return viol("wrap", format!("the wrapped key is malformed ({c:?})")) };
        let mut win = watch::windows(&v);
        if k.secret() { known = Some(tm! { CKA_VALUE => v.clone() }); }
        // but for what is public: the modulus and such, the point, the algorithm
        for a in [CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_EC_PARAMS] { if let Ok(v) = p.get1(s, h, a) { for x in watch::windows(&[&v[..], &[2, 3, 1, 0, 1, 2]].concat()) { win.remove(&x); } } }
        for o in p.find(s, &tm! { CKA_CLASS => CKO_PUBLIC_KEY }).1 { for a in [CKA_EC_POINT, CKA_MODULUS] { if let Ok(v) = p.get1(s, o, a) { for x in watch::windows(&v) { win.remove(&x); } } } }
        if !k.secret() {
            // the shared header
            let n = v.len().min(40);
            let keep = match k { Kd::Rsa(..) => watch::windows(&v[v.len() / 3..]), _ => watch::windows(&v[n.min(30)..]) };
            win.retain(|x| keep.contains(x));
        }
        w.watch = win;
    } else if c.from != From::Generate {
        if matches!(c.from, From::Unwrap) { if let Kd::Rsa(i, _) = k { mat = Kd::Rsa(i, true).material(0); known = Some(mat.clone()); } }
        for a in k.secrets() { if let Some(v) = tget(&mat, *a) { w.watch.extend(watch::windows(&v.bytes())); } }
    }
    let prot = w.flags(h)?;
    if c.from == From::Generate && !prot {
        // readable so far
        let l: Tmpl = k.secrets().iter().filter_map(|a| p.get1(s, h, *a).ok().map(|v| (*a, V::X(v)))).collect();
        ensure!(l.len() == k.secrets().len(), "unreadable", "a generated {k:?} that is extractable and not sensitive shows {} of {} secrets ({c:?})", l.len(), k.secrets().len());
        for a in &l { w.watch.extend(watch::windows(&a.1.bytes())); }
        known = Some(l);
    }
    if c.sens == Some(true) || c.extr == Some(false) { ensure!(prot, "flags", "the key is neither sensitive nor unextractable: {c:?}"); }
    w.objs.push(O { h, tainted: prot, kind: k, known, derived: false });
    w.arm();
    if prot { cx.hit(&format!("{k:?}").split('(').next().unwrap().to_string()); cx.nt(); }
    w.closed(0, "at first", cx)?;
    // ---- attempts
    for (n, st) in c.steps.iter().enumerate() {
        if w.objs.is_empty() { break; }
        let at = format!("step {n} {st:?}");
        let ix = |o: &u8| *o as usize % w.objs.len();
        match st {
            Step::Get(o, l, sty) => w.get(ix(o), l, *sty, &at, cx)?,
            Step::Again => for i in 0..w.objs.len() { w.closed(i, &at, cx)?; },
            Step::Set(o, l) => {
                let i = ix(o);
                let t = w.tmpl(i, l);
                let rv = w.p.set(w.s, w.objs[i].h, &t);
                let bad = w.objs[i].tainted && (tget(&t, CKA_SENSITIVE).is_some_and(|v| v.bytes() == [0]) && w.p.get_bool(w.s, w.objs[i].h, CKA_SENSITIVE) == Ok(true) || tget(&t, CKA_EXTRACTABLE).is_some_and(|v| v.bytes() == [1]) && w.p.get_bool(w.s, w.objs[i].h, CKA_EXTRACTABLE) == Ok(false));
                if bad { ensure!(rv != CKR_OK, "set", "{at}: taking the protection away from a key succeeded: {t:x?} ({})", w.log); cx.hit("set refused"); }
                w.settle(&at, cx)?;
                w.closed(i, &at, cx)?;
            }
            Step::Copy(o, l) => {
                let i = ix(o);
                let t = w.tmpl(i, l);
                let before = w.flags(w.objs[i].h)?;
                let (rv, h) = w.p.copy(w.s, w.objs[i].h, &t);
                if rv == CKR_OK {
                    let f = if w.p.get_ulong(w.s, h, CKA_CLASS) == Ok(k.class()) { w.flags(h)? } else { false };
                    if before { ensure!(f, "copy", "{at}: the copy of a protected key is neither sensitive nor unextractable: {t:x?} ({})", w.log); cx.hit("copy of a protected key"); }
                    let (kind, known, derived) = (w.objs[i].kind, w.objs[i].known.clone(), w.objs[i].derived);
                    w.objs.push(O { h, tainted: f || before, kind, known, derived });
                    let j = w.objs.len() - 1;
                    w.settle(&at, cx)?;
                    w.closed(j, &at, cx)?;
                } else { cx.hit("copy refused"); }
            }
            Step::Find(o, a, x) => {
                let i = ix(o);
                let ob = &w.objs[i];
                let Some(kn) = &ob.known else { continue };
                let a = ob.kind.secrets()[*a as usize % ob.kind.secrets().len()];
                let Some(v) = tget(kn, a) else { continue };
                let mut t: Tmpl = vec![(a, V::X(v.bytes()))];
                if x & 1 == 1 { t.insert(0, (CKA_CLASS, V::U(k.class()))); }
                if x & 2 == 2 { t.push((CKA_TOKEN, V::B(c.token))); }
                let (rv, l) = w.p.find(w.s, &t);
                for o in &w.objs { if o.tainted { ensure!(!l.contains(&o.h), "search", "{at}: a search for the value of attribute {a:#x} finds a protected key ({})", w.log); } }
                cx.hit(if rv == CKR_OK { "search on a secret: nothing" } else { "search on a secret: refused" });
                if rv == CKR_OK && !ob.tainted && !ob.derived && !c.nss && matches!(ob.kind, Kd::Aes | Kd::Generic(_)) { ensure!(l.contains(&ob.h), "search-readable", "{at}: a search for the value of a readable key does not find it ({})", w.log); cx.hit("search on a readable value"); }
            }
            Step::Wrap(o, m, q) => {
                let i = ix(o);
                let ob = &w.objs[i];
                const WM: [Mode; 9] = [Mode::Ecb, Mode::Cbc, Mode::CbcPad, Mode::Ctr, Mode::Cts, Mode::Gcm, Mode::Ccm, Mode::Kw, Mode::Kwp];
                let (m, wk) = match *m as usize % 12 { 9 => (Mech::new(CKM_RSA_PKCS), w.rsapub), 10 => (RsaEnc::Pkcs.mech(), w.rsapub), 11 => (Mech::new(CKM_RSA_X_509), w.rsapub), j => (Mx::ciph(WM[j]).mech(64), w.helper) };
                let extr = w.p.get_bool(w.s, ob.h, CKA_EXTRACTABLE) == Ok(true);
                let (rv, sz) = if *q {
                    let (p, s, h) = (&w.p, w.s, ob.h);
                    let mut l: CK_ULONG = 0;
                    (F!(p.C_WrapKey(s, m.ptr(), wk, h, null_mut(), &mut l)), l)
                } else {
                    let (p, s, h) = (&w.p, w.s, ob.h);
                    let mut b = GBuf::new(4096);
                    let mut l: CK_ULONG = 4096;
                    let rv = F!(p.C_WrapKey(s, m.ptr(), wk, h, b.ptr(), &mut l));
                    b.check();
                    if !extr { ensure!(b.untouched(), "wrap-touched", "{at}: {} but the buffer was written ({})", rvname(rv), w.log); }
                    (rv, l)
                };
                if !extr { ensure!(rv != CKR_OK, "wrapped", "{at}: an unextractable {:?} was wrapped with {:#x} (length {sz}) ({})", ob.kind, m.typ(), w.log); cx.hit("wrap refused"); }
                else if rv == CKR_OK { cx.hit("wrapped an extractable key"); }
                w.leak(&at)?;
            }
            Step::Derive(o, m, tt, second) => {
                let i = ix(o);
                let kk = w.objs[i].kind.kk();
                let dv: Vec<Mx> = super::c05::table().iter().filter(|(m, a)| *a == Act::Derive && (m.fits(*a).contains(&kk) || *m == Mx::ConKey2 && w.objs[i].kind.secret())).map(|x| x.0).collect();
                if dv.is_empty() { continue; }
                // the mechanisms that expose bytes come first
                let exp: Vec<Mx> = dv.iter().copied().filter(|m| matches!(m, Mx::ConKey | Mx::ConKey2 | Mx::ConData | Mx::DataCon | Mx::Xor | Mx::Extract)).collect();
                let mx = if *second && !exp.is_empty() { exp[*m as usize % exp.len()] } else { dv[*m as usize % dv.len()] };
                let expose = exp.contains(&mx);
                let h = w.objs[i].h;
                let mech = if mx == Mx::Extract { let mut q = Mech::new(CKM_EXTRACT_KEY_FROM_KEY); q.set((*m as u64 / 16) * 8); q } else { mx.mech(kk, h, h) };
                // the other key comes from the same token
                let mech = if mx == Mx::ConKey { let mut q = Mech::new(CKM_CONCATENATE_BASE_AND_KEY); q.set(w.other); q } else { mech };
                let base = if mx == Mx::ConKey2 { w.other } else { h };
                let mut t = match mx {
                    Mx::PubPriv => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_TOKEN => false },
                    Mx::Hkdf(true) | Mx::HkdfSalt if tt & 1 == 1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 16u64 },
                    _ => match tt % 5 { 0 => tm! { CKA_CLASS => CKO_DATA, CKA_TOKEN => false }, 1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE_LEN => 16u64 }, 2 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET }, _ => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 12u64 } },
                };
                if tget(&t, CKA_CLASS).is_some_and(|v| v.bytes() == CKO_SECRET_KEY.to_ne_bytes()) && tt & 32 == 0 { t.extend(tm! { CKA_SENSITIVE => false, CKA_EXTRACTABLE => true }); }
                let (rv, d) = w.p.derive(w.s, &mech, base, &t);
                if rv != CKR_OK { cx.hit("derive refused"); w.leak(&at)?; continue; }
                let class = w.p.get_ulong(w.s, d, CKA_CLASS).unwrap_or(0);
                // everything it shows
                let mut l = SEC_ALL.to_vec();
                l.extend([CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_EC_POINT, CKA_EC_PARAMS, CKA_LABEL, CKA_ID, CKA_PUBLIC_KEY_INFO]);
                for a in &l { let _ = w.p.get1(w.s, d, *a); }
                w.leak(&format!("{at}: reading the object derived with {mx:?}"))?;
                if expose && w.objs[i].tainted {
                    let f = class == CKO_SECRET_KEY && w.flags(d)?;
                    ensure!(f, "derived", "{at}: the key derived from a protected one with {mx:?} is neither sensitive nor unextractable ({})", w.log);
                    ensure!(w.p.get1(w.s, d, CKA_VALUE).is_err(), "derived", "{at}: the key derived from a protected one with {mx:?} can be read ({})", w.log);
                    cx.hit(&format!("{mx:?} of a protected key"));
                } else if !expose { cx.hit(&format!("derived: {}", format!("{mx:?}").split('(').next().unwrap())); }
                if expose && class == CKO_SECRET_KEY {
                    let f = w.flags(d)?;
                    let kt = w.p.get_ulong(w.s, d, CKA_KEY_TYPE).unwrap_or(0);
                    let tainted = f;
                    w.objs.push(O { h: d, tainted, kind: if kt == CKK_AES { Kd::Aes } else { Kd::Generic(12) }, known: None, derived: true });
                    w.settle(&at, cx)?;
                } else { w.p.destroy(w.s, d); }
            }
            Step::Use(o, m) => {
                let i = ix(o);
                let kk = w.objs[i].kind.kk();
                let l: Vec<(Mx, Act)> = super::c05::table().iter().filter(|(m, a)| matches!(a, Act::Enc | Act::Dec | Act::Sign) && m.fits(*a).contains(&kk)).copied().collect();
                if l.is_empty() { continue; }
                let (mx, a) = l[*m as usize % l.len()];
                let (p, s, h) = (&w.p, w.s, w.objs[i].h);
                let mech = mx.mech(kk, h, h);
                let data = vec![*m; [16, 20, 32, 64, 128][*m as usize % 5]];
                let ok = match a { Act::Enc => p.enc(s, &mech, h, &data).is_ok(), Act::Dec => p.dec(s, &mech, h, &data).is_ok(), _ => p.sig(s, &mech, h, &data).is_ok() };
                cx.hit(if ok { "used" } else { "use failed" });
                if matches!(kk, Kk::Aes | Kk::Generic) && m & 3 == 0 && p.digest_init(s, &Mech::new(CKM_SHA256)) == CKR_OK { p.digest_key(s, h); p.digest_final(s); cx.hit("digested"); }
                for f in [CKF_ENCRYPT, CKF_DECRYPT, CKF_SIGN] { p.cancel(s, f); }
                w.leak(&at)?;
            }
            Step::Restart => {
                let mut keep = vec![];
                for o in std::mem::take(&mut w.objs) { if w.p.get_bool(w.s, o.h, CKA_TOKEN) == Ok(true) { let u = w.p.get1(w.s, o.h, CKA_UNIQUE_ID); keep.push((u, o)); } }
                ensure!(t.restart() == CKR_OK, "restart", "{at}");
                w.s = t.user();
                w.helpers();
                for (u, mut o) in keep {
                    let Ok(u) = u else { return viol("uid", format!("{at}: no CKA_UNIQUE_ID ({})", w.log)) };
                    let (_, l) = w.p.find(w.s, &[(CKA_UNIQUE_ID, V::X(u))]);
                    ensure!(l.len() == 1, "restart", "{at}: a token key is found {} times after a restart ({})", l.len(), w.log);
                    o.h = l[0];
                    w.objs.push(o);
                }
                for i in 0..w.objs.len() { w.closed(i, &at, cx)?; }
                w.settle(&at, cx)?;
                if !w.objs.is_empty() { cx.hit("restarted"); }
            }
        }
        w.leak(&at)?;
    }
    for i in 0..w.objs.len() { w.closed(i, "at the end", cx)?; }
    if watch::armed() { cx.hit("watched"); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04", level: "exploration", workers: 8, hang_s: 60,
        rule: "cases whose key is sensitive or unextractable from the start",
        assumptions: &["keys derived with mechanisms that hash or encrypt the base key do not reveal it, so only their outputs are searched for its bytes", "secrets are recognised by any 8 consecutive bytes"],
        groups: vec![gen_("protected", 3000, 60000, cases, run)],
    }
}
