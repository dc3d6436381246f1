//! A reference model of the object store: which calls are allowed by the
//! attribute rules and what every object looks like afterwards.
#![allow(dead_code)]
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::props::c15::curves;
use crate::props::c18::mont_oid;
use crate::props::c19::Target;
use crate::rsakeys::KEYS;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const ALL: &[u64] = &[
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID, CKA_CERTIFICATE_TYPE, CKA_ISSUER,
    CKA_SERIAL_NUMBER, CKA_TRUSTED, CKA_CERTIFICATE_CATEGORY, CKA_URL, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID, CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT,
    CKA_WRAP, CKA_UNWRAP, CKA_SIGN, CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE, CKA_MODULUS,
    CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT,
    CKA_PUBLIC_KEY_INFO, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL, CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM,
    CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED,
    CKA_ALLOWED_MECHANISMS, CKA_HASH_OF_CERTIFICATE, CKA_NAME_HASH_ALGORITHM, CKA_ENCAPSULATE, CKA_DECAPSULATE,
    CKA_TRUST_SERVER_AUTH, CKA_TRUST_CLIENT_AUTH, CKA_HASH_OF_SUBJECT_PUBLIC_KEY,
];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { Bool, Num, Str, Bytes, Date, Mechs }
pub fn aty(a: u64) -> Ty {
    match a {
        CKA_TOKEN | CKA_PRIVATE | CKA_TRUSTED | CKA_SENSITIVE | CKA_ENCRYPT | CKA_DECRYPT | CKA_WRAP | CKA_UNWRAP | CKA_SIGN | CKA_SIGN_RECOVER
        | CKA_VERIFY | CKA_VERIFY_RECOVER | CKA_DERIVE | CKA_EXTRACTABLE | CKA_LOCAL | CKA_NEVER_EXTRACTABLE | CKA_ALWAYS_SENSITIVE | CKA_MODIFIABLE
        | CKA_COPYABLE | CKA_DESTROYABLE | CKA_ALWAYS_AUTHENTICATE | CKA_WRAP_WITH_TRUSTED | CKA_ENCAPSULATE | CKA_DECAPSULATE => Ty::Bool,
        CKA_CLASS | CKA_CERTIFICATE_TYPE | CKA_CERTIFICATE_CATEGORY | CKA_KEY_TYPE | CKA_MODULUS_BITS | CKA_VALUE_LEN | CKA_KEY_GEN_MECHANISM
        | CKA_NAME_HASH_ALGORITHM | CKA_TRUST_SERVER_AUTH | CKA_TRUST_CLIENT_AUTH => Ty::Num,
        CKA_LABEL | CKA_UNIQUE_ID | CKA_APPLICATION | CKA_URL => Ty::Str,
        CKA_START_DATE | CKA_END_DATE => Ty::Date,
        CKA_ALLOWED_MECHANISMS => Ty::Mechs,
        _ => Ty::Bytes,
    }
}
pub fn val(a: u64, raw: &[u8]) -> Vec<u8> {
    match aty(a) {
        Ty::Bool => vec![raw.first().copied().unwrap_or(0) & 1],
        Ty::Num => (raw.iter().fold(0u64, |x, b| x.wrapping_mul(7).wrapping_add(*b as u64)) % 4000).to_ne_bytes().to_vec(),
        Ty::Str => raw.iter().map(|b| match b { 0..=9 => ['\u{e9}', '\u{4e2d}', '\u{1f511}', '%', '_', '\'', '"', ' ', '\n', '\u{df}'][*b as usize], _ => (33 + b % 94) as char }).collect::<String>().into_bytes(),
        Ty::Bytes => raw.to_vec(),
        Ty::Date => { let b = |i: usize| *raw.get(i).unwrap_or(&0) as u32; format!("{:04}{:02}{:02}", 1900 + b(0), 1 + b(1) % 12, 1 + b(2) % 28).into_bytes() }
        Ty::Mechs => raw.iter().take(5).flat_map(|b| [CKM_AES_CBC, CKM_AES_GCM, CKM_SHA256_HMAC, CKM_RSA_PKCS, CKM_ECDSA, CKM_AES_ECB][*b as usize % 6].to_ne_bytes()).collect(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Kind { Data, Cert, Trust, Aes, Generic, Hmac, RsaPub, RsaPriv, EcPub, EcPriv, Mont }
pub const KINDS: [Kind; 11] = [Kind::Data, Kind::Cert, Kind::Trust, Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Origin { Create, Generate, Pair, Unwrap, Derive }
impl Kind {
    pub fn secret(self) -> bool { matches!(self, Kind::Aes | Kind::Generic | Kind::Hmac) }
    pub fn private(self) -> bool { matches!(self, Kind::RsaPriv | Kind::EcPriv | Kind::Mont) }
    pub fn public(self) -> bool { matches!(self, Kind::RsaPub | Kind::EcPub) }
    pub fn key(self) -> bool { self.secret() || self.private() || self.public() }
    pub fn class(self) -> u64 {
        match self { Kind::Data => CKO_DATA, Kind::Cert => CKO_CERTIFICATE, Kind::Trust => CKO_TRUST, k if k.secret() => CKO_SECRET_KEY, k if k.private() => CKO_PRIVATE_KEY, _ => CKO_PUBLIC_KEY }
    }
    pub fn ckk(self) -> u64 {
        match self { Kind::Aes => CKK_AES, Kind::Generic => CKK_GENERIC_SECRET, Kind::Hmac => CKK_SHA256_HMAC, Kind::RsaPub | Kind::RsaPriv => CKK_RSA, Kind::EcPub | Kind::EcPriv => CKK_EC, _ => CKK_EC_MONTGOMERY }
    }
    /// attributes a user may give, whose every value is valid
    pub fn pool(self) -> Vec<u64> {
        let mut v = vec![CKA_TOKEN, CKA_PRIVATE, CKA_MODIFIABLE, CKA_LABEL, CKA_COPYABLE, CKA_DESTROYABLE];
        if self.key() { v.extend([CKA_ID, CKA_START_DATE, CKA_END_DATE, CKA_DERIVE, CKA_ALLOWED_MECHANISMS]); }
        match self {
            Kind::Data => v.extend([CKA_APPLICATION, CKA_OBJECT_ID, CKA_VALUE]),
            Kind::Cert => v.extend([CKA_ID, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_START_DATE, CKA_END_DATE]),
            Kind::Trust => (),
            k if k.secret() => v.extend([CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_WRAP_WITH_TRUSTED]),
            k if k.private() => v.extend([CKA_SUBJECT, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_DECRYPT, CKA_SIGN, CKA_SIGN_RECOVER, CKA_UNWRAP, CKA_WRAP_WITH_TRUSTED, CKA_ALWAYS_AUTHENTICATE]),
            _ => v.extend([CKA_SUBJECT, CKA_ENCRYPT, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_WRAP]),
        }
        v
    }
    pub fn foreign(self) -> Vec<u64> {
        let mut v = match self {
            Kind::Data => vec![CKA_MODULUS, CKA_KEY_TYPE, CKA_SENSITIVE, CKA_CERTIFICATE_TYPE, CKA_EC_PARAMS, CKA_ID, CKA_LOCAL],
            Kind::Cert => vec![CKA_MODULUS, CKA_KEY_TYPE, CKA_SENSITIVE, CKA_APPLICATION, CKA_LOCAL, CKA_SIGN],
            Kind::Trust => vec![CKA_MODULUS, CKA_KEY_TYPE, CKA_SENSITIVE, CKA_APPLICATION, CKA_LOCAL],
            Kind::Aes | Kind::Generic | Kind::Hmac => vec![CKA_MODULUS, CKA_APPLICATION, CKA_EC_PARAMS, CKA_CERTIFICATE_TYPE, CKA_SUBJECT, CKA_PRIVATE_EXPONENT, CKA_ALWAYS_AUTHENTICATE],
            Kind::RsaPub => vec![CKA_EC_PARAMS, CKA_VALUE, CKA_APPLICATION, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_DECRYPT, CKA_SIGN, CKA_PRIME_1, CKA_NEVER_EXTRACTABLE],
            Kind::RsaPriv => vec![CKA_EC_PARAMS, CKA_VALUE, CKA_APPLICATION, CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP, CKA_MODULUS_BITS],
            Kind::EcPub => vec![CKA_MODULUS, CKA_VALUE, CKA_APPLICATION, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_DECRYPT, CKA_SIGN],
            Kind::EcPriv | Kind::Mont => vec![CKA_MODULUS, CKA_APPLICATION, CKA_PRIME_1, CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP],
        };
        v.extend([CKA_VENDOR_DEFINED | 0x1111, 0x7fff_1234]);
        v
    }
    /// the parts of a key that make it secret
    pub fn secrets(self) -> &'static [u64] {
        match self {
            k if k.secret() => &[CKA_VALUE],
            Kind::RsaPriv => &[CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT],
            Kind::EcPriv | Kind::Mont => &[CKA_VALUE],
            _ => &[],
        }
    }
    pub fn material(self) -> Vec<u64> {
        let mut v = self.secrets().to_vec();
        match self {
            k if k.secret() => v.push(CKA_VALUE_LEN),
            Kind::RsaPub => v.extend([CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_MODULUS_BITS]),
            Kind::RsaPriv => v.extend([CKA_MODULUS, CKA_PUBLIC_EXPONENT]),
            Kind::EcPub => v.extend([CKA_EC_PARAMS, CKA_EC_POINT]),
            Kind::EcPriv | Kind::Mont => v.push(CKA_EC_PARAMS),
            _ => (),
        }
        v
    }
    fn required(self) -> &'static [u64] {
        match self {
            Kind::Data => &[CKA_CLASS],
            Kind::Cert => &[CKA_CLASS, CKA_CERTIFICATE_TYPE, CKA_SUBJECT, CKA_VALUE],
            Kind::Trust => &[CKA_CLASS, CKA_ISSUER, CKA_SERIAL_NUMBER],
            k if k.secret() => &[CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE],
            Kind::RsaPub => &[CKA_CLASS, CKA_KEY_TYPE, CKA_MODULUS, CKA_PUBLIC_EXPONENT],
            Kind::RsaPriv => &[CKA_CLASS, CKA_KEY_TYPE, CKA_MODULUS, CKA_PRIVATE_EXPONENT],
            Kind::EcPub => &[CKA_CLASS, CKA_KEY_TYPE, CKA_EC_PARAMS, CKA_EC_POINT],
            _ => &[CKA_CLASS, CKA_KEY_TYPE, CKA_EC_PARAMS, CKA_VALUE],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad { No, Lib(u8, bool), Foreign(u8, Hx), Missing(u8), Dup(u8), Size(u8), Len(u8), Class(u8), Key(u8), Material }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec { pub kind: Kind, pub origin: Origin, pub seed: u8, pub token: Option<bool>, pub opts: Vec<(u8, Hx)>, pub bad: Bad }

pub fn raws() -> BoxedStrategy<Hx> { prop_oneof![6 => hx(0..=24usize), 1 => hx(24..=400usize), 1 => prop_oneof![Just(Hx(vec![])), Just(Hx(vec![0])), Just(Hx(vec![1])), Just(Hx(vec![0xa5, 0, 0x5a])), Just(Hx(vec![0; 8]))]].boxed() }
pub fn spec(kinds: &'static [Kind], bad: u32, token: f64) -> BoxedStrategy<Spec> {
    let b = prop_oneof![
        3 => (any::<u8>(), any::<bool>()).prop_map(|(a, v)| Bad::Lib(a, v)), 2 => (any::<u8>(), hx(0..5usize)).prop_map(|(a, v)| Bad::Foreign(a, v)), 2 => any::<u8>().prop_map(Bad::Missing),
        1 => any::<u8>().prop_map(Bad::Dup), 1 => any::<u8>().prop_map(Bad::Size), 1 => any::<u8>().prop_map(Bad::Len), 1 => any::<u8>().prop_map(Bad::Class), 1 => any::<u8>().prop_map(Bad::Key), 1 => Just(Bad::Material)];
    let o = prop_oneof![6 => Just(Origin::Create), 2 => Just(Origin::Generate), 1 => Just(Origin::Pair), 2 => Just(Origin::Unwrap), 2 => Just(Origin::Derive)];
    (prop::sample::select(kinds), o, any::<u8>(), prop_oneof![4 => prop::bool::weighted(token).prop_map(Some), 1 => Just(None)], prop::collection::vec((any::<u8>(), raws()), 0..7), prop_oneof![(100 - bad) => Just(Bad::No), bad => b])
        .prop_map(|(kind, origin, seed, token, opts, bad)| {
            let origin = match (origin, kind) {
                (Origin::Generate, k) if k.private() => Origin::Pair,
                (Origin::Pair, k) if k.secret() => Origin::Generate,
                (Origin::Generate | Origin::Pair | Origin::Unwrap | Origin::Derive, k) if !k.secret() && !k.private() => Origin::Create,
                (Origin::Derive, k) if !k.secret() => Origin::Unwrap,
                (o, _) => o,
            };
            Spec { kind, origin, seed, token, opts, bad }
        }).boxed()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict { Yes, No, Any }

/// what a spec asks for
pub struct Plan { pub t: Tmpl, pub verdict: Verdict, pub why: String, pub value: Vec<u8> }
pub fn bytes_of(seed: u8, n: usize, tag: &[u8]) -> Vec<u8> { let mut v = vec![]; let mut i = 0u8; while v.len() < n { v.extend(refc::hash::H::Sha256.hash(&[tag, &[seed, i]].concat())); i += 1; } v.truncate(n); v }
fn rsa_key(seed: u8) -> usize { [0, 1, 5][seed as usize % 3] }
pub fn target(k: Kind, seed: u8) -> Target {
    match k {
        Kind::Aes => Target::Aes(Hx(bytes_of(seed, [16, 24, 32][seed as usize % 3], b"aes"))),
        Kind::Generic => Target::Generic(Hx(bytes_of(seed, 1 + seed as usize % 80, b"gen"))),
        Kind::Hmac => Target::Mac(2, Hx(bytes_of(seed, 32, b"mac"))),
        Kind::RsaPriv => Target::Rsa(rsa_key(seed) as u8),
        Kind::EcPriv => Target::Ec(seed % 3, Hx(bytes_of(seed, 66, b"ec"))),
        _ => Target::Mont(seed & 1 == 1, Hx(bytes_of(seed, if seed & 1 == 1 { 56 } else { 32 }, b"mont"))),
    }
}
fn ec_d(seed: u8) -> (usize, Vec<u8>) {
    use refc::rsa::*;
    let c = seed as usize % 3;
    let cv = &curves()[c];
    (c, i2osp(&(os2ip(&bytes_of(seed, 66, b"ec")[..cv.flen()]) % (&cv.n - 1u8) + 1u8), cv.flen()))
}
fn ec_point(seed: u8) -> Vec<u8> {
    static C: std::sync::Mutex<BTreeMap<u8, Vec<u8>>> = std::sync::Mutex::new(BTreeMap::new());
    let s = seed % 6;
    C.lock().unwrap().entry(s).or_insert_with(|| { let (c, d) = ec_d(s); let cv = &curves()[c]; cv.enc(&cv.pubkey(&refc::rsa::os2ip(&d))) }).clone()
}
impl Spec {
    /// key material as the library should hold it
    pub fn material(&self) -> Tmpl {
        let s = self.seed;
        match self.kind {
            Kind::Data | Kind::Trust => vec![],
            Kind::Cert => vec![],
            Kind::Aes | Kind::Generic | Kind::Hmac => { let v = target(self.kind, s).encode(); tm! { CKA_VALUE => v } }
            Kind::RsaPub => rsa_pub_tmpl(&KEYS[rsa_key(s)]).into_iter().filter(|a| Kind::RsaPub.material().contains(&a.0)).collect(),
            Kind::RsaPriv => rsa_priv_tmpl(&KEYS[rsa_key(s)], true).into_iter().filter(|a| Kind::RsaPriv.material().contains(&a.0)).collect(),
            Kind::EcPub => { let s = s % 6; tm! { CKA_EC_PARAMS => curves()[s as usize % 3].oid.clone(), CKA_EC_POINT => der_octets(&ec_point(s)) } }
            Kind::EcPriv => { let (c, d) = ec_d(s); tm! { CKA_EC_PARAMS => curves()[c].oid.clone(), CKA_VALUE => d } }
            Kind::Mont => { let x = s & 1 == 1; tm! { CKA_EC_PARAMS => mont_oid(x), CKA_VALUE => bytes_of(s, if x { 56 } else { 32 }, b"mont") } }
        }
    }
    pub fn plan(&self, uniq: usize) -> Plan {
        let k = self.kind;
        let mut t: Tmpl = vec![];
        match self.origin {
            Origin::Create => {
                t.push((CKA_CLASS, V::U(k.class())));
                if k.key() { t.push((CKA_KEY_TYPE, V::U(k.ckk()))); }
                match k {
                    Kind::Cert => t.extend(tm! { CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_SUBJECT => bytes_of(self.seed, 20, b"subj"), CKA_VALUE => bytes_of(self.seed, 60, b"cert"), CKA_ISSUER => bytes_of(self.seed, 20, b"issuer"), CKA_SERIAL_NUMBER => vec![2u8, 3, 1, (uniq >> 8) as u8, uniq as u8] }),
                    Kind::Trust => t.extend(tm! { CKA_ISSUER => bytes_of(self.seed, 20, b"issuer"), CKA_SERIAL_NUMBER => vec![2u8, 3, 2, (uniq >> 8) as u8, uniq as u8], CKA_HASH_OF_CERTIFICATE => bytes_of(self.seed, 32, b"hash"), CKA_NAME_HASH_ALGORITHM => CKM_SHA256, CKA_TRUST_SERVER_AUTH => CKT_TRUSTED }),
                    _ => (),
                }
                t.extend(self.material());
            }
            Origin::Generate => {
                if self.seed & 1 == 0 { t.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() }); }
                match k {
                    Kind::Aes => t.push((CKA_VALUE_LEN, V::U([16, 24, 32][self.seed as usize % 3]))),
                    Kind::Generic => t.push((CKA_VALUE_LEN, V::U(1 + self.seed as u64 % 80))),
                    _ => t.push((CKA_VALUE_LEN, V::U(32))),
                }
            }
            Origin::Pair => { t.push((CKA_CLASS, V::U(k.class()))); if self.seed & 1 == 0 { t.push((CKA_KEY_TYPE, V::U(k.ckk()))); } }
            Origin::Unwrap => t.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() }),
            Origin::Derive => t.extend(tm! { CKA_CLASS => k.class(), CKA_KEY_TYPE => k.ckk() }),
        }
        if self.origin == Origin::Derive { let n = self.value().len() as u64; t.push((CKA_VALUE_LEN, V::U(n))); }
        if let Some(b) = self.token { t.push((CKA_TOKEN, V::B(b))); }
        let pool = k.pool();
        for (i, raw) in &self.opts {
            let a = pool[*i as usize % pool.len()];
            if a != CKA_TOKEN { tset(&mut t, a, V::X(val(a, raw))); }
        }
        let (mut verdict, mut why) = (Verdict::Yes, String::new());
        let mut no = |s: String| { verdict = Verdict::No; why = s; };
        match &self.bad {
            Bad::No => (),
            Bad::Lib(i, b) => {
                let a = [CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_KEY_GEN_MECHANISM, CKA_UNIQUE_ID, CKA_TRUSTED][*i as usize % 6];
                let v = match a { CKA_KEY_GEN_MECHANISM => V::U(CKM_AES_KEY_GEN), CKA_UNIQUE_ID => V::from("kv-unique-id"), CKA_TRUSTED => V::B(true), _ => V::B(*b) };
                t.push((a, v));
                no(format!("the template sets {a:#x}, which only the library may set"));
            }
            Bad::Foreign(i, raw) => {
                let f = k.foreign();
                let a = f[*i as usize % f.len()];
                t.insert(*i as usize % (t.len() + 1), (a, V::X(val(a, raw))));
                no(format!("attribute {a:#x} does not belong to the class"));
            }
            Bad::Missing(i) => if self.origin == Origin::Create {
                let a = k.required()[*i as usize % k.required().len()];
                t.retain(|x| x.0 != a);
                no(format!("required attribute {a:#x} is missing"));
            },
            Bad::Dup(i) => {
                let c: Vec<Attr> = t.iter().filter(|a| a.0 != CKA_CLASS && a.0 != CKA_KEY_TYPE).cloned().collect();
                if !c.is_empty() { let a = c[*i as usize % c.len()].clone(); no(format!("attribute {:#x} is given twice", a.0)); t.push(a); }
            }
            Bad::Size(i) => {
                let c: Vec<usize> = (0..t.len()).filter(|x| matches!(aty(t[*x].0), Ty::Bool | Ty::Num | Ty::Date)).collect();
                if !c.is_empty() {
                    let x = c[*i as usize % c.len()];
                    let mut b = t[x].1.bytes();
                    if i & 64 == 0 { b.push(0) } else { b.pop(); }
                    // an empty date is a legal value
                    if !(aty(t[x].0) == Ty::Date && b.is_empty()) { no(format!("attribute {:#x} has a value of {} bytes", t[x].0, b.len())); t[x].1 = V::X(b); }
                }
            }
            Bad::Len(i) => if k.secret() && self.origin == Origin::Create {
                let n = tget(&t, CKA_VALUE).unwrap().bytes().len() as u64;
                t.push((CKA_VALUE_LEN, V::U(if i & 1 == 0 { n + 1 + (*i as u64 >> 3) } else { n.saturating_sub(1 + (*i as u64 >> 5)) })));
                no("CKA_VALUE_LEN does not match CKA_VALUE".into());
            },
            Bad::Class(i) => if k.key() && self.origin == Origin::Create {
                let wrong = if k.secret() { [CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_DATA, CKO_CERTIFICATE][*i as usize % 4] } else { [CKO_SECRET_KEY, CKO_DATA, CKO_CERTIFICATE][*i as usize % 3] };
                tset(&mut t, CKA_CLASS, V::U(wrong));
                no("the class does not fit the key type".into());
            },
            Bad::Key(i) => if self.origin == Origin::Create {
                match k {
                    Kind::Aes => { let n = [0usize, 1, 15, 17, 23, 25, 31, 33, 64][*i as usize % 9]; tset(&mut t, CKA_VALUE, V::X(bytes_of(1, n, b"x"))); no(format!("an AES key of {n} bytes")); }
                    Kind::Hmac => { let n = [0usize, 1, 31, 33][*i as usize % 4]; tset(&mut t, CKA_VALUE, V::X(bytes_of(1, n, b"x"))); no(format!("a SHA-256 HMAC key of {n} bytes")); }
                    Kind::Generic => { tset(&mut t, CKA_VALUE, V::X(vec![])); no("an empty generic secret".into()); }
                    _ => (),
                }
            },
            Bad::Material => if matches!(self.origin, Origin::Generate | Origin::Derive) || self.origin == Origin::Unwrap && k.secret() {
                t.push((CKA_VALUE, V::X(self.value())));
                no("key material in the template of a key that is generated, unwrapped or derived".into());
            },
        }
        Plan { t, verdict, why, value: vec![] }
    }
    pub fn value(&self) -> Vec<u8> { target(self.kind, self.seed).encode() }
}

pub struct ObjM { pub h: Obj, pub kind: Kind, pub owner: u64, pub a: BTreeMap<u64, Option<Vec<u8>>>, pub origin: Origin, pub copied: bool, pub seed: u8, pub fixed: bool, /// objects with the same key share this
    pub key: usize }
impl ObjM {
    pub fn flag(&self, a: u64) -> Option<bool> { self.a.get(&a).and_then(|v| v.as_ref()).map(|v| v.len() == 1 && v[0] != 0) }
    pub fn is(&self, a: u64) -> bool { self.flag(a) == Some(true) }
    pub fn token(&self) -> bool { self.is(CKA_TOKEN) }
    pub fn protected(&self) -> bool { !self.kind.secrets().is_empty() && (self.flag(CKA_SENSITIVE) != Some(false) || self.flag(CKA_EXTRACTABLE) != Some(true)) }
    pub fn uid(&self) -> Vec<u8> { self.a[&CKA_UNIQUE_ID].clone().unwrap_or_default() }
}
/// may this attribute of this object be set to this value by C_SetAttributeValue / C_CopyObject
pub fn rule(o: &ObjM, a: u64, v: &[u8], copy: bool) -> Verdict {
    use Verdict::*;
    let same = o.a.get(&a).and_then(|x| x.as_ref()).map(|x| x == v).unwrap_or(false);
    let b = v.len() == 1 && v[0] != 0;
    let wrong = match aty(a) { Ty::Bool => v.len() != 1, Ty::Num => v.len() != 8, Ty::Mechs => v.len() % 8 != 0, Ty::Date => v.len() != 8, _ => false };
    if !ALL.contains(&a) || o.kind.foreign().contains(&a) || wrong { return No; }
    let no = if same { Any } else { No };
    match a {
        CKA_TOKEN | CKA_PRIVATE | CKA_MODIFIABLE => if copy { Yes } else { no },
        CKA_LOCAL | CKA_ALWAYS_SENSITIVE | CKA_NEVER_EXTRACTABLE | CKA_KEY_GEN_MECHANISM | CKA_UNIQUE_ID => no,
        CKA_CLASS | CKA_KEY_TYPE | CKA_CERTIFICATE_TYPE => no,
        CKA_TRUSTED => if b { No } else { Any },
        CKA_SENSITIVE | CKA_WRAP_WITH_TRUSTED if o.flag(a).is_some() => if b { Yes } else if o.is(a) { No } else { Any },
        CKA_EXTRACTABLE if o.flag(a).is_some() => if !b { Yes } else if !o.is(a) { No } else { Any },
        CKA_COPYABLE | CKA_DESTROYABLE => if !b { Any } else if !o.is(a) { No } else { Any },
        CKA_ALWAYS_AUTHENTICATE => if o.is(a) && !b { No } else { Any },
        _ if o.kind.key() && o.kind.material().contains(&a) => no,
        CKA_ALLOWED_MECHANISMS => Any,
        // the copy may be restricted by the value rules of the class
        CKA_CERTIFICATE_CATEGORY | CKA_PUBLIC_KEY_INFO | CKA_URL => Any,
        _ if o.kind.pool().contains(&a) => Yes,
        _ => Any,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open(bool),
    /// every session closed, one by one
    CloseEach,
    Close(u8),
    CloseAll,
    Make(u8, Spec),
    Copy(u8, u8, Vec<(u16, Hx)>),
    Set(u8, u8, Vec<(u16, Hx)>),
    Destroy(u8, u8),
    /// attribute, buffer: 0 null, 1 exact, 2 one short, 3 too big, 4 zero capacity
    Get(u8, u8, Vec<(u8, u8)>),
    Size(u8, u8),
    Dead(u8, u8, u8),
    Find(u8, u8, Vec<u8>),
    Restart,
    /// compute with the key, twice the same answer
    Use(u8, u8),
    Logout(u8),
    /// session, as the SO
    Login(u8, bool),
    /// any call on a private object while nobody may
    Probe(u8, u8, u8),
    /// change the User PIN
    Pin(u8, u8),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Who { User, So, None }
pub fn changes() -> BoxedStrategy<Vec<(u16, Hx)>> { prop_oneof![1 => Just(vec![]), 12 => prop::collection::vec((any::<u16>(), raws()), 1..5)].boxed() }
const FLAGS: [u64; 13] = [CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_COPYABLE, CKA_MODIFIABLE, CKA_DESTROYABLE, CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED, CKA_ALWAYS_AUTHENTICATE, CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_TOKEN, CKA_PRIVATE];
const CONST: [u64; 6] = [CKA_KEY_GEN_MECHANISM, CKA_UNIQUE_ID, CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE, CKA_VALUE_LEN];
pub fn resolve(o: &ObjM, t: &[(u16, Hx)]) -> Tmpl {
    let mut out: Tmpl = vec![];
    for (sel, raw) in t {
        let (c, i) = (sel & 15, (sel >> 4) as usize);
        let pool = o.kind.pool();
        let mut a = match c { 0..=8 => pool[i % pool.len()], 9..=12 => FLAGS[i % FLAGS.len()], 13 => CONST[i % CONST.len()], 14 => { let m = o.kind.material(); if m.is_empty() { CKA_LABEL } else { m[i % m.len()] } } _ => ALL[i % ALL.len()] };
        if i % 97 == 96 { a = 0x7fff_1111 }
        if out.iter().any(|x| x.0 == a) { continue; }
        let mut v = if raw.len() % 5 == 4 { o.a.get(&a).cloned().flatten().unwrap_or_else(|| val(a, raw)) } else { val(a, raw) };
        if aty(a) == Ty::Date && v.is_empty() { v = val(a, raw) }
        if i % 31 == 30 { v.push(0) }
        out.push((a, V::X(v)));
    }
    out
}

pub struct World { pub t: Tok, pub sess: Vec<(u64, bool)>, pub objs: Vec<ObjM>, pub dead: Vec<Obj>, pub used: BTreeSet<Obj>, pub n: usize, pub builtin: BTreeSet<Obj>, pub helper: u64, pub uses: BTreeMap<usize, Vec<u8>>, pub keys: usize, pub who: Who, pub owners: BTreeMap<Obj, Vec<u8>> }
fn denied(rv: Rv) -> bool { rv != CKR_OK }

impl World {
    pub fn new(t: Tok) -> R<World> {
        let helper = t.user();
        let b = t.p.find(helper, &[]);
        ensure!(b.0 == CKR_OK, "find", "C_FindObjects on an empty token: {}", rvname(b.0));
        let h2 = t.user();
        Ok(World { sess: vec![(h2, true)], objs: vec![], dead: vec![], used: b.1.iter().copied().collect(), builtin: b.1.into_iter().collect(), n: 0, helper, t, uses: BTreeMap::new(), keys: 0, who: Who::User, owners: BTreeMap::new() })
    }
    pub fn s(&self, i: u8) -> Option<(u64, bool)> { if self.sess.is_empty() { None } else { Some(self.sess[i as usize * self.sess.len() / 256]) } }
    pub fn o(&self, i: u8) -> Option<usize> { if self.objs.is_empty() { None } else { Some(i as usize * self.objs.len() / 256) } }
    pub fn read(&self, s: u64, h: Obj) -> R<BTreeMap<u64, Option<Vec<u8>>>> {
        let (rv, v) = self.t.p.get(s, h, ALL);
        ensure!(matches!(rv, CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID), "object-lost", "reading all attributes of live object {h}: {}", rvname(rv));
        Ok(ALL.iter().copied().zip(v).collect())
    }
    pub fn visible(&self, o: &ObjM) -> bool { self.who == Who::User || !o.is(CKA_PRIVATE) }
    pub fn hidden(&self, i: usize) -> bool { !self.visible(&self.objs[i]) }
    /// attributes that can be read in the present login state
    fn readable(&self, o: &ObjM) -> Vec<u64> { ALL.iter().copied().filter(|a| self.who == Who::User || !o.token() || !o.kind.secrets().contains(a)).collect() }
    fn refused(&self, i: usize, s: u64, after: &str) -> R {
        let o = &self.objs[i];
        let (rv, v) = self.t.p.get(s, o.h, ALL);
        ensure!(rv != CKR_OK && v.iter().all(|v| v.is_none()), "private-read", "{after}: private object {} ({:?}, token {}) is read although {:?} is logged in: {}", o.h, o.kind, o.token(), self.who, rvname(rv));
        Ok(())
    }
    pub fn compare(&self, i: usize, s: u64, after: &str) -> R {
        let o = &self.objs[i];
        if !self.visible(o) { return self.refused(i, s, after); }
        let all = self.readable(o);
        let (rv, v) = self.t.p.get(s, o.h, &all);
        ensure!(matches!(rv, CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID), "object-lost", "{after}: object {} ({:?} from {:?}, token {}) can not be read any more: {}", o.h, o.kind, o.origin, o.token(), rvname(rv));
        for (a, got) in all.iter().zip(v) {
            let want = &o.a[a];
            ensure!(got == *want, if o.kind.secrets().contains(a) && want.is_none() { "secret-revealed" } else { "attribute-changed" },
                "{after}: object {} ({:?} from {:?}, token {}): attribute {a:#x} is {:?}, it should be {:?}", o.h, o.kind, o.origin, o.token(), got.as_deref().map(hex), want.as_deref().map(hex));
        }
        Ok(())
    }
    pub fn all(&self, after: &str) -> R {
        let s = self.helper;
        let (rv, v) = self.t.p.find(s, &[]);
        ensure!(rv == CKR_OK, "find", "{after}: C_FindObjects: {}", rvname(rv));
        let set: BTreeSet<Obj> = v.iter().copied().collect();
        ensure!(set.len() == v.len(), "find-duplicate", "{after}: a search returned the same handle twice");
        let want: BTreeSet<Obj> = self.objs.iter().filter(|o| self.visible(o)).map(|o| o.h).chain(self.builtin.iter().copied()).collect();
        let extra: Vec<_> = set.difference(&want).collect();
        let missing: Vec<_> = want.difference(&set).collect();
        ensure!(extra.is_empty(), "object-left", "{after}: objects {extra:?} exist that should not");
        ensure!(missing.is_empty(), "object-lost", "{after}: objects {missing:?} are not found any more");
        for i in 0..self.objs.len() {
            let s = self.sess.get((i + self.n) % (self.sess.len() + 1)).map(|x| x.0).unwrap_or(s);
            self.compare(i, s, after)?;
        }
        for d in self.dead.iter().rev().take(6) {
            let r = self.t.p.get1(s, *d, CKA_CLASS);
            ensure!(r == Err(CKR_OBJECT_HANDLE_INVALID), "dead-object-alive", "{after}: destroyed object {d} answers {:?}", r);
        }
        Ok(())
    }
    fn fresh(&mut self, h: Obj, what: &str) -> R {
        ensure!(h != 0 && !self.used.contains(&h), "handle-reused", "{what}: handle {h} was given out before");
        self.used.insert(h);
        Ok(())
    }
    fn adopt(&mut self, cx: &mut Cx, h: Obj, kind: Kind, owner: u64, sp: &Spec, asked: &Tmpl, what: &str, base: Option<&BTreeMap<u64, bool>>) -> R {
        self.fresh(h, what)?;
        let got = self.read(owner, h)?;
        let p = &self.t.p;
        let fl = |a: u64| got[&a].as_ref().map(|v| v.len() == 1 && v[0] != 0);
        let mut want: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        let mut put = |a: u64, v: Vec<u8>| { want.entry(a).or_insert(v); };
        for (a, v) in asked { if ALL.contains(a) { put(*a, v.bytes()); } }
        put(CKA_CLASS, kind.class().to_ne_bytes().to_vec());
        let y = |b: bool| vec![b as u8];
        put(CKA_TOKEN, y(false));
        put(CKA_PRIVATE, y(kind.secret() || kind.private()));
        for a in [CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE] { put(a, y(true)); }
        if kind.key() {
            put(CKA_KEY_TYPE, kind.ckk().to_ne_bytes().to_vec());
            if sp.origin != Origin::Derive { put(CKA_DERIVE, y(false)); }
            put(CKA_START_DATE, vec![]); put(CKA_END_DATE, vec![]);
            let usage: &[u64] = if kind.secret() { &[CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED] }
                else if kind.private() { &[CKA_DECRYPT, CKA_SIGN, CKA_SIGN_RECOVER, CKA_UNWRAP, CKA_WRAP_WITH_TRUSTED, CKA_ALWAYS_AUTHENTICATE] } else { &[CKA_ENCRYPT, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_WRAP, CKA_TRUSTED] };
            for a in usage { put(*a, y(false)); }
            if !kind.public() && sp.origin != Origin::Derive { put(CKA_SENSITIVE, y(true)); put(CKA_EXTRACTABLE, y(false)); }
        }
        if kind == Kind::Data { put(CKA_APPLICATION, vec![]); put(CKA_VALUE, vec![]); }
        let protected = !kind.secrets().is_empty() && (fl(CKA_SENSITIVE) != Some(false) || fl(CKA_EXTRACTABLE) != Some(true));
        if kind.secret() { if let Some(v) = want.get(&CKA_VALUE) { let n = v.len() as u64; want.insert(CKA_VALUE_LEN, n.to_ne_bytes().to_vec()); } }
        for (a, w) in &want {
            if protected && kind.secrets().contains(a) { continue; }
            ensure!(got[a].as_ref() == Some(w), "created-attribute", "{what}: attribute {a:#x} is {:?}, it should be {}", got[a].as_deref().map(hex), hex(w));
        }
        if protected {
            cx.hit("protected key");
            for a in kind.secrets() {
                let r = p.get1(owner, h, *a);
                ensure!(r == Err(CKR_ATTRIBUTE_SENSITIVE), "secret-revealed", "{what}: {a:#x} of a sensitive or unextractable key answers {:?}", r.map(|v| hex(&v)).map_err(rvname));
            }
        }
        ensure!(got[&CKA_UNIQUE_ID].as_ref().map(|u| !u.is_empty()).unwrap_or(false), "unique-id", "{what}: no CKA_UNIQUE_ID");
        for o in &self.objs { ensure!(got[&CKA_UNIQUE_ID].as_deref() != Some(&o.uid()[..]), "unique-id", "{what}: CKA_UNIQUE_ID equals that of object {}", o.h); }
        // provenance
        if kind.key() {
            let made = matches!(sp.origin, Origin::Generate | Origin::Pair);
            ensure!(fl(CKA_LOCAL) == Some(made), "provenance", "{what}: CKA_LOCAL is {:?}", fl(CKA_LOCAL));
            let m = got[&CKA_KEY_GEN_MECHANISM].clone().map(|v| u64::from_ne_bytes(v.try_into().unwrap_or([0; 8])));
            let wm = if made { gen_mech(sp.kind) } else { CK_UNAVAILABLE_INFORMATION };
            ensure!(m == Some(wm) || !made && m.is_none(), "provenance", "{what}: CKA_KEY_GEN_MECHANISM is {:x?}, it should be {wm:#x}", m);
            if !kind.public() {
                let (a, n, se, ex) = (fl(CKA_ALWAYS_SENSITIVE), fl(CKA_NEVER_EXTRACTABLE), fl(CKA_SENSITIVE), fl(CKA_EXTRACTABLE));
                match sp.origin {
                    Origin::Generate | Origin::Pair => ensure!(a == se && n == ex.map(|e| !e), "provenance", "{what}: sensitive {se:?} always-sensitive {a:?} extractable {ex:?} never-extractable {n:?} on a new key"),
                    Origin::Create | Origin::Unwrap => ensure!(a == Some(false) && n == Some(false), "provenance", "{what}: a key from outside claims always-sensitive {a:?} never-extractable {n:?}"),
                    Origin::Derive => {
                        let b = base.unwrap();
                        ensure!(a == Some(b[&CKA_ALWAYS_SENSITIVE] && se == Some(true)) && n == Some(b[&CKA_NEVER_EXTRACTABLE] && ex == Some(false)), "provenance", "{what}: always-sensitive {a:?} never-extractable {n:?} derived from {b:?}");
                        ensure!((!b[&CKA_SENSITIVE] || se == Some(true)) && (b[&CKA_EXTRACTABLE] || ex == Some(false)), "derived-weaker", "{what}: sensitive {se:?} extractable {ex:?} derived from {b:?}");
                    }
                }
            }
        }
        cx.hit(&format!("made {:?} by {:?}{}", kind, sp.origin, if fl(CKA_TOKEN) == Some(true) { " on token" } else { "" }));
        let fixed = matches!(sp.origin, Origin::Create | Origin::Unwrap | Origin::Derive);
        self.objs.push(ObjM { h, kind, owner, a: got, origin: sp.origin, copied: false, seed: sp.seed, fixed, key: { self.keys += 1; self.keys } });
        Ok(())
    }
    /// the NSS format uses one value as its marker for empty attributes and drops mechanism lists (known findings of C07)
    fn mark(&self, t: &mut Tmpl) { if self.t.db == Db::Nss { t.retain(|a| a.0 != CKA_ALLOWED_MECHANISMS); for a in t.iter_mut() { if a.1.bytes() == [0xa5, 0, 0x5a] { a.1 = V::X(vec![0xa5, 0, 0x5b]); } } } }
    fn temp(&self, s: u64, t: &[Attr]) -> Obj { let mut t = t.to_vec(); if tget(&t, CKA_PRIVATE).is_none() { t.push((CKA_PRIVATE, V::B(false))); } must(&self.t.p, s, &t, "helper key") }
    pub fn make(&mut self, cx: &mut Cx, s: u64, rw: bool, sp: &Spec) -> R {
        let mut plan = sp.plan(self.n);
        self.mark(&mut plan.t);
        let mut verdict = plan.verdict;
        let mut why = plan.why.clone();
        if self.t.db == Db::Nss && why.contains("0x40000600") { verdict = Verdict::Any; }
        let token = tget(&plan.t, CKA_TOKEN).map(|v| v.bytes()[..] == [1]).unwrap_or(false);
        if token && !rw && verdict == Verdict::Yes { verdict = Verdict::No; why = "token object from a read-only session".into(); }
        if self.t.db == Db::Nss && token && !sp.kind.key() && verdict == Verdict::Yes { verdict = Verdict::Any; }
        if self.who != Who::User {
            if !token { tset(&mut plan.t, CKA_PRIVATE, V::B(false)); if sp.bad != Bad::No { return Ok(()); } }
            else if tget(&plan.t, CKA_PRIVATE).map(|v| v.bytes()[..] == [1]).unwrap_or(sp.kind.secret() || sp.kind.private()) { verdict = Verdict::No; why = format!("private token object while {:?} is logged in", self.who); cx.hit("private token object refused"); }
            else if verdict == Verdict::Yes { verdict = Verdict::Any; }
        }
        let p = self.t.p;
        let what = format!("#{} {:?} {:?} with {}", self.n, sp.origin, sp.kind, plan.t.iter().map(|a| format!("{:x}={}", a.0, hex(&a.1.bytes()))).collect::<Vec<_>>().join(" "));
        let mut base = None;
        let (rv, hs): (Rv, Vec<(Obj, Kind, Tmpl)>) = match sp.origin {
            Origin::Create => { let (rv, h) = p.create(s, &plan.t); (rv, vec![(h, sp.kind, plan.t.clone())]) }
            Origin::Generate => { let (rv, h) = p.genkey(s, &Mech::new(gen_mech(sp.kind)), &plan.t); (rv, vec![(h, sp.kind, plan.t.clone())]) }
            Origin::Pair => {
                let (mut tp, pk): (Tmpl, Option<Kind>) = match sp.kind {
                    Kind::RsaPriv => (tm! { CKA_MODULUS_BITS => 1024u64, CKA_PUBLIC_EXPONENT => vec![1u8, 0, 1] }, Some(Kind::RsaPub)),
                    Kind::EcPriv => (tm! { CKA_EC_PARAMS => curves()[sp.seed as usize % 3].oid.clone() }, Some(Kind::EcPub)),
                    _ => (tm! { CKA_EC_PARAMS => mont_oid(sp.seed & 1 == 1) }, None),
                };
                let lab = format!("pub{}", sp.seed);
                tp.extend(tm! { CKA_LABEL => lab.as_str(), CKA_TOKEN => token, CKA_PRIVATE => false });
                let (rv, pu, pr) = p.genpair(s, &Mech::new(gen_mech(sp.kind)), &tp, &plan.t);
                let mut v = vec![(pr, sp.kind, plan.t.clone())];
                if rv == CKR_OK { match pk { Some(k) => v.push((pu, k, tp)), None => { ensure!(p.destroy(s, pu) == CKR_OK, "destroy", "{what}: the public key can not be destroyed"); self.fresh(pu, &what)?; self.dead.push(pu); } } }
                (rv, v)
            }
            Origin::Unwrap => {
                let kek = bytes_of(7, 32, b"kek");
                let w = self.temp(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => kek.clone(), CKA_UNWRAP => true, CKA_TOKEN => false });
                let blob = refc::aes::kwp(&kek, &[0xa6, 0x59, 0x59, 0xa6], &sp.value());
                let (rv, h) = p.unwrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), w, &blob, &plan.t);
                ensure!(p.destroy(s, w) == CKR_OK, "destroy", "helper key"); self.used.insert(w);
                let mut asked = plan.t.clone();
                if rv == CKR_OK { asked.extend(sp.material()); }
                (rv, vec![(h, sp.kind, asked)])
            }
            Origin::Derive => {
                let (bs, be) = (sp.seed & 1 == 1, sp.seed & 2 == 2);
                let v = sp.value();
                let n = v.len();
                let cut = n / 2;
                let bt = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_DERIVE => true, CKA_TOKEN => false, CKA_PRIVATE => false, CKA_SENSITIVE => bs, CKA_EXTRACTABLE => be };
                // imported base keys have a known value, generated ones a provenance
                let gen_base = sp.seed & 4 == 4 || cut == 0;
                let b = if gen_base { let mut bt = bt.clone(); bt.push((CKA_VALUE_LEN, V::U(cut.max(1) as u64))); let (rv, b) = p.genkey(s, &Mech::new(CKM_GENERIC_SECRET_KEY_GEN), &bt); ensure!(rv == CKR_OK, "generate", "helper key: {}", rvname(rv)); b }
                    else { let mut bt = bt.clone(); bt.push((CKA_VALUE, V::X(v[..cut].to_vec()))); self.temp(s, &bt) };
                base = Some(BTreeMap::from([(CKA_SENSITIVE, bs), (CKA_EXTRACTABLE, be), (CKA_ALWAYS_SENSITIVE, gen_base && bs), (CKA_NEVER_EXTRACTABLE, gen_base && !be)]));
                let rest = v[cut..].to_vec();
                let mut m = Mech::new(CKM_CONCATENATE_BASE_AND_DATA);
                let (ptr, len) = m.keep(&rest);
                m.set(CK_KEY_DERIVATION_STRING_DATA { pData: ptr, ulLen: len });
                let (rv, h) = p.derive(s, &m, b, &plan.t);
                ensure!(p.destroy(s, b) == CKR_OK, "destroy", "helper key"); self.used.insert(b);
                let ask = |a: u64| tget(&plan.t, a).map(|v| v.bytes()[..] == [1]);
                if verdict == Verdict::Yes && (bs && ask(CKA_SENSITIVE) == Some(false) || !be && ask(CKA_EXTRACTABLE) == Some(true)) { verdict = Verdict::Any; }
                let mut asked = plan.t.clone();
                if verdict == Verdict::Any { asked.retain(|a| !matches!(a.0, CKA_SENSITIVE | CKA_EXTRACTABLE)); }
                if rv == CKR_OK && !gen_base { asked.push((CKA_VALUE, V::X(v))); }
                (rv, vec![(h, sp.kind, asked)])
            }
        };
        match verdict {
            Verdict::Yes => ensure!(rv == CKR_OK, "create-refused", "{what}: {}", rvname(rv)),
            Verdict::No => { ensure!(denied(rv), "create-allowed", "{what}: accepted although {why}"); cx.hit(&format!("refused {:?} {}", sp.origin, bad_name(&sp.bad))); }
            Verdict::Any => (),
        }
        if rv == CKR_OK { for (h, k, t) in hs { self.adopt(cx, h, k, s, sp, &t, &what, base.as_ref())?; } }
        else { self.count(&what)?; }
        Ok(())
    }
    /// the set of objects is the expected one
    pub fn count(&self, after: &str) -> R {
        let (rv, v) = self.t.p.find(self.helper, &[]);
        ensure!(rv == CKR_OK, "find", "{after}: C_FindObjects: {}", rvname(rv));
        let want = self.objs.iter().filter(|o| self.visible(o)).count() + self.builtin.len();
        ensure!(v.len() == want, "rejected-left-object", "{after}: {} objects exist instead of {want}", v.len());
        Ok(())
    }
    /// known deviations of the NSS storage: attributes it has no column for
    fn apply(o: &mut ObjM, t: &Tmpl) {
        for (a, v) in t { if o.a.contains_key(a) { o.a.insert(*a, Some(v.bytes())); } }
        if o.protected() { for a in o.kind.secrets() { o.a.insert(*a, None); } }
    }
    pub fn set(&mut self, cx: &mut Cx, s: u64, rw: bool, i: usize, ch: &[(u16, Hx)]) -> R {
        let o = &self.objs[i];
        let mut t = resolve(o, ch);
        self.mark(&mut t);
        let what = format!("#{} set on object {} ({:?} from {:?}, token {}) {}", self.n, o.h, o.kind, o.origin, o.token(), t.iter().map(|a| format!("{:x}={}", a.0, hex(&a.1.bytes()))).collect::<Vec<_>>().join(" "));
        let rules: Vec<Verdict> = t.iter().map(|(a, v)| rule(o, *a, &v.bytes(), false)).collect();
        let mut v = if rules.contains(&Verdict::No) { Verdict::No } else if rules.contains(&Verdict::Any) || t.is_empty() { Verdict::Any } else { Verdict::Yes };
        let mut why = t.iter().zip(&rules).find(|x| *x.1 == Verdict::No).map(|x| format!("{:#x} must not change", x.0.0)).unwrap_or_default();
        if !o.is(CKA_MODIFIABLE) && !t.is_empty() { v = Verdict::No; why = "it is not modifiable".into(); }
        if o.token() && !rw && !t.is_empty() { v = Verdict::No; why = "the session is read-only".into(); }

        if self.who != Who::User && o.token() && v == Verdict::Yes { v = Verdict::Any; }
        let rv = self.t.p.set(s, o.h, &t);
        match v {
            Verdict::Yes => ensure!(rv == CKR_OK, "set-refused", "{what}: {}", rvname(rv)),
            Verdict::No => { ensure!(denied(rv), "set-allowed", "{what}: accepted although {why}"); cx.hit("set refused"); if t.len() > 1 && rules.contains(&Verdict::Yes) { cx.hit("refused set with allowed parts"); } }
            Verdict::Any => (),
        }
        if o.token() && !rw && !t.is_empty() && o.is(CKA_MODIFIABLE) && self.who == Who::User { ensure!(rv == CKR_SESSION_READ_ONLY, "read-only-code", "{what}: {}", rvname(rv)); cx.hit("read-only set"); }
        if rv == CKR_OK { cx.hit("set done"); World::apply(&mut self.objs[i], &t); }
        self.compare(i, s, &what)
    }
    pub fn copy(&mut self, cx: &mut Cx, s: u64, rw: bool, i: usize, ch: &[(u16, Hx)]) -> R {
        let o = &self.objs[i];
        let mut t = resolve(o, ch);
        self.mark(&mut t);
        let what = format!("#{} copy of object {} ({:?} from {:?}, token {}) {}", self.n, o.h, o.kind, o.origin, o.token(), t.iter().map(|a| format!("{:x}={}", a.0, hex(&a.1.bytes()))).collect::<Vec<_>>().join(" "));
        let rules: Vec<Verdict> = t.iter().map(|(a, v)| rule(o, *a, &v.bytes(), true)).collect();
        let mut v = if rules.contains(&Verdict::No) { Verdict::No } else if rules.contains(&Verdict::Any) { Verdict::Any } else { Verdict::Yes };
        let mut why = t.iter().zip(&rules).find(|x| *x.1 == Verdict::No).map(|x| format!("{:#x} must not change", x.0.0)).unwrap_or_default();
        if v == Verdict::Yes && !o.is(CKA_MODIFIABLE) && !t.is_empty() { v = Verdict::Any; }
        let tok = tget(&t, CKA_TOKEN).map(|v| v.bytes()[..] == [1]).unwrap_or(o.token());
        if tok && !rw { v = Verdict::No; why = "the copy is a token object and the session is read-only".into(); }
        if !o.is(CKA_COPYABLE) { v = Verdict::No; why = "it is not copyable".into(); }
        if v == Verdict::Yes && o.kind == Kind::Trust && tok { v = Verdict::Any; }
        if self.who != Who::User {
            if v == Verdict::Yes && (tok || o.token()) { v = Verdict::Any; }
            if tget(&t, CKA_PRIVATE).map(|v| v.bytes()[..] == [1]).unwrap_or(false) {
                if !tok { return Ok(()); }
                v = Verdict::No; why = format!("the copy is a private token object while {:?} is logged in", self.who); cx.hit("private token object refused");
            }
        }
        let (rv, h) = self.t.p.copy(s, o.h, &t);
        match v {
            Verdict::Yes => ensure!(rv == CKR_OK, "copy-refused", "{what}: {}", rvname(rv)),
            Verdict::No => { ensure!(denied(rv), "copy-allowed", "{what}: accepted although {why}"); cx.hit("copy refused"); if !o.is(CKA_COPYABLE) { cx.hit("not copyable"); } }
            Verdict::Any => (),
        }
        if rv != CKR_OK { self.compare(i, s, &what)?; return self.count(&what); }
        self.fresh(h, &what)?;
        let got = self.read(s, h)?;
        let o = &self.objs[i];
        let uid = got[&CKA_UNIQUE_ID].clone().unwrap_or_default();
        ensure!(!uid.is_empty() && self.objs.iter().all(|x| x.uid() != uid), "unique-id", "{what}: CKA_UNIQUE_ID of the copy is not new");
        let mut n = ObjM { h, kind: o.kind, owner: s, a: o.a.clone(), origin: o.origin, copied: true, seed: o.seed, fixed: o.fixed, key: o.key };
        World::apply(&mut n, &t);
        n.a.insert(CKA_UNIQUE_ID, Some(uid));
        cx.hit(if o.token() { if tok { "copied token to token" } else { "copied token to session" } } else if tok { "copied session to token" } else { "copied session to session" });
        self.objs.push(n);
        self.compare(self.objs.len() - 1, s, &what)?;
        self.compare(i, s, &what)
    }
    pub fn destroy(&mut self, cx: &mut Cx, s: u64, rw: bool, i: usize) -> R {
        let o = &self.objs[i];
        let what = format!("#{} destroy object {} ({:?}, token {})", self.n, o.h, o.kind, o.token());
        let rv = self.t.p.destroy(s, o.h);
        if self.who != Who::User && o.token() && rv != CKR_OK { return self.compare(i, s, &what); }
        if !o.is(CKA_DESTROYABLE) || o.token() && !rw {
            ensure!(denied(rv), "destroy-allowed", "{what}: destroyable {}, session read-write {rw}: accepted", o.is(CKA_DESTROYABLE));
            cx.hit("destroy refused");
            return self.compare(i, s, &what);
        }
        ensure!(rv == CKR_OK, "destroy-refused", "{what}: {}", rvname(rv));
        cx.hit(if o.token() { "destroyed token object" } else { "destroyed session object" });
        let o = self.objs.remove(i);
        self.dead.push(o.h);
        Ok(())
    }
    /// the length protocol entry by entry
    pub fn get(&mut self, cx: &mut Cx, s: u64, i: usize, l: &[(u8, u8)]) -> R {
        let o = &self.objs[i];
        let all = self.readable(o);
        let mut attrs = vec![];
        let mut bufs = vec![];
        for (a, how) in l {
            let a = if *a >= 250 { 0x7fff_2222 } else { all[*a as usize % all.len()] };
            let want = o.a.get(&a).cloned().flatten();
            let n = want.as_ref().map(|v| v.len()).unwrap_or(9);
            let cap = match how % 5 { 0 | 1 => n, 2 => n.saturating_sub(1), 3 => n + 13, _ => 0 };
            bufs.push((a, want, how % 5, GBuf::new(cap), cap));
        }
        for (a, _, how, b, cap) in bufs.iter_mut() { attrs.push(CK_ATTRIBUTE { type_: *a, pValue: if *how == 0 { std::ptr::null_mut() } else { b.ptr() as *mut _ }, ulValueLen: if *how == 0 { 0 } else { *cap as u64 } }); }
        let p = self.t.p;
        let rv = F!(p.C_GetAttributeValue(s, o.h, attrs.as_mut_ptr(), attrs.len() as CK_ULONG));
        let what = format!("#{} get on object {} ({:?}) of {:x?}", self.n, o.h, o.kind, bufs.iter().map(|b| (b.0, b.2)).collect::<Vec<_>>());
        let mut codes = BTreeSet::new();
        for (x, (a, want, how, b, cap)) in attrs.iter().zip(&bufs) {
            ensure!(b.ok(), "buffer-overrun", "{what}: wrote outside the buffer of {a:#x}");
            match want {
                None => {
                    codes.insert(if o.protected() && o.kind.secrets().contains(a) { CKR_ATTRIBUTE_SENSITIVE } else { CKR_ATTRIBUTE_TYPE_INVALID });
                    ensure!(x.ulValueLen == CK_UNAVAILABLE_INFORMATION, "get-length", "{what}: {a:#x} is unavailable but its length says {}", x.ulValueLen);
                    ensure!(*how == 0 || b.data(*cap).iter().all(|b| *b == 0xA5), "get-wrote", "{what}: {a:#x} is unavailable but its buffer changed");
                }
                Some(v) if *how == 0 => ensure!(x.ulValueLen == v.len() as u64, "get-length", "{what}: {a:#x} size query says {} instead of {}", x.ulValueLen, v.len()),
                Some(v) if v.len() <= *cap => {
                    ensure!(x.ulValueLen == v.len() as u64, "get-length", "{what}: {a:#x} length {} instead of {}", x.ulValueLen, v.len());
                    ensure!(b.data(v.len()) == *v, "get-value", "{what}: {a:#x} is {} instead of {}", hex(&b.data(v.len())), hex(v));
                    ensure!(b.data(*cap)[v.len()..].iter().all(|b| *b == 0xA5), "get-wrote", "{what}: {a:#x} wrote behind its value");
                }
                Some(_) => {
                    codes.insert(CKR_BUFFER_TOO_SMALL);
                    ensure!(x.ulValueLen == CK_UNAVAILABLE_INFORMATION, "get-length", "{what}: {a:#x} does not fit but its length says {}", x.ulValueLen);
                    cx.hit("short attribute buffer");
                }
            }
        }
        if codes.is_empty() { ensure!(rv == CKR_OK, "get-code", "{what}: {}", rvname(rv)); }
        else { ensure!(codes.contains(&rv), "get-code", "{what}: {} where {:?} are the problems", rvname(rv), codes.iter().map(|c| rvname(*c)).collect::<Vec<_>>()); if codes.len() > 1 { cx.hit("several problems in one get"); } }
        Ok(())
    }
    pub fn gone(&mut self, f: impl Fn(&ObjM) -> bool) {
        let (out, keep): (Vec<ObjM>, Vec<ObjM>) = std::mem::take(&mut self.objs).into_iter().partition(|o| f(o));
        self.objs = keep;
        self.dead.extend(out.iter().map(|o| o.h));
    }
    pub fn restart(&mut self, after: &str) -> R {
        let rv = self.t.restart();
        ensure!(rv == CKR_OK, "restart", "{after}: C_Initialize: {}", rvname(rv));
        self.relogin(after)
    }
    /// after a new start: handles are mapped by unique id
    pub fn relogin(&mut self, after: &str) -> R {
        self.who = Who::User;
        self.helper = self.t.user();
        self.sess = vec![(self.t.user(), true)];
        self.objs.retain(|o| o.token());
        let p = self.t.p;
        let (rv, all) = p.find(self.helper, &[]);
        ensure!(rv == CKR_OK, "find", "{after}: C_FindObjects: {}", rvname(rv));
        let mut left: Vec<Obj> = all.clone();
        for o in self.objs.iter_mut() {
            let (rv, v) = p.find(self.helper, &tm! { CKA_UNIQUE_ID => o.uid() });
            ensure!(rv == CKR_OK && v.len() == 1, "object-lost", "{after}: token object {:?} ({:?}) is found {} times after a restart ({})", o.h, o.kind, v.len(), rvname(rv));
            o.h = v[0];
            left.retain(|x| *x != v[0]);
        }
        for h in &left { let c = p.get_ulong(self.helper, *h, CKA_CLASS); ensure!(matches!(c, Ok(CKO_MECHANISM) | Ok(CKO_PROFILE) | Ok(CKO_HW_FEATURE)), "object-left", "{after}: object {h} of class {c:x?} appeared after a restart"); }
        ensure!(left.len() == self.builtin.len(), "builtin-changed", "{after}: {} built-in objects instead of {}", left.len(), self.builtin.len());
        self.builtin = left.into_iter().collect();
        self.dead.clear();
        self.used = all.into_iter().collect();
        Ok(())
    }
    pub fn step(&mut self, cx: &mut Cx, op: &Op) -> R {
        self.n += 1;
        let n = self.n;
        let p = self.t.p;
        if let Op::Copy(s, o, t) | Op::Set(s, o, t) = op { if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { if self.hidden(i) { return self.probe(cx, s, i, if matches!(op, Op::Set(..)) { 2 } else { 3 + t.len() as u8 % 3 }); } } }
        if let Op::Destroy(s, o) | Op::Get(s, o, _) | Op::Size(s, o) | Op::Use(s, o) = op { if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { if self.hidden(i) { return self.probe(cx, s, i, match op { Op::Destroy(..) => 6, Op::Get(..) => 0, Op::Size(..) => 1, _ => 8 }); } } }
        match op {
            Op::Open(rw) => { if self.sess.len() < 6 && (*rw || self.who != Who::So) { let (rv, h) = p.open(self.t.slot, *rw); ensure!(rv == CKR_OK, "open", "#{n}: {}", rvname(rv)); self.sess.push((h, *rw)); } }
            Op::Close(i) => if let Some((h, _)) = self.s(*i) {
                let rv = p.close(h); ensure!(rv == CKR_OK, "close", "#{n}: {}", rvname(rv));
                self.sess.retain(|x| x.0 != h);
                let before = self.objs.len();
                self.gone(|o| o.owner == h && !o.token());
                if before != self.objs.len() { cx.hit("session objects vanish"); }
                self.all(&format!("#{n} close session {h}"))?;
            },
            Op::CloseAll => {
                let rv = p.close_all(self.t.slot); ensure!(rv == CKR_OK, "close", "#{n}: {}", rvname(rv));
                self.gone(|o| !o.token());
                self.helper = self.t.user();
                self.sess = vec![(self.t.user(), true)];
                self.who = Who::User;
                self.all(&format!("#{n} close all"))?;
            }
            Op::CloseEach => {
                let all: Vec<u64> = self.sess.iter().map(|x| x.0).chain([self.helper]).collect();
                for (k, s) in all.iter().enumerate() {
                    let (r0, i) = p.sess_info(*s);
                    let logged = matches!(i.state, CKS_RO_USER_FUNCTIONS | CKS_RW_USER_FUNCTIONS | CKS_RW_SO_FUNCTIONS);
                    ensure!(r0 == CKR_OK && logged == (self.who != Who::None), "close", "#{n}: with {k} sessions closed the next one has state {} ({:?} logged in)", i.state, self.who);
                    let rv = p.close(*s); ensure!(rv == CKR_OK, "close", "#{n}: {}", rvname(rv));
                }
                self.gone(|o| !o.token());
                let s = self.t.open(true);
                let (rv, i) = p.sess_info(s);
                ensure!(rv == CKR_OK && i.state == CKS_RW_PUBLIC_SESSION, "still-logged-in", "#{n}: after the last session of the slot was closed a new one has state {}: {}", i.state, rvname(rv));
                p.close(s);
                self.helper = self.t.user();
                self.sess = vec![(self.t.user(), true)];
                self.who = Who::User;
                self.all(&format!("#{n} close each"))?;
            }
            Op::Make(s, sp) => if let Some((s, rw)) = self.s(*s) { if self.objs.len() < 14 { self.make(cx, s, rw, sp)?; } },
            Op::Copy(s, o, t) => if let (Some((s, rw)), Some(i)) = (self.s(*s), self.o(*o)) { if self.objs.len() < 14 { self.copy(cx, s, rw, i, t)?; } },
            Op::Set(s, o, t) => if let (Some((s, rw)), Some(i)) = (self.s(*s), self.o(*o)) { self.set(cx, s, rw, i, t)?; },
            Op::Destroy(s, o) => if let (Some((s, rw)), Some(i)) = (self.s(*s), self.o(*o)) { self.destroy(cx, s, rw, i)?; },
            Op::Get(s, o, l) => if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { self.get(cx, s, i, l)?; },
            Op::Size(s, o) => if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) {
                let (rv, v) = p.size(s, self.objs[i].h);
                // the secret attributes of public token keys can not be read by everyone
                let sealed = self.who != Who::User && self.objs[i].token() && !self.objs[i].kind.secrets().is_empty();
                ensure!(rv == CKR_OK && v > 0 || sealed && rv != CKR_OK || rv == CKR_INFORMATION_SENSITIVE, "size", "#{n} size of object {}: {} {v}", self.objs[i].h, rvname(rv));
            },
            Op::Dead(s, d, w) => if let Some((s, _)) = self.s(*s) {
                let h = if self.dead.is_empty() { 0x7777_0000 + *d as u64 } else { self.dead[*d as usize * self.dead.len() / 256] };
                let rv = match w % 6 { 0 => p.destroy(s, h), 1 => p.set(s, h, &tm! { CKA_LABEL => "x" }), 2 => p.copy(s, h, &[]).0, 3 => p.size(s, h).0, 4 => p.encrypt_init(s, &Mech::new(CKM_AES_ECB), h), _ => p.get(s, h, &[CKA_LABEL]).0 };
                ensure!(rv == CKR_OBJECT_HANDLE_INVALID || w % 6 == 4 && rv == CKR_KEY_HANDLE_INVALID, "dead-object-alive", "#{n}: call {} on dead or unknown object {h}: {}", w % 6, rvname(rv));
                self.count(&format!("#{n} call on a dead object"))?;
                cx.hit("dead handle");
            },
            Op::Find(s, o, l) => if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { self.find(cx, s, i, l)?; },
            Op::Use(s, o) => if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { self.use_key(cx, s, i, &format!("#{n}"))?; },
            Op::Logout(i) => {
                let s = self.s(*i).map(|x| x.0).unwrap_or(self.helper);
                let rv = p.logout(s);
                if self.who == Who::None { ensure!(rv == CKR_USER_NOT_LOGGED_IN, "logout", "#{n} logout with nobody logged in: {}", rvname(rv)); }
                else {
                    ensure!(rv == CKR_OK, "logout", "#{n} logout: {}", rvname(rv));
                    let before = self.objs.len();
                    self.gone(|o| !o.token() && o.is(CKA_PRIVATE));
                    if before != self.objs.len() { cx.hit("private session objects vanish at logout"); }
                    self.who = Who::None;
                }
                self.all(&format!("#{n} logout"))?;
            }
            Op::Login(i, so) => {
                let s = self.s(*i).map(|x| x.0).unwrap_or(self.helper);
                if *so && self.t.db == Db::Nss { return Ok(()); }
                let (u, pin) = if *so { (CKU_SO, SO) } else { (CKU_USER, &self.t.pin.borrow()[..]) };
                let rv = p.login(s, u, pin);
                let ro = self.sess.iter().any(|x| !x.1);
                if self.who != Who::None { ensure!(rv != CKR_OK, "login", "#{n} second login accepted"); }
                else if *so && ro { ensure!(rv == CKR_SESSION_READ_ONLY_EXISTS, "login", "#{n} SO login with a read-only session: {}", rvname(rv)); }
                else {
                    ensure!(rv == CKR_OK, "login", "#{n} login: {}", rvname(rv));
                    self.who = if *so { Who::So } else { Who::User };
                    cx.hit(if *so { "SO logged in" } else { "logged in again" });
                }
                self.all(&format!("#{n} login"))?;
            }
            Op::Probe(s, o, k) => if let (Some((s, _)), Some(i)) = (self.s(*s), self.o(*o)) { if self.hidden(i) { self.probe(cx, s, i, *k)?; } },
            Op::Pin(s, k) => {
                // a session that belongs to nobody is in no state to keep private session objects
                if self.who == Who::So || self.who == Who::None && self.objs.iter().any(|o| !o.token() && o.is(CKA_PRIVATE)) { return Ok(()); }
                let Some((s, rw)) = self.s(*s) else { return Ok(()) };
                let old = self.t.pin.borrow().clone();
                let new = format!("user pin {}", k % 3).into_bytes();
                let rv = p.set_pin(s, &old, &new);
                if !rw { ensure!(rv == CKR_SESSION_READ_ONLY, "set-pin", "#{n} C_SetPIN in a read-only session: {}", rvname(rv)); }
                else {
                    ensure!(rv == CKR_OK, "set-pin", "#{n} C_SetPIN: {}", rvname(rv));
                    *self.t.pin.borrow_mut() = new;
                    cx.hit("PIN changed");
                }
                self.all(&format!("#{n} PIN change"))?;
            }
            Op::Restart => { let w = format!("#{n} restart"); self.restart(&w)?; self.all(&w)?; cx.hit("restart"); }
        }
        if n % 5 == 0 { self.all(&format!("#{n} {op:?}").chars().take(300).collect::<String>())?; }
        Ok(())
    }
    /// a deterministic computation with the key must always give the same result
    pub fn use_key(&mut self, cx: &mut Cx, s: u64, i: usize, after: &str) -> R {
        let o = &self.objs[i];
        let p = self.t.p;
        if o.is(CKA_ALWAYS_AUTHENTICATE) || o.a[&CKA_ALLOWED_MECHANISMS].is_some() { return Ok(()); }
        let data: Vec<u8> = (0..32).map(|x| (x * 7 + 1) as u8).collect();
        let derive = |peer: &[u8]| -> Result<Vec<u8>, Rv> {
            let mut m = Mech::new(CKM_ECDH1_DERIVE);
            let (pp, pl) = m.keep(peer);
            m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
            let (rv, h) = p.derive(s, &m, o.h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE_LEN => 16u64, CKA_ENCRYPT => true });
            if rv != CKR_OK { return Err(rv); }
            let r = p.enc(s, &Mech::new(CKM_AES_ECB), h, &data);
            p.destroy(s, h);
            r
        };
        let flag = match o.kind { Kind::Aes | Kind::RsaPub => CKA_ENCRYPT, Kind::Generic | Kind::Hmac | Kind::RsaPriv => CKA_SIGN, Kind::EcPub => CKA_VERIFY, Kind::EcPriv | Kind::Mont => CKA_DERIVE, _ => return Ok(()) };
        if !o.is(flag) { return Ok(()); }
        let oid = o.a.get(&CKA_EC_PARAMS).cloned().flatten().unwrap_or_default();
        let r = match o.kind {
            Kind::Aes => p.enc(s, &Mech::new(CKM_AES_ECB), o.h, &data),
            Kind::Generic | Kind::Hmac => p.sig(s, &Mech::new(CKM_SHA256_HMAC), o.h, &data),
            Kind::RsaPriv => p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), o.h, &data),
            Kind::RsaPub => { let n = o.a[&CKA_MODULUS].as_ref().map(|v| v.len()).unwrap_or(128); p.enc(s, &Mech::new(CKM_RSA_X_509), o.h, &(0..n).map(|x| if x == 0 { 0 } else { x as u8 }).collect::<Vec<_>>()) }
            Kind::EcPub => {
                if !o.fixed { return Ok(()); }
                let (c, d) = ec_d(o.seed % 6);
                let mut t = ec_priv_tmpl(&curves()[c].oid, &d);
                tset(&mut t, CKA_SIGN, V::B(true));
                let k = self.temp(s, &t);
                let sg = p.sig(s, &Mech::new(CKM_ECDSA_SHA256), k, &data);
                p.destroy(s, k);
                let sg = match sg { Ok(v) => v, Err(e) => return viol("helper", format!("signing: {}", rvname(e))) };
                match p.ver(s, &Mech::new(CKM_ECDSA_SHA256), o.h, &data, &sg) { CKR_OK => Ok(vec![]), e => Err(e) }
            }
            Kind::Mont => derive(&if oid == mont_oid(true) { let mut v = vec![0u8; 56]; v[0] = 5; v } else { let mut v = vec![0u8; 32]; v[0] = 9; v }),
            _ => { let cv = &curves()[(0..3).find(|c| curves()[*c].oid == oid).unwrap_or(0)]; derive(&cv.enc(&cv.pubkey(&refc::rsa::os2ip(&[77])))) }
        };
        let (rv, out) = match r { Ok(v) => (CKR_OK, v), Err(e) => (e, vec![]) };
        if rv != CKR_OK && self.who != Who::User && o.token() && !o.kind.secrets().is_empty() { return Ok(()); }
        ensure!(rv == CKR_OK, "key-unusable", "{after}: object {} ({:?} from {:?}, token {}, copied {}) can not be used: {}", o.h, o.kind, o.origin, o.token(), o.copied, rvname(rv));
        cx.hit(&format!("used {:?}", o.kind));
        if let Some(x) = self.uses.get(&o.key) { ensure!(*x == out, "key-changed", "{after}: object {} ({:?} from {:?}, token {}, copied {}) gives {} where it gave {}", o.h, o.kind, o.origin, o.token(), o.copied, hex(&out), hex(x)); cx.hit("used again with the same result"); }
        self.uses.insert(o.key, out);
        Ok(())
    }
    /// calls naming a private object that must not do anything
    pub fn probe(&mut self, cx: &mut Cx, s: u64, i: usize, k: u8) -> R {
        let o = &self.objs[i];
        let p = self.t.p;
        let h = o.h;
        let n = self.n;
        let who = self.who;
        let d = vec![3u8; 16];
        macro_rules! no { ($name:expr, $rv:expr) => { let rv = $rv; ensure!(rv != CKR_OK, "private-used", "#{n} {} on private object {h} ({:?} from {:?}, token {}) accepted although {who:?} is logged in", $name, o.kind, o.origin, o.token()); } }
        let name = match k % 18 {
            0 => { self.refused(i, s, &format!("#{n}"))?; for a in [CKA_LABEL, CKA_CLASS, CKA_VALUE] { no!("C_GetAttributeValue", p.get1(s, h, a).err().unwrap_or(CKR_OK)); } let mut no: [CK_ATTRIBUTE; 0] = []; let rv = F!(p.C_GetAttributeValue(s, h, no.as_mut_ptr(), 0)); no!("empty C_GetAttributeValue", rv); "read" }
            1 => { no!("C_GetObjectSize", p.size(s, h).0); "size" }
            2 => { no!("C_SetAttributeValue", p.set(s, h, &tm! { CKA_LABEL => "stolen" })); "set" }
            3 => { no!("C_CopyObject", p.copy(s, h, &[]).0); "copy" }
            4 => { no!("C_CopyObject to public", p.copy(s, h, &tm! { CKA_PRIVATE => false, CKA_TOKEN => false }).0); "copy" }
            5 => { no!("C_CopyObject to a session object", p.copy(s, h, &tm! { CKA_TOKEN => false }).0); "copy" }
            6 | 7 => { no!("C_DestroyObject", p.destroy(s, h)); "destroy" }
            8 => {
                let (me, ms, _md): (u64, u64, u64) = match o.kind { Kind::Aes => (CKM_AES_ECB, CKM_AES_CMAC, 0), Kind::Generic | Kind::Hmac => (0, CKM_SHA256_HMAC, 0), Kind::RsaPriv | Kind::RsaPub => (CKM_RSA_PKCS, CKM_SHA256_RSA_PKCS, 0), _ => (0, CKM_ECDSA_SHA256, 0) };
                if me != 0 { no!("C_EncryptInit", p.encrypt_init(s, &Mech::new(me), h)); no!("C_DecryptInit", p.decrypt_init(s, &Mech::new(me), h)); }
                no!("C_SignInit", p.sign_init(s, &Mech::new(ms), h));
                no!("C_VerifyInit", p.verify_init(s, &Mech::new(ms), h));
                no!("C_VerifySignatureInit", p.vsig_init(s, &Mech::new(ms), h, &[0; 64]));
                "use"
            }
            9 => { let mut m = Mech::new(CKM_CONCATENATE_BASE_AND_DATA); let (ptr, len) = m.keep(&d); m.set(CK_KEY_DERIVATION_STRING_DATA { pData: ptr, ulLen: len }); no!("C_DeriveKey", p.derive(s, &m, h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_TOKEN => false, CKA_PRIVATE => false }).0); "derive" }
            10 => {
                let mut m = Mech::new(CKM_ECDH1_DERIVE);
                let peer = if o.kind == Kind::Mont { vec![9u8; 32] } else { let cv = &curves()[0]; cv.enc(&cv.pubkey(&refc::rsa::os2ip(&[77]))) };
                let (pp, pl) = m.keep(&peer);
                m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
                no!("C_DeriveKey (ECDH)", p.derive(s, &m, h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE_LEN => 16u64, CKA_TOKEN => false, CKA_PRIVATE => false }).0);
                "derive"
            }
            11 => { // as the wrapped key
                let kek = self.temp(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => bytes_of(7, 32, b"kek"), CKA_WRAP => true, CKA_TOKEN => false });
                let (rv, _) = p.wrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), kek, h);
                p.destroy(s, kek); self.used.insert(kek);
                no!("C_WrapKey of it", rv);
                "wrapped"
            }
            12 => { // as the wrapping key
                let k = self.temp(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => bytes_of(8, 32, b"kek"), CKA_EXTRACTABLE => true, CKA_TOKEN => false });
                let m = if o.kind == Kind::RsaPub { CKM_RSA_PKCS } else { CKM_AES_KEY_WRAP_KWP };
                let (rv, _) = p.wrap(s, &Mech::new(m), h, k);
                p.destroy(s, k); self.used.insert(k);
                no!("C_WrapKey with it", rv);
                "wrapping"
            }
            13 => { // unwrapping
                let blob = if o.kind == Kind::Aes { refc::aes::kwp(&o.a[&CKA_VALUE].clone().unwrap_or(target(Kind::Aes, o.seed).encode()), &[0xa6, 0x59, 0x59, 0xa6], &d) } else { vec![1; 128] };
                let m = if o.kind == Kind::RsaPriv { CKM_RSA_PKCS } else { CKM_AES_KEY_WRAP_KWP };
                no!("C_UnwrapKey", p.unwrap(s, &Mech::new(m), h, &blob, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_TOKEN => false, CKA_PRIVATE => false }).0);
                "unwrapping"
            }
            14 => { let rv = p.digest_init(s, &Mech::new(CKM_SHA256)); ensure!(rv == CKR_OK, "digest", "#{n}: {}", rvname(rv)); let rv = p.digest_key(s, h); p.cancel(s, CKF_DIGEST as u64); no!("C_DigestKey", rv); "digest" }
            15 => {
                let m = Mech::with(CKM_AES_GCM, CK_GCM_MESSAGE_PARAMS { pIv: d.as_ptr() as *mut _, ulIvLen: 12, ulIvFixedBits: 0, ivGenerator: CKG_NO_GENERATE, pTag: d.as_ptr() as *mut _, ulTagBits: 96 });
                let rv = F!(p.C_MessageEncryptInit(s, m.ptr(), h)); no!("C_MessageEncryptInit", rv);
                let rv = F!(p.C_MessageDecryptInit(s, m.ptr(), h)); no!("C_MessageDecryptInit", rv);
                "message"
            }
            _ => { // searches by everything known about it
                for t in [tm! { CKA_UNIQUE_ID => o.uid() }, tm! { CKA_PRIVATE => true }, tm! { CKA_PRIVATE => true, CKA_PRIVATE => false }, tm! { CKA_CLASS => o.kind.class(), CKA_TOKEN => true }, tm! { CKA_LABEL => o.a[&CKA_LABEL].clone().unwrap_or_default() }] {
                    let (_, v) = p.find(s, &t);
                    ensure!(!v.contains(&h), "private-found", "#{n}: a search for {t:?} finds private object {h} ({:?}, token {}) although {who:?} is logged in", o.kind, o.token());
                }
                "search"
            }
        };
        cx.hit(&format!("private {name} refused{}", if self.who == Who::So { " to the SO" } else { "" }));
        Ok(())
    }
    /// search by some attributes of one object: every (attribute, value source, tweak)
    pub fn find(&mut self, cx: &mut Cx, s: u64, i: usize, l: &[u8]) -> R {
        let p = self.t.p;
        let n = self.n;
        let mut t: Tmpl = vec![];
        let nss = self.t.db == Db::Nss;
        let mut x = l.iter().copied().cycle();
        let mut r = || x.next().unwrap_or(0) as usize;
        let cnt = [0, 1, 1, 1, 2, 2, 3, 4, 6][r() % 9];
        let mut loose = false; // an error answer is acceptable
        let mut bait = false;
        for _ in 0..cnt {
            let o = if r() % 8 == 0 { &self.objs[r() % self.objs.len()] } else { &self.objs[i] };
            let have: Vec<u64> = ALL.iter().copied().filter(|a| o.a[a].is_some()).collect();
            let a = match r() % 16 { 0..=8 => have[r() % have.len()], 9 => ALL[r() % ALL.len()], 10 => 0x7fff_3333, 11..=12 => o.kind.secrets().get(r() % 7).copied().unwrap_or(CKA_CLASS), _ => [CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_KEY_TYPE, CKA_LABEL, CKA_ID, CKA_VALUE][r() % 7] };
            let truth = o.a.get(&a).cloned().flatten();
            let secret = if truth.is_none() && o.kind.secrets().contains(&a) && o.fixed {
                Spec { kind: o.kind, origin: o.origin, seed: o.seed, token: None, opts: vec![], bad: Bad::No }.material().iter().find(|x| x.0 == a).map(|x| x.1.bytes())
            } else { None };
            if secret.is_some() && self.visible(o) { bait = true; }
            let mut v = truth.or(secret).unwrap_or_else(|| val(a, &[r() as u8, r() as u8]));
            match r() % 12 {
                0 => v.push(0),
                1 => { v.pop(); }
                2 => if let Some(b) = v.last_mut() { *b ^= 1 },
                3 => if let Some(b) = v.first_mut() { *b ^= 0x20 },
                4 => v = val(a, &[r() as u8, r() as u8, r() as u8]),
                _ => (),
            }
            let bad = match aty(a) { Ty::Bool => v.len() != 1, Ty::Num => v.len() != 8, Ty::Mechs => v.len() % 8 != 0, Ty::Date => v.len() != 8 || !v.iter().all(|b| b.is_ascii_digit()), Ty::Str => std::str::from_utf8(&v).is_err(), _ => false };
            if bad || !ALL.contains(&a) { loose = true; }
            if nss && v == [0xa5, 0, 0x5a] { continue; }
            t.push((a, V::X(v)));
        }
        let what = format!("#{n} search for {}", t.iter().map(|a| format!("{:x}={}", a.0, hex(&a.1.bytes()))).collect::<Vec<_>>().join(" "));
        // what the model says: must be there, may be there
        let (mut must_, mut may): (BTreeSet<Obj>, BTreeSet<Obj>) = Default::default();
        for o in self.objs.iter().filter(|o| self.visible(o)) {
            let mut all = Some(true);
            for (a, v) in &t {
                let v = v.bytes();
                let m = match o.a.get(a).cloned().flatten() {
                    Some(w) if w == v => Some(true),
                    Some(w) if aty(*a) == Ty::Bool && w.len() == 1 && v.len() == 1 && (w[0] != 0) == (v[0] != 0) => None,
                    // read back as zeros, kept as nothing
                    Some(w) if aty(*a) == Ty::Date && (w.is_empty() || v.is_empty()) => None,
                    Some(_) => Some(false),
                    None if v.is_empty() && !o.kind.secrets().contains(a) => None,
                    None => Some(false),
                };
                // the secret attributes of public token keys can not be read by everyone
                let m = if self.who != Who::User && o.token() && o.kind.secrets().contains(a) && m == Some(true) { None } else { m };
                all = match (all, m) { (Some(false), _) | (_, Some(false)) => Some(false), (None, _) | (_, None) => None, _ => Some(true) };
            }
            match all { Some(true) => { must_.insert(o.h); may.insert(o.h); } None => { may.insert(o.h); } _ => () }
        }
        for b in &self.builtin {
            let types: Vec<u64> = t.iter().map(|a| a.0).collect();
            let ok = if types.is_empty() { true } else { let (_, v) = p.get(s, *b, &types); t.iter().zip(v).all(|((_, v), g)| g.as_deref() == Some(&v.bytes()[..])) };
            if ok { must_.insert(*b); may.insert(*b); } else if t.iter().any(|a| a.1.bytes().is_empty() || aty(a.0) == Ty::Bool) { may.insert(*b); }
        }
        let rv = p.find_init(s, &t);
        if nss && rv == CKR_ATTRIBUTE_SENSITIVE && t.iter().any(|a| [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT].contains(&a.0)) { cx.hit("NSS refuses to search on secret attributes"); return Ok(()); }
        if loose && rv != CKR_OK { cx.hit("malformed search refused"); return Ok(()); }
        ensure!(rv == CKR_OK, "find", "{what}: C_FindObjectsInit: {}", rvname(rv));
        // fetch in batches, with changes to the store in between
        let mut got: Vec<Obj> = vec![];
        let (mut made, mut end) = (None, 0);
        for turn in 0.. {
            let max = [1usize, 2, 3, 7, 64, 1000, 0][r() % 7];
            let (rv, v) = p.find_next(s, max);
            ensure!(rv == CKR_OK, "find", "{what}: C_FindObjects: {}", rvname(rv));
            ensure!(v.len() <= max, "find", "{what}: {} handles where {max} were asked for", v.len());
            if v.is_empty() && max > 0 { end += 1; if end == 2 { break; } } else if max > 0 { ensure!(end == 0, "find-restart", "{what}: handles after the end of the search"); }
            got.extend(v);
            if turn == 0 && r() % 2 == 0 {
                // an object that matches the same template, created and destroyed while the search goes on
                let (rv, h) = p.create(self.helper, &tm! { CKA_CLASS => CKO_DATA, CKA_LABEL => "late", CKA_PRIVATE => false, CKA_TOKEN => false });
                ensure!(rv == CKR_OK, "create-refused", "{what}: data object while searching: {}", rvname(rv));
                self.used.insert(h);
                made = Some(h);
            }
            if turn == 2 { if let Some(h) = made { ensure!(p.destroy(self.helper, h) == CKR_OK, "destroy", "{what}: data object"); self.dead.push(h); } }
            if turn > 4000 { return viol("find-endless", format!("{what}: the search does not end")); }
        }
        let rv = p.find_final(s);
        ensure!(rv == CKR_OK, "find", "{what}: C_FindObjectsFinal: {}", rvname(rv));
        if let Some(h) = made { if !self.dead.contains(&h) { ensure!(p.destroy(self.helper, h) == CKR_OK, "destroy", "{what}: data object"); self.dead.push(h); } }
        let set: BTreeSet<Obj> = got.iter().copied().filter(|h| Some(*h) != made).collect();
        ensure!(got.iter().collect::<BTreeSet<_>>().len() == got.len(), "find-duplicate", "{what}: handles {got:?} repeat");
        let d = |h: &Obj| self.objs.iter().find(|o| o.h == *h).map(|o| format!("{h} ({:?} from {:?}, token {}, private {})", o.kind, o.origin, o.token(), o.is(CKA_PRIVATE))).unwrap_or(format!("{h}"));
        let extra: Vec<_> = set.difference(&may).map(d).collect();
        let missing: Vec<_> = must_.difference(&set).map(d).collect();
        ensure!(extra.is_empty(), "find-extra", "{what}: also finds {extra:?}");
        if nss && !missing.is_empty() && t.iter().any(|a| a.0 == CKA_UNIQUE_ID) { return Ok(()); }
        ensure!(missing.is_empty() || loose, "find-missing", "{what}: does not find {missing:?}");
        if bait { cx.hit("search on the true value of a secret"); }
        if made.is_some() { cx.hit("store changed during the search"); }
        if must_.len() > 1 && must_.len() < self.objs.len() + self.builtin.len() && !t.is_empty() { cx.hit("search with several matches"); }
        if !must_.is_empty() && !t.is_empty() { cx.hit("search with matches"); } else { cx.hit("search without matches"); }
        Ok(())
    }
}
/// a key that may be used for everything its class can do
pub fn useful(kinds: &'static [Kind], token: f64) -> BoxedStrategy<Spec> {
    spec(kinds, 0, token).prop_map(|mut x| {
        let pool = x.kind.pool();
        let pos = |a: u64| pool.iter().position(|p| *p == a);
        if let Some(i) = pos(CKA_ALLOWED_MECHANISMS) { x.opts.retain(|o| o.0 as usize % pool.len() != i); }
        for a in [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_DERIVE, CKA_WRAP, CKA_UNWRAP] { if let Some(i) = pos(a) { x.opts.push((i as u8, Hx(vec![1]))); } }
        for a in [CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED] { if let Some(i) = pos(a) { x.opts.push((i as u8, Hx(vec![0]))); } }
        x
    }).boxed()
}
pub fn bad_name(b: &Bad) -> &'static str {
    match b { Bad::No => "-", Bad::Lib(..) => "library attribute", Bad::Foreign(..) => "foreign attribute", Bad::Missing(_) => "missing attribute", Bad::Dup(_) => "duplicate attribute", Bad::Size(_) => "wrong size", Bad::Len(_) => "length mismatch", Bad::Class(_) => "class mismatch", Bad::Key(_) => "bad key", Bad::Material => "key material" }
}
pub fn gen_mech(k: Kind) -> u64 {
    match k { Kind::Aes => CKM_AES_KEY_GEN, Kind::Generic => CKM_GENERIC_SECRET_KEY_GEN, Kind::Hmac => CKM_SHA256_KEY_GEN, Kind::RsaPriv | Kind::RsaPub => CKM_RSA_PKCS_KEY_PAIR_GEN, Kind::EcPriv | Kind::EcPub => CKM_EC_KEY_PAIR_GEN, _ => CKM_EC_MONTGOMERY_KEY_PAIR_GEN }
}
