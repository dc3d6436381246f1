//! C05: a key is only usable for what its class, type and attributes allow.
use super::c15::curves;
use super::c18::{dh_priv_tmpl, groups, mont_oid};
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ptr::null_mut;

// ---------------------------------------------------------------- the table
/// kind of the key that is tried
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kk { Aes, Generic, Mac(u8), Hkdf, Hotp, RsaPub, RsaPriv, EcPub, EcPriv, MontPub, MontPriv, DhPub, DhPriv, Data }
const KKS: [Kk; 14] = [Kk::Aes, Kk::Generic, Kk::Mac(2), Kk::Hkdf, Kk::Hotp, Kk::RsaPub, Kk::RsaPriv, Kk::EcPub, Kk::EcPriv, Kk::MontPub, Kk::MontPriv, Kk::DhPub, Kk::DhPriv, Kk::Data];
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Cl { Secret, Public, Private, Otp, Other }
impl Kk {
    pub fn class(self) -> Cl {
        match self { Kk::Aes | Kk::Generic | Kk::Mac(_) | Kk::Hkdf => Cl::Secret, Kk::Hotp => Cl::Otp, Kk::RsaPub | Kk::EcPub | Kk::MontPub | Kk::DhPub => Cl::Public, Kk::RsaPriv | Kk::EcPriv | Kk::MontPriv | Kk::DhPriv => Cl::Private, Kk::Data => Cl::Other }
    }
    /// in an NSS database
    pub fn nss(self) -> bool { !matches!(self, Kk::Hkdf | Kk::Hotp | Kk::DhPub | Kk::DhPriv | Kk::Data) }
    pub fn flags(self) -> &'static [u64] {
        match self.class() {
            Cl::Secret => &[CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE],
            Cl::Public => &[CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP],
            Cl::Private => &[CKA_DECRYPT, CKA_SIGN, CKA_UNWRAP, CKA_DERIVE],
            Cl::Otp => &[CKA_SIGN, CKA_VERIFY],
            Cl::Other => &[],
        }
    }
    pub fn value(self) -> Vec<u8> {
        match self { Kk::Aes => (1u8..=32).collect(), Kk::Generic => { let mut v: Vec<u8> = (101u8..149).collect(); v[0] = 3; v[1] = 3; v } Kk::Mac(i) => vec![0x5c; HT[i as usize].h.len()], _ => (50u8..82).collect() }
    }
    pub fn tmpl(self) -> Tmpl {
        let sec = |kt: u64| tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => kt, CKA_VALUE => self.value() };
        let mut t = match self {
            Kk::Aes => sec(CKK_AES),
            Kk::Generic => sec(CKK_GENERIC_SECRET),
            Kk::Mac(i) => sec(HT[i as usize].kt),
            Kk::Hkdf => sec(CKK_HKDF),
            Kk::Hotp => tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_VALUE => self.value() },
            Kk::RsaPub => rsa_pub_tmpl(&crate::rsakeys::KEYS[TEST_RSA]),
            Kk::RsaPriv => rsa_priv_tmpl(&crate::rsakeys::KEYS[TEST_RSA], true),
            Kk::EcPub => ec_pub_tmpl(&test_ec().0, &test_ec().2),
            Kk::EcPriv => ec_priv_tmpl(&test_ec().0, &test_ec().1),
            Kk::MontPub => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_EC_PARAMS => mont_oid(false), CKA_EC_POINT => der_octets(&base_x()) },
            Kk::MontPriv => tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_EC_PARAMS => mont_oid(false), CKA_VALUE => self.value() },
            Kk::DhPub => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_DH, CKA_PRIME => groups()[0].p.to_bytes_be(), CKA_BASE => vec![2u8], CKA_VALUE => dh_peer() },
            Kk::DhPriv => dh_priv_tmpl(0, &self.value()),
            Kk::Data => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => self.value() },
        };
        t.retain(|a| !matches!(a.0, CKA_ENCRYPT | CKA_DECRYPT | CKA_SIGN | CKA_VERIFY | CKA_WRAP | CKA_UNWRAP | CKA_DERIVE | CKA_TOKEN | CKA_PRIVATE | CKA_SENSITIVE | CKA_EXTRACTABLE));
        t
    }
}
pub fn base_x() -> Vec<u8> { let mut v = vec![0u8; 32]; v[0] = 9; v }
pub fn dh_peer() -> Vec<u8> { num_bigint::BigUint::from(2u8).modpow(&num_bigint::BigUint::from_bytes_be(&[77; 30]), &groups()[0].p).to_bytes_be() }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Act { Enc, Dec, Sign, Ver, Vsig, Menc, Mdec, Wrap, Unwrap, Derive }
impl Act {
    fn attr(self) -> u64 { match self { Act::Enc | Act::Menc => CKA_ENCRYPT, Act::Dec | Act::Mdec => CKA_DECRYPT, Act::Sign => CKA_SIGN, Act::Ver | Act::Vsig => CKA_VERIFY, Act::Wrap => CKA_WRAP, Act::Unwrap => CKA_UNWRAP, Act::Derive => CKA_DERIVE } }
    fn ckf(self) -> u64 { match self { Act::Enc => CKF_ENCRYPT, Act::Menc => CKF_MESSAGE_ENCRYPT, Act::Dec => CKF_DECRYPT, Act::Mdec => CKF_MESSAGE_DECRYPT, Act::Sign => CKF_SIGN, Act::Ver | Act::Vsig => CKF_VERIFY, Act::Wrap => CKF_WRAP, Act::Unwrap => CKF_UNWRAP, Act::Derive => CKF_DERIVE } }
}
/// the mechanism
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mx {
    C(Mode), M(MacK), RsaRaw(bool), EcRaw, Rsa(u8), Hotp, TlsMac(bool),
    ConKey, ConKey2, ConData, DataCon, Xor, Extract, Hash(u8), EcbData, CbcData, Hkdf(bool), HkdfSalt, Sp(bool, bool), Master(u8), TlsKdf(bool), Ssh, Ecdh(bool), Dh, PubPriv,
}
const SV: &[Act] = &[Act::Sign, Act::Ver, Act::Vsig];
pub const DV: &[Act] = &[Act::Derive];
impl Mx {
    pub fn acts(self) -> Vec<Act> {
        match self {
            Mx::C(m) => { let mut v = vec![Act::Enc, Act::Dec, Act::Wrap, Act::Unwrap]; if m.aead() { v.extend([Act::Menc, Act::Mdec]); } v }
            Mx::M(_) | Mx::RsaRaw(_) | Mx::EcRaw => SV.to_vec(),
            Mx::Hotp | Mx::TlsMac(_) => vec![Act::Sign, Act::Ver],
            Mx::Rsa(_) => vec![Act::Enc, Act::Dec, Act::Wrap, Act::Unwrap],
            _ => DV.to_vec(),
        }
    }
    /// kinds that fit
    pub fn fits(self, a: Act) -> Vec<Kk> {
        let (p, s) = if matches!(a, Act::Enc | Act::Ver | Act::Vsig | Act::Wrap) { (Kk::RsaPub, Kk::EcPub) } else { (Kk::RsaPriv, Kk::EcPriv) };
        let secret = vec![Kk::Aes, Kk::Generic, Kk::Mac(2), Kk::Hkdf];
        match self {
            Mx::C(_) | Mx::EcbData | Mx::CbcData => vec![Kk::Aes],
            Mx::M(MacK::Hmac(i) | MacK::HmacGen(i)) => vec![Kk::Generic, Kk::Mac(i)],
            Mx::M(MacK::Rsa(_) | MacK::Pss(_)) | Mx::RsaRaw(_) | Mx::Rsa(_) => vec![p],
            Mx::M(MacK::Ecdsa(_)) | Mx::EcRaw => vec![s],
            Mx::M(_) => vec![Kk::Aes],
            Mx::Hotp => vec![Kk::Hotp],
            Mx::TlsMac(_) | Mx::Master(_) | Mx::TlsKdf(_) | Mx::Ssh => vec![Kk::Generic],
            Mx::ConKey | Mx::ConKey2 | Mx::ConData | Mx::DataCon | Mx::Xor | Mx::Extract | Mx::Hash(_) => secret,
            Mx::Hkdf(_) | Mx::HkdfSalt => vec![Kk::Generic, Kk::Hkdf],
            Mx::Sp(_, true) => vec![Kk::Aes],
            Mx::Sp(_, false) => vec![Kk::Generic, Kk::Mac(2)],
            Mx::Ecdh(false) => vec![Kk::EcPriv, Kk::MontPriv],
            Mx::Ecdh(true) => vec![Kk::EcPriv],
            Mx::Dh => vec![Kk::DhPriv],
            Mx::PubPriv => vec![Kk::RsaPriv, Kk::EcPriv, Kk::MontPriv],
        }
    }
    /// kinds the standard leaves open
    fn open(self, k: Kk) -> bool {
        match self {
            Mx::Hkdf(_) | Mx::HkdfSalt => matches!(k, Kk::Data | Kk::Aes | Kk::Mac(_)),
            Mx::Sp(..) => k.class() == Cl::Secret,
            Mx::TlsMac(_) => matches!(k, Kk::Mac(_)),
            // needs OpenSSL 4
            Mx::PubPriv => k == Kk::EcPriv,
            Mx::ConKey2 => k == Kk::Hotp,
            Mx::Ecdh(true) => k == Kk::MontPriv,
            _ => false,
        }
    }
    /// whether the usage attribute of the tried key counts: none for a second key or for a public key out of a private one
    fn usage(self) -> bool { !matches!(self, Mx::ConKey2 | Mx::HkdfSalt | Mx::PubPriv) }
    fn second(self) -> bool { matches!(self, Mx::ConKey2 | Mx::HkdfSalt) }
    pub fn ciph(m: Mode) -> Ciph {
        let (iv, n) = match m { Mode::Ecb | Mode::Kw | Mode::Kwp => (0, 0), Mode::Gcm | Mode::Ccm => (12, 16), Mode::Ctr => (16, 32), _ => (16, 0) };
        Ciph { mode: m, key: Hx(Kk::Aes.value()), iv: Hx(vec![1; iv]), aad: Hx(vec![]), n }
    }
    pub fn mech(self, k: Kk, key: Obj, other: Obj) -> Mech {
        let strd = |t: u64| { let mut m = Mech::new(t); let (q, l) = m.keep(&[7; 32]); m.set(CK_KEY_DERIVATION_STRING_DATA { pData: q, ulLen: l }); m };
        let rnd = |m: &mut Mech| { let (a, al) = m.keep(&[1; 32]); let (b, bl) = m.keep(&[2; 32]); CK_SSL3_RANDOM_DATA { pClientRandom: a, ulClientRandomLen: al, pServerRandom: b, ulServerRandomLen: bl } };
        match self {
            Mx::C(m) => Self::ciph(m).mech(if matches!(m, Mode::Ccm) { 16 } else { 32 }),
            Mx::M(k) => Mac { k, key: Hx(vec![]), n: 8 }.mech(),
            Mx::RsaRaw(x) => Mech::new(if x { CKM_RSA_X_509 } else { CKM_RSA_PKCS }),
            Mx::EcRaw => Mech::new(CKM_ECDSA),
            Mx::Rsa(0) => RsaEnc::Pkcs.mech(),
            Mx::Rsa(1) => RsaEnc::Raw.mech(),
            Mx::Rsa(_) => RsaEnc::Oaep { h: 2, mgf: 2, label: Hx(vec![]) }.mech(),
            Mx::Hotp => Mech::new(CKM_HOTP),
            Mx::TlsMac(n) => Mech::with(if n { CKM_TLS12_MAC } else { CKM_TLS_MAC }, CK_TLS_MAC_PARAMS { prfHashMechanism: CKM_SHA256, ulMacLength: 12, ulServerOrClient: 1 }),
            Mx::ConKey | Mx::ConKey2 => Mech::with(CKM_CONCATENATE_BASE_AND_KEY, if self == Mx::ConKey { other } else { key }),
            Mx::ConData => strd(CKM_CONCATENATE_BASE_AND_DATA),
            Mx::DataCon => strd(CKM_CONCATENATE_DATA_AND_BASE),
            Mx::Xor => strd(CKM_XOR_BASE_AND_DATA),
            Mx::Extract => Mech::with(CKM_EXTRACT_KEY_FROM_KEY, 3 as CK_ULONG),
            Mx::Hash(i) => Mech::new(HT[i as usize].kder),
            Mx::EcbData => strd(CKM_AES_ECB_ENCRYPT_DATA),
            Mx::CbcData => { let mut m = Mech::new(CKM_AES_CBC_ENCRYPT_DATA); let (q, l) = m.keep(&[7; 32]); m.set(CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: [4; 16], pData: q, length: l }); m }
            Mx::Hkdf(_) | Mx::HkdfSalt => {
                let mut m = Mech::new(if self == Mx::Hkdf(true) { CKM_HKDF_DATA } else { CKM_HKDF_DERIVE });
                let (q, l) = m.keep(&[9; 20]);
                let salt = self == Mx::HkdfSalt;
                m.set(CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: if salt { CKF_HKDF_SALT_KEY } else { CKF_HKDF_SALT_NULL } as CK_ULONG, pSalt: null_mut(), ulSaltLen: 0, hSaltKey: if salt { key } else { 0 }, pInfo: q, ulInfoLen: l });
                m
            }
            Mx::Sp(fb, cmac) => {
                let mut m = Mech::new(if fb { CKM_SP800_108_FEEDBACK_KDF } else { CKM_SP800_108_COUNTER_KDF });
                fn raw<T: Copy>(m: &mut Mech, v: T) -> (*mut u8, CK_ULONG) { let b = unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, std::mem::size_of::<T>()) }; m.keep(b) }
                let (q, l) = if fb { (null_mut(), 0) } else { raw(&mut m, CK_SP800_108_COUNTER_FORMAT { bLittleEndian: 0, ulWidthInBits: 32 }) };
                let (d, dl) = raw(&mut m, CK_PRF_DATA_PARAM { type_: CK_SP800_108_ITERATION_VARIABLE, pValue: q as *mut _, ulValueLen: l });
                let prf = if cmac { CKM_AES_CMAC } else { CKM_SHA256_HMAC };
                let n = dl as usize / std::mem::size_of::<CK_PRF_DATA_PARAM>();
                if fb { m.set(CK_SP800_108_FEEDBACK_KDF_PARAMS { prfType: prf, ulNumberOfDataParams: n as CK_ULONG, pDataParams: d as *mut _, ulIVLen: 0, pIV: null_mut(), ulAdditionalDerivedKeys: 0, pAdditionalDerivedKeys: null_mut() }); }
                else { m.set(CK_SP800_108_KDF_PARAMS { prfType: prf, ulNumberOfDataParams: n as CK_ULONG, pDataParams: d as *mut _, ulAdditionalDerivedKeys: 0, pAdditionalDerivedKeys: null_mut() }); }
                m
            }
            Mx::Master(i) => {
                let mut m = Mech::new([CKM_TLS12_MASTER_KEY_DERIVE, CKM_TLS12_MASTER_KEY_DERIVE_DH, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH][i as usize & 3]);
                if i & 3 < 2 { let r = rnd(&mut m); m.set(CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: r, pVersion: null_mut(), prfHashMechanism: CKM_SHA256 }); }
                else { let (q, l) = m.keep(&[3; 32]); m.set(CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS { prfHashMechanism: CKM_SHA256, pSessionHash: q, ulSessionHashLen: l, pVersion: null_mut() }); }
                m
            }
            Mx::TlsKdf(o) => {
                let mut m = Mech::new(if o { CKM_TLS_KDF } else { CKM_TLS12_KDF });
                let r = rnd(&mut m);
                let (q, l) = m.keep(b"label");
                m.set(CK_TLS_KDF_PARAMS { prfMechanism: CKM_SHA256, pLabel: q, ulLabelLength: l, RandomInfo: r, pContextData: null_mut(), ulContextDataLength: 0 });
                m
            }
            Mx::Ssh => { let mut m = Mech::new(KRM_SSHKDF_DERIVE); let (a, al) = m.keep(&[1; 32]); let (b, bl) = m.keep(&[2; 32]); m.set(KR_SSHKDF_PARAMS { prfHashMechanism: CKM_SHA256, derivedKeyType: b'C', pExchangeHash: a, ulExchangeHashLen: al, pSessionId: b, ulSessionIdLen: bl }); m }
            Mx::Ecdh(cof) => {
                let mut m = Mech::new(if cof { CKM_ECDH1_COFACTOR_DERIVE } else { CKM_ECDH1_DERIVE });
                let (q, l) = m.keep(&if matches!(k, Kk::MontPriv | Kk::MontPub) { base_x() } else { test_ec().2.clone() });
                m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: l, pPublicData: q });
                m
            }
            Mx::Dh => Mech::bytes(CKM_DH_PKCS_DERIVE, &dh_peer()),
            Mx::PubPriv => Mech::new(CKM_PUB_KEY_FROM_PRIV_KEY),
        }
    }
}
pub fn table() -> &'static [(Mx, Act)] {
    static T: std::sync::OnceLock<Vec<(Mx, Act)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut m: Vec<Mx> = MODES.iter().map(|m| Mx::C(*m)).collect();
        for i in 0..11 { m.extend([Mx::M(MacK::Hmac(i)), Mx::M(MacK::HmacGen(i)), Mx::Hash(i)]); if (i as usize) < NSIGH { m.extend([Mx::M(MacK::Rsa(i)), Mx::M(MacK::Pss(i)), Mx::M(MacK::Ecdsa(i))]); } }
        m.extend([Mx::M(MacK::Cmac), Mx::M(MacK::CmacGen), Mx::M(MacK::AesMac), Mx::M(MacK::AesMacGen), Mx::RsaRaw(false), Mx::RsaRaw(true), Mx::EcRaw, Mx::Hotp, Mx::TlsMac(false), Mx::TlsMac(true)]);
        for i in 0..3 { m.push(Mx::Rsa(i)); }
        for _ in 0..2 { m.extend([Mx::ConKey, Mx::ConKey2, Mx::ConData, Mx::DataCon, Mx::Xor, Mx::Extract, Mx::EcbData, Mx::CbcData, Mx::Hkdf(false), Mx::Hkdf(true), Mx::HkdfSalt, Mx::Sp(false, false), Mx::Sp(true, false), Mx::Sp(false, true), Mx::Sp(true, true), Mx::TlsKdf(false), Mx::TlsKdf(true), Mx::Ssh, Mx::Ecdh(false), Mx::Ecdh(true), Mx::Dh, Mx::PubPriv]); }
        for i in 0..4 { m.push(Mx::Master(i)); }
        m.iter().flat_map(|m| m.acts().into_iter().map(|a| (*m, a))).collect()
    })
}

// ---------------------------------------------------------------- rules
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Allow { None, With, Without, Empty }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum St { Plain, Copied, Changed, CopiedTwice }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Use { m: Mx, a: Act, k: Kk, flags: u8, allow: Allow, token: bool, st: St, private: bool }
fn uses(nss: bool) -> BoxedStrategy<Use> {
    let e = (any::<prop::sample::Index>(), any::<prop::sample::Index>(), any::<prop::sample::Index>(), prop::bool::weighted(0.85));
    let allow = prop_oneof![6 => Just(Allow::None), 2 => Just(Allow::With), 2 => Just(Allow::Without), 1 => Just(Allow::Empty)];
    let st = prop_oneof![4 => Just(St::Plain), 2 => Just(St::Copied), 2 => Just(St::Changed), 1 => Just(St::CopiedTwice)];
    (e, any::<u8>(), prop::bool::weighted(0.65), allow, any::<bool>(), st, any::<bool>()).prop_map(move |((e, f, w, fit), mut flags, on, allow, token, st, private)| {
        let (m, a) = *e.get(table());
        let mut ks = m.fits(a);
        if nss { ks.retain(|k| k.nss()); }
        let k = if fit && !ks.is_empty() { *f.get(&ks) } else { let ks: Vec<Kk> = KKS.iter().copied().filter(|k| !nss || k.nss()).collect(); *w.get(&ks) };
        if let Some(i) = k.flags().iter().position(|x| *x == a.attr()) { flags &= !(1 << i); flags |= (on as u8) << i; }
        Use { m, a, k, flags, allow, token: token || nss, st, private }
    }).boxed()
}
impl Use {
    fn on(&self, a: u64) -> bool { self.k.flags().iter().position(|x| *x == a).is_some_and(|i| self.flags >> i & 1 == 1) }
    fn flag_tmpl(&self, inv: bool) -> Tmpl { self.k.flags().iter().enumerate().map(|(i, a)| (*a, V::B((self.flags >> i & 1 == 1) != inv))).collect() }
    fn make(&self, p: &P, s: Sess, token: bool) -> R<Obj> {
        let mut t = self.k.tmpl();
        let changed = self.st != St::Plain;
        t.extend(self.flag_tmpl(changed));
        if !matches!(self.k.class(), Cl::Other) { if let Some(l) = self.allowed() { t.extend(tm! { CKA_ALLOWED_MECHANISMS => l }); } }
        let tok0 = if matches!(self.st, St::Copied | St::CopiedTwice) { token && self.flags & 1 == 1 } else { token };
        t.extend(tm! { CKA_TOKEN => tok0, CKA_PRIVATE => self.private });
        if self.k.class() == Cl::Private || self.k.class() == Cl::Secret { t.extend(tm! { CKA_SENSITIVE => true, CKA_EXTRACTABLE => self.flags & 2 == 0 }); }
        let (rv, o) = p.create(s, &t);
        ensure!(rv == CKR_OK, "create", "creating the {:?} of {self:?}: {}", self.k, rvname(rv));
        match self.st {
            St::Plain => Ok(o),
            St::Changed => { let f = self.flag_tmpl(false); if !f.is_empty() { let rv = p.set(s, o, &f); ensure!(rv == CKR_OK, "set", "changing the usage of {self:?}: {}", rvname(rv)); } Ok(o) }
            _ => {
                let mut f = self.flag_tmpl(false);
                f.extend(tm! { CKA_TOKEN => token });
                let (rv, mut c) = p.copy(s, o, &f);
                ensure!(rv == CKR_OK, "copy", "copying the key of {self:?}: {}", rvname(rv));
                if self.st == St::CopiedTwice {
                    let (rv, c2) = p.copy(s, c, &tm! { CKA_TOKEN => token });
                    ensure!(rv == CKR_OK, "copy", "copying the copy of {self:?}: {}", rvname(rv));
                    c = c2;
                }
                Ok(c)
            }
        }
    }
    fn ckm(&self) -> u64 { self.m.mech(self.k, 0, 0).typ() }
    fn allowed(&self) -> Option<Vec<u8>> {
        let l = |v: &[u64]| v.iter().flat_map(|m| m.to_ne_bytes()).collect::<Vec<u8>>();
        // such keys have a list of their own
        if self.k == Kk::Hotp { return None; }
        match self.allow { Allow::None => None, Allow::With => Some(l(&[CKM_SHA256, self.ckm(), CKM_DES3_CBC])), Allow::Without => Some(l(&[CKM_SHA256, CKM_DES3_CBC, self.ckm() ^ 0x100])), Allow::Empty => Some(vec![]) }
    }
    /// whether the use is allowed, none when not specified
    fn verdict(&self) -> Option<bool> {
        let allow = if self.k == Kk::Hotp { if self.m == Mx::Hotp { Allow::With } else { Allow::Without } } else if self.k.class() == Cl::Other { Allow::None } else { self.allow };
        if self.m.second() {
            // only the class is judged
            if self.m.open(self.k) { return None; }
            if !self.m.fits(self.a).contains(&self.k) { return Some(false); }
            return if self.on(CKA_DERIVE) && allow == Allow::None { Some(true) } else { None };
        }
        if allow == Allow::Without { return Some(false); }
        if self.m.usage() && !self.on(self.a.attr()) && self.k != Kk::Data { return Some(false); }
        if self.m.open(self.k) { return None; }
        if !self.m.fits(self.a).contains(&self.k) { return Some(false); }
        if allow == Allow::Empty { None } else { Some(true) }
    }
}
fn total(p: &P, s: Sess) -> usize { p.find(s, &[]).1.len() }
fn active(p: &P, s: Sess, a: Act) -> bool {
    let rv = match a {
        Act::Enc => p.encrypt_update(s, &[]).0,
        Act::Dec => p.decrypt_update(s, &[]).0,
        Act::Sign => p.sign_update(s, &[]),
        Act::Ver => p.verify_update(s, &[]),
        Act::Vsig => p.vsig_update(s, &[]),
        Act::Menc | Act::Mdec => {
            let mut mp = Mp::enc(&Mx::ciph(Mode::Gcm), 0);
            mbegin(p, s, a == Act::Menc, &mut mp, &[])
        }
        _ => return false,
    };
    rv != CKR_OPERATION_NOT_INITIALIZED
}
fn blob(p: &P, s: Sess, u: &Use) -> R<Vec<u8>> {
    let t = must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![0x11u8; 16], CKA_TOKEN => false, CKA_EXTRACTABLE => true }, "target");
    let kk = match u.m { Mx::Rsa(_) => Kk::RsaPub, _ => Kk::Aes };
    let mut h = kk.tmpl();
    h.extend(tm! { CKA_TOKEN => false, CKA_WRAP => true });
    let h = must(p, s, &h, "wrapping key");
    let (rv, b) = p.wrap(s, &u.m.mech(kk, h, 0), h, t);
    ensure!(rv == CKR_OK, "wrap", "wrapping an AES key with all rights for {u:?}: {}", rvname(rv));
    p.destroy(s, t);
    p.destroy(s, h);
    Ok(b)
}
fn attempt(p: &P, s: Sess, cx: &mut Cx, nss: bool, u: &Use, key: Obj, wh: &str) -> R {
    let slot = SLOT;
    let ckm = u.ckm();
    let (rv, mi) = p.mech_info(slot, ckm);
    ensure!(rv == CKR_OK, "mechanism", "mechanism {ckm:#x} has no information: {}", rvname(rv));
    let has = mi.flags & u.a.ckf() != 0;
    if !has { cx.hit("mechanism without this operation"); }
    if has && u.a == Act::Unwrap || has && matches!(u.m, Mx::Rsa(1)) && u.a == Act::Wrap { if let Mx::Rsa(1) = u.m { return Ok(()); } }
    let other = must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => if matches!(u.m, Mx::HkdfSalt) { CKK_GENERIC_SECRET } else { CKK_AES }, CKA_VALUE => vec![0x11u8; 16], CKA_TOKEN => false, CKA_EXTRACTABLE => true, CKA_DERIVE => true }, "other key");
    let data = if has && u.a == Act::Unwrap { blob(p, s, u)? } else { vec![1; 24] };
    let m = u.m.mech(u.k, key, other);
    let before = total(p, s);
    let dt = match u.m {
        Mx::PubPriv => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => match u.k { Kk::RsaPriv => CKK_RSA, Kk::MontPriv => CKK_EC_MONTGOMERY, _ => CKK_EC }, CKA_TOKEN => false, CKA_DESTROYABLE => true },
        Mx::Hkdf(true) => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE_LEN => 16u64 },
        Mx::Master(_) => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 48u64 },
        _ => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 16u64 },
    };
    let mut made = None;
    let rv = match u.a {
        Act::Enc => p.encrypt_init(s, &m, key),
        Act::Dec => p.decrypt_init(s, &m, key),
        Act::Sign => p.sign_init(s, &m, key),
        Act::Ver => p.verify_init(s, &m, key),
        Act::Vsig => p.vsig_init(s, &m, key, &vec![5; match u.m {
            Mx::M(MacK::Rsa(_) | MacK::Pss(_)) | Mx::RsaRaw(_) => rsa_ref(&crate::rsakeys::KEYS[TEST_RSA]).p.k(),
            Mx::M(MacK::Ecdsa(_)) | Mx::EcRaw => 2 * test_ec().1.len(),
            Mx::M(MacK::Hmac(i)) => HT[i as usize].h.len(), Mx::M(MacK::Cmac) => 16, Mx::TlsMac(_) => 12, _ => 8 }]),
        Act::Menc => menc_init(p, s, &m, key),
        Act::Mdec => mdec_init(p, s, &m, key),
        Act::Wrap => p.wrap(s, &m, key, other).0,
        Act::Unwrap => { let (rv, o) = p.unwrap(s, &m, key, &data, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => false }); made = Some(o); rv }
        Act::Derive => { let (rv, o) = p.derive(s, &m, if u.m.second() { other } else { key }, &dt); made = Some(o); rv }
    };
    let what = format!("{:?} with {:?} and a {:?} key (usage {:?}, {:?}, {:?}, token {}, {wh})", u.a, u.m, u.k, u.on(u.a.attr()), u.allow, u.st, u.token);
    let mut v = if has { u.verdict() } else { Some(false) };
    if nss && has && u.allow == Allow::Without && rv == CKR_OK {
        let n = Use { allow: Allow::None, ..u.clone() };
        if n.verdict() != Some(false) { cx.known("nss-mechanisms", format!("{what} succeeded"))?; v = None; }
    }
    if v == Some(true) {
        ensure!(rv == CKR_OK, "refused", "{what}: {}", rvname(rv));
        cx.hit(&format!("{:?} allowed", u.a));
        cx.nt();
    }
    if v == Some(false) {
        ensure!(rv != CKR_OK, "allowed", "{what} succeeded");
        if has {
            let why = if u.allow == Allow::Without && u.k != Kk::Hotp { "list" } else if u.m.usage() && !u.on(u.a.attr()) { "usage" } else { "class or type" };
            cx.hit(&format!("{:?} refused: {why}", u.a));
            cx.hit(&format!("{why}: {}", rvname(rv)));
            cx.nt();
        }
    }
    if v.is_none() { cx.hit("not specified"); }
    if rv == CKR_OK {
        if let Some(o) = made { p.destroy(s, o); }
        let f = match u.a { Act::Wrap | Act::Unwrap | Act::Derive => 0, Act::Vsig => CKF_VERIFY, a => a.ckf() };
        if u.a == Act::Vsig { p.vsig(s, &[1; 32]); } else if f != 0 { let rv = p.cancel(s, f); ensure!(rv == CKR_OK, "cancel", "cancelling {what}: {}", rvname(rv)); }
    } else {
        ensure!(total(p, s) == before, "left", "{what} failed with {} and left an object", rvname(rv));
    }
    ensure!(!active(p, s, u.a), "active", "{what} returned {} and left an operation active", rvname(rv));
    p.destroy(s, other);
    Ok(())
}
fn run_rules(u: &Use, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let o = u.make(p, s, u.token)?;
    attempt(p, s, cx, false, u, o, "as made")
}
fn run_batch(db: Db, us: &[Use], cx: &mut Cx) -> R {
    let t = cx.tok.fresh(db);
    let s = t.user();
    let p = &t.p;
    let mut hs = vec![];
    for (i, u) in us.iter().enumerate() {
        let o = u.make(p, s, true)?;
        if u.k.class() != Cl::Other { let _ = p.set(s, o, &tm! { CKA_LABEL => &*format!("use {i}") }); }
        hs.push(o);
        if i % 2 == 0 { attempt(p, s, cx, db == Db::Nss, u, o, "before a restart")?; }
    }
    t.restart();
    let s = t.user();
    for (i, u) in us.iter().enumerate() {
        if u.k.class() == Cl::Other { continue; }
        let (_, f) = p.find(s, &tm! { CKA_LABEL => &*format!("use {i}") });
        ensure!(f.len() == 1, "lost", "key {i} of {us:?} found {} times after a restart", f.len());
        attempt(p, s, cx, db == Db::Nss, u, f[0], "after a restart")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- trusted wrapping keys
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Way { Create, Set, Copy, Generate, Unwrap, Derive }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trust { so: bool, ways: Vec<(bool, Way)>, rsa: bool, wwt: Option<Way>, target: u8, restart: bool }
fn trust() -> BoxedStrategy<Trust> {
    let way = prop::sample::select(vec![Way::Create, Way::Set, Way::Copy, Way::Generate, Way::Unwrap, Way::Derive]);
    (any::<bool>(), prop::collection::vec((any::<bool>(), way.clone()), 0..4), any::<bool>(), prop::option::weighted(0.8, way), 0u8..3, any::<bool>()).prop_map(|(so, ways, rsa, wwt, target, restart)| Trust { so, ways, rsa, wwt, target, restart }).boxed()
}
fn run_trust(c: &Trust, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Sqlite);
    let p = &t.p;
    let mut wk: Vec<(u64, Vec<u8>)> = vec![];
    let _ = &mut wk;
    let base = |tok: bool| if c.rsa { let mut x = Kk::RsaPub.tmpl(); x.extend(tm! { CKA_TOKEN => tok, CKA_PRIVATE => false, CKA_WRAP => true }); x } else { let mut x = Kk::Aes.tmpl(); x.extend(tm! { CKA_TOKEN => tok, CKA_PRIVATE => false, CKA_WRAP => true, CKA_UNWRAP => true, CKA_DERIVE => true, CKA_ENCRYPT => true }); x };
    let with = |mut t: Tmpl, k: u64| { tset(&mut t, k, true); t };
    if c.so {
        let s = t.open(true);
        ensure!(p.login(s, CKU_SO, SO) == CKR_OK, "login", "SO login");
        let mut b = base(true);
        tset(&mut b, CKA_LABEL, "so");
        let (rv, _) = p.create(s, &with(b.clone(), CKA_TRUSTED));
        cx.hit(if rv == CKR_OK { "SO marked a key as trusted" } else { "SO can not mark a key as trusted" });
        if rv != CKR_OK { let (rv, o) = p.create(s, &b); if rv == CKR_OK { p.set(s, o, &tm! { CKA_TRUSTED => true }); } }
        p.logout(s);
    }
    let mut s = t.user();
    // the user can not
    let (_, h) = p.create(s, &base(false));
    for (tok, w) in &c.ways {
        let b = base(*tok);
        let (rv, name) = match w {
            Way::Create => (p.create(s, &with(b, CKA_TRUSTED)).0, "C_CreateObject"),
            Way::Set => { let (_, o) = p.create(s, &b); (p.set(s, o, &tm! { CKA_TRUSTED => true }), "C_SetAttributeValue") }
            Way::Copy => { let (_, o) = p.create(s, &b); (p.copy(s, o, &tm! { CKA_TOKEN => *tok, CKA_TRUSTED => true }).0, "C_CopyObject") }
            Way::Generate if c.rsa => (p.genpair(s, &Mech::new(CKM_EC_KEY_PAIR_GEN), &tm! { CKA_TOKEN => *tok, CKA_PRIVATE => false, CKA_EC_PARAMS => curves()[0].oid.clone(), CKA_TRUSTED => true }, &tm! { CKA_TOKEN => false }).0, "C_GenerateKeyPair"),
            Way::Generate => (p.genkey(s, &Mech::new(CKM_AES_KEY_GEN), &tm! { CKA_TOKEN => *tok, CKA_PRIVATE => false, CKA_VALUE_LEN => 16u64, CKA_WRAP => true, CKA_TRUSTED => true }).0, "C_GenerateKey"),
            _ if c.rsa => continue,
            Way::Unwrap => {
                let x = must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![0x11u8; 16], CKA_EXTRACTABLE => true }, "target");
                let (_, b) = p.wrap(s, &Mech::new(CKM_AES_KEY_WRAP), h, x);
                (p.unwrap(s, &Mech::new(CKM_AES_KEY_WRAP), h, &b, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => *tok, CKA_PRIVATE => false, CKA_WRAP => true, CKA_TRUSTED => true }).0, "C_UnwrapKey")
            }
            Way::Derive => (p.derive(s, &Mech::new(CKM_SHA256_KEY_DERIVATION), h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE_LEN => 16u64, CKA_TOKEN => *tok, CKA_PRIVATE => false, CKA_WRAP => true, CKA_TRUSTED => true }).0, "C_DeriveKey"),
        };
        ensure!(rv != CKR_OK, "trusted", "the user made a trusted key with {name} ({c:?})");
        cx.hit(&format!("{name} of a trusted key refused"));
    }
    // a key that wants a trusted wrapping key
    let tt = match c.target {
        0 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![0x11u8; 16] },
        1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => vec![0x11u8; 24] },
        _ if c.rsa => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_SHA256_HMAC, CKA_VALUE => vec![0x11u8; 32] },
        _ => { let mut t = Kk::EcPriv.tmpl(); t.retain(|a| a.0 != CKA_TOKEN); t }
    };
    let tt = { let mut x = tt; x.extend(tm! { CKA_TOKEN => true, CKA_EXTRACTABLE => true, CKA_LABEL => "target" }); x };
    let (rv, mut o) = match c.wwt {
        Some(Way::Create | Way::Generate | Way::Unwrap | Way::Derive) => p.create(s, &with(tt, CKA_WRAP_WITH_TRUSTED)),
        Some(Way::Copy) => { let mut x = tt; tset(&mut x, CKA_LABEL, "orig"); let (_, o) = p.create(s, &x); p.copy(s, o, &tm! { CKA_LABEL => "target", CKA_WRAP_WITH_TRUSTED => true }) }
        _ => p.create(s, &tt),
    };
    ensure!(rv == CKR_OK, "create", "target of {c:?}: {}", rvname(rv));
    if c.wwt == Some(Way::Set) { let rv = p.set(s, o, &tm! { CKA_WRAP_WITH_TRUSTED => true }); ensure!(rv == CKR_OK, "set", "CKA_WRAP_WITH_TRUSTED: {}", rvname(rv)); }
    if c.wwt.is_some() {
        ensure!(p.set(s, o, &tm! { CKA_WRAP_WITH_TRUSTED => false }) != CKR_OK, "undone", "CKA_WRAP_WITH_TRUSTED was set back to false");
        ensure!(p.copy(s, o, &tm! { CKA_WRAP_WITH_TRUSTED => false }).0 != CKR_OK, "undone", "CKA_WRAP_WITH_TRUSTED is false in a copy");
    }
    if c.restart { t.restart(); s = t.user(); }
    for _ in 0..2 {
        let (_, f) = p.find(s, &tm! { CKA_LABEL => "target" });
        ensure!(f.len() == 1, "lost", "target of {c:?}");
        o = f[0];
        let mut wkeys = p.find(s, &tm! { CKA_WRAP => true }).1;
        wkeys.push(must(p, s, &base(false), "wrapping key"));
        for w in wkeys {
            let tr = p.get_bool(s, w, CKA_TRUSTED).unwrap_or(false);
            let m = if p.get_ulong(s, w, CKA_KEY_TYPE) == Ok(CKK_RSA) { Mech::new(CKM_RSA_PKCS) } else { Mech::new(CKM_AES_KEY_WRAP_KWP) };
            let (rv, b) = p.wrap(s, &m, w, o);
            let ok = c.wwt.is_none() || tr;
            ensure!((rv == CKR_OK) == ok, "wrapped", "wrapping a key with CKA_WRAP_WITH_TRUSTED ({:?}) by a wrapping key with CKA_TRUSTED {tr}: {} ({c:?})", c.wwt, rvname(rv));
            ensure!(ok || b.iter().all(|b| *b == 0xA5 || *b == 0) || b.is_empty(), "bytes", "a refused wrap wrote to the buffer");
            cx.hit(if ok { "wrapped" } else { "refused to wrap without trust" });
            cx.nt();
        }
        // through a copy of the target
        let (rv, _) = p.copy(s, o, &tm! { CKA_TOKEN => false, CKA_LABEL => "x" });
        ensure!(rv == CKR_OK, "copy", "copying the target: {}", rvname(rv));
        let (_, f) = p.find(s, &tm! { CKA_LABEL => "x" });
        if c.wwt.is_some() { for o in f { ensure!(p.get_bool(s, o, CKA_WRAP_WITH_TRUSTED) == Ok(true), "copy", "the copy of a key does not keep CKA_WRAP_WITH_TRUSTED"); p.destroy(s, o); } }
    }
    Ok(())
}

// ---------------------------------------------------------------- context specific logins
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pin { Right, Wrong, So, Empty }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp { SignInit(u8, u8), DecInit(u8, u8), Ctx(Pin), Sign(u8), SignUpdate(Hx), SignFinal(u8), Dec(bool), Cancel(bool, bool), BadInit(bool), Other(u8), Copy(u8, bool), Sess(u8), Restart }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Always { keys: Vec<(bool, bool)>, ops: Vec<AOp> }
fn always() -> BoxedStrategy<Always> {
    let op = prop_oneof![
        8 => (0u8..4, 0u8..3).prop_map(|(k, m)| AOp::SignInit(k, m)), 6 => (0u8..4, 0u8..3).prop_map(|(k, m)| AOp::DecInit(k, m)),
        12 => prop_oneof![8 => Just(Pin::Right), 1 => Just(Pin::Wrong), 1 => Just(Pin::So), 1 => Just(Pin::Empty)].prop_map(AOp::Ctx),
        6 => (0u8..3).prop_map(AOp::Sign), 3 => hx(0..=20usize).prop_map(AOp::SignUpdate), 3 => (0u8..3).prop_map(AOp::SignFinal), 6 => any::<bool>().prop_map(AOp::Dec),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| AOp::Cancel(a, b)), 1 => any::<bool>().prop_map(AOp::BadInit), 2 => (0u8..4).prop_map(AOp::Other), 1 => (0u8..4, any::<bool>()).prop_map(|(k, t)| AOp::Copy(k, t)), 3 => (0u8..2).prop_map(AOp::Sess), 1 => Just(AOp::Restart)];
    // keys: (RSA rather than EC, always authenticate)
    (prop::collection::vec((prop::bool::weighted(0.7), prop::bool::weighted(0.7)), 2..=4), prop::collection::vec(op, 4..=40)).prop_map(|(keys, ops)| Always { keys, ops }).boxed()
}
#[derive(Clone, Debug, Default)]
struct AM { sign: Option<AS>, dec: Option<AS>, seq: u32 }
#[derive(Clone, Debug)]
struct AS { rsa: bool, aa: bool, ok: bool, seq: u32, m: u8, upd: bool, data: Vec<u8> }
fn run_always(c: &Always, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Sqlite);
    let p = &t.p;
    let rk = rsa_ref(&crate::rsakeys::KEYS[0]);
    let mut ss = [t.user(), t.open(true)];
    let mut keys: Vec<(bool, bool, bool, Obj)> = vec![];
    let mut labels = 0;
    for (rsa, aa) in &c.keys {
        let mut x = if *rsa { rsa_priv_tmpl(&crate::rsakeys::KEYS[0], true) } else { Kk::EcPriv.tmpl() };
        for (k, v) in [(CKA_TOKEN, true), (CKA_PRIVATE, true), (CKA_SIGN, true), (CKA_ALWAYS_AUTHENTICATE, *aa)] { tset(&mut x, k, v); }
        if *rsa { tset(&mut x, CKA_DECRYPT, true); }
        tset(&mut x, CKA_LABEL, &*format!("k{labels}"));
        labels += 1;
        keys.push((*rsa, *aa, true, must(p, ss[0], &x, "key")));
    }
    let mut ms = [AM::default(), AM::default()];
    let mut cur = 0;
    let ct = { let mut m = vec![7u8; rk.p.k()]; m[0] = 0; m[1] = 2; let n = m.len(); m[n - 5] = 0; (rk.p.raw(&m), m) };
    for (i, op) in c.ops.iter().enumerate() {
        let s = ss[cur];
        let m = &mut ms[cur];
        let at = format!("step {i} {op:?}");
        // a result only with its own login
        let judge = |st: &Option<AS>, rv: Rv, what: &str, cx: &mut Cx| -> R {
            match st {
                None => ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "not-initialized", "{at}: {what} without operation: {}", rvname(rv)),
                Some(o) if o.aa && !o.ok => { ensure!(rv == CKR_USER_NOT_LOGGED_IN, "no-login", "{at}: {what} of a key with CKA_ALWAYS_AUTHENTICATE and no login for it: {} ({c:?})", rvname(rv)); cx.hit("refused without its own login"); cx.nt(); }
                Some(o) => { ensure!(rv == CKR_OK, "refused", "{at}: {what}, {o:?}: {} ({c:?})", rvname(rv)); if o.aa { cx.hit("result after its own login"); cx.nt(); } }
            }
            Ok(())
        };
        let usable = |st: &Option<AS>| st.as_ref().is_some_and(|o| !o.aa || o.ok);
        match op {
            AOp::Sess(n) => cur = *n as usize % 2,
            AOp::SignInit(k, mm) | AOp::DecInit(k, mm) => {
                let (rsa, aa, _, o) = keys[*k as usize % keys.len()];
                let sign = matches!(op, AOp::SignInit(..));
                let slot = if sign { &mut m.sign } else { &mut m.dec };
                let mech = if sign { if rsa { Mech::new(if *mm == 0 { CKM_RSA_PKCS } else { CKM_SHA256_RSA_PKCS }) } else { Mech::new(if *mm == 0 { CKM_ECDSA } else { CKM_ECDSA_SHA256 }) } } else { Mech::new(if *mm == 0 { CKM_RSA_X_509 } else { CKM_RSA_PKCS }) };
                let rv = if sign { p.sign_init(s, &mech, o) } else { p.decrypt_init(s, &mech, o) };
                if slot.is_some() { ensure!(rv == CKR_OPERATION_ACTIVE, "active", "{at} while one is active: {}", rvname(rv)); }
                else if !sign && !rsa { ensure!(rv != CKR_OK, "kind", "{at}: decryption with an EC key started"); }
                else {
                    ensure!(rv == CKR_OK, "init", "{at}: {} ({c:?})", rvname(rv));
                    m.seq += 1;
                    *slot = Some(AS { rsa, aa, ok: false, seq: m.seq, m: *mm, upd: false, data: vec![] });
                }
            }
            AOp::BadInit(sign) => {
                // an initialisation that fails takes nothing over
                let (rsa, _, _, o) = keys[0];
                let bad = Mech::new(if rsa { CKM_ECDSA } else { CKM_RSA_PKCS });
                let rv = if *sign { p.sign_init(s, &bad, o) } else { p.decrypt_init(s, &bad, o) };
                ensure!(rv != CKR_OK, "init", "{at} with a mechanism of another key type succeeded");
            }
            AOp::Ctx(pin) => {
                let pv: &[u8] = match pin { Pin::Right => USER, Pin::Wrong => b"not the user pin", Pin::So => SO, Pin::Empty => b"" };
                let rv = p.login(s, CKU_CONTEXT_SPECIFIC, pv);
                let pend = |o: &Option<AS>| o.as_ref().filter(|o| o.aa && !o.ok).map_or(0, |o| o.seq);
                let (a, b) = (pend(&m.sign), pend(&m.dec));
                if a == 0 && b == 0 { ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "no-operation", "{at} without an operation that needs it: {}", rvname(rv)); }
                else if *pin != Pin::Right { ensure!(rv == CKR_PIN_INCORRECT || rv == CKR_PIN_LOCKED || rv == CKR_ARGUMENTS_BAD || rv == CKR_PIN_LEN_RANGE, "wrong-pin", "{at}: {}", rvname(rv)); cx.hit("wrong PIN"); }
                else {
                    if rv == CKR_PIN_LOCKED { cx.hit("locked"); return Ok(()); }
                    ensure!(rv == CKR_OK, "login", "{at}: {} ({c:?})", rvname(rv));
                    if a > 0 && b > 0 { cx.hit("two operations waiting"); }
                    if a > b { m.sign.as_mut().unwrap().ok = true; } else { m.dec.as_mut().unwrap().ok = true; }
                }
            }
            AOp::Sign(pol) => {
                let d = [3u8; 32];
                if m.sign.as_ref().is_some_and(|o| o.upd) && usable(&m.sign) { continue; }
                if *pol == 0 && usable(&m.sign) { let mut l: CK_ULONG = 0; let rv = F!(p.C_Sign(s, dbytes(&d), ul(&d), null_mut(), &mut l)); ensure!(rv == CKR_OK && l > 0, "query", "{at}: length query {}", rvname(rv)); cx.hit("length query"); }
                let (rv, sig) = p.sign(s, &d);
                judge(&m.sign, rv, "C_Sign", cx)?;
                if rv != CKR_OK { ensure!(sig.iter().all(|b| *b == 0xA5 || *b == 0), "bytes", "{at}: a refused C_Sign wrote to the buffer"); }
                if usable(&m.sign) {
                    let o = m.sign.take().unwrap();
                    if o.rsa && o.m > 0 { let e = refc::rsa::emsa15_hash(refc::hash::H::Sha256, &d, rk.p.k()).unwrap(); ensure!(sig == rk.raw(&e), "signature", "{at}: wrong signature"); }
                }
            }
            AOp::SignUpdate(d) => {
                if usable(&m.sign) && m.sign.as_ref().unwrap().m == 0 { continue; }
                let rv = p.sign_update(s, d);
                judge(&m.sign, rv, "C_SignUpdate", cx)?;
                if usable(&m.sign) { let o = m.sign.as_mut().unwrap(); o.upd = true; o.data.extend(&d[..]); }
            }
            AOp::SignFinal(_) => {
                if usable(&m.sign) && !m.sign.as_ref().unwrap().upd { continue; }
                let (rv, sig) = p.sign_final(s);
                judge(&m.sign, rv, "C_SignFinal", cx)?;
                if usable(&m.sign) {
                    let o = m.sign.take().unwrap();
                    if o.rsa { let e = refc::rsa::emsa15_hash(refc::hash::H::Sha256, &o.data, rk.p.k()).unwrap(); ensure!(sig == rk.raw(&e), "signature", "{at}: wrong signature"); }
                }
            }
            AOp::Dec(_) => {
                let (rv, d) = p.decrypt(s, &ct.0);
                judge(&m.dec, rv, "C_Decrypt", cx)?;
                if rv != CKR_OK { ensure!(d.iter().all(|b| *b == 0xA5 || *b == 0), "bytes", "{at}: a refused C_Decrypt wrote to the buffer"); }
                if usable(&m.dec) {
                    let o = m.dec.take().unwrap();
                    let n = ct.1.len();
                    ensure!(d == if o.m == 0 { &ct.1[..] } else { &ct.1[n - 4..] }, "plaintext", "{at}: decrypted {}", hex(&d));
                }
            }
            AOp::Cancel(a, b) => {
                let f = if *a { CKF_SIGN } else { 0 } | if *b { CKF_DECRYPT } else { 0 };
                if f == 0 { continue; }
                let rv = p.cancel(s, f);
                ensure!(rv == CKR_OK, "cancel", "{at}: {}", rvname(rv));
                if *a { m.sign = None; }
                if *b { m.dec = None; }
                cx.hit("cancelled");
            }
            AOp::Other(n) => {
                // other operations of the session change nothing
                match n % 4 { 0 => { p.digest_init(s, &Mech::new(CKM_SHA256)); p.digest(s, b"x"); } 1 => { p.find(s, &tm! { CKA_LABEL => "k0" }); } 2 => { p.random(s, 8); } _ => { let k = aes_obj(p, s, &[1; 16]); p.enc(s, &Mech::new(CKM_AES_ECB), k, &[2; 16]).ok(); p.destroy(s, k); } }
            }
            AOp::Copy(k, tok) => {
                let (rsa, aa, _, o) = keys[*k as usize % keys.len()];
                let (rv, c2) = p.copy(s, o, &tm! { CKA_TOKEN => *tok, CKA_LABEL => &*format!("k{labels}") });
                ensure!(rv == CKR_OK, "copy", "{at}: {}", rvname(rv));
                labels += 1;
                ensure!(p.get_bool(s, c2, CKA_ALWAYS_AUTHENTICATE) == Ok(aa), "copy", "{at}: the copy does not keep CKA_ALWAYS_AUTHENTICATE {aa}");
                ensure!(!aa || p.copy(s, o, &tm! { CKA_TOKEN => false, CKA_ALWAYS_AUTHENTICATE => false }).0 != CKR_OK, "copy", "{at}: CKA_ALWAYS_AUTHENTICATE dropped in a copy");
                ensure!(!aa || p.set(s, o, &tm! { CKA_ALWAYS_AUTHENTICATE => false }) != CKR_OK, "copy", "{at}: CKA_ALWAYS_AUTHENTICATE set to false");
                if *tok { let n = *k as usize % keys.len(); keys[n] = (rsa, aa, true, c2); }
            }
            AOp::Restart => {
                let lb: Vec<Vec<u8>> = keys.iter().map(|k| p.get1(ss[0], k.3, CKA_LABEL).unwrap_or_default()).collect();
                t.restart();
                ss = [t.user(), t.open(true)];
                ms = [AM::default(), AM::default()];
                for (k, l) in keys.iter_mut().zip(lb) {
                    let f = p.find(ss[0], &tm! { CKA_LABEL => l.clone() }).1;
                    ensure!(f.len() == 1, "lost", "{at}: key {l:?} found {} times", f.len());
                    k.3 = f[0];
                    ensure!(p.get_bool(ss[0], k.3, CKA_ALWAYS_AUTHENTICATE) == Ok(k.1), "reload", "{at}: CKA_ALWAYS_AUTHENTICATE differs");
                }
                cx.hit("restart");
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        workers: 8,
        hang_s: 60,
        rule: "an operation was tried whose permission the rules decide (granted and refused uses are counted apart), a wrap of a key that wants trust, or a use of a key that wants its own login",
        assumptions: &[
            "permission is expected from a table: class and key type of every mechanism of the build, the usage attribute, CKA_ALLOWED_MECHANISMS; the parameters of the mechanism are always valid",
            "an explicitly empty list, the usage attribute of the second key of a concatenation and of a salt key, and AES or HMAC keys as HKDF secret are not judged",
            "CKM_PUB_KEY_FROM_PRIV_KEY needs no usage attribute, as documented in the code",
            "CKA_ALWAYS_AUTHENTICATE is judged for signing and decryption",
        ],
        groups: vec![
            gen_("rules", 8000, 120000, || uses(false), run_rules),
            gen_("restart", 160, 1600, || prop::collection::vec(uses(false), 4..=24).boxed(), |u: &Vec<Use>, cx| run_batch(Db::Sqlite, u, cx)),
            gen_("restart-nss", 60, 600, || prop::collection::vec(uses(true), 3..=10).boxed(), |u: &Vec<Use>, cx| run_batch(Db::Nss, u, cx)),
            gen_("trusted", 150, 1500, trust, run_trust),
            gen_("always", 500, 5000, always, run_always),
        ],
    }
}
