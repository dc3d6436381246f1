//! C26: advertised mechanisms are exactly the usable ones, and lists and information are consistent.
use super::c05::{self, Kk, Mx};
use super::c18::{dh_priv_tmpl, groups};
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

macro_rules! names { ($($n:ident),* $(,)?) => { pub const NAMES: &[(&str, u64)] = &[$((stringify!($n), $n as u64)),*]; } }
names! {
    CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_RSA_PKCS, CKM_RSA_X_509, CKM_SHA1_RSA_PKCS, CKM_RSA_PKCS_OAEP, CKM_RSA_PKCS_PSS, CKM_SHA1_RSA_PKCS_PSS, CKM_DH_PKCS_KEY_PAIR_GEN, CKM_DH_PKCS_DERIVE, CKM_SHA256_RSA_PKCS, CKM_SHA384_RSA_PKCS, CKM_SHA512_RSA_PKCS, CKM_SHA256_RSA_PKCS_PSS, CKM_SHA384_RSA_PKCS_PSS, CKM_SHA512_RSA_PKCS_PSS, CKM_SHA224_RSA_PKCS, CKM_SHA224_RSA_PKCS_PSS, CKM_SHA512_224, CKM_SHA512_224_HMAC, CKM_SHA512_224_HMAC_GENERAL, CKM_SHA512_224_KEY_DERIVATION, CKM_SHA512_256, CKM_SHA512_256_HMAC, CKM_SHA512_256_HMAC_GENERAL, CKM_SHA512_256_KEY_DERIVATION, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, CKM_SHA3_256_RSA_PKCS, CKM_SHA3_384_RSA_PKCS, CKM_SHA3_512_RSA_PKCS, CKM_SHA3_256_RSA_PKCS_PSS, CKM_SHA3_384_RSA_PKCS_PSS, CKM_SHA3_512_RSA_PKCS_PSS, CKM_SHA3_224_RSA_PKCS, CKM_SHA3_224_RSA_PKCS_PSS, CKM_SHA_1, CKM_SHA_1_HMAC, CKM_SHA_1_HMAC_GENERAL, CKM_SHA256, CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL, CKM_SHA224, CKM_SHA224_HMAC, CKM_SHA224_HMAC_GENERAL, CKM_SHA384, CKM_SHA384_HMAC, CKM_SHA384_HMAC_GENERAL, CKM_SHA512, CKM_SHA512_HMAC, CKM_SHA512_HMAC_GENERAL, CKM_HOTP_KEY_GEN, CKM_HOTP, CKM_SHA3_256, CKM_SHA3_256_HMAC, CKM_SHA3_256_HMAC_GENERAL, CKM_SHA3_256_KEY_GEN, CKM_SHA3_224, CKM_SHA3_224_HMAC, CKM_SHA3_224_HMAC_GENERAL, CKM_SHA3_224_KEY_GEN, CKM_SHA3_384, CKM_SHA3_384_HMAC, CKM_SHA3_384_HMAC_GENERAL, CKM_SHA3_384_KEY_GEN, CKM_SHA3_512, CKM_SHA3_512_HMAC, CKM_SHA3_512_HMAC_GENERAL, CKM_SHA3_512_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_CONCATENATE_BASE_AND_KEY, CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE, CKM_XOR_BASE_AND_DATA, CKM_EXTRACT_KEY_FROM_KEY, CKM_SHA1_KEY_DERIVATION, CKM_SHA256_KEY_DERIVATION, CKM_SHA384_KEY_DERIVATION, CKM_SHA512_KEY_DERIVATION, CKM_SHA224_KEY_DERIVATION, CKM_SHA3_256_KEY_DERIVATION, CKM_SHA3_224_KEY_DERIVATION, CKM_SHA3_384_KEY_DERIVATION, CKM_SHA3_512_KEY_DERIVATION, CKM_SP800_108_COUNTER_KDF, CKM_SP800_108_FEEDBACK_KDF, CKM_PKCS5_PBKD2, CKM_TLS12_MAC, CKM_TLS12_KDF, CKM_TLS12_MASTER_KEY_DERIVE, CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_TLS12_MASTER_KEY_DERIVE_DH, CKM_TLS12_KEY_SAFE_DERIVE, CKM_TLS_MAC, CKM_TLS_KDF, CKM_EC_KEY_PAIR_GEN, CKM_ECDSA, CKM_ECDSA_SHA1, CKM_ECDSA_SHA224, CKM_ECDSA_SHA256, CKM_ECDSA_SHA384, CKM_ECDSA_SHA512, CKM_ECDSA_SHA3_224, CKM_ECDSA_SHA3_256, CKM_ECDSA_SHA3_384, CKM_ECDSA_SHA3_512, CKM_ECDH1_DERIVE, CKM_ECDH1_COFACTOR_DERIVE, CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKM_AES_KEY_GEN, CKM_AES_ECB, CKM_AES_CBC, CKM_AES_MAC, CKM_AES_MAC_GENERAL, CKM_AES_CBC_PAD, CKM_AES_CTR, CKM_AES_GCM, CKM_AES_CCM, CKM_AES_CTS, CKM_AES_CMAC, CKM_AES_CMAC_GENERAL, CKM_AES_ECB_ENCRYPT_DATA, CKM_AES_CBC_ENCRYPT_DATA, CKM_AES_OFB, CKM_AES_CFB8, CKM_AES_CFB128, CKM_AES_CFB1, CKM_AES_KEY_WRAP, CKM_AES_KEY_WRAP_KWP, CKM_SHA_1_KEY_GEN, CKM_SHA224_KEY_GEN, CKM_SHA256_KEY_GEN, CKM_SHA384_KEY_GEN, CKM_SHA512_KEY_GEN, CKM_SHA512_224_KEY_GEN, CKM_SHA512_256_KEY_GEN, CKM_HKDF_DERIVE, CKM_HKDF_DATA, CKM_HKDF_KEY_GEN, CKM_PUB_KEY_FROM_PRIV_KEY, CKM_DES3_CBC, CKM_MD5, CKM_AES_GMAC, CKM_EDDSA, CKM_ML_DSA, CKM_BLOWFISH_CBC,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op { Enc, Dec, Dig, Sign, Ver, Vsig, Wrap, Unwrap, Derive, Gen, Pair, Menc, Mdec }
use Op::*;
pub const OPS: [Op; 13] = [Enc, Dec, Dig, Sign, Ver, Vsig, Wrap, Unwrap, Derive, Gen, Pair, Menc, Mdec];
impl Op {
    fn ckf(self) -> u64 {
        match self { Enc => CKF_ENCRYPT, Dec => CKF_DECRYPT, Dig => CKF_DIGEST, Sign => CKF_SIGN, Ver | Vsig => CKF_VERIFY, Wrap => CKF_WRAP, Unwrap => CKF_UNWRAP, Derive => CKF_DERIVE, Gen => CKF_GENERATE, Pair => CKF_GENERATE_KEY_PAIR, Menc => CKF_MESSAGE_ENCRYPT, Mdec => CKF_MESSAGE_DECRYPT }
    }
    fn act(self) -> Option<c05::Act> {
        Some(match self { Enc => c05::Act::Enc, Dec => c05::Act::Dec, Sign => c05::Act::Sign, Ver => c05::Act::Ver, Vsig => c05::Act::Vsig, Wrap => c05::Act::Wrap, Unwrap => c05::Act::Unwrap, Derive => c05::Act::Derive, Menc => c05::Act::Menc, Mdec => c05::Act::Mdec, _ => return None })
    }
}
/// how to use a mechanism
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Me { X(Mx), Digest(u8), Plain(u64), Pbkd, Keys(bool), /// not in this build
    Foreign(u64) }
const GENS: &[u64] = &[CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_HOTP_KEY_GEN, CKM_HKDF_KEY_GEN];
const PAIRS: &[u64] = &[CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_EC_KEY_PAIR_GEN, CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKM_DH_PKCS_KEY_PAIR_GEN];
impl Me {
    fn ckm(self) -> u64 {
        match self { Me::X(m) => m.mech(Kk::Aes, 0, 0).typ(), Me::Digest(i) => HT[i as usize].ckm, Me::Plain(m) | Me::Foreign(m) => m, Me::Pbkd => CKM_PKCS5_PBKD2, Me::Keys(s) => if s { CKM_TLS12_KEY_SAFE_DERIVE } else { CKM_TLS12_KEY_AND_MAC_DERIVE } }
    }
    /// operations that can work
    fn ops(self) -> Vec<Op> {
        match self {
            Me::X(m) => OPS.iter().copied().filter(|o| o.act().is_some_and(|a| m.acts().contains(&a) || (a == c05::Act::Vsig && m.acts().contains(&c05::Act::Ver)))).collect(),
            Me::Digest(_) => vec![Dig],
            Me::Plain(m) => if PAIRS.contains(&m) { vec![Pair] } else { vec![Gen] },
            Me::Pbkd => vec![Gen], Me::Keys(_) => vec![Derive], Me::Foreign(_) => vec![],
        }
    }
    fn fits(self, o: Op) -> Vec<Kk> {
        match (self, o.act()) { (Me::X(m), Some(a)) => m.fits(a), (Me::Keys(_), _) => vec![Kk::Generic], _ => vec![] }
    }
}
pub fn all() -> &'static Vec<Me> {
    static T: OnceLock<Vec<Me>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Me> = vec![];
        for (m, _) in c05::table() { if !v.contains(&Me::X(*m)) { v.push(Me::X(*m)); } }
        for i in 0..11 { v.push(Me::Digest(i)); let g = HT[i as usize].keygen; v.push(Me::Plain(g)); }
        for g in GENS.iter().chain(PAIRS) { v.push(Me::Plain(*g)); }
        v.extend([Me::Pbkd, Me::Keys(false), Me::Keys(true)]);
        let known: BTreeSet<u64> = v.iter().map(|m| m.ckm()).collect();
        for (_, m) in NAMES { if !known.contains(m) { v.push(Me::Foreign(*m)); } }
        v.extend([Me::Foreign(0x1000_0000), Me::Foreign(u64::MAX), Me::Foreign(CKM_VENDOR_DEFINED)]);
        v
    })
}

/// a key of a kind, its size in the unit of the mechanism information, and whether it must work inside the range
pub struct Key { kk: Kk, t: Tmpl, size: u64, good: bool, peer: Option<Tmpl> }
const RSA_N: usize = 4;
fn key(kk: Kk, z: u8) -> Key {
    let mut k = Key { kk, t: kk.tmpl(), size: 0, good: true, peer: None };
    let z = z as usize;
    let val = |k: &mut Key, n: usize| { tset(&mut k.t, CKA_VALUE, vec![0x33u8; n]); k.size = n as u64; };
    match kk {
        Kk::Aes => match z % 8 {
            0..=2 => val(&mut k, [16, 24, 32][z % 8]),
            3 => val(&mut k, 32),
            n => { k.t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET }; val(&mut k, [8, 15, 33, 48][n - 4]); k.good = false; }
        },
        Kk::Generic => { let n = [48, 48, 32, 47, 49, 64, 1, 128][z % 8]; val(&mut k, n); let v = { let mut v = vec![0x33u8; n]; v[0] = 3; if n > 1 { v[1] = 3; } v }; tset(&mut k.t, CKA_VALUE, v); }
        Kk::Hotp => { val(&mut k, [20, 16, 19, 32, 64, 65, 128, 21][z % 8]); k.good = matches!(k.size, 20 | 32 | 64); }
        Kk::RsaPub | Kk::RsaPriv => {
            let big = [0usize, 1, 5, 6, 8, 9];
            let kr = if z % 8 < 4 { &crate::rsasmall::KEYS[z % RSA_N] } else { &crate::rsakeys::KEYS[big[z / 8 % 6]] };
            k.t = if kk == Kk::RsaPub { rsa_pub_tmpl(kr) } else { rsa_priv_tmpl(kr, true) };
            k.peer = Some(rsa_pub_tmpl(kr));
            k.size = kr.bits as u64;
            // odd sizes are refused by the cryptographic library
            k.good = kr.bits % 8 == 0 && kr.bits >= 1024;
        }
        Kk::EcPub | Kk::EcPriv => {
            let c = &super::c15::curves()[z % 3];
            k.size = [256, 384, 521][z % 3];
            let d = vec![7u8; 20];
            if z % 8 == 7 {
                // smaller curves: P-192, P-224, secp160r1
                let (oid, n): (&[u8], usize) = [(&[6u8, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 1][..], 24), (&[6, 5, 0x2b, 0x81, 4, 0, 0x21], 28), (&[6, 5, 0x2b, 0x81, 4, 0, 8], 20)][z / 8 % 3];
                k.size = n as u64 * 8;
                k.good = false;
                k.t = if kk == Kk::EcPub { ec_pub_tmpl(oid, &[vec![4], vec![1; 2 * n]].concat()) } else { ec_priv_tmpl(oid, &vec![1; n]) };
            } else {
                let mut dd = vec![0u8; c.flen() - 20]; dd.extend(&d);
                k.t = if kk == Kk::EcPub { ec_pub_tmpl(&c.oid, &c.enc(&c.pubkey(&num_bigint::BigUint::from_bytes_be(&d)))) } else { ec_priv_tmpl(&c.oid, &dd) };
            }
        }
        Kk::DhPriv => { let g = z % groups().len(); k.t = dh_priv_tmpl(g, &[9u8; 40]); k.size = groups()[g].bytes as u64 * 8; k.good = g == 0; }
        Kk::MontPriv => k.size = 256,
        _ => {}
    }
    k.t.retain(|a| !matches!(a.0, CKA_TOKEN | CKA_PRIVATE | CKA_SENSITIVE | CKA_EXTRACTABLE) && !kk.flags().contains(&a.0));
    k.t.extend(kk.flags().iter().map(|a| (*a, V::B(true))));
    k
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Probe { me: Me, op: Op, kk: Kk, z: u8 }
const KKS: [Kk; 12] = [Kk::Aes, Kk::Generic, Kk::Mac(2), Kk::Hkdf, Kk::Hotp, Kk::RsaPub, Kk::RsaPriv, Kk::EcPub, Kk::EcPriv, Kk::MontPriv, Kk::DhPriv, Kk::DhPub];
fn probe() -> BoxedStrategy<Probe> {
    let i = any::<prop::sample::Index>;
    (i(), i(), i(), prop::bool::weighted(0.6), prop::bool::weighted(0.85), any::<u8>()).prop_map(|(m, o, k, natural, fit, z)| {
        let me = *m.get(all());
        let os = me.ops();
        let op = if natural && !os.is_empty() { *o.get(&os) } else { *o.get(&OPS) };
        // keys that suit the mechanism in this or another operation
        let mut ks = me.fits(op);
        if ks.is_empty() { ks = OPS.iter().flat_map(|o| me.fits(*o)).collect(); }
        let kk = if fit && !ks.is_empty() { *k.get(&ks) } else { *k.get(&KKS) };
        Probe { me, op, kk, z }
    }).boxed()
}
fn gen_tmpl(ckm: u64, z: u8) -> (Tmpl, u64, bool) {
    let z = z as usize;
    let sized = |v: &[u64]| { let n = v[z % v.len()]; (tm! { CKA_VALUE_LEN => n }, n) };
    match ckm {
        CKM_AES_KEY_GEN => { let (t, n) = sized(&[16, 24, 32, 16, 32, 15, 8, 33, 0, 64, 20, 31]); (t, n, matches!(n, 16 | 24 | 32)) }
        CKM_HOTP_KEY_GEN => { let (t, n) = sized(&[20, 32, 64, 19, 65, 0, 16, 128]); (t, n, matches!(n, 20 | 32 | 64)) }
        CKM_PKCS5_PBKD2 => (tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 20u64 }, 20, true),
        _ => { let h = (0..11).find(|i| HT[*i].keygen == ckm); let n = h.map_or(20 + z as u64 % 40, |i| HT[i].h.len() as u64); (tm! { CKA_VALUE_LEN => n }, n, true) }
    }
}
fn pair_tmpl(ckm: u64, z: u8) -> (Tmpl, u64, bool) {
    let z = z as usize;
    match ckm {
        CKM_RSA_PKCS_KEY_PAIR_GEN => { let n = if z == 255 { 2048 } else { [1024u64, 512, 768, 1023, 16385, 1016, 0, 16392, 1 << 20, u64::MAX][z % 10] }; (tm! { CKA_MODULUS_BITS => n, CKA_PUBLIC_EXPONENT => vec![1u8, 0, 1] }, n, n % 8 == 0) }
        CKM_EC_KEY_PAIR_GEN => {
            if z % 8 > 4 {
                let (oid, n): (&[u8], u64) = [(&[6u8, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 1][..], 192), (&[6, 5, 0x2b, 0x81, 4, 0, 0x21], 224), (&[6, 5, 0x2b, 0x81, 4, 0, 8], 160)][z % 3];
                return (tm! { CKA_EC_PARAMS => oid.to_vec() }, n, false);
            }
            (tm! { CKA_EC_PARAMS => super::c15::curves()[z % 3].oid.clone() }, [256, 384, 521][z % 3], true)
        }
        CKM_EC_MONTGOMERY_KEY_PAIR_GEN => { let b = z % 2 == 1; (tm! { CKA_EC_PARAMS => super::c18::mont_oid(b) }, if b { 448 } else { 256 }, true) }
        _ => {
            if z % 4 == 3 { return (tm! { CKA_PRIME => { let mut p = vec![0x5bu8; 128]; p[0] = 0xff; p[127] = 0xff; p }, CKA_BASE => vec![2u8] }, 1024, false); }
            (tm! { CKA_PRIME => groups()[0].p.to_bytes_be(), CKA_BASE => vec![2u8] }, groups()[0].bytes as u64 * 8, true)
        }
    }
}
fn params(me: Me, kk: Kk, k: Obj, other: Obj) -> (Mech, Box<CK_SSL3_KEY_MAT_OUT>, Vec<u8>) {
    let mut iv = vec![0u8; 64];
    let mut out = Box::new(CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: iv.as_mut_ptr(), pIVServer: unsafe { iv.as_mut_ptr().add(32) } });
    let m = match me {
        Me::X(m) => m.mech(kk, k, other),
        Me::Pbkd => {
            let mut m = Mech::new(CKM_PKCS5_PBKD2);
            let (s, sl) = m.keep(&[1; 16]);
            let (q, ql) = m.keep(b"password");
            m.set(CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED as CK_ULONG, pSaltSourceData: s as *mut _, ulSaltSourceDataLen: sl, iterations: 1, prf: CKP_PKCS5_PBKD2_HMAC_SHA256 as CK_ULONG, pPrfData: std::ptr::null_mut(), ulPrfDataLen: 0, pPassword: q, ulPasswordLen: ql });
            m
        }
        Me::Keys(safe) => {
            let mut m = Mech::new(me.ckm());
            let (a, al) = m.keep(&[1; 32]);
            let (b, bl) = m.keep(&[2; 32]);
            m.set(CK_TLS12_KEY_MAT_PARAMS { ulMacSizeInBits: 128, ulKeySizeInBits: 128, ulIVSizeInBits: if safe { 0 } else { 128 }, bIsExport: 0, RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: a, ulClientRandomLen: al, pServerRandom: b, ulServerRandomLen: bl }, pReturnedKeyMaterial: &mut *out, prfHashMechanism: CKM_SHA256 });
            m
        }
        _ => Mech::new(me.ckm()),
    };
    (m, out, iv)
}
fn active(p: &P, s: Sess, op: Op) -> bool {
    let rv = match op {
        Enc => p.encrypt_update(s, &[]).0, Dec => p.decrypt_update(s, &[]).0, Sign => p.sign_update(s, &[]), Ver => p.verify_update(s, &[]), Vsig => p.vsig_update(s, &[]), Dig => p.digest_update(s, &[]),
        Menc | Mdec => { let mut mp = Mp::enc(&Mx::ciph(Mode::Gcm), 0); mbegin(p, s, op == Menc, &mut mp, &[]) }
        _ => return false,
    };
    rv != CKR_OPERATION_NOT_INITIALIZED
}
/// tries the operation; restricted: the mechanism is excluded on this slot
fn attempt(p: &P, s: Sess, slot: u64, cx: &mut Cx, x: &Probe, excluded: Option<bool>) -> R {
    let known = base(cx).contains_key(&x.me.ckm());
    let Probe { me, op, z, .. } = *x;
    let ckm = me.ckm();
    let (rv, mi) = p.mech_info(slot, ckm);
    let listed = rv == CKR_OK;
    if let Some(e) = excluded { ensure!(listed != (e || !known), "info", "mechanism {ckm:#x} excluded {e}: C_GetMechanismInfo gives {}", rvname(rv)); }
    else { ensure!(listed == known, "info", "mechanism {ckm:#x}: C_GetMechanismInfo gives {}", rvname(rv)); }
    let has = listed && mi.flags & op.ckf() != 0;
    let ranged = mi.ulMinKeySize != 0 || mi.ulMaxKeySize != 0;
    let inside = |n: u64| !ranged || (n >= mi.ulMinKeySize && n <= mi.ulMaxKeySize);
    // mechanisms that use another one, which may be excluded
    let nested = excluded.is_some();
    let what0 = format!("{op:?} with {me:?} ({ckm:#x})");
    // key pairs and generation
    let before = p.find(s, &[]).1.len();
    if op == Gen || op == Pair {
        let (t, n, good) = if op == Gen { gen_tmpl(ckm, z) } else if PAIRS.contains(&ckm) { pair_tmpl(ckm, z) } else { pair_tmpl(PAIRS[z as usize % 4], z) };
        let natural = me.ops().contains(&op);
        let (m, _o, _i) = params(me, x.kk, 0, 0);
        let (rv, a, b) = if op == Gen { let (rv, a) = p.genkey(s, &m, &t); (rv, a, 0) } else { p.genpair(s, &m, &t, &tm! { CKA_TOKEN => false }) };
        let what = format!("{what0} of size {n}");
        if !has || (!inside(n) && natural) {
            ensure!(rv != CKR_OK, if has { "range" } else { "unadvertised" }, "{what} succeeded (flags {:#x}, sizes {} to {})", mi.flags, mi.ulMinKeySize, mi.ulMaxKeySize);
            ensure!(p.find(s, &[]).1.len() == before, "left", "{what} failed with {} and left an object", rvname(rv));
            cx.hit(if !listed { "excluded or unknown refused" } else if has { "outside the sizes refused" } else { "unadvertised refused" });
            cx.nt();
            return Ok(());
        }
        if natural && good && !(me == Me::Pbkd && nested) {
            ensure!(rv == CKR_OK, "advertised", "{what}: {}", rvname(rv));
            cx.hit(&format!("{op:?} started"));
            cx.hit(&format!("mechanism {ckm:#x}"));
            cx.nt();
        }
        if rv == CKR_OK { p.destroy(s, a); if op == Pair { p.destroy(s, b); } }
        return Ok(());
    }
    let k = key(x.kk, z);
    let fit = me.fits(op).contains(&x.kk);
    let mut t = k.t.clone();
    t.extend(tm! { CKA_TOKEN => false, CKA_PRIVATE => false });
    let mut o = 0;
    if op != Dig {
        let (rv, h) = p.create(s, &t);
        if rv != CKR_OK {
            ensure!(!(fit && k.good && has && inside(k.size)), "key", "{what0}: the {:?} key of size {} cannot be created: {}", x.kk, k.size, rvname(rv));
            cx.hit("key refused");
            return Ok(());
        }
        o = h;
    }
    let other = must(p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![0x11u8; 16], CKA_TOKEN => false, CKA_PRIVATE => false, CKA_EXTRACTABLE => true, CKA_DERIVE => true }, "other key");
    let mut extra = vec![other, o];
    let (m, mats, _iv) = params(me, x.kk, o, other);
    let mut data = vec![1; 24];
    if op == Unwrap && fit && has && inside(k.size) {
        let w = match &k.peer { Some(t) => { let mut t = t.clone(); t.retain(|a| !matches!(a.0, CKA_TOKEN | CKA_PRIVATE | CKA_WRAP)); t.extend(tm! { CKA_TOKEN => false, CKA_PRIVATE => false, CKA_WRAP => true }); let w = must(p, s, &t, "peer"); extra.push(w); w } None => o };
        let (rv, b) = p.wrap(s, &m, w, other);
        ensure!(rv == CKR_OK || !k.good || matches!(me, Me::X(Mx::Rsa(1) | Mx::RsaRaw(_))), "advertised", "Wrap with {me:?}: {}", rvname(rv));
        data = b;
    }
    let before = p.find(s, &[]).1.len();
    let dt = match me {
        Me::X(Mx::PubPriv) => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => match x.kk { Kk::RsaPriv => CKK_RSA, Kk::MontPriv => CKK_EC_MONTGOMERY, _ => CKK_EC }, CKA_TOKEN => false },
        Me::X(Mx::Hkdf(true)) => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE_LEN => 16u64 },
        Me::X(Mx::Master(_)) => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 48u64 },
        Me::X(Mx::Extract | Mx::Xor) => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 1u64 },
        _ => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => 16u64 },
    };
    let mut made = 0;
    let rv = match op {
        Dig => p.digest_init(s, &m),
        Enc => p.encrypt_init(s, &m, o), Dec => p.decrypt_init(s, &m, o), Sign => p.sign_init(s, &m, o), Ver => p.verify_init(s, &m, o),
        Vsig => {
            let n = match me { Me::X(Mx::M(MacK::Rsa(_) | MacK::Pss(_)) | Mx::RsaRaw(_) | Mx::Rsa(_)) => k.size.div_ceil(8) as usize, Me::X(Mx::M(MacK::Ecdsa(_)) | Mx::EcRaw) => 2 * k.size.div_ceil(8) as usize, Me::X(Mx::M(MacK::Hmac(i))) => HT[i as usize].h.len(), Me::X(Mx::M(MacK::Cmac)) => 16, Me::X(Mx::TlsMac(_)) => 12, Me::X(Mx::Hotp) => 6, _ => 8 };
            p.vsig_init(s, &m, o, &vec![5; n])
        }
        Menc => menc_init(p, s, &m, o), Mdec => mdec_init(p, s, &m, o),
        Wrap => p.wrap(s, &m, o, other).0,
        Unwrap => { let (rv, h) = p.unwrap(s, &m, o, &data, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => false }); made = h; rv }
        _ if matches!(me, Me::Keys(_)) => F!(p.C_DeriveKey(s, m.ptr(), o, CT::new(&dt).ptr(), dt.len() as CK_ULONG, std::ptr::null_mut())),
        _ => { let (rv, h) = p.derive(s, &m, o, &dt); made = h; rv }
    };
    let what = format!("{what0} with a {:?} key of size {}", x.kk, k.size);
    // the sizes of these are those of the derived key
    let tls = matches!(me, Me::Keys(_) | Me::X(Mx::Master(_) | Mx::TlsKdf(_)));
    let inside = |n: u64| tls || inside(n);
    // what the other properties decide or the cryptographic library limits
    let loose = match me {
        Me::X(Mx::PubPriv) => x.kk == Kk::EcPriv,
        Me::X(Mx::Rsa(1) | Mx::RsaRaw(_)) => matches!(op, Wrap | Unwrap),
        Me::X(Mx::M(MacK::Pss(_))) => k.size < 1100,
        Me::X(Mx::Extract | Mx::Xor | Mx::Ssh) => true,
        Me::X(Mx::ConKey | Mx::ConKey2 | Mx::ConData | Mx::DataCon) => x.kk == Kk::Generic && k.size < 16,
        Me::X(Mx::Hotp) => op == Vsig,
        Me::X(Mx::TlsMac(_)) => op == Vsig,
        Me::X(Mx::Ecdh(_)) => k.size != 256,
        Me::X(Mx::Dh) => k.size != groups()[0].bytes as u64 * 8,
        _ => tls && k.size != 48,
    };
    let judged = if op == Dig { me.ops().contains(&Dig) } else { fit };
    if !has || (judged && op != Dig && !inside(k.size)) {
        ensure!(rv != CKR_OK, if has { "range" } else { "unadvertised" }, "{what} started (flags {:#x}, sizes {} to {}, listed {listed})", mi.flags, mi.ulMinKeySize, mi.ulMaxKeySize);
        cx.hit(if !listed { "excluded or unknown refused" } else if has { "outside the sizes refused" } else { "unadvertised refused" });
        cx.nt();
    } else if judged && k.good && !loose && !(nested && (tls || matches!(me, Me::X(Mx::Ssh | Mx::Sp(..) | Mx::Hkdf(_) | Mx::HkdfSalt | Mx::TlsMac(_))))) {
        ensure!(rv == CKR_OK, "advertised", "{what}: {} (flags {:#x}, sizes {} to {})", rvname(rv), mi.flags, mi.ulMinKeySize, mi.ulMaxKeySize);
        cx.hit(&format!("{op:?} started"));
        cx.hit(&format!("mechanism {ckm:#x}"));
        cx.nt();
    }
    if rv == CKR_OK {
        if made != 0 { extra.push(made); }
        extra.extend([mats.hClientMacSecret, mats.hServerMacSecret, mats.hClientKey, mats.hServerKey]);
        if op == Vsig { p.vsig(s, &[1; 32]); } else if !matches!(op, Wrap | Unwrap | Derive) { let rv = p.cancel(s, op.ckf()); ensure!(rv == CKR_OK, "cancel", "cancelling {what}: {}", rvname(rv)); }
    } else {
        ensure!(p.find(s, &[]).1.len() == before, "left", "{what} failed with {} and left an object", rvname(rv));
    }
    ensure!(!active(p, s, op), "active", "{what} returned {} and left an operation active", rvname(rv));
    for h in extra { if h != 0 { p.destroy(s, h); } }
    Ok(())
}
fn run(x: &Probe, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    attempt(p, s, SLOT, cx, x, None)
}

// ---------------------------------------------------------------- configurations
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rule { All, Allow(Vec<u16>), Deny(Vec<u16>) }
pub fn rule() -> BoxedStrategy<Rule> {
    let v = || prop_oneof![4 => prop::collection::vec(any::<u16>(), 0..8), 2 => prop::collection::vec(any::<u16>(), 8..80), 1 => Just((0..600).collect::<Vec<u16>>())];
    prop_oneof![1 => Just(Rule::All), 4 => v().prop_map(Rule::Allow), 4 => v().prop_map(Rule::Deny)].boxed()
}
impl Rule {
    fn list(v: &[u16]) -> Vec<(&'static str, u64)> { v.iter().map(|i| NAMES[*i as usize % NAMES.len()]).collect() }
    pub fn text(&self) -> String {
        let q = |v: &[u16]| Self::list(v).iter().map(|x| format!("\"{}\"", x.0)).collect::<Vec<_>>();
        match self { Rule::All => String::new(), Rule::Allow(v) => format!("mechanisms = [{}]\n", q(v).join(", ")), Rule::Deny(v) => { let mut l = vec!["\"DENY\"".to_string()]; l.extend(q(v)); format!("mechanisms = [{}]\n", l.join(", ")) } }
    }
    pub fn excludes(&self, m: u64) -> bool {
        match self { Rule::All => false, Rule::Allow(v) => !Self::list(v).iter().any(|x| x.1 == m), Rule::Deny(v) => Self::list(v).iter().any(|x| x.1 == m) }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf { slots: Vec<(u8, Rule, bool)>, probes: Vec<(u8, Probe, u16)>, sizes: Vec<u16>, order: Vec<u8>, reinit: bool }
fn confs() -> BoxedStrategy<Conf> {
    (prop::collection::vec((any::<u8>(), rule(), prop::bool::weighted(0.25)), 1..4), prop::collection::vec((any::<u8>(), probe(), any::<u16>()), 4..16), prop::collection::vec(any::<u16>(), 3), prop::collection::vec(any::<u8>(), 0..12), prop::bool::weighted(0.2))
        .prop_map(|(slots, probes, sizes, order, reinit)| Conf { slots, probes, sizes, order, reinit }).boxed()
}
pub type Info = (u64, u64, u64);
fn info(p: &P, slot: u64, m: u64) -> Option<Info> { let (rv, i) = p.mech_info(slot, m); (rv == CKR_OK).then_some((i.ulMinKeySize as u64, i.ulMaxKeySize as u64, i.flags as u64)) }
/// what an unrestricted slot has
pub fn base(cx: &mut Cx) -> &'static BTreeMap<u64, Info> {
    static B: OnceLock<BTreeMap<u64, Info>> = OnceLock::new();
    B.get_or_init(|| { let (p, slot) = cx.tok.shared(); p.mech_list(slot).1.into_iter().map(|m| (m, info(&p, slot, m).expect("information"))).collect() })
}
/// the length protocol of a list function
fn protocol(what: &str, cx: &mut Cx, offers: &[u16], f: &dyn Fn(*mut u64, *mut CK_ULONG) -> Rv, unit: usize) -> R<Vec<u64>> {
    let mut n: CK_ULONG = 0x5555;
    let rv = f(std::ptr::null_mut(), &mut n);
    ensure!(rv == CKR_OK, "list", "{what} size query: {}", rvname(rv));
    let want = n as usize;
    let mut first: Option<Vec<u64>> = None;
    let mut sizes: Vec<usize> = vec![want];
    for o in offers { sizes.push(match o % 4 { 0 => want.saturating_sub(1), 1 => want + 1, 2 => *o as usize % (want + 1), _ => want + *o as usize % 50 }); }
    sizes.push(want);
    for k in sizes {
        let mut v = vec![0xeeee_eeee_eeee_eeeeu64; (k + 4) * unit];
        let mut l = k as CK_ULONG;
        let rv = f(v.as_mut_ptr(), &mut l);
        ensure!(v[k * unit..].iter().all(|x| *x == 0xeeee_eeee_eeee_eeee), "overrun", "{what} wrote more than {k} entries");
        ensure!(l as usize == want, "count", "{what} offered {k} gives the count {l} with {}, the query said {want}", rvname(rv));
        if k < want {
            ensure!(rv == CKR_BUFFER_TOO_SMALL, "list", "{what} offered {k} of {want}: {}", rvname(rv));
            cx.hit("list too small");
        } else {
            ensure!(rv == CKR_OK, "list", "{what} offered {k} of {want}: {}", rvname(rv));
            v.truncate(want * unit);
            if let Some(f) = &first { ensure!(*f == v, "list", "{what} gives different lists"); }
            first = Some(v);
        }
    }
    let rv = f(std::ptr::null_mut(), std::ptr::null_mut());
    ensure!(rv == CKR_ARGUMENTS_BAD, "list", "{what} without count: {}", rvname(rv));
    Ok(first.unwrap())
}
fn run_conf(c: &Conf, cx: &mut Cx) -> R {
    let full = base(cx);
    let mut ids: Vec<u64> = vec![];
    for (i, (n, _, _)) in c.slots.iter().enumerate() { let mut id = if n % 3 == 0 { i as u64 } else { *n as u64 * 7 }; while ids.contains(&id) { id += 1; } ids.push(id); }
    // a configuration of its own
    let dbs: Vec<(u64, Db)> = c.slots.iter().zip(&ids).map(|((_, _, nss), id)| (*id, if *nss { Db::Nss } else { Db::Sqlite })).collect();
    let mut ts = cx.tok.several(&dbs, "");
    ts[0].p.finalize();
    let conf = ts[0].conf.trim_start_matches("kryoptic_conf=").to_string();
    let mut text = String::new();
    for ((t, (_, r, _)), id) in ts.iter().zip(&c.slots).zip(&ids) {
        text += &slot_conf(*id, t.db, &t.dir);
        text += &r.text();
    }
    std::fs::write(&conf, &text).expect("conf");
    let p = ts[0].p;
    let rv = p.initialize(Some(&ts[0].conf));
    ensure!(rv == CKR_OK, "initialize", "{}\n{text}", rvname(rv));
    let r = (|| -> R {
        // slots
        for present in [0u8, 1] {
            let mut l = protocol("C_GetSlotList", cx, &c.sizes, &|v, n| F!(p.C_GetSlotList(present, v as *mut _, n)), 1)?;
            l.sort();
            let mut w = ids.clone();
            w.sort();
            ensure!(l == w, "slots", "slots {l:?} instead of {w:?}");
        }
        let mut sess = vec![];
        for (i, id) in ids.iter().enumerate() {
            let rule = &c.slots[i].1;
            let want: BTreeMap<u64, Info> = full.iter().filter(|(m, _)| !rule.excludes(**m)).map(|(a, b)| (*a, *b)).collect();
            let l = protocol("C_GetMechanismList", cx, &c.sizes, &|v, n| F!(p.C_GetMechanismList(*id, v as *mut _, n)), 1)?;
            let set: BTreeSet<u64> = l.iter().copied().collect();
            ensure!(set.len() == l.len(), "list", "the mechanism list has duplicates");
            ensure!(set == want.keys().copied().collect(), "mechanisms", "slot {id} ({rule:?}) lacks {:x?} and lists {:x?} without reason", want.keys().filter(|m| !set.contains(m)).collect::<Vec<_>>(), set.iter().filter(|m| !want.contains_key(m)).collect::<Vec<_>>());
            for (m, w) in full {
                let g = info(&p, *id, *m);
                ensure!(g == want.get(m).copied(), "info", "information on {m:#x} in slot {id}: {g:x?} instead of {:x?}", want.get(m).or(Some(w)));
            }
            if c.reinit && i == 0 && ts[0].db == Db::Sqlite {
                let rv = p.init_token(*id, SO, "again");
                ensure!(rv == CKR_OK, "reinit", "{}", rvname(rv));
                let l2 = p.mech_list(*id).1;
                ensure!(l2 == l, "mechanisms", "after C_InitToken the slot lists {} mechanisms instead of {}", l2.len(), l.len());
            }
            let (rv, s) = p.open(*id, true);
            ensure!(rv == CKR_OK, "open", "slot {id}: {}", rvname(rv));
            // the mechanism objects
            let (_, os) = p.find(s, &tm! { CKA_CLASS => CKO_MECHANISM });
            let mut got: Vec<u64> = os.iter().filter_map(|o| p.get_ulong(s, *o, CKA_MECHANISM_TYPE).ok()).collect();
            got.sort();
            ensure!(got == want.keys().copied().collect::<Vec<_>>(), "objects", "the mechanism objects of slot {id} ({rule:?}) are not those of the mechanism list: more {:x?}, less {:x?}", got.iter().filter(|m| !want.contains_key(m)).collect::<Vec<_>>(), want.keys().filter(|m| !got.contains(m)).collect::<Vec<_>>());
            sess.push(s);
        }
        for (k, x, y) in &c.probes {
            let i = *k as usize % ids.len();
            let mut x = *x;
            // half of the attempts are with mechanisms the rules of the slot name
            if let (true, Rule::Allow(v) | Rule::Deny(v)) = (y % 2 == 0, &c.slots[i].1) {
                if !v.is_empty() {
                    let m = NAMES[v[*y as usize / 2 % v.len()] as usize % NAMES.len()].1;
                    let c: Vec<Me> = all().iter().copied().filter(|e| e.ckm() == m).collect();
                    if !c.is_empty() {
                        let me = c[*y as usize / 64 % c.len()];
                        let os = me.ops();
                        if !os.is_empty() { let op = os[*y as usize % os.len()]; let ks = me.fits(op); x = Probe { me, op, kk: if ks.is_empty() { x.kk } else { ks[x.z as usize / 8 % ks.len()] }, z: x.z }; }
                    }
                }
            }
            let e = c.slots[i].1.excludes(x.me.ckm());
            // unwrapping needs material made with the mechanism
            if x.op == Pair && x.z == 255 { continue; }
            attempt(&p, sess[i], ids[i], cx, &x, Some(e))?;
            if e { cx.hit("excluded mechanism tried"); }
        }
        // the token itself works whatever is excluded
        for (i, s) in sess.iter().enumerate() {
            if c.reinit && i == 0 { continue; }
            let rv = p.login(*s, CKU_USER, USER);
            ensure!(rv == CKR_OK, "login", "{:?}: {}", c.slots[i].1, rvname(rv));
            let v = vec![i as u8 + 1; 32];
            let (rv, o) = p.create(*s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => v.clone(), CKA_TOKEN => true, CKA_PRIVATE => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_LABEL => "stored" });
            ensure!(rv == CKR_OK && p.get1(*s, o, CKA_VALUE) == Ok(v), "store", "a private key cannot be stored and read under {:?}: {}", c.slots[i].1, rvname(rv));
        }
        Ok(())
    })();
    let live = ts.remove(0);
    drop(live);
    r
}

// ---------------------------------------------------------------- information
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev { Open(bool), Close(u8), CloseAll, Login(bool), Logout, Info }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist { slots: Vec<(u8, bool)>, evs: Vec<(u8, Ev)>, sizes: Vec<u16>, name: u8, ver: (u8, u8), flags: u8 }
fn hists() -> BoxedStrategy<Hist> {
    let ev = prop_oneof![5 => any::<bool>().prop_map(Ev::Open), 2 => any::<u8>().prop_map(Ev::Close), 1 => Just(Ev::CloseAll), 2 => any::<bool>().prop_map(Ev::Login), 1 => Just(Ev::Logout), 3 => Just(Ev::Info)];
    (prop::collection::vec((any::<u8>(), any::<bool>()), 1..4), prop::collection::vec((any::<u8>(), ev), 4..30), prop::collection::vec(any::<u16>(), 3), 0u8..6, prop_oneof![Just((3, 2)), Just((3, 0)), Just((2, 40)), Just((3, 1)), Just((2, 20)), (any::<u8>(), any::<u8>())], 0u8..6)
        .prop_map(|(slots, evs, sizes, name, ver, flags)| Hist { slots, evs, sizes, name, ver, flags }).boxed()
}
fn bytes<T>(v: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec() }
fn run_hist(c: &Hist, cx: &mut Cx) -> R {
    let mut ids: Vec<u64> = vec![];
    for (n, _) in &c.slots { let mut id = *n as u64; while ids.contains(&id) { id += 1; } ids.push(id); }
    let dbs: Vec<(u64, Db)> = c.slots.iter().zip(&ids).map(|((_, nss), id)| (*id, if *nss { Db::Nss } else { Db::Sqlite })).collect();
    let mut ts = cx.tok.several(&dbs, "");
    let p = ts[0].p;
    let r = (|| -> R {
        let mut open: Vec<Vec<(Sess, bool)>> = vec![vec![]; ids.len()];
        let mut fixed: Vec<Option<Vec<u8>>> = vec![None; ids.len()];
        let first = { let mut i = CK_INFO::default(); let ip: *mut CK_INFO = &mut i; let rv = F!(p.C_GetInfo(ip)); ensure!(rv == CKR_OK, "info", "C_GetInfo: {}", rvname(rv)); bytes(&i) };
        for (k, ev) in c.evs.iter().chain([&(0u8, Ev::Info)]) {
            let i = *k as usize % ids.len();
            let id = ids[i];
            match ev {
                Ev::Open(rw) => { let (rv, s) = p.open(id, *rw); if rv == CKR_OK { open[i].push((s, *rw)); } else { ensure!(!*rw && rv == CKR_SESSION_READ_WRITE_SO_EXISTS, "open", "{}", rvname(rv)); } }
                Ev::Close(n) => if !open[i].is_empty() { let n = *n as usize % open[i].len(); let (s, _) = open[i].remove(n); let rv = p.close(s); ensure!(rv == CKR_OK, "close", "{}", rvname(rv)); }
                Ev::CloseAll => { p.close_all(id); open[i].clear(); }
                Ev::Login(so) => if let Some((s, _)) = open[i].first() { p.login(*s, if *so { CKU_SO } else { CKU_USER }, if *so { SO } else { USER }); }
                Ev::Logout => if let Some((s, _)) = open[i].first() { p.logout(*s); }
                Ev::Info => {
                    for (i, id) in ids.iter().enumerate() {
                        let (rv, mut ti) = p.token_info(*id);
                        ensure!(rv == CKR_OK, "token", "C_GetTokenInfo: {}", rvname(rv));
                        let (n, rw) = (open[i].len() as u64, open[i].iter().filter(|x| x.1).count() as u64);
                        ensure!(ti.ulSessionCount as u64 == n && ti.ulRwSessionCount as u64 == rw, "counts", "slot {id}: {} sessions, {} of them read/write, instead of {n} and {rw}", ti.ulSessionCount, ti.ulRwSessionCount);
                        ensure!(ti.flags & CKF_TOKEN_INITIALIZED as CK_FLAGS != 0 && ti.flags & CKF_RNG as CK_FLAGS != 0, "flags", "token flags {:#x}", ti.flags);
                        ensure!(ti.ulMaxPinLen == 0 || ti.ulMinPinLen <= ti.ulMaxPinLen, "pin", "PIN lengths {} to {}", ti.ulMinPinLen, ti.ulMaxPinLen);
                        (ti.ulSessionCount, ti.ulRwSessionCount) = (0, 0);
                        let (rv, si) = p.slot_info(*id);
                        ensure!(rv == CKR_OK && si.flags & CKF_TOKEN_PRESENT as CK_FLAGS != 0, "slot", "C_GetSlotInfo: {} flags {:#x}", rvname(rv), si.flags);
                        let b = [bytes(&ti), bytes(&si)].concat();
                        if let Some(f) = &fixed[i] { ensure!(*f == b, "steady", "the information on slot {id} changed"); }
                        fixed[i] = Some(b);
                        for (s, rw) in &open[i] {
                            let (rv, inf) = p.sess_info(*s);
                            ensure!(rv == CKR_OK && inf.slotID as u64 == *id && (inf.flags & CKF_RW_SESSION as CK_FLAGS != 0) == *rw && inf.flags & CKF_SERIAL_SESSION as CK_FLAGS != 0, "session", "C_GetSessionInfo: {} slot {} flags {:#x}", rvname(rv), inf.slotID, inf.flags);
                        }
                        if n > 0 { cx.nt(); }
                    }
                    let mut i = CK_INFO::default();
                    let ip: *mut CK_INFO = &mut i;
                    let rv = F!(p.C_GetInfo(ip));
                    ensure!(rv == CKR_OK && bytes(&i) == first, "steady", "C_GetInfo gives different information");
                    ensure!((i.cryptokiVersion.major, i.cryptokiVersion.minor) == (3, 2), "version", "Cryptoki version {}.{}", i.cryptokiVersion.major, i.cryptokiVersion.minor);
                    cx.hit("information compared");
                }
            }
        }
        // a slot that does not exist
        let mut no = c.flags as u64 * 97 + 1000;
        while ids.contains(&no) { no += 1; }
        let rvs = [p.slot_info(no).0, p.token_info(no).0, p.mech_list(no).0, p.mech_info(no, CKM_SHA256).0, p.open(no, true).0, p.close_all(no), p.init_token(no, SO, "x")];
        ensure!(rvs.iter().all(|r| *r == CKR_SLOT_ID_INVALID), "no-slot", "calls on slot {no}, which does not exist: {:?}", rvs.iter().map(|r| rvname(*r)).collect::<Vec<_>>());
        // interfaces
        let l = protocol("C_GetInterfaceList", cx, &c.sizes, &|v, n| F!(p.C_GetInterfaceList(v as *mut _, n)), std::mem::size_of::<CK_INTERFACE>() / 8)?;
        let n = l.len() * 8 / std::mem::size_of::<CK_INTERFACE>();
        let ifs: Vec<CK_INTERFACE> = (0..n).map(|i| unsafe { std::ptr::read((l.as_ptr() as *const CK_INTERFACE).add(i)) }).collect();
        let mut vers = vec![];
        let name = |i: &CK_INTERFACE| unsafe { std::ffi::CStr::from_ptr(i.pInterfaceName as *const _) }.to_bytes().to_vec();
        for i in &ifs {
            let v = unsafe { *(i.pFunctionList as *const CK_VERSION) };
            ensure!(name(i) == b"PKCS 11", "interface", "interface name {:?}", name(i));
            vers.push((v.major, v.minor));
            let count = match (v.major, v.minor) { (2, 40) => 68, (3, 0) => 92, (3, 2) => std::mem::size_of::<CK_FUNCTION_LIST_3_2>() / 8 - 1, _ => 68 };
            let table = unsafe { std::slice::from_raw_parts((i.pFunctionList as *const usize).add(1), count) };
            ensure!(table.iter().all(|f| *f != 0), "interface", "the {}.{} interface lacks functions", v.major, v.minor);
            let mine = unsafe { std::slice::from_raw_parts((&p.f as *const _ as *const usize).add(1), count) };
            let differ: Vec<usize> = (0..count).filter(|k| table[*k] != mine[*k]).collect();
            // C_GetFunctionList may differ
            ensure!(differ.iter().all(|k| *k == 3), "interface", "functions {differ:?} of the {}.{} interface differ from those of 3.2", v.major, v.minor);
        }
        ensure!(vers.iter().collect::<BTreeSet<_>>().len() == vers.len(), "interface", "versions {vers:?}");
        let names: [&[u8]; 6] = [b"PKCS 11\0", b"PKCS 11\0", b"PKCS 11\0", b"PKCS 1\0", b"PKCS 111\0", b"\0"];
        let nm = names[c.name as usize % 6];
        let np = if c.name == 1 { std::ptr::null_mut() } else { nm.as_ptr() as *mut u8 };
        let mut v = CK_VERSION { major: c.ver.0, minor: c.ver.1 };
        let vp: *mut CK_VERSION = if c.sizes[0] % 3 == 0 { std::ptr::null_mut() } else { &mut v };
        let fl = [0u64, 0, 0, 0, 1, 1 << 40][c.flags as usize % 6];
        let mut out: *mut CK_INTERFACE = std::ptr::null_mut();
        let op: *mut *mut CK_INTERFACE = &mut out;
        let rv = F!(p.C_GetInterface(np, vp, op as *mut _, fl as CK_FLAGS));
        let good = c.name < 3 && fl == 0 && (vp.is_null() || vers.contains(&c.ver));
        ensure!((rv == CKR_OK) == good, "interface", "C_GetInterface({:?}, {:?}, {fl:#x}): {}", if np.is_null() { None } else { Some(nm) }, if vp.is_null() { None } else { Some(c.ver) }, rvname(rv));
        if good {
            let i = unsafe { *out };
            let v = unsafe { *(i.pFunctionList as *const CK_VERSION) };
            let want = if vp.is_null() { *vers.iter().max().unwrap() } else { c.ver };
            ensure!((v.major, v.minor) == want && name(&i) == b"PKCS 11", "interface", "C_GetInterface gives version {}.{} instead of {want:?}", v.major, v.minor);
            cx.hit("interface found");
        } else { cx.hit("interface refused"); }
        Ok(())
    })();
    let live = ts.remove(0);
    drop(live);
    r
}

pub fn prop() -> Prop {
    Prop {
        id: "C26", level: "exploration", workers: 8, hang_s: 60,
        rule: "attempts: mechanism of the build or not, operation, key kind and size; started exactly if the information advertises the operation, for keys that fit and sizes inside the range; configurations: 1 to 3 slots with random allow or deny lists, lists, information and mechanism objects compared with the filtered full list, attempts with excluded and allowed mechanisms; information: session histories over 1 to 3 slots with counts and information compared, list length protocols with all kinds of sizes, interface queries; non-trivial: an attempt was decided by the advertisement, or sessions were open when information was compared",
        assumptions: &["keys that do not fit a mechanism are decided by C05", "modulus sizes that are not whole bytes and ECDSA curves outside the three are limits of the implementation", "PUB_KEY_FROM_PRIV_KEY on EC keys needs OpenSSL 4", "the vendor mechanism of the SSH KDF has no name for lists"],
        groups: vec![gen_("attempts", 80000, 1600000, probe, run), gen_("configurations", 1500, 30000, confs, run_conf), gen_("information", 2000, 40000, hists, run_hist)],
    }
}
