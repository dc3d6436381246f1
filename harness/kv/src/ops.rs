//! Descriptions of one-shot / multi-part operations, their reference results
//! and a stepwise executor with different ways of offering output buffers.
#![allow(dead_code)]
use crate::crypt::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use proptest::prelude::*;
use refc::hash::H;
use serde::{Deserialize, Serialize};

pub struct HT { pub h: H, pub name: &'static str, pub ckm: u64, pub hmac: u64, pub hmac_gen: u64, pub kt: u64, pub keygen: u64, pub kder: u64, pub rsa: u64, pub pss: u64, pub ecdsa: u64, pub mgf: u64 }
/// hash mechanisms; 0 where no such mechanism exists
pub const HT: [HT; 11] = [
    HT { h: H::Sha1, name: "sha1", ckm: CKM_SHA_1, hmac: CKM_SHA_1_HMAC, hmac_gen: CKM_SHA_1_HMAC_GENERAL, kt: CKK_SHA_1_HMAC, keygen: CKM_SHA_1_KEY_GEN, kder: CKM_SHA1_KEY_DERIVATION, rsa: CKM_SHA1_RSA_PKCS, pss: CKM_SHA1_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA1, mgf: CKG_MGF1_SHA1 },
    HT { h: H::Sha224, name: "sha224", ckm: CKM_SHA224, hmac: CKM_SHA224_HMAC, hmac_gen: CKM_SHA224_HMAC_GENERAL, kt: CKK_SHA224_HMAC, keygen: CKM_SHA224_KEY_GEN, kder: CKM_SHA224_KEY_DERIVATION, rsa: CKM_SHA224_RSA_PKCS, pss: CKM_SHA224_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA224, mgf: CKG_MGF1_SHA224 },
    HT { h: H::Sha256, name: "sha256", ckm: CKM_SHA256, hmac: CKM_SHA256_HMAC, hmac_gen: CKM_SHA256_HMAC_GENERAL, kt: CKK_SHA256_HMAC, keygen: CKM_SHA256_KEY_GEN, kder: CKM_SHA256_KEY_DERIVATION, rsa: CKM_SHA256_RSA_PKCS, pss: CKM_SHA256_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA256, mgf: CKG_MGF1_SHA256 },
    HT { h: H::Sha384, name: "sha384", ckm: CKM_SHA384, hmac: CKM_SHA384_HMAC, hmac_gen: CKM_SHA384_HMAC_GENERAL, kt: CKK_SHA384_HMAC, keygen: CKM_SHA384_KEY_GEN, kder: CKM_SHA384_KEY_DERIVATION, rsa: CKM_SHA384_RSA_PKCS, pss: CKM_SHA384_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA384, mgf: CKG_MGF1_SHA384 },
    HT { h: H::Sha512, name: "sha512", ckm: CKM_SHA512, hmac: CKM_SHA512_HMAC, hmac_gen: CKM_SHA512_HMAC_GENERAL, kt: CKK_SHA512_HMAC, keygen: CKM_SHA512_KEY_GEN, kder: CKM_SHA512_KEY_DERIVATION, rsa: CKM_SHA512_RSA_PKCS, pss: CKM_SHA512_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA512, mgf: CKG_MGF1_SHA512 },
    HT { h: H::Sha3_224, name: "sha3-224", ckm: CKM_SHA3_224, hmac: CKM_SHA3_224_HMAC, hmac_gen: CKM_SHA3_224_HMAC_GENERAL, kt: CKK_SHA3_224_HMAC, keygen: CKM_SHA3_224_KEY_GEN, kder: CKM_SHA3_224_KEY_DERIVATION, rsa: CKM_SHA3_224_RSA_PKCS, pss: CKM_SHA3_224_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA3_224, mgf: CKG_MGF1_SHA3_224 },
    HT { h: H::Sha3_256, name: "sha3-256", ckm: CKM_SHA3_256, hmac: CKM_SHA3_256_HMAC, hmac_gen: CKM_SHA3_256_HMAC_GENERAL, kt: CKK_SHA3_256_HMAC, keygen: CKM_SHA3_256_KEY_GEN, kder: CKM_SHA3_256_KEY_DERIVATION, rsa: CKM_SHA3_256_RSA_PKCS, pss: CKM_SHA3_256_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA3_256, mgf: CKG_MGF1_SHA3_256 },
    HT { h: H::Sha3_384, name: "sha3-384", ckm: CKM_SHA3_384, hmac: CKM_SHA3_384_HMAC, hmac_gen: CKM_SHA3_384_HMAC_GENERAL, kt: CKK_SHA3_384_HMAC, keygen: CKM_SHA3_384_KEY_GEN, kder: CKM_SHA3_384_KEY_DERIVATION, rsa: CKM_SHA3_384_RSA_PKCS, pss: CKM_SHA3_384_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA3_384, mgf: CKG_MGF1_SHA3_384 },
    HT { h: H::Sha3_512, name: "sha3-512", ckm: CKM_SHA3_512, hmac: CKM_SHA3_512_HMAC, hmac_gen: CKM_SHA3_512_HMAC_GENERAL, kt: CKK_SHA3_512_HMAC, keygen: CKM_SHA3_512_KEY_GEN, kder: CKM_SHA3_512_KEY_DERIVATION, rsa: CKM_SHA3_512_RSA_PKCS, pss: CKM_SHA3_512_RSA_PKCS_PSS, ecdsa: CKM_ECDSA_SHA3_512, mgf: CKG_MGF1_SHA3_512 },
    HT { h: H::Sha512_224, name: "sha512/224", ckm: CKM_SHA512_224, hmac: CKM_SHA512_224_HMAC, hmac_gen: CKM_SHA512_224_HMAC_GENERAL, kt: CKK_SHA512_224_HMAC, keygen: CKM_SHA512_224_KEY_GEN, kder: CKM_SHA512_224_KEY_DERIVATION, rsa: 0, pss: 0, ecdsa: 0, mgf: 0 },
    HT { h: H::Sha512_256, name: "sha512/256", ckm: CKM_SHA512_256, hmac: CKM_SHA512_256_HMAC, hmac_gen: CKM_SHA512_256_HMAC_GENERAL, kt: CKK_SHA512_256_HMAC, keygen: CKM_SHA512_256_KEY_GEN, kder: CKM_SHA512_256_KEY_DERIVATION, rsa: 0, pss: 0, ecdsa: 0, mgf: 0 },
];
/// number of hashes that combine with RSA and ECDSA
pub const NSIGH: usize = 9;

/// one symmetric or asymmetric authentication algorithm
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum MacK { Hmac(u8), HmacGen(u8), Cmac, CmacGen, AesMac, AesMacGen, Rsa(u8), Pss(u8), Ecdsa(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mac { pub k: MacK, pub key: Hx, pub n: u8 }

pub fn mac(asym: bool) -> BoxedStrategy<Mac> {
    let k = prop_oneof![
        3 => (0u8..11).prop_map(MacK::Hmac), 3 => (0u8..11).prop_map(MacK::HmacGen),
        2 => Just(MacK::Cmac), 2 => Just(MacK::CmacGen), 1 => Just(MacK::AesMac), 1 => Just(MacK::AesMacGen),
    ];
    let k: BoxedStrategy<MacK> = if asym {
        prop_oneof![9 => k, 1 => (0u8..NSIGH as u8).prop_map(MacK::Rsa), 1 => (0u8..NSIGH as u8).prop_map(MacK::Pss), 1 => (0u8..NSIGH as u8).prop_map(MacK::Ecdsa)].boxed()
    } else { k.boxed() };
    k.prop_flat_map(|k| {
        let key = match k {
            MacK::Hmac(_) | MacK::HmacGen(_) => prop_oneof![4 => hx(1..=64usize), 1 => hx(64..=72usize), 1 => hx(100..=150usize)].boxed(),
            MacK::Rsa(_) | MacK::Pss(_) | MacK::Ecdsa(_) => hx(1),
            _ => aeskey(),
        };
        let n = match k {
            MacK::HmacGen(h) => (1u8..=HT[h as usize].h.len() as u8).boxed(),
            MacK::CmacGen | MacK::AesMacGen => (1u8..=16).boxed(),
            _ => Just(0u8).boxed(),
        };
        (Just(k), key, n).prop_map(|(k, key, n)| Mac { k, key, n })
    }).boxed()
}

impl Mac {
    pub fn name(&self) -> String {
        match self.k {
            MacK::Hmac(h) => format!("HMAC-{}", HT[h as usize].name), MacK::HmacGen(h) => format!("HMAC-{}-general", HT[h as usize].name),
            MacK::Rsa(h) => format!("RSA-{}", HT[h as usize].name), MacK::Pss(h) => format!("RSA-PSS-{}", HT[h as usize].name), MacK::Ecdsa(h) => format!("ECDSA-{}", HT[h as usize].name),
            k => format!("{k:?}"),
        }
    }
    pub fn mech(&self) -> Mech {
        match self.k {
            MacK::Hmac(h) => Mech::new(HT[h as usize].hmac),
            MacK::HmacGen(h) => Mech::with(HT[h as usize].hmac_gen, self.n as CK_ULONG),
            MacK::Cmac => Mech::new(CKM_AES_CMAC),
            MacK::CmacGen => Mech::with(CKM_AES_CMAC_GENERAL, self.n as CK_ULONG),
            MacK::AesMac => Mech::new(CKM_AES_MAC),
            MacK::AesMacGen => Mech::with(CKM_AES_MAC_GENERAL, self.n as CK_ULONG),
            MacK::Rsa(h) => Mech::new(HT[h as usize].rsa),
            MacK::Pss(h) => { let t = &HT[h as usize]; Mech::with(t.pss, CK_RSA_PKCS_PSS_PARAMS { hashAlg: t.ckm, mgf: t.mgf, sLen: t.h.len() as CK_ULONG }) }
            MacK::Ecdsa(h) => Mech::new(HT[h as usize].ecdsa),
        }
    }
    /// deterministic value, None for randomised schemes
    pub fn value(&self, d: &[u8]) -> Option<Vec<u8>> {
        let mut v = match self.k {
            MacK::Hmac(h) | MacK::HmacGen(h) => refc::hash::hmac(HT[h as usize].h, &self.key, d),
            MacK::Cmac | MacK::CmacGen => refc::aes::cmac(&self.key, d).to_vec(),
            MacK::AesMac | MacK::AesMacGen => refc::aes::cbcmac(&self.key, d).to_vec(),
            MacK::Rsa(h) => { let k = test_rsa(); k.raw(&refc::rsa::emsa15_hash(HT[h as usize].h, d, k.p.k())?) }
            _ => return None,
        };
        match self.k { MacK::HmacGen(_) | MacK::CmacGen | MacK::AesMacGen => v.truncate(self.n as usize), MacK::AesMac => v.truncate(8), _ => {} }
        Some(v)
    }
    pub fn asym(&self) -> bool { matches!(self.k, MacK::Rsa(_) | MacK::Pss(_) | MacK::Ecdsa(_)) }
    /// (signing key, verification key)
    pub fn keys(&self, p: &P, s: Sess) -> (Obj, Obj) {
        match self.k {
            MacK::Hmac(_) | MacK::HmacGen(_) => { let k = secret(p, s, CKK_GENERIC_SECRET, &self.key, &[]); (k, k) }
            MacK::Rsa(_) | MacK::Pss(_) => rsa_objs(p, s, &crate::rsakeys::KEYS[TEST_RSA]),
            MacK::Ecdsa(_) => { let k = test_ec(); (ec_priv(p, s, &k.0, &k.1), ec_pub(p, s, &k.0, &k.2)) }
            _ => { let k = aes_obj(p, s, &self.key); (k, k) }
        }
    }
}

pub const TEST_RSA: usize = 5;
pub fn rsa_ref(k: &crate::rsakeys::K) -> refc::rsa::Priv {
    use refc::rsa::*;
    Priv { p: Pub { n: os2ip(&unhex(k.n)), e: os2ip(&unhex(k.e)) }, d: os2ip(&unhex(k.d)) }
}
pub fn test_rsa() -> refc::rsa::Priv { rsa_ref(&crate::rsakeys::KEYS[TEST_RSA]) }
pub fn rsa_priv_tmpl(k: &crate::rsakeys::K, crt: bool) -> Tmpl {
    let mut t = tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_RSA, CKA_TOKEN => false, CKA_SIGN => true, CKA_DECRYPT => true, CKA_UNWRAP => true,
        CKA_SENSITIVE => false, CKA_EXTRACTABLE => true,
        CKA_MODULUS => unhex(k.n), CKA_PUBLIC_EXPONENT => unhex(k.e), CKA_PRIVATE_EXPONENT => unhex(k.d) };
    if crt {
        t.extend(tm! { CKA_PRIME_1 => unhex(k.p), CKA_PRIME_2 => unhex(k.q), CKA_EXPONENT_1 => unhex(k.dp), CKA_EXPONENT_2 => unhex(k.dq), CKA_COEFFICIENT => unhex(k.qi) });
    }
    t
}
pub fn rsa_pub_tmpl(k: &crate::rsakeys::K) -> Tmpl {
    tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_RSA, CKA_TOKEN => false, CKA_VERIFY => true, CKA_ENCRYPT => true, CKA_WRAP => true,
        CKA_MODULUS => unhex(k.n), CKA_PUBLIC_EXPONENT => unhex(k.e) }
}
pub fn must(p: &P, s: Sess, t: &[Attr], what: &str) -> Obj {
    let (rv, h) = p.create(s, t);
    if rv != CKR_OK { panic!("create {what}: {}", rvname(rv)); }
    h
}
/// (private, public)
pub fn rsa_objs(p: &P, s: Sess, k: &crate::rsakeys::K) -> (Obj, Obj) {
    (must(p, s, &rsa_priv_tmpl(k, true), "rsa private key"), must(p, s, &rsa_pub_tmpl(k), "rsa public key"))
}
pub fn der_octets(b: &[u8]) -> Vec<u8> {
    let mut v = vec![4u8];
    if b.len() < 128 { v.push(b.len() as u8) } else if b.len() < 256 { v.extend([0x81, b.len() as u8]) } else { v.extend([0x82, (b.len() >> 8) as u8, b.len() as u8]) }
    v.extend_from_slice(b);
    v
}
pub fn ec_priv_tmpl(oid: &[u8], d: &[u8]) -> Tmpl {
    tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_EC, CKA_TOKEN => false, CKA_SIGN => true, CKA_DERIVE => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true,
        CKA_EC_PARAMS => oid, CKA_VALUE => d }
}
pub fn ec_pub_tmpl(oid: &[u8], point: &[u8]) -> Tmpl {
    tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_EC, CKA_TOKEN => false, CKA_VERIFY => true, CKA_DERIVE => true,
        CKA_EC_PARAMS => oid, CKA_EC_POINT => der_octets(point) }
}
pub fn ec_priv(p: &P, s: Sess, oid: &[u8], d: &[u8]) -> Obj { must(p, s, &ec_priv_tmpl(oid, d), "ec private key") }
pub fn ec_pub(p: &P, s: Sess, oid: &[u8], point: &[u8]) -> Obj { must(p, s, &ec_pub_tmpl(oid, point), "ec public key") }
/// fixed P-256 key: (oid, private, uncompressed point)
pub fn test_ec() -> &'static (Vec<u8>, Vec<u8>, Vec<u8>) {
    static K: std::sync::OnceLock<(Vec<u8>, Vec<u8>, Vec<u8>)> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let c = refc::ec::p256();
        let d = refc::hash::H::Sha256.hash(b"kv test ec key");
        let q = c.pubkey(&refc::rsa::os2ip(&d));
        (c.oid.clone(), d, c.enc(&q))
    })
}

/// how a call that returns data is made
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pol { Big, Query, Short(u8), Exact }
pub fn pol() -> BoxedStrategy<Pol> { prop_oneof![3 => Just(Pol::Big), 2 => Just(Pol::Query), 2 => Just(Pol::Exact), 2 => any::<u8>().prop_map(Pol::Short)].boxed() }

/// Make an output call according to the policy. `f(null, len)` is the length query.
pub fn call(p: &P, cx: &mut Cx, name: &str, pol: Pol, mut f: impl FnMut(*mut u8, *mut CK_ULONG) -> Rv) -> R<(Rv, Vec<u8>)> {
    if pol == Pol::Big {
        let (rv, d, l) = p.out(BIG, &mut f);
        ensure!(rv != CKR_BUFFER_TOO_SMALL, "too-small-with-big-buffer", "{name}: BUFFER_TOO_SMALL with {BIG} bytes");
        ensure!(rv != CKR_OK || l as usize <= BIG, "length-beyond-buffer", "{name}: reports {l} bytes in a buffer of {BIG}");
        return Ok((rv, d));
    }
    let mut l: CK_ULONG = 0x5a5a_5a5a;
    let rv = f(std::ptr::null_mut(), &mut l);
    if rv != CKR_OK { return Ok((rv, vec![])); }
    ensure!(l != 0x5a5a_5a5a && l < 1 << 24, "query-length", "{name}: length query returned OK and length {l:#x}");
    if pol == Pol::Query {
        let mut l2: CK_ULONG = 7;
        let rv = f(std::ptr::null_mut(), &mut l2);
        ensure!(rv == CKR_OK && l2 == l, "query-changes", "{name}: first query said {l}, second {} {l2}", rvname(rv));
    }
    if let Pol::Short(x) = pol {
        // l bytes are announced; offer less
        if l > 0 {
            // zero length buffers with a non-null pointer are a real, empty buffer
            let cap = (x as u64 * l / 256) as usize;
            let (rv, d, rl) = p.out(cap, &mut f);
            if rv == CKR_OK {
                ensure!(rl as usize <= cap, "length-beyond-buffer", "{name}: returned OK and length {rl} for a buffer of {cap} bytes ({l} announced)");
                cx.hit("short-buffer-sufficed");
                return Ok((rv, d));
            }
            if rv != CKR_BUFFER_TOO_SMALL { return Ok((rv, vec![])); }
            cx.hit("buffer-too-small");
            cx.hit(&format!("too-small: {name}"));
        }
    }
    let cap = l as usize;
    let (rv, d, rl) = p.out(cap, &mut f);
    ensure!(rv != CKR_BUFFER_TOO_SMALL, "announced-length-too-small", "{name}: the length query said {cap} bytes but a buffer of that size is too small");
    ensure!(rv != CKR_OK || rl as usize <= cap, "length-beyond-buffer", "{name}: reports {rl} bytes in a buffer of {cap}");
    Ok((rv, d))
}

macro_rules! F { ($s:ident . $f:ident ( $($a:expr),* )) => { unsafe { ($s.f.$f.unwrap())($($a),*) } } }
pub(crate) use F;
pub fn ul(d: &[u8]) -> CK_ULONG { d.len() as CK_ULONG }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What { Enc(Ciph), Dec(Ciph), Dig(u8), Sign(Mac), Verify(Mac), VSig(Mac) }
impl What {
    pub fn kind(&self) -> u8 { match self { What::Enc(_) => 0, What::Dec(_) => 1, What::Dig(_) => 2, What::Sign(_) => 3, What::Verify(_) => 4, What::VSig(_) => 5 } }
    pub fn name(&self) -> String {
        match self {
            What::Enc(c) => format!("encrypt {:?}", c.mode), What::Dec(c) => format!("decrypt {:?}", c.mode), What::Dig(h) => format!("digest {}", HT[*h as usize].name),
            What::Sign(m) => format!("sign {}", m.name()), What::Verify(m) => format!("verify {}", m.name()), What::VSig(m) => format!("verify-signature {}", m.name()),
        }
    }
}

/// one operation with its data and the way it is fed
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task { pub w: What, pub data: Hx, pub cuts: Vec<u8>, pub oneshot: bool, pub pols: Vec<Pol>, /// flip a bit of the signature to verify
    pub bad: Option<u16> }

fn what(asym: bool) -> BoxedStrategy<What> {
    prop_oneof![
        4 => ciph(&MODES).prop_map(What::Enc), 4 => ciph(&MODES).prop_map(What::Dec), 2 => (0u8..11).prop_map(What::Dig),
        2 => mac(asym).prop_map(What::Sign), 1 => mac(asym).prop_map(What::Verify), 1 => mac(asym).prop_map(What::VSig),
    ].boxed()
}
fn data_for(w: &What) -> BoxedStrategy<Hx> {
    match w {
        What::Enc(c) | What::Dec(c) => match c.mode {
            Mode::Ecb | Mode::Cbc => prop_oneof![6 => (0usize..12).prop_flat_map(|n| hx(n * 16)), 1 => msg()].boxed(),
            Mode::Kw => prop_oneof![6 => (2usize..12).prop_flat_map(|n| hx(n * 8)), 1 => msg()].boxed(),
            Mode::Cts => prop_oneof![6 => hx(16..90usize), 1 => msg()].boxed(),
            _ => msg(),
        },
        _ => msg(),
    }
}
pub fn task(asym: bool) -> BoxedStrategy<Task> {
    what(asym).prop_flat_map(|w| {
        let d = data_for(&w);
        (Just(w), d, prop::collection::vec(any::<u8>(), 0..5), prop::bool::weighted(0.25), prop::collection::vec(pol(), 1..5), prop::option::weighted(0.3, any::<u16>()))
            .prop_map(|(w, data, cuts, oneshot, pols, bad)| Task { w, data, cuts, oneshot, pols, bad })
    }).boxed()
}

/// what an operation must come to
#[derive(Clone, Debug, PartialEq)]
pub enum Exp { Bytes(Vec<u8>), /// any valid signature
    Valid, Refuse, /// verification verdict
    Verdict(bool), }

/// an executing task
#[derive(Clone)]
pub struct Run<'a> {
    pub t: &'a Task, pub s: Sess, p: P, pub k: Obj, vk: Obj, input: Vec<u8>, sig: Vec<u8>, parts: Vec<(usize, usize)>, next: usize, out: Vec<u8>, pub done: bool, started: bool, pub exp: Exp, lenient: bool, ncall: usize, failed: Option<(String, Rv)>, pub refused: bool,
}
impl<'a> Run<'a> {
    /// (started and not ended, never started)
    pub fn phase(&self) -> (bool, bool) { (self.started && !self.done && self.failed.is_none(), !self.started) }
    pub fn new(p: &P, s: Sess, t: &'a Task) -> Run<'a> {
        let mut r = Run { t, s, p: *p, k: 0, vk: 0, input: t.data.0.clone(), sig: vec![], parts: vec![], next: 0, out: vec![], done: false, started: false, exp: Exp::Refuse, lenient: false, ncall: 0, failed: None, refused: false };
        match &t.w {
            What::Enc(c) => {
                r.k = aes_obj(p, s, &c.key);
                r.exp = if c.len_ok(t.data.len()) { Exp::Bytes(c.enc(&t.data)) } else { Exp::Refuse };
                r.lenient = c.mode == Mode::Ctr && c.ctr_room() < t.data.len().div_ceil(16) as u128 + 2;
            }
            What::Dec(c) => {
                r.k = aes_obj(p, s, &c.key);
                r.lenient = c.mode == Mode::Ctr && c.ctr_room() < t.data.len().div_ceil(16) as u128 + 2;
                if c.len_ok(t.data.len()) { r.input = c.enc(&t.data); r.exp = Exp::Bytes(t.data.0.clone()); }
                else if matches!(c.mode, Mode::Kw | Mode::Kwp | Mode::Ccm) { r.done = true }
            }
            What::Dig(h) => r.exp = Exp::Bytes(HT[*h as usize].h.hash(&t.data)),
            What::Sign(m) | What::Verify(m) | What::VSig(m) => {
                (r.k, r.vk) = m.keys(p, s);
                let v = m.value(&t.data);
                if let What::Sign(_) = &t.w { r.exp = v.map(Exp::Bytes).unwrap_or(Exp::Valid) }
                else {
                    r.sig = match v { Some(v) => v, None => p.sig(s, &m.mech(), r.k, &t.data).unwrap_or_else(|e| panic!("{} sign: {}", t.w.name(), rvname(e))) };
                    if let Some(b) = t.bad { let i = b as usize % (r.sig.len() * 8); r.sig[i / 8] ^= 1 << (i % 8); }
                    r.exp = Exp::Verdict(t.bad.is_none());
                }
                // the plain CBC-MAC of nothing is not defined; the library refuses to finish it
                if matches!(m.k, MacK::AesMac | MacK::AesMacGen) && t.data.is_empty() { r.done = true; }
            }
        }
        let mut c: Vec<usize> = t.cuts.iter().map(|x| *x as usize * (r.input.len() + 1) / 256).collect();
        c.sort();
        let mut a = 0;
        for x in c { r.parts.push((a, x)); a = x; }
        r.parts.push((a, r.input.len()));
        r
    }
    fn pol(&mut self) -> Pol { let x = self.t.pols[self.ncall % self.t.pols.len()]; self.ncall += 1; x }
    pub fn name(&self) -> String { format!("{} of {} bytes {}", self.t.w.name(), self.t.data.len(), if self.t.oneshot { "in one shot".to_string() } else { format!("in parts {:?} with buffers {:?}", self.parts.iter().map(|x| x.1 - x.0).collect::<Vec<_>>(), self.t.pols) }) }
    /// library refuses this multi-part use by design
    fn oneshot_only(&self) -> bool {
        match &self.t.w { What::Enc(c) | What::Dec(c) => matches!(c.mode, Mode::Cts | Mode::Kw | Mode::Kwp), _ => false }
    }
    fn fail(&mut self, call: &str, rv: Rv) { self.failed = Some((call.to_string(), rv)); self.done = true; }
    /// execute the next call
    pub fn step(&mut self, cx: &mut Cx) -> R {
        let p = self.p;
        let s = self.s;
        if !self.started {
            self.started = true;
            let rv = match &self.t.w {
                What::Enc(c) => p.encrypt_init(s, &c.mech(self.t.data.len()), self.k),
                What::Dec(c) => p.decrypt_init(s, &c.mech(self.t.data.len()), self.k),
                What::Dig(h) => p.digest_init(s, &Mech::new(HT[*h as usize].ckm)),
                What::Sign(m) => p.sign_init(s, &m.mech(), self.k),
                What::Verify(m) => p.verify_init(s, &m.mech(), self.vk),
                What::VSig(m) => p.vsig_init(s, &m.mech(), self.vk, &self.sig),
            };
            if rv != CKR_OK { self.fail("init", rv); }
            return Ok(());
        }
        let nm = self.t.w.name();
        if self.t.oneshot {
            let d = self.input.clone();
            let pl = self.pol();
            let (dp, dl) = (dbytes(&d), ul(&d));
            let (rv, o) = match &self.t.w {
                What::Enc(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_Encrypt(s, dp, dl, b, l)))?,
                What::Dec(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_Decrypt(s, dp, dl, b, l)))?,
                What::Dig(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_Digest(s, dp, dl, b, l)))?,
                What::Sign(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_Sign(s, dp, dl, b, l)))?,
                What::Verify(_) => (p.verify(s, &d, &self.sig), vec![]),
                What::VSig(_) => (p.vsig(s, &d), vec![]),
            };
            if rv != CKR_OK { self.fail("one-shot call", rv); } else { self.out = o; self.done = true; }
            return Ok(());
        }
        if self.next < self.parts.len() {
            let (a, b) = self.parts[self.next];
            self.next += 1;
            let d = self.input[a..b].to_vec();
            let pl = self.pol();
            let (dp, dl) = (dbytes(&d), ul(&d));
            let nm = format!("{nm} update");
            let (rv, o) = match &self.t.w {
                What::Enc(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_EncryptUpdate(s, dp, dl, b, l)))?,
                What::Dec(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_DecryptUpdate(s, dp, dl, b, l)))?,
                What::Dig(_) => (p.digest_update(s, &d), vec![]),
                What::Sign(_) => (p.sign_update(s, &d), vec![]),
                What::Verify(_) => (p.verify_update(s, &d), vec![]),
                What::VSig(_) => (p.vsig_update(s, &d), vec![]),
            };
            if rv != CKR_OK { self.fail("update", rv); } else { self.out.extend(o); }
            return Ok(());
        }
        let pl = self.pol();
        let nm = format!("{nm} final");
        let (rv, o) = match &self.t.w {
            What::Enc(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_EncryptFinal(s, b, l)))?,
            What::Dec(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_DecryptFinal(s, b, l)))?,
            What::Dig(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_DigestFinal(s, b, l)))?,
            What::Sign(_) => call(&p, cx, &nm, pl, |b, l| F!(p.C_SignFinal(s, b, l)))?,
            What::Verify(_) => (p.verify_final(s, &self.sig), vec![]),
            What::VSig(_) => (p.vsig_final(s), vec![]),
        };
        if rv != CKR_OK { self.fail("final", rv); } else { self.out.extend(o); self.done = true; }
        Ok(())
    }
    /// compare with the expectation; call when done. Also clears the operation slot after a failure.
    pub fn verdict(&mut self, cx: &mut Cx) -> R {
        let nm = self.name();
        if !self.started { return Ok(()); }
        let f = self.failed.clone();
        if f.is_some() {
            // leave no operation behind, whatever happened
            let z = std::ptr::null_mut();
            let (s, p) = (self.s, self.p);
            match self.t.w.kind() { 0 => F!(p.C_EncryptInit(s, z, 0)), 1 => F!(p.C_DecryptInit(s, z, 0)), 2 => F!(p.C_DigestInit(s, z)), 3 => F!(p.C_SignInit(s, z, 0)), 4 => F!(p.C_VerifyInit(s, z, 0)), _ => F!(p.C_VerifySignatureInit(s, z, 0, z as *mut u8, 0)) };
        }
        let lib_oneshot_only = self.oneshot_only() && !self.t.oneshot && self.parts.len() > 1;
        match (&self.exp, f) {
            (Exp::Bytes(w), None) => {
                ensure!(*w == self.out, "result", "{nm}: result is {} instead of {}", hex(&self.out), hex(w));
                cx.hit(&format!("{}: {}", self.t.w.name(), if self.t.oneshot { "one-shot" } else { "parts" }));
            }
            (Exp::Valid, None) => {
                let m = match &self.t.w { What::Sign(m) => m, _ => unreachable!() };
                let rv = self.p.ver(self.s, &m.mech(), self.vk, &self.t.data, &self.out);
                ensure!(rv == CKR_OK, "signature-does-not-verify", "{nm}: signature {} verifies with {}", hex(&self.out), rvname(rv));
                cx.hit(&format!("{}: {}", self.t.w.name(), if self.t.oneshot { "one-shot" } else { "parts" }));
            }
            (Exp::Verdict(g), f) => {
                let ok = f.is_none();
                ensure!(ok == *g, "verdict", "{nm}: the {} signature {} gives {:?}", if *g { "right" } else { "wrong" }, hex(&self.sig), f.map(|x| (x.0, rvname(x.1))));
                if let Some((c, rv)) = f { ensure!(rv == CKR_SIGNATURE_INVALID || matches!(&self.t.w, What::Verify(m) | What::VSig(m) if m.asym()) , "verdict-code", "{nm}: wrong signature refused by {c} with {}", rvname(rv)); }
                cx.hit(&format!("{}: {}", self.t.w.name(), if *g { "valid" } else { "invalid" }));
            }
            (Exp::Refuse, None) => return viol("bad-length-accepted", format!("{nm}: accepted, result {}", hex(&self.out))),
            (Exp::Refuse, Some(_)) => { self.refused = true; cx.hit("bad length refused"); return Ok(()); }
            (_, Some((c, rv))) => {
                if self.lenient { cx.hit("counter-exhausted"); return Ok(()); }
                if lib_oneshot_only { cx.hit("one-shot-only mode refused parts"); return Ok(()); }
                return viol("refused", format!("{nm}: {c} fails with {}", rvname(rv)));
            }
        }
        cx.nt();
        Ok(())
    }
}

/// RSA encryption scheme
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RsaEnc { Pkcs, Raw, Oaep { h: u8, mgf: u8, label: Hx } }
impl RsaEnc {
    pub fn mech(&self) -> Mech {
        match self {
            RsaEnc::Pkcs => Mech::new(CKM_RSA_PKCS),
            RsaEnc::Raw => Mech::new(CKM_RSA_X_509),
            RsaEnc::Oaep { h, mgf, label } => {
                let mut m = Mech::new(CKM_RSA_PKCS_OAEP);
                let (p, l) = m.keep(label);
                m.set(CK_RSA_PKCS_OAEP_PARAMS { hashAlg: HT[*h as usize].ckm, mgf: HT[*mgf as usize].mgf, source: if label.is_empty() { 0 } else { CKZ_DATA_SPECIFIED }, pSourceData: p as *mut _, ulSourceDataLen: l });
                m
            }
        }
    }
    /// longest message for a modulus of k bytes; None when the scheme does not fit at all
    pub fn max(&self, k: usize) -> Option<usize> {
        match self { RsaEnc::Pkcs => Some(k - 11), RsaEnc::Raw => Some(k), RsaEnc::Oaep { h, .. } => k.checked_sub(2 * HT[*h as usize].h.len() + 2) }
    }
    /// plaintext of an encoded block
    pub fn decode(&self, em: &[u8]) -> Option<Vec<u8>> {
        match self {
            RsaEnc::Pkcs => refc::rsa::pkcs1_type2_decode(em),
            RsaEnc::Raw => Some(em.to_vec()),
            RsaEnc::Oaep { h, mgf, label } => refc::rsa::oaep_decode(em, HT[*h as usize].h, HT[*mgf as usize].h, label),
        }
    }
}
pub fn rsaenc() -> BoxedStrategy<RsaEnc> {
    prop_oneof![2 => Just(RsaEnc::Pkcs), 1 => Just(RsaEnc::Raw), 3 => (0u8..NSIGH as u8, 0u8..NSIGH as u8, prop_oneof![hx(0), hx(0..=40usize)]).prop_map(|(h, mgf, label)| RsaEnc::Oaep { h, mgf, label })].boxed()
}
