//! C18: key agreement.
use super::c15::curves;
use super::c17::*;
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use num_bigint::BigUint;
use proptest::prelude::*;
use refc::ec::Curve;
use refc::rsa::{i2osp, os2ip};
use refc::{ec, kdf};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// key derivation functions of ECDH: (CKD, hash index, X9.63 or one step)
const KDFS: [(u64, usize, bool); 18] = [
    (CKD_SHA1_KDF, 0, true), (CKD_SHA224_KDF, 1, true), (CKD_SHA256_KDF, 2, true), (CKD_SHA384_KDF, 3, true), (CKD_SHA512_KDF, 4, true),
    (CKD_SHA3_224_KDF, 5, true), (CKD_SHA3_256_KDF, 6, true), (CKD_SHA3_384_KDF, 7, true), (CKD_SHA3_512_KDF, 8, true),
    (CKD_SHA1_KDF_SP800, 0, false), (CKD_SHA224_KDF_SP800, 1, false), (CKD_SHA256_KDF_SP800, 2, false), (CKD_SHA384_KDF_SP800, 3, false), (CKD_SHA512_KDF_SP800, 4, false),
    (CKD_SHA3_224_KDF_SP800, 5, false), (CKD_SHA3_256_KDF_SP800, 6, false), (CKD_SHA3_384_KDF_SP800, 7, false), (CKD_SHA3_512_KDF_SP800, 8, false)];
/// H(counter || Z || info)
fn one_step(h: refc::hash::H, z: &[u8], info: &[u8], l: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in 1u32.. {
        if o.len() >= l { break; }
        o.extend(h.hash(&[&c.to_be_bytes()[..], z, info].concat()));
    }
    o.truncate(l);
    o
}
/// the derived key: the tail of the secret, or the output of the function
fn agreed(z: &[u8], kdf: Option<u8>, shared: &[u8], sh: &Shape) -> Option<Vec<u8>> {
    match kdf {
        None => sh.keylen(z.len()).map(|l| z[z.len() - l..].to_vec()),
        Some(i) => {
            let (_, h, x963) = KDFS[i as usize];
            // no natural size
            let l = match (sh.len, sh.kt) { (None, Kt::Mac(_)) | (Some(_), _) => sh.keylen(usize::MAX)?, _ => return None };
            Some(if x963 { kdf::x963(HT[h].h, z, shared, l) } else { one_step(HT[h].h, z, shared, l) })
        }
    }
}
/// mechanism with the parameters of an ECDH derivation
fn ecdh(cof: bool, kdf: Option<u8>, shared: &Option<Hx>, peer: &[u8]) -> Mech {
    let mut m = Mech::new(if cof { CKM_ECDH1_COFACTOR_DERIVE } else { CKM_ECDH1_DERIVE });
    let (sp, sl) = match shared { Some(d) if !d.is_empty() => m.keep(d), _ => (std::ptr::null_mut(), 0) };
    let (pp, pl) = if peer.is_empty() { (std::ptr::null_mut(), 0) } else { m.keep(peer) };
    m.set(CK_ECDH1_DERIVE_PARAMS { kdf: kdf.map_or(CKD_NULL, |i| KDFS[i as usize].0), ulSharedDataLen: sl, pSharedData: sp, ulPublicDataLen: pl, pPublicData: pp });
    m
}
fn count(p: &P, s: Sess) -> usize { p.find(s, &tm! { CKA_CLASS => CKO_SECRET_KEY }).1.len() }

// ---------------------------------------------------------------- prime curves
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PBad { None, Flip(u16), Infinity, Zeros, Cut(u8), Extra(Hx), Curve, Negative, DerTail, BaseType(u8), BigX }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Enc { Raw, Der, Comp, Hybrid }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ecdh { curve: u8, d: Hx, e: Hx, /// leading zero bytes of the secret
    zeros: u8, edge: u8, cof: bool, kdf: Option<u8>, shared: Option<Hx>, enc: Enc, bad: PBad, sh: Shape }
fn ecdhs() -> BoxedStrategy<Ecdh> {
    let bad = prop_oneof![12 => Just(PBad::None), 3 => any::<u16>().prop_map(PBad::Flip), 1 => Just(PBad::Infinity), 1 => Just(PBad::Zeros), 1 => any::<u8>().prop_map(PBad::Cut), 1 => hx(1..=4usize).prop_map(PBad::Extra),
        1 => Just(PBad::Curve), 1 => Just(PBad::Negative), 1 => Just(PBad::DerTail), 1 => (0u8..3).prop_map(PBad::BaseType), 1 => Just(PBad::BigX)];
    let enc = prop_oneof![5 => Just(Enc::Raw), 3 => Just(Enc::Der), 1 => Just(Enc::Comp), 1 => Just(Enc::Hybrid)];
    (0u8..3, hx(66), hx(66), prop_oneof![3 => Just(0u8), 1 => 1u8..5], prop_oneof![6 => Just(0u8), 1 => 1u8..6], prop::bool::weighted(0.3), prop::option::weighted(0.6, 0u8..18), prop::option::weighted(0.5, hx(1..=100usize)), enc, bad, shape())
        .prop_map(|(curve, d, e, zeros, edge, cof, kdf, shared, enc, bad, mut sh)| {
            if kdf.is_some() && sh.len.is_none() && e[0] & 3 != 0 { sh.len = Some([16, 32, 24][e[1] as usize % 3]); }
            Ecdh { curve, d, e, zeros, edge, cof, kdf, shared, enc, bad, sh }
        }).boxed()
}
/// a point of the curve whose x coordinate starts with `zeros` zero bytes
fn small_x(c: &Curve, seed: &[u8], zeros: usize) -> (BigUint, BigUint) {
    let mut x = os2ip(seed) % (BigUint::from(1u8) << (8 * (c.flen() - zeros)).min(c.bits - 1));
    loop {
        let mut b = vec![2 + (seed[0] & 1)];
        b.extend(i2osp(&x, c.flen()));
        if let Some(q) = c.dec(&b) { return q; }
        // decompression by the reference
        let rhs = (&x * &x * &x + &c.a * &x + &c.b) % &c.p;
        let y = rhs.modpow(&((&c.p + 1u8) >> 2), &c.p);
        if &y * &y % &c.p == rhs { return (x, y); }
        x += 1u8;
    }
}
fn run_ecdh(c: &Ecdh, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let cv = &curves()[c.curve as usize];
    let one = BigUint::from(1u8);
    let sc = |h: &Hx| os2ip(&h[..cv.flen()]) % (&cv.n - 1u8) + 1u8;
    let (mut d, e) = (sc(&c.d), sc(&c.e));
    match c.edge { 1 => d = one.clone(), 2 => d = &cv.n - 1u8, 3 => d = BigUint::from(2u8), _ => {} }
    let mut q = cv.pubkey(&e);
    if c.edge == 4 { q = cv.pubkey(&d); }
    if c.edge == 5 { q = cv.g.clone(); }
    if c.zeros > 0 {
        let z = small_x(cv, &c.e, c.zeros as usize);
        q = cv.mul(&ec::inv(&d, &cv.n), &z).unwrap();
    }
    let z = i2osp(&cv.mul(&d, &q).unwrap().0, cv.flen());
    if c.zeros > 0 { ensure!(z[0] == 0, "harness", "no leading zeros"); }
    let raw = cv.enc(&q);
    let mut may = false;
    let mut peer = match c.enc {
        Enc::Raw => raw.clone(),
        Enc::Der => der_octets(&raw),
        Enc::Comp => { may = true; cv.enc_comp(&q) }
        Enc::Hybrid => { may = true; let mut r = raw.clone(); r[0] = 6 + q.1.bit(0) as u8; r }
    };
    let mut valid = true;
    let mut zz = z.clone();
    match &c.bad {
        PBad::None | PBad::BaseType(_) => {}
        PBad::Flip(i) => {
            let n = peer.len();
            let at = *i as usize % (8 * n);
            peer[at / 8] ^= 1 << (at % 8);
            // still a point only when another compressed form
            let pt = if peer.len() == cv.flen() + 1 || peer.len() == raw.len() { peer.clone() } else { vec![] };
            match decode(cv, &pt) {
                Some(q) => { may = true; zz = match cv.mul(&d, &q) { Some(z) => i2osp(&z.0, cv.flen()), None => vec![] }; valid = !zz.is_empty(); }
                None => valid = false,
            }
        }
        PBad::Infinity => { peer = vec![0]; valid = false; }
        PBad::Zeros => { peer = vec![0; raw.len()]; peer[0] = 4; valid = false; }
        PBad::Cut(n) => { let n = 1 + *n as usize % peer.len(); peer.truncate(peer.len() - n); valid = false; }
        PBad::Extra(x) => { peer.extend(&x.0); valid = false; }
        PBad::Curve => { let o = &curves()[(c.curve as usize + 1 + c.e[2] as usize % 2) % 3]; let r = o.enc(&o.pubkey(&(sc(&c.e) % (&o.n - 1u8) + 1u8))); peer = if c.enc == Enc::Der { der_octets(&r) } else { r }; valid = false; }
        PBad::Negative => { // the other point with the same x is a valid key with the same secret
            let y = &cv.p - &q.1;
            let r = cv.enc(&(q.0.clone(), y));
            peer = if c.enc == Enc::Der { der_octets(&r) } else { r };
            may = false;
        }
        PBad::DerTail => { peer = der_octets(&raw); peer.push(c.e[3]); valid = false; }
        PBad::BigX => { // x or y not reduced
            let y = c.e[4] & 1 == 1;
            let v = if y { &q.1 } else { &q.0 } + &cv.p;
            let b = v.to_bytes_be();
            if b.len() > cv.flen() { // does not fit: take the largest field value
                let m = vec![0xff; cv.flen()];
                let (a, o) = (i2osp(&q.0, cv.flen()), i2osp(&q.1, cv.flen()));
                peer = if y { [vec![4], a, m].concat() } else { [vec![4], m, o].concat() };
            } else {
                let b = i2osp(&v, cv.flen());
                let (a, o) = (i2osp(&q.0, cv.flen()), i2osp(&q.1, cv.flen()));
                peer = if y { [vec![4], a, b].concat() } else { [vec![4], b, o].concat() };
            }
            valid = false;
        }
    }
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    let shared = if c.kdf.is_none() { None } else { c.shared.clone() };
    let info = shared.as_ref().map(|h| h.0.clone()).unwrap_or_default();
    let base = match c.bad {
        PBad::BaseType(0) => { valid = false; must(&p, s, &{ let mut t = rsa_priv_tmpl(&crate::rsakeys::KEYS[TEST_RSA], true); tset(&mut t, CKA_DERIVE, V::B(true)); t }, "rsa key") }
        PBad::BaseType(1) => { valid = false; dh_priv(&p, s, 0, &c.d[..32]) }
        PBad::BaseType(_) => { valid = false; secret(&p, s, CKK_GENERIC_SECRET, &i2osp(&d, cv.flen()), &tm! { CKA_DERIVE => true }) }
        _ => ec_priv(&p, s, &cv.oid, &i2osp(&d, cv.flen())),
    };
    let want = if valid { agreed(&zz, c.kdf, &info, &sh) } else { None };
    if c.kdf.is_some() && sh.len.is_none() { may = true; }
    let m = ecdh(c.cof, c.kdf, &shared, &peer);
    let before = cnt(&p, s);
    let (rv, o) = p.derive(s, &m, base, &sh.tmpl());
    let what = format!("{} {} on {} with {:?} of {} for {} (secret {}, shared {})", if c.cof { "ECDH1_COFACTOR" } else { "ECDH1" }, c.kdf.map_or("without function".into(), |k| format!("KDF {:#x}", KDFS[k as usize].0)), cv.name, c.bad, hex(&peer), hex(&i2osp(&d, cv.flen())), hex(&z), hex(&info));
    cx.hit(&format!("{} {}", cv.name, match c.bad { PBad::None | PBad::Negative => "valid", PBad::BaseType(_) => "wrong base", _ => "bad peer" }));
    if c.zeros > 0 && valid { cx.hit("secret with leading zeros"); }
    judge(&p, s, cx, &sh, want, may, None, before, rv, o, &what)
}
fn cnt(p: &P, s: Sess) -> usize { count(p, s) + p.find(s, &tm! { CKA_CLASS => CKO_DATA }).1.len() }
fn decode(cv: &Curve, b: &[u8]) -> Option<(BigUint, BigUint)> {
    let l = cv.flen();
    match b.first()? {
        4 | 6 | 7 if b.len() == 2 * l + 1 => {
            let q = (os2ip(&b[1..=l]), os2ip(&b[l + 1..]));
            (q.0 < cv.p && q.1 < cv.p && cv.on(&q) && (b[0] == 4 || q.1.bit(0) as u8 == b[0] & 1)).then_some(q)
        }
        2 | 3 if b.len() == l + 1 => {
            let x = os2ip(&b[1..]);
            if x >= cv.p { return None; }
            let rhs = (&x * &x * &x + &cv.a * &x + &cv.b) % &cv.p;
            let y = rhs.modpow(&((&cv.p + 1u8) >> 2), &cv.p);
            if &y * &y % &cv.p != rhs { return None; }
            let y = if y.bit(0) as u8 == b[0] & 1 { y } else { &cv.p - y };
            Some((x, y))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- Montgomery curves
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MBad { None, Small(u8), Cut(u8), Extra(Hx), NonCanon(u8), High, Der }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mont { x448: bool, d: Hx, e: Hx, cof: bool, kdf: Option<u8>, shared: Option<Hx>, bad: MBad, sh: Shape }
fn monts() -> BoxedStrategy<Mont> {
    let bad = prop_oneof![8 => Just(MBad::None), 2 => (0u8..8).prop_map(MBad::Small), 1 => any::<u8>().prop_map(MBad::Cut), 1 => hx(1..=4usize).prop_map(MBad::Extra), 1 => (0u8..19).prop_map(MBad::NonCanon), 1 => Just(MBad::High), 1 => Just(MBad::Der)];
    (any::<bool>(), hx(56), hx(56), prop::bool::weighted(0.2), prop::option::weighted(0.5, 0u8..18), prop::option::weighted(0.5, hx(1..=100usize)), bad, shape())
        .prop_map(|(x448, d, e, cof, kdf, shared, bad, mut sh)| {
            if kdf.is_some() && sh.len.is_none() && e[0] & 3 != 0 { sh.len = Some([16, 32, 24][e[1] as usize % 3]); }
            Mont { x448, d, e, cof, kdf, shared, bad, sh }
        }).boxed()
}
pub fn mont_oid(x448: bool) -> Vec<u8> { vec![6, 3, 0x2b, 0x65, if x448 { 0x6f } else { 0x6e }] }
pub fn mont_priv(p: &P, s: Sess, x448: bool, d: &[u8]) -> Obj {
    must(p, s, &tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_TOKEN => false, CKA_DERIVE => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_EC_PARAMS => mont_oid(x448), CKA_VALUE => d }, "Montgomery private key")
}
fn mont_p(x448: bool) -> BigUint {
    let one = BigUint::from(1u8);
    if x448 { (&one << 448u32) - (&one << 224u32) - 1u8 } else { (&one << 255u32) - 19u8 }
}
fn run_mont(c: &Mont, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let n = if c.x448 { 56 } else { 32 };
    let (d, e) = (&c.d[..n], &c.e[..n]);
    let mut basep = vec![0; n];
    basep[0] = if c.x448 { 5 } else { 9 };
    let pp = mont_p(c.x448);
    let le = |v: &BigUint| { let mut b = v.to_bytes_le(); b.resize(n, 0); b };
    let mut peer = ec::montgomery(e, &basep);
    let mut valid = true;
    let mut may = false;
    match &c.bad {
        MBad::None => {}
        MBad::Small(i) => {
            // points of small order, canonical or not
            let o8 = [BigUint::from_bytes_le(&unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")), BigUint::from_bytes_le(&unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"))];
            let v = match i { 0 => BigUint::from(0u8), 1 => BigUint::from(1u8), 2 => &pp - 1u8, 3 => pp.clone(), 4 => &pp + 1u8, i if !c.x448 => o8[*i as usize % 2].clone(), _ => BigUint::from(0u8) };
            peer = le(&v);
            valid = false;
        }
        MBad::Cut(k) => { peer.truncate(n - 1 - *k as usize % n); valid = false; }
        MBad::Extra(x) => { peer.extend(&x.0); valid = false; }
        MBad::NonCanon(k) => { peer = le(&(&pp + 2u8 + *k % 17)); may = true; }
        MBad::High => { if !c.x448 { peer[31] |= 0x80; may = true; } }
        MBad::Der => { peer = der_octets(&peer); may = true; }
    }
    let u = if c.bad == MBad::Der { peer[2..].to_vec() } else { peer.clone() };
    let z = if valid { ec::montgomery(d, &u) } else { vec![] };
    if valid && z.iter().all(|b| *b == 0) { valid = false; }
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    let shared = if c.kdf.is_none() { None } else { c.shared.clone() };
    let info = shared.as_ref().map(|h| h.0.clone()).unwrap_or_default();
    let base = mont_priv(&p, s, c.x448, d);
    let want = if valid { agreed(&z, c.kdf, &info, &sh) } else { None };
    if c.kdf.is_some() && sh.len.is_none() || c.cof { may = true; }
    let m = ecdh(c.cof, c.kdf, &shared, &peer);
    let before = cnt(&p, s);
    let (rv, o) = p.derive(s, &m, base, &sh.tmpl());
    let name = if c.x448 { "X448" } else { "X25519" };
    let what = format!("ECDH1 {} on {name} with {:?} of {} for {} (secret {}, shared {})", c.kdf.map_or("without function".into(), |k| format!("KDF {:#x}", KDFS[k as usize].0)), c.bad, hex(&peer), hex(d), hex(&z), hex(&info));
    cx.hit(&format!("{name} {}", if valid { "valid" } else { "bad peer" }));
    judge(&p, s, cx, &sh, want, may, None, before, rv, o, &what)
}

// ---------------------------------------------------------------- finite field
pub struct Group { pub name: &'static str, pub p: BigUint, pub bytes: usize }
/// the safe prime groups of RFC 7919 and RFC 3526, computed from their definition
pub fn groups() -> &'static Vec<Group> {
    static G: OnceLock<Vec<Group>> = OnceLock::new();
    G.get_or_init(|| {
        let n = 8400usize;
        let scale = BigUint::from(1u8) << n;
        let (mut e, mut t, mut k) = (BigUint::from(0u8), scale.clone(), 0u32);
        while t != BigUint::from(0u8) { e += &t; k += 1; t /= k; }
        // Machin
        let atan = |x: u32| {
            let (mut s, mut t, mut k, mut neg) = (BigUint::from(0u8), &scale / x, 1u32, false);
            let mut m = BigUint::from(0u8);
            while t != BigUint::from(0u8) { if neg { m += &t / k } else { s += &t / k }; t /= x * x; k += 2; neg = !neg; }
            s - m
        };
        let pi = (atan(5) * 4u8 - atan(239)) * 4u8;
        let mk = |c: &BigUint, b: usize, x: u32| {
            let one = BigUint::from(1u8);
            (&one << b) - (&one << (b - 64)) - 1u8 + (((c >> (n - (b - 130))) + x) << 64u32)
        };
        vec![
            Group { name: "ffdhe2048", p: mk(&e, 2048, 560316), bytes: 256 }, Group { name: "modp2048", p: mk(&pi, 2048, 124476), bytes: 256 },
            Group { name: "ffdhe3072", p: mk(&e, 3072, 2625351), bytes: 384 }, Group { name: "modp3072", p: mk(&pi, 3072, 1690314), bytes: 384 },
            Group { name: "ffdhe4096", p: mk(&e, 4096, 5736041), bytes: 512 }, Group { name: "modp4096", p: mk(&pi, 4096, 240904), bytes: 512 },
            Group { name: "ffdhe6144", p: mk(&e, 6144, 15705020), bytes: 768 }, Group { name: "modp6144", p: mk(&pi, 6144, 929484), bytes: 768 },
            Group { name: "ffdhe8192", p: mk(&e, 8192, 10965728), bytes: 1024 }, Group { name: "modp8192", p: mk(&pi, 8192, 4743158), bytes: 1024 }]
    })
}
pub fn dh_priv_tmpl(gi: usize, x: &[u8]) -> Tmpl {
    tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_DH, CKA_TOKEN => false, CKA_DERIVE => true, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_PRIME => groups()[gi].p.to_bytes_be(), CKA_BASE => vec![2u8], CKA_VALUE => x }
}
pub fn dh_priv(p: &P, s: Sess, gi: usize, x: &[u8]) -> Obj { must(p, s, &dh_priv_tmpl(gi, x), "DH private key") }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DBad { None, Tiny(u8), Near(i8), Long(Hx), Pad(u8), EcBase, NonResidue }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dh { group: u8, x: Hx, y: Hx, zeros: u8, bad: DBad, sh: Shape, full: bool }
fn dhs() -> BoxedStrategy<Dh> {
    let bad = prop_oneof![12 => Just(DBad::None), 1 => (0u8..2).prop_map(DBad::Tiny), 2 => (-1i8..4).prop_map(DBad::Near), 1 => hx(1..=9usize).prop_map(DBad::Long), 1 => (1u8..4).prop_map(DBad::Pad), 1 => Just(DBad::EcBase), 1 => Just(DBad::NonResidue)];
    (prop_oneof![20 => 0u8..2, 4 => 2u8..6, 1 => 6u8..10], hx(28..=40usize), hx(40), prop_oneof![2 => Just(0u8), 3 => 1u8..4], bad, shape(), prop::bool::weighted(0.1), prop::bool::weighted(0.3))
        .prop_map(|(group, x, y, zeros, bad, mut sh, big, full)| {
            if big { sh.kt = Kt::Generic; sh.len = Some((groups()[group as usize].bytes as i32 + y[0] as i32 % 5 - 3) as u16); }
            if full { sh.len = None; sh.kt = Kt::Generic; }
            Dh { group, x, y, zeros, bad, sh, full }
        }).boxed()
}
fn run_dh(c: &Dh, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let gr = &groups()[c.group as usize];
    let one = BigUint::from(1u8);
    let q = (&gr.p - 1u8) >> 1u8;
    let mut xb = c.x.0.clone();
    xb[0] |= 1;
    let x = os2ip(&xb);
    let mut y = if c.zeros > 0 {
        // a peer for which the secret is a square with leading zero bytes
        let mut t = vec![];
        while t.len() < gr.bytes { t.extend(refc::hash::H::Sha512.hash(&[&c.y[..], &[t.len() as u8]].concat())); }
        t.truncate((gr.bytes - c.zeros as usize) / 2);
        let t = os2ip(&t);
        (&t * &t).modpow(&ec::inv(&(&x % &q), &q), &gr.p)
    } else { BigUint::from(2u8).modpow(&os2ip(&c.y), &gr.p) };
    let mut valid = true;
    let mut may = false;
    let mut enc = None;
    match &c.bad {
        DBad::None => {}
        DBad::Tiny(v) => { y = BigUint::from(*v); valid = false; enc = Some(vec![*v]); }
        DBad::Near(v) => { y = if *v < 0 { &gr.p - 1u8 } else { &gr.p + *v as u8 }; valid = false; }
        DBad::Long(v) => { let mut b = y.to_bytes_be(); b.resize(gr.bytes, 0); b.extend(&v.0); b[0] |= 1; y = os2ip(&b); valid = false; }
        DBad::Pad(n) => { let mut b = vec![0; *n as usize]; b.extend(y.to_bytes_be()); enc = Some(b); may = true; }
        DBad::EcBase => { valid = false; enc = Some(test_ec().2.clone()); }
        DBad::NonResidue => { y = &gr.p - &y; may = true; }
    }
    let z = if valid { i2osp(&y.modpow(&x, &gr.p), gr.bytes) } else { vec![] };
    if valid && c.zeros > 0 { ensure!(z[0] == 0 || c.bad == DBad::NonResidue, "harness", "no leading zeros"); }
    let peer = enc.unwrap_or_else(|| y.to_bytes_be());
    let mut sh = c.sh.clone();
    if sh.kt == Kt::Unset { sh.kt = Kt::Generic; }
    let base = if c.bad == DBad::EcBase { let (oid, d, _) = test_ec(); ec_priv(&p, s, oid, d) } else { dh_priv(&p, s, c.group as usize, &xb) };
    let want = if valid { agreed(&z, None, &[], &sh) } else { None };
    let before = cnt(&p, s);
    let (rv, o) = p.derive(s, &Mech::bytes(CKM_DH_PKCS_DERIVE, &peer), base, &sh.tmpl());
    cx.hit(&format!("{} {}", gr.name, if valid { "valid" } else { "bad peer" }));
    if c.zeros > 0 && valid { cx.hit("DH secret with leading zeros"); }
    let _ = one;
    judge(&p, s, cx, &sh, want, may, None, before, rv, o, &format!("DH in {} with {:?}, private {}, secret {}..", gr.name, c.bad, hex(&xb), hex(&z[..z.len().min(8)])))
}

// ---------------------------------------------------------------- generated pairs
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair { kind: u8, token: bool, readable: bool, kdf: Option<u8>, len: u8, cof: bool, der: bool }
fn pairs() -> BoxedStrategy<Pair> {
    (prop_oneof![30 => 0u8..5, 1 => 5u8..7], prop::bool::weighted(0.1), any::<bool>(), prop::option::of(0u8..18), 1u8..=32, prop::bool::weighted(0.2), any::<bool>()).prop_map(|(kind, token, readable, kdf, len, cof, der)| Pair { kind, token, readable, kdf, len, cof, der }).boxed()
}
/// both parties of an agreement with keys generated by the library
fn run_pair(c: &Pair, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let mut put = tm! { CKA_TOKEN => c.token, CKA_DERIVE => true };
    let prt = tm! { CKA_TOKEN => c.token, CKA_DERIVE => true, CKA_SENSITIVE => !c.readable, CKA_EXTRACTABLE => c.readable };
    let m = match c.kind {
        0..=2 => { put.extend(tm! { CKA_EC_PARAMS => curves()[c.kind as usize].oid.clone() }); Mech::new(CKM_EC_KEY_PAIR_GEN) }
        3 | 4 => { put.extend(tm! { CKA_EC_PARAMS => mont_oid(c.kind == 4) }); Mech::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN) }
        k => { put.extend(tm! { CKA_PRIME => groups()[k as usize - 5].p.to_bytes_be(), CKA_BASE => vec![2u8] }); Mech::new(CKM_DH_PKCS_KEY_PAIR_GEN) }
    };
    let name = match c.kind { 0..=2 => curves()[c.kind as usize].name, 3 => "X25519", 4 => "X448", k => groups()[k as usize - 5].name };
    let mut pubs = vec![];
    let mut privs = vec![];
    for _ in 0..2 {
        let (rv, a, b) = p.genpair(s, &m, &put, &prt);
        ensure!(rv == CKR_OK, "generate", "key pair generation for {name}: {}", rvname(rv));
        let pt = p.get1(s, a, if c.kind < 5 { CKA_EC_POINT } else { CKA_VALUE });
        let Ok(pt) = pt else { return viol("point", format!("no public value of a {name} key")); };
        pubs.push((a, pt));
        privs.push(b);
    }
    let raw = |pt: &[u8]| -> Vec<u8> { let n = match c.kind { 0..=2 => 2 * curves()[c.kind as usize].flen() + 1, 3 => 32, 4 => 56, _ => return pt.to_vec() }; pt[pt.len().saturating_sub(n)..].to_vec() };
    let kdf = if c.kind < 5 { c.kdf } else { None };
    let mut got = vec![];
    for i in 0..2 {
        let other = &pubs[1 - i].1;
        let peer = if c.kind < 3 && c.der { other.clone() } else { raw(other) };
        let mm = if c.kind < 5 { ecdh(c.cof && c.kind < 3, kdf, &None, &peer) } else { Mech::bytes(CKM_DH_PKCS_DERIVE, &peer) };
        let (rv, o) = p.derive(s, &mm, privs[i], &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => c.len as u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
        ensure!(rv == CKR_OK, "derive", "{name} derivation between generated keys: {}", rvname(rv));
        let Ok(v) = p.get1(s, o, CKA_VALUE) else { return viol("value", format!("{name}: derived value unreadable")); };
        got.push(v);
        p.destroy(s, o);
    }
    ensure!(got[0] == got[1] && got[0].len() == c.len as usize, "disagree", "{name}: one party derives {} and the other {}", hex(&got[0]), hex(&got[1]));
    if c.readable {
        let d = p.get1(s, privs[0], CKA_VALUE);
        let Ok(d) = d else { return viol("private", format!("{name}: private value unreadable: {}", rvname(d.unwrap_err()))); };
        let peer = raw(&pubs[1].1);
        let z = match c.kind {
            0..=2 => { let cv = &curves()[c.kind as usize]; i2osp(&cv.mul(&os2ip(&d), &decode(cv, &peer).unwrap()).unwrap().0, cv.flen()) }
            3 | 4 => ec::montgomery(&d, &peer),
            k => { let gr = &groups()[k as usize - 5]; i2osp(&os2ip(&peer).modpow(&os2ip(&d), &gr.p), gr.bytes) }
        };
        let want = agreed(&z, kdf, &[], &Shape { kt: Kt::Generic, len: Some(c.len as u16), sens: None, extr: None, label: false }).unwrap();
        ensure!(got[0] == want, "value", "{name}: derived {} instead of {}", hex(&got[0]), hex(&want));
        cx.hit("checked against the private value");
    } else {
        ensure!(p.get1(s, privs[0], CKA_VALUE).is_err(), "sensitive-value", "{name}: the value of a sensitive private key can be read");
    }
    for i in 0..2 { p.destroy(s, pubs[i].0); p.destroy(s, privs[i]); }
    cx.hit(name);
    cx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18", level: "exploration", workers: 8, hang_s: 60,
        rule: "a derivation that succeeded and whose key was compared with the independently computed secret or function output (or both parties' keys with each other)",
        assumptions: &["compressed, hybrid and DER encoded Montgomery peers may be refused"],
        groups: vec![gen_("ecdh", 12000, 400000, ecdhs, run_ecdh), gen_("montgomery", 10000, 300000, monts, run_mont), gen_("dh", 2500, 80000, dhs, run_dh), gen_("pairs", 3000, 80000, pairs, run_pair)],
    }
}
