//! C31: keys and points imported by their components.
use super::c15::curves;
use super::c18::{groups, mont_oid};
use super::c19::tlv;
use super::c20::{dh_spki, ec_spki, mont_spki, rsa_spki};
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use num_bigint::BigUint;
use proptest::prelude::*;
use refc::hash::H;
use refc::rsa::{emsa15_hash, i2osp, os2ip};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad { None, Trail(Hx), Inner(i8), Flip(u16), Tag(u8), Compressed, Infinity, OtherCurve(u8), Raw, Hybrid(u8), Over, ParTrail(Hx), ParCut, ParOid(Hx), ParOther(u8), ParName(String), ParExplicit, ParNull, ParMissing, ScalarZero, ScalarN(u8), ScalarLong(u8), Empty, KeyType, Info(u8), ValueMissing }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ec { curve: u8, named: bool, seed: Hx, lead: u8, derpoint: bool, info: bool, private: bool, token: bool, bad: Bad }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EcCase { nss: bool, der: bool, keys: Vec<Ec> }

fn bad_ec() -> BoxedStrategy<Bad> {
    prop_oneof![
        3 => prop_oneof![hx(1..=4usize).prop_map(Bad::Trail), (-3i8..4).prop_map(Bad::Inner), any::<u16>().prop_map(Bad::Flip), any::<u8>().prop_map(Bad::Tag), Just(Bad::Compressed), Just(Bad::Infinity), (0u8..5).prop_map(Bad::OtherCurve), Just(Bad::Raw), any::<u8>().prop_map(Bad::Hybrid), Just(Bad::Over)],
        2 => prop_oneof![hx(1..=4usize).prop_map(Bad::ParTrail), Just(Bad::ParCut), hx(0..=12usize).prop_map(Bad::ParOid), (0u8..8).prop_map(Bad::ParOther), "[a-z0-9]{0,12}".prop_map(Bad::ParName), Just(Bad::ParExplicit), Just(Bad::ParNull), Just(Bad::ParMissing)],
        2 => prop_oneof![Just(Bad::ScalarZero), any::<u8>().prop_map(Bad::ScalarN), (1u8..9).prop_map(Bad::ScalarLong), Just(Bad::Empty), Just(Bad::KeyType), (0u8..3).prop_map(Bad::Info), Just(Bad::ValueMissing)]].boxed()
}
fn ec_cases() -> BoxedStrategy<EcCase> {
    let one = (0u8..5, any::<bool>(), hx(80), prop_oneof![4 => Just(0u8), 1 => 1u8..6], any::<bool>(), prop::bool::weighted(0.2), any::<bool>(), prop::bool::weighted(0.3), prop_oneof![1 => Just(Bad::None), 1 => bad_ec()])
        .prop_map(|(curve, named, seed, lead, derpoint, info, private, token, bad)| Ec { curve, named, seed, lead, derpoint, info, private, token, bad });
    (prop::bool::weighted(0.3), any::<bool>(), prop::collection::vec(one, 1..6)).prop_map(|(nss, der, keys)| EcCase { nss, der, keys }).boxed()
}
const NAMES: [&str; 5] = ["prime256v1", "secp384r1", "secp521r1", "curve25519", "curve448"];
fn oid(i: usize) -> Vec<u8> { if i < 3 { curves()[i].oid.clone() } else { mont_oid(i == 4) } }
/// reads a single attribute in all the ways the length protocol allows
fn read(p: &P, s: Sess, o: Obj, a: u64, want: &[u8], what: &str) -> R {
    let f = p.f.C_GetAttributeValue.unwrap();
    let mut at = CK_ATTRIBUTE { type_: a, pValue: std::ptr::null_mut(), ulValueLen: 0 };
    let rv = unsafe { f(s, o, &mut at, 1) };
    ensure!(rv == CKR_OK && at.ulValueLen == want.len() as u64, "length", "{what}: length of {a:#x}: {} {}, expected {}", rvname(rv), at.ulValueLen, want.len());
    for extra in [0usize, 1, 2, 7, 64] {
        let mut b = vec![0x5au8; want.len() + extra + 4];
        at = CK_ATTRIBUTE { type_: a, pValue: b.as_mut_ptr() as *mut _, ulValueLen: (want.len() + extra) as u64 };
        let rv = unsafe { f(s, o, &mut at, 1) };
        ensure!(rv == CKR_OK && at.ulValueLen == want.len() as u64 && b[..want.len()] == *want, "value", "{what}: {a:#x} with {extra} spare bytes: {} {}, expected {}", rvname(rv), hex(&b[..(at.ulValueLen as usize).min(b.len())]), hex(want));
        ensure!(b[want.len() + extra..].iter().all(|x| *x == 0x5a), "overrun", "{what}: wrote behind the buffer for {a:#x}");
    }
    for less in [1usize, 2, 3] {
        if less > want.len() { continue; }
        let n = want.len() - less;
        let mut b = vec![0x5au8; want.len() + 4];
        at = CK_ATTRIBUTE { type_: a, pValue: b.as_mut_ptr() as *mut _, ulValueLen: n as u64 };
        let rv = unsafe { f(s, o, &mut at, 1) };
        ensure!(rv == CKR_BUFFER_TOO_SMALL && b[n..].iter().all(|x| *x == 0x5a), "short", "{what}: {a:#x} with {n} of {} bytes: {}, {}", want.len(), rvname(rv), hex(&b));
    }
    Ok(())
}
fn count(p: &P, s: Sess) -> usize { p.find(s, &[]).1.len() }

fn run_ec(c: &EcCase, cx: &mut Cx) -> R {
    let t = cx.tok.fresh_conf(if c.nss { Db::Nss } else { Db::Sqlite }, "", &format!("[ec_point_encoding]\nencoding = \"{}\"\n", if c.der { "Der" } else { "Bytes" }));
    let p = &t.p;
    t.user();
    let s = t.open(true);
    for (n, k) in c.keys.iter().enumerate() {
        let what = format!("key {n} {k:?}");
        let ci = k.curve as usize;
        let mont = ci >= 3;
        let x448 = ci == 4;
        let flen = match ci { 3 => 32, 4 => 56, _ => curves()[ci].flen() };
        let mut bad = k.bad.clone();
        // the key
        let mut d = k.seed[..flen].to_vec();
        let (mut scalar, mut point);
        if mont {
            scalar = d.clone();
            let mut u = vec![0u8; flen];
            u[0] = if x448 { 5 } else { 9 };
            point = refc::ec::montgomery(&d, &u);
        } else {
            let cv = &curves()[ci];
            for b in d.iter_mut().take(k.lead as usize) { *b = 0; }
            let x = os2ip(&d) % (&cv.n - 1u8) + 1u8;
            scalar = if k.named { i2osp(&x, flen) } else { x.to_bytes_be() };
            d = i2osp(&x, flen);
            point = cv.enc(&cv.pubkey(&x));
        }
        let good_point = point.clone();
        let mut enc: Option<Vec<u8>> = None;
        let mut params = if k.named { tlv(0x13, NAMES[ci].as_bytes()) } else { oid(ci) };
        let info = if mont { mont_spki(x448, &good_point) } else { ec_spki(&oid(ci), &good_point) };
        let mut info_attr = if k.info { Some(info.clone()) } else { None };
        let mut kt = if mont { CKK_EC_MONTGOMERY } else { CKK_EC };
        // how bad a key is: refused on import, or at the latest when it is used
        let mut late = false;
        let mut with_params = true;
        let mut with_value = true;
        match &bad {
            Bad::None => {}
            Bad::Trail(x) if !k.private => enc = Some([der_octets(&point), x.to_vec()].concat()),
            Bad::Inner(i) if !k.private && *i != 0 => { let l = (point.len() as i64 + *i as i64) as usize; point.resize(l, 7); }
            Bad::Flip(b) if !k.private && !mont => { let b = *b as usize % ((point.len() - 1) * 8); point[1 + b / 8] ^= 1 << (b % 8); late = true; }
            Bad::Tag(tag) if !k.private && *tag != 4 && !mont => { let mut e = der_octets(&point); e[0] = *tag; enc = Some(e); }
            Bad::Compressed if !k.private && !mont => { let y = point[point.len() - 1] & 1; point.truncate(1 + flen); point[0] = 2 + y; late = true; }
            Bad::Infinity if !k.private => point = vec![0],
            Bad::OtherCurve(o) if !k.private && *o as usize != ci => { let o = *o as usize; point = match o { 3 => vec![9; 32], 4 => vec![5; 56], _ => curves()[o].enc(&curves()[o].g) }; }
            Bad::Raw if !k.private && !mont => enc = Some(point.clone()),
            Bad::Hybrid(b) if !k.private && !mont && ![4u8].contains(b) => { point[0] = *b; late = true; }
            // a coordinate beyond the prime
            Bad::Over if !k.private && !mont => { for b in point[1..1 + flen].iter_mut() { *b = 0xff; } late = true; }
            Bad::ParTrail(x) => params.extend_from_slice(x),
            Bad::ParCut => { params.pop(); }
            Bad::ParOid(x) => { params = tlv(6, x); if (0..5).any(|i| oid(i) == params) { continue; } }
            Bad::ParOther(i) => { let o: [&[u8]; 8] = [&[6, 5, 0x2b, 0x81, 4, 0, 10], &[6, 3, 0x2b, 0x65, 0x70], &[6, 3, 0x2b, 0x65, 0x71], &[6, 5, 0x2b, 0x81, 4, 0, 33], &[6, 9, 0x2b, 0x24, 3, 3, 2, 8, 1, 1, 7], &[], &[0x30, 0], &[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]]; params = o[*i as usize].to_vec(); }
            Bad::ParName(x) => { params = tlv(0x13, x.as_bytes()); if NAMES.contains(&x.as_str()) { continue; } }
            Bad::ParExplicit => { let cv = &curves()[ci % 3]; params = tlv(0x30, &[vec![2, 1, 1], tlv(0x30, &[vec![6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 1, 1], super::c19::int(&cv.p)].concat())].concat()); }
            Bad::ParNull => params = vec![5, 0],
            Bad::ParMissing => with_params = false,
            Bad::ScalarZero if k.private && !mont => { scalar = vec![0; if k.named { flen } else { 1 }]; late = true; }
            Bad::ScalarN(a) if k.private && !mont => { let cv = &curves()[ci]; let x = &cv.n + *a as u32; scalar = x.to_bytes_be(); if scalar.len() > flen { continue; } late = true; }
            Bad::ScalarLong(a) if k.private => { scalar = [vec![1u8; *a as usize], d.clone()].concat(); }
            Bad::Empty => { if k.private { scalar = vec![]; late = !mont; } else { enc = Some(vec![]); } }
            Bad::KeyType => kt = if mont { CKK_EC } else { CKK_EC_MONTGOMERY },
            Bad::Info(how) => info_attr = Some(match how {
                0 => { let mut i = info.clone(); let l = i.len(); i.truncate(l - 3); i }
                1 => { if mont { mont_spki(x448, &vec![9; flen]) } else { ec_spki(&oid(ci), &curves()[ci].enc(&curves()[ci].g)) } }
                _ => { let o = (ci + 1) % 3; ec_spki(&oid(o), &curves()[o].enc(&curves()[o].g)) }
            }),
            Bad::ValueMissing => with_value = false,
            _ => bad = Bad::None,
        }
        if mont && matches!(bad, Bad::Inner(-2)) && k.derpoint { continue; }
        let enc = enc.unwrap_or_else(|| if mont && !k.derpoint { point.clone() } else { der_octets(&point) });
        let mut tm = tm! { CKA_CLASS => if k.private { CKO_PRIVATE_KEY } else { CKO_PUBLIC_KEY }, CKA_KEY_TYPE => kt, CKA_TOKEN => k.token };
        if with_params { tset(&mut tm, CKA_EC_PARAMS, params.clone()); }
        if k.private { tset(&mut tm, CKA_SENSITIVE, false); tset(&mut tm, CKA_EXTRACTABLE, true); tset(&mut tm, CKA_DERIVE, true); if !mont { tset(&mut tm, CKA_SIGN, true); } if with_value { tset(&mut tm, CKA_VALUE, scalar.clone()); } }
        else { if !mont { tset(&mut tm, CKA_VERIFY, true); } if with_value { tset(&mut tm, CKA_EC_POINT, enc.clone()); } }
        if let Some(i) = &info_attr { tset(&mut tm, CKA_PUBLIC_KEY_INFO, i.clone()); }
        let before = count(p, s);
        let (rv, h) = p.create(s, &tm);
        if bad != Bad::None && !late {
            ensure!(rv != CKR_OK, "accepted", "{what}: accepted, template {tm:x?}");
            ensure!(count(p, s) == before, "left over", "{what}: an object is left");
            cx.hit("refused import");
            continue;
        }
        if rv != CKR_OK {
            ensure!(late, "refused", "{what}: {} for template {tm:x?}", rvname(rv));
            ensure!(count(p, s) == before, "left over", "{what}: an object is left");
            cx.hit("refused import");
            continue;
        }
        cx.nt();
        // what it says of itself
        if !late {
            read(p, s, h, CKA_EC_PARAMS, &params, &what)?;
            if !k.private {
                let out = if !mont || c.der { der_octets(&good_point) } else { good_point.clone() };
                read(p, s, h, CKA_EC_POINT, &out, &what)?;
                if mont { cx.hit(if c.der { "encoded point" } else { "bare point" }); }
                read(p, s, h, CKA_PUBLIC_KEY_INFO, &info, &what)?;
            } else {
                let (rv, v) = p.get(s, h, &[CKA_PUBLIC_KEY_INFO]);
                ensure!(v[0].as_deref().is_none_or(|i| i == info || i.is_empty() && !k.info) , "info", "{what}: public key info {v:x?}");
                let v = p.get1(s, h, CKA_VALUE);
                ensure!(v.as_ref().is_ok_and(|v| mont && *v == scalar || !mont && os2ip(v) == os2ip(&scalar)), "value", "{what}: value {v:x?}");
            }
        }
        // what it does
        let hash = &k.seed[40..72];
        if k.private {
            if !mont {
                let cv = &curves()[ci];
                match p.sig(s, &Mech::new(CKM_ECDSA), h, hash) {
                    Ok(sig) => ensure!(!late && cv.ecdsa_verify(&cv.pubkey(&os2ip(&d)), hash, &sig), "sign", "{what}: signature {}", hex(&sig)),
                    Err(rv) => ensure!(late, "sign", "{what}: {}", rvname(rv)),
                }
            }
            let (peer, want) = if mont {
                let mut u = k.seed[..flen].to_vec();
                u.reverse();
                let w = refc::ec::montgomery(&d, &u);
                if w.iter().all(|b| *b == 0) { continue; }
                (u, w)
            } else {
                let cv = &curves()[ci];
                let q = cv.pubkey(&BigUint::from(12345u32 + k.seed[0] as u32));
                let sh = cv.mul(&os2ip(&d), &q).unwrap().0;
                (cv.enc(&q), i2osp(&sh, flen))
            };
            let mut m = Mech::new(CKM_ECDH1_DERIVE);
            let (pp, pl) = m.keep(&peer);
            m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
            let (rv, o) = p.derive(s, &m, h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => flen as u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
            if late { ensure!(rv != CKR_OK, "derived", "{what}: a secret was derived"); }
            else {
                ensure!(rv == CKR_OK, "derive", "{what}: {}", rvname(rv));
                let v = p.get1(s, o, CKA_VALUE);
                ensure!(v.as_ref() == Ok(&want), "derive", "{what}: secret {v:x?}, expected {}", hex(&want));
                p.destroy(s, o);
            }
            // the public half
            let (rv, o) = p.derive(s, &Mech::new(CKM_PUB_KEY_FROM_PRIV_KEY), h, &tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => kt });
            if rv == CKR_OK {
                ensure!(!late, "public half", "{what}: there is a public half");
                let out = if !mont || c.der { der_octets(&good_point) } else { good_point.clone() };
                read(p, s, o, CKA_EC_POINT, &out, &what)?;
                read(p, s, o, CKA_PUBLIC_KEY_INFO, &info, &what)?;
                p.destroy(s, o);
                cx.hit("public half");
            } else if !late { ensure!(!k.info, "public half", "{what}: {} although the public key is known", rvname(rv)); cx.hit("no public half"); }
            cx.hit(if late { "useless private key" } else { "private key used" });
        } else if !mont {
            let cv = &curves()[ci];
            let sig = cv.ecdsa_sign(&os2ip(&d), hash, &BigUint::from(os2ip(&k.seed[..32]) % &cv.n + 3u8)).unwrap();
            let rv = p.ver(s, &Mech::new(CKM_ECDSA), h, hash, &sig);
            if late {
                // a point in another form may be understood
                let same = matches!(bad, Bad::Compressed) || matches!(bad, Bad::Hybrid(b) if b == 6 + (good_point[good_point.len() - 1] & 1));
                ensure!(rv != CKR_OK || same, "verified", "{what}: the signature was accepted");
            } else {
                ensure!(rv == CKR_OK, "verify", "{what}: {}", rvname(rv));
                let mut h2 = hash.to_vec();
                h2[5] ^= 1;
                let rv = p.ver(s, &Mech::new(CKM_ECDSA), h, &h2, &sig);
                ensure!(rv != CKR_OK, "verify", "{what}: other data: {}", rvname(rv));
            }
            cx.hit(if late { "useless public key" } else { "public key used" });
        }
        p.destroy(s, h);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RBad { None, Short(u8), Even, E(Hx), DZero, Flip(u8, u16), Swap, ModBits(i8), Empty(u8), Missing(u8), Info(u8), BigE }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rsa { key: u8, private: bool, crt: u8, lead: u8, zeros: u8, bits: bool, info: bool, token: bool, bad: RBad, seed: Hx }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RsaCase { nss: bool, keys: Vec<Rsa> }
const PARTS: [u64; 8] = [CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];
fn rsa_cases() -> BoxedStrategy<RsaCase> {
    let bad = prop_oneof![8 => Just(RBad::None), 1 => any::<u8>().prop_map(RBad::Short), 1 => Just(RBad::Even), 2 => prop_oneof![Just(vec![0u8]), Just(vec![1]), Just(vec![2]), Just(vec![1, 0, 0])].prop_map(|x| RBad::E(Hx(x))), 1 => Just(RBad::DZero), 4 => (3u8..8, any::<u16>()).prop_map(|(a, b)| RBad::Flip(a, b)), 1 => Just(RBad::Swap), 1 => prop_oneof![Just(-9i8), Just(-8), Just(8), Just(9), Just(64)].prop_map(RBad::ModBits), 1 => (0u8..8).prop_map(RBad::Empty), 1 => (0u8..3).prop_map(RBad::Missing), 2 => (0u8..3).prop_map(RBad::Info), 1 => Just(RBad::BigE)];
    let one = (0u8..9, any::<bool>(), 0u8..4, any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 1u8..4], any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.3), bad, hx(64)).prop_map(|(key, private, crt, lead, zeros, bits, info, token, bad, seed)| Rsa { key, private, crt, lead, zeros, bits, info, token, bad, seed });
    (prop::bool::weighted(0.3), prop::collection::vec(one, 1..4)).prop_map(|(nss, keys)| RsaCase { nss, keys }).boxed()
}
fn run_rsa(c: &RsaCase, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = &t.p;
    t.user();
    let s = t.open(true);
    for (i, k) in c.keys.iter().enumerate() {
        let what = format!("key {i} {k:?}");
        let kk = &crate::rsakeys::KEYS[k.key as usize];
        let r = rsa_ref(kk);
        let kl = r.p.k();
        let mut v: Vec<Option<Vec<u8>>> = [kk.n, kk.e, kk.d, kk.p, kk.q, kk.dp, kk.dq, kk.qi].iter().map(|x| { let x = unhex(x); let z = x.iter().take_while(|b| **b == 0).count(); Some(x[z..].to_vec()) }).collect();
        if k.private { match k.crt { 0 => for x in v[3..].iter_mut() { *x = None; }, 1 => for x in v[5..].iter_mut() { *x = None; }, _ => {} } } else { for x in v[2..].iter_mut() { *x = None; } }
        let info = rsa_spki(&r.p.n, &r.p.e);
        let mut info_attr = if k.info { Some(info.clone()) } else { None };
        let mut bad = k.bad.clone();
        let mut late = false;
        let mut bits = r.p.n.bits();
        match &bad {
            RBad::None => {}
            RBad::Short(n) => v[0] = Some(unhex(kk.n)[..(*n as usize % 128)].to_vec()),
            RBad::Even => { let m = v[0].as_mut().unwrap(); let l = m.len(); m[l - 1] ^= 1; late = true; }
            RBad::E(e) => { v[1] = Some(e.to_vec()); late = true; }
            RBad::DZero if k.private => { v[2] = Some(vec![0]); late = true; }
            RBad::Flip(a, b) if v[*a as usize].is_some() => { let x = v[*a as usize].as_mut().unwrap(); let b = *b as usize % (x.len() * 8); x[b / 8] ^= 1 << (b % 8); late = true; }
            RBad::Swap if v[5].is_some() => { v.swap(3, 4); late = true; }
            RBad::ModBits(d) if !k.private => bits = (bits as i64 + *d as i64) as u64,
            RBad::Empty(a) if v[*a as usize].is_some() => { v[*a as usize] = Some(vec![]); late = *a >= 3; }
            RBad::Missing(a) if v[*a as usize].is_some() => v[*a as usize] = None,
            RBad::Info(h) => info_attr = Some(match h { 0 => info[..info.len() - 2].to_vec(), 1 => rsa_spki(&(&r.p.n + 2u8), &r.p.e), _ => rsa_spki(&r.p.n, &(&r.p.e + 2u8)) }),
            RBad::BigE => { v[1] = Some((&r.p.n + 2u8).to_bytes_be()); late = true; }
            _ => bad = RBad::None,
        }
        // leading zeros do not change a number
        if k.zeros > 0 && bad == RBad::None { let a = k.lead as usize % 8; if let Some(x) = &mut v[a] { *x = [vec![0u8; k.zeros as usize], x.clone()].concat(); cx.hit("leading zeros"); } }
        let mut tm = tm! { CKA_CLASS => if k.private { CKO_PRIVATE_KEY } else { CKO_PUBLIC_KEY }, CKA_KEY_TYPE => CKK_RSA, CKA_TOKEN => k.token };
        if k.private { tset(&mut tm, CKA_SENSITIVE, false); tset(&mut tm, CKA_EXTRACTABLE, true); tset(&mut tm, CKA_SIGN, true); tset(&mut tm, CKA_DECRYPT, true); tset(&mut tm, CKA_DERIVE, true); } else { tset(&mut tm, CKA_VERIFY, true); tset(&mut tm, CKA_ENCRYPT, true); if k.bits && bad == RBad::None || matches!(bad, RBad::ModBits(_)) { tset(&mut tm, CKA_MODULUS_BITS, bits); } }
        for (a, x) in PARTS.iter().zip(&v) { if let Some(x) = x { tset(&mut tm, *a, x.clone()); } }
        if let Some(i) = &info_attr { tset(&mut tm, CKA_PUBLIC_KEY_INFO, i.clone()); }
        let before = count(p, s);
        let (rv, h) = p.create(s, &tm);
        if bad != RBad::None && !late || rv != CKR_OK {
            ensure!(rv != CKR_OK, "accepted", "{what}: accepted");
            ensure!(bad != RBad::None, "refused", "{what}: {}", rvname(rv));
            ensure!(count(p, s) == before, "left over", "{what}: an object is left");
            cx.hit("refused import");
            continue;
        }
        cx.nt();
        if !late {
            for (a, x) in PARTS.iter().zip(&v) { if let Some(x) = x { let g = p.get1(s, h, *a); ensure!(g.as_ref().is_ok_and(|g| os2ip(g) == os2ip(x)), "value", "{what}: {a:#x} reads {g:x?}"); } }
            let (rv, g) = p.get(s, h, &[CKA_PUBLIC_KEY_INFO]);
            ensure!(rv == CKR_OK && g[0].as_deref() == Some(&info), "info", "{what}: public key info {g:x?}, expected {}", hex(&info));
            if !k.private { let b = p.get_ulong(s, h, CKA_MODULUS_BITS); ensure!(b == Ok(r.p.n.bits()) || (b.is_err() && !k.bits), "bits", "{what}: bits {b:?}"); }
        }
        let msg = &k.seed[..];
        let em = emsa15_hash(H::Sha256, msg, kl).unwrap();
        if k.private {
            match p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), h, msg) {
                Ok(sig) => { let own = if v[1].is_some() { os2ip(v[1].as_ref().unwrap()) } else { r.p.e.clone() }; let n = os2ip(v[0].as_ref().unwrap());
                    // with an exponent that does not belong to the key nothing can be said
                    let ok = sig.len() == kl && os2ip(&sig).modpow(&r.p.e, &n) == os2ip(&em) && sig.len() == kl;
                    ensure!(ok || (late && own != r.p.e), "sign", "{what}: signature {} is wrong", hex(&sig)); if late { cx.hit("bad key still right"); } }
                Err(rv) => ensure!(late, "sign", "{what}: {}", rvname(rv)),
            }
            let m = &[&[0u8, 2][..], &vec![0x77; kl - 3 - 20], &[0], &k.seed[..20]].concat();
            let ct = r.p.raw(m);
            match p.dec(s, &Mech::new(CKM_RSA_X_509), h, &ct) {
                Ok(d) => ensure!(os2ip(&d) == os2ip(m) && d.len() == kl || (late && os2ip(v[1].as_ref().unwrap()) != r.p.e), "decrypt", "{what}: {}", hex(&d)),
                Err(rv) => ensure!(late, "decrypt", "{what}: {}", rvname(rv)),
            }
            if !late {
                let (rv, o) = p.derive(s, &Mech::new(CKM_PUB_KEY_FROM_PRIV_KEY), h, &tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_RSA, CKA_VERIFY => true });
                ensure!(rv == CKR_OK, "public half", "{what}: {}", rvname(rv));
                let (n, e) = (p.get1(s, o, CKA_MODULUS), p.get1(s, o, CKA_PUBLIC_EXPONENT));
                ensure!(n.as_ref().is_ok_and(|n| os2ip(n) == r.p.n) && e.as_ref().is_ok_and(|e| os2ip(e) == r.p.e), "public half", "{what}: {n:x?} {e:x?}");
                read(p, s, o, CKA_PUBLIC_KEY_INFO, &info, &what)?;
                p.destroy(s, o);
            }
            cx.hit(if late { "dubious private key" } else { "private key used" });
        } else {
            let sig = r.raw(&em);
            let rv = p.ver(s, &Mech::new(CKM_SHA256_RSA_PKCS), h, msg, &sig);
            ensure!((rv == CKR_OK) == !late, "verify", "{what}: {}", rvname(rv));
            if matches!(&bad, RBad::E(e) if e.to_vec() == [1]) { let rv = p.ver(s, &Mech::new(CKM_SHA256_RSA_PKCS), h, msg, &em); ensure!(rv != CKR_OK, "verify", "{what}: the padded message itself is taken for its signature"); }
            if !late {
                let d = p.enc(s, &Mech::new(CKM_RSA_X_509), h, &em);
                ensure!(d.as_ref().is_ok_and(|d| *d == r.p.raw(&em)), "encrypt", "{what}: {d:x?}");
            }
            cx.hit(if late { "dubious public key" } else { "public key used" });
        }
        p.destroy(s, h);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DBad { None, Prime(u16), PrimeLen(i8), Base(u32), Zero, Value(u8), Empty(u8), Missing(u8), Long(u8), Info }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dh { group: u8, private: bool, token: bool, zeros: u8, bad: DBad, seed: Hx }
fn dh_cases() -> BoxedStrategy<Vec<Dh>> {
    let bad = prop_oneof![4 => Just(DBad::None), 1 => any::<u16>().prop_map(DBad::Prime), 1 => prop_oneof![Just(-1i8), Just(1), Just(-100)].prop_map(DBad::PrimeLen), 1 => prop_oneof![Just(0u32), Just(1), Just(3), Just(5), Just(0x200)].prop_map(DBad::Base), 1 => Just(DBad::Zero), 2 => (0u8..6).prop_map(DBad::Value), 1 => (0u8..3).prop_map(DBad::Empty), 1 => (0u8..3).prop_map(DBad::Missing), 1 => (1u8..9).prop_map(DBad::Long), 1 => Just(DBad::Info)];
    let one = (prop_oneof![6 => 0u8..3, 1 => 3u8..10], any::<bool>(), prop::bool::weighted(0.3), prop_oneof![4 => Just(0u8), 1 => 1u8..3], bad, hx(32..=64usize)).prop_map(|(group, private, token, zeros, bad, seed)| Dh { group, private, token, zeros, bad, seed });
    prop::collection::vec(one, 1..5).boxed()
}
fn run_dh(c: &Vec<Dh>, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(Db::Sqlite);
    let p = &t.p;
    t.user();
    let s = t.open(true);
    for (i, k) in c.iter().enumerate() {
        let what = format!("key {i} {k:?}");
        let g = &groups()[k.group as usize % groups().len()];
        let x = os2ip(&k.seed);
        let y = BigUint::from(2u8).modpow(&x, &g.p);
        let plen = g.p.bits().div_ceil(8) as usize;
        let mut v = [g.p.to_bytes_be(), vec![2u8], if k.private { k.seed.to_vec() } else { i2osp(&y, plen) }].map(Some);
        let mut bad = k.bad.clone();
        let mut late = false;
        match &bad {
            DBad::None => {}
            DBad::Prime(b) => { let x = v[0].as_mut().unwrap(); let b = *b as usize % (x.len() * 8); x[b / 8] ^= 1 << (b % 8); }
            DBad::PrimeLen(d) => { let x = v[0].as_mut().unwrap(); let l = (x.len() as i64 + *d as i64) as usize; x.resize(l, 0); }
            DBad::Base(b) => v[1] = Some(if *b == 0x200 { vec![2, 0] } else { vec![*b as u8] }),
            DBad::Zero => { v[2] = Some(vec![0; 4]); late = true; }
            DBad::Value(n) if !k.private => { v[2] = Some(match n { 0 => vec![1], 1 => (&g.p - 1u8).to_bytes_be(), 2 => g.p.to_bytes_be(), 3 => (&g.p + 1u8).to_bytes_be(), 4 => (&g.p + 2u8).to_bytes_be(), _ => vec![0xff; plen] }); late = true; }
            DBad::Empty(n) => { v[*n as usize] = Some(vec![]); late = *n == 2; }
            DBad::Missing(n) => v[*n as usize] = None,
            DBad::Long(n) => { v[2] = Some([vec![1u8; *n as usize], vec![0xab; plen]].concat()); late = true; }
            _ => bad = DBad::None,
        }
        let mut any_form = false;
        if bad == DBad::None && k.zeros > 0 { let a = k.seed[0] as usize % 3; let o = v[a].clone().unwrap(); v[a] = Some([vec![0u8; k.zeros as usize], o].concat()); any_form = true; }
        let mut tm = tm! { CKA_CLASS => if k.private { CKO_PRIVATE_KEY } else { CKO_PUBLIC_KEY }, CKA_KEY_TYPE => CKK_DH, CKA_TOKEN => k.token };
        if k.private { tset(&mut tm, CKA_DERIVE, true); tset(&mut tm, CKA_SENSITIVE, false); tset(&mut tm, CKA_EXTRACTABLE, true); }
        for (a, x) in [CKA_PRIME, CKA_BASE, CKA_VALUE].iter().zip(&v) { if let Some(x) = x { tset(&mut tm, *a, x.clone()); } }
        let before = count(p, s);
        let (rv, h) = p.create(s, &tm);
        if bad != DBad::None && !late || rv != CKR_OK {
            ensure!(rv != CKR_OK, "accepted", "{what}: accepted {tm:x?}");
            ensure!(bad != DBad::None || any_form, "refused", "{what}: {}", rvname(rv));
            ensure!(count(p, s) == before, "left over", "{what}: an object is left");
            cx.hit("refused import");
            continue;
        }
        cx.nt();
        if !late {
            for (a, x) in [CKA_PRIME, CKA_BASE, CKA_VALUE].iter().zip(&v) { let o = p.get1(s, h, *a); ensure!(o.as_ref().is_ok_and(|o| os2ip(o) == os2ip(x.as_ref().unwrap())), "value", "{what}: {a:#x} reads {o:x?}"); }
            if !k.private { let (rv, o) = p.get(s, h, &[CKA_PUBLIC_KEY_INFO]); let w = dh_spki(&g.p, &y); ensure!(rv == CKR_OK && o[0].as_deref() == Some(&w), "info", "{what}: public key info {o:x?}, expected {}", hex(&w)); }
        }
        if k.private {
            let peer = BigUint::from(2u8).modpow(&BigUint::from(77777u32 + k.seed[1] as u32), &g.p);
            let m = Mech::bytes(CKM_DH_PKCS_DERIVE, &i2osp(&peer, plen));
            let (rv, o) = p.derive(s, &m, h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => plen as u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
            if rv == CKR_OK {
                let x = os2ip(v[2].as_ref().unwrap());
                ensure!(x > BigUint::from(0u8), "derive", "{what}: a secret from an exponent of zero");
                let w = i2osp(&peer.modpow(&x, &g.p), plen);
                let got = p.get1(s, o, CKA_VALUE);
                ensure!(got.as_ref() == Ok(&w), "derive", "{what}: {got:x?}, expected {}", hex(&w));
                cx.hit("private key used");
            } else { ensure!(late, "derive", "{what}: {}", rvname(rv)); cx.hit("useless private key"); }
        } else { cx.hit(if late { "dubious public key" } else { "public key" }); }
        p.destroy(s, h);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C31", level: "exploration", workers: 8, hang_s: 60,
        rule: "at least one key was imported and compared and used, or an import with a defect was judged after it passed",
        assumptions: &["OpenSSL 3.0 does not compute the public half of an imported EC private key: refusing it is accepted unless the caller gave CKA_PUBLIC_KEY_INFO", "what an RSA key with an exponent that does not belong to it computes is not judged", "DH public key objects take part in no operation: only what they say is judged"],
        groups: vec![gen_("ec", 1200, 40000, ec_cases, run_ec), gen_("rsa", 700, 20000, rsa_cases, run_rsa), gen_("dh", 500, 10000, dh_cases, run_dh)] }
}
