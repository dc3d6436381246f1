//! C20: key generation.
use super::c15::curves;
use super::c18::{groups, mont_oid};
use super::c19::tlv;
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use num_bigint::BigUint;
use proptest::prelude::*;
use refc::hash::H;
use refc::rsa::{i2osp, os2ip};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Mutex;

/// secret key generators: mechanism, class, type, fixed lengths allowed (empty: any)
pub fn secrets() -> Vec<(u64, u64, u64, Vec<u64>)> {
    let mut v = vec![(CKM_AES_KEY_GEN, CKO_SECRET_KEY, CKK_AES, vec![16, 24, 32]), (CKM_GENERIC_SECRET_KEY_GEN, CKO_SECRET_KEY, CKK_GENERIC_SECRET, vec![]), (CKM_HKDF_KEY_GEN, CKO_SECRET_KEY, CKK_HKDF, vec![]), (CKM_HOTP_KEY_GEN, CKO_OTP_KEY, CKK_HOTP, vec![20, 32, 64])];
    for t in HT.iter() { v.push((t.keygen, CKO_SECRET_KEY, t.kt, vec![t.h.len() as u64])); }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What { Secret(u8, Option<u64>), Rsa(u64, Option<Hx>), Ec(u8, bool), Mont(bool, bool), Dh(u8) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad { None, Class, KeyType, Value, Missing, Never(u8), Twice(bool), Info(bool), OtherMech(u8), PrivParams, Params(Hx), Cut, Extra(u8), Curve(u8), Flip(u16), Base(u64), Bits(u64), Exp(Hx), Len(u64), Foreign, PrivFlag, LateFail }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gen { w: What, token: bool, private: Option<bool>, sens: Option<bool>, extr: Option<bool>, id: Option<Hx>, explicit: bool, bad: Bad, use_flags: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { nss: bool, gens: Vec<Gen> }
#[derive(Clone, Copy, Debug)]
enum Fam { Sym, Ec, Rsa, Dh }
fn what(f: Fam) -> BoxedStrategy<What> {
    let exp = prop_oneof![1 => Just(vec![3u8]), 1 => Just(vec![17u8]), 2 => Just(vec![1u8, 0, 1]), 1 => Just(vec![0u8, 1, 0, 1]), 2 => (any::<u64>(), 16u32..64).prop_map(|(x, n)| { let mut b = ((x >> (64 - n)) | 1 | 1 << (n - 1)).to_be_bytes().to_vec(); while b[0] == 0 { b.remove(0); } b })].prop_map(Hx);
    match f {
        Fam::Sym => (0u8..15, prop_oneof![6 => Just(None), 3 => (1u64..100).prop_map(Some), 1 => (100u64..3000).prop_map(Some)]).prop_map(|(k, l)| What::Secret(k, l)).boxed(),
        Fam::Ec => prop_oneof![2 => (0u8..3, any::<bool>()).prop_map(|(c, n)| What::Ec(c, n)), 1 => (any::<bool>(), any::<bool>()).prop_map(|(c, n)| What::Mont(c, n))].boxed(),
        Fam::Rsa => (prop_oneof![4 => Just(1024u64), 3 => 1024u64..1100, 2 => Just(2048u64), 1 => 1100u64..2100, 1 => Just(1536u64)], prop::option::weighted(0.7, exp)).prop_map(|(b, e)| What::Rsa(b, e)).boxed(),
        Fam::Dh => prop_oneof![6 => 0u8..2, 3 => 2u8..4, 1 => 4u8..10].prop_map(What::Dh).boxed(),
    }
}
fn bad(f: Fam) -> BoxedStrategy<Bad> {
    let common = prop_oneof![Just(Bad::Class), Just(Bad::KeyType), Just(Bad::Value), Just(Bad::Missing), any::<u8>().prop_map(Bad::Never), any::<bool>().prop_map(Bad::Twice), any::<u8>().prop_map(Bad::OtherMech), Just(Bad::Foreign), Just(Bad::LateFail), any::<bool>().prop_map(Bad::Info)];
    let own = match f {
        Fam::Sym => prop_oneof![prop_oneof![Just(0u64), 1u64..70, Just(1 << 20)].prop_map(Bad::Len)].boxed(),
        Fam::Ec => prop_oneof![hx(0..=12usize).prop_map(Bad::Params), Just(Bad::Cut), any::<u8>().prop_map(Bad::Extra), (0u8..5).prop_map(Bad::Curve), Just(Bad::PrivParams)].boxed(),
        Fam::Rsa => prop_oneof![prop_oneof![Just(0u64), 1u64..1024, Just(1023), Just(16385), Just(u32::MAX as u64), Just(u64::MAX), Just(i64::MAX as u64)].prop_map(Bad::Bits), prop_oneof![Just(vec![]), Just(vec![0]), Just(vec![1]), Just(vec![2]), Just(vec![1, 0, 0]), Just(vec![0, 0])].prop_map(|v| Bad::Exp(Hx(v))), Just(Bad::PrivParams)].boxed(),
        Fam::Dh => prop_oneof![any::<u16>().prop_map(Bad::Flip), prop_oneof![Just(0u64), Just(1), Just(3), Just(5)].prop_map(Bad::Base), Just(Bad::Cut), Just(Bad::PrivParams)].boxed(),
    };
    prop_oneof![2 => common, 1 => own].boxed()
}
fn cases(f: Fam, n: usize) -> BoxedStrategy<Case> {
    let opt = || prop_oneof![1 => Just(None), 1 => Just(Some(true)), 3 => Just(Some(false))];
    let ext = prop_oneof![1 => Just(None), 3 => Just(Some(true)), 1 => Just(Some(false))];
    let one = (what(f), prop::bool::weighted(0.3), opt(), opt(), ext, prop::option::of(hx(0..=20usize)), any::<bool>(), prop_oneof![2 => Just(Bad::None), 1 => bad(f)], any::<u8>()).prop_map(|(w, token, private, sens, extr, id, explicit, bad, use_flags)| Gen { w, token, private, sens, extr, id, explicit, bad, use_flags });
    (prop::bool::weighted(0.25), prop::collection::vec(one, 1..n)).prop_map(|(nss, gens)| Case { nss, gens }).boxed()
}

// ---------------------------------------------------------------- public key information
pub fn uint(n: &BigUint) -> Vec<u8> { let mut b = n.to_bytes_be(); if b[0] & 0x80 != 0 { b.insert(0, 0); } tlv(2, &b) }
pub fn spki(alg: &[u8], key: &[u8]) -> Vec<u8> { tlv(0x30, &[tlv(0x30, alg), tlv(3, &[&[0u8][..], key].concat())].concat()) }
pub fn rsa_spki(n: &BigUint, e: &BigUint) -> Vec<u8> { spki(&[6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0], &tlv(0x30, &[uint(n), uint(e)].concat())) }
pub fn ec_spki(oid: &[u8], point: &[u8]) -> Vec<u8> { spki(&[&[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1][..], oid].concat(), point) }
pub fn mont_spki(x448: bool, u: &[u8]) -> Vec<u8> { spki(&mont_oid(x448), u) }
/// X9.42 key
pub fn dh_spki(p: &BigUint, y: &BigUint) -> Vec<u8> {
    let q = (p - 1u8) >> 1u8;
    spki(&[&[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3e, 2, 1][..], &tlv(0x30, &[uint(p), uint(&BigUint::from(2u8)), uint(&q)].concat())].concat(), &uint(y))
}
pub fn prime(n: &BigUint) -> bool {
    let (zero, one) = (BigUint::from(0u8), BigUint::from(1u8));
    for s in [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % s == zero { return *n == BigUint::from(s); } }
    if n < &BigUint::from(4u8) || !n.bit(0) { return *n == BigUint::from(2u8); }
    let m = n - 1u8;
    let r = m.trailing_zeros().unwrap();
    let d = &m >> r;
    [2u32, 3, 5, 7, 11, 13, 17, 19].iter().all(|a| {
        let mut x = BigUint::from(*a).modpow(&d, n);
        if x == one || x == m { return true; }
        for _ in 1..r { x = &x * &x % n; if x == m { return true; } }
        false
    })
}
/// the components of an RSA private key belong together
pub fn rsa_valid(n: &BigUint, e: &BigUint, d: &BigUint, crt: &[BigUint]) -> Result<(), String> {
    let one = BigUint::from(1u8);
    let [p, q, dp, dq, qi] = crt else { return Err("components missing".into()) };
    if p * q != *n { return Err("n is not p q".into()); }
    if p == q || !prime(p) || !prime(q) { return Err("factors are not distinct primes".into()); }
    let (p1, q1) = (p - 1u8, q - 1u8);
    if e * d % &p1 != &one % &p1 || e * d % &q1 != &one % &q1 { return Err("d is not the inverse of e".into()); }
    if *dp != d % &p1 || *dq != d % &q1 || qi * q % p != one { return Err("wrong CRT components".into()); }
    Ok(())
}
fn fresh(v: &[u8]) -> bool {
    static SEEN: Mutex<BTreeSet<Vec<u8>>> = Mutex::new(BTreeSet::new());
    SEEN.lock().unwrap().insert(v.to_vec())
}
fn curve_name(c: u8) -> &'static str { ["prime256v1", "secp384r1", "secp521r1", "curve25519", "curve448"][c as usize] }
fn params(c: u8, name: bool) -> Vec<u8> { if name { tlv(0x13, curve_name(c).as_bytes()) } else if c < 3 { curves()[c as usize].oid.clone() } else { mont_oid(c == 4) } }
fn all(p: &P, s: Sess) -> BTreeSet<Obj> { p.find(s, &[]).1.into_iter().collect() }
fn point_of(b: &[u8]) -> &[u8] {
    // DER OCTET STRING or the point itself
    if b.len() > 2 && b[0] == 4 {
        let (h, l) = match b[1] { 0x81 => (3, b[2] as usize), x => (2, x as usize) };
        if b.len() == h + l { return &b[h..]; }
    }
    b
}

fn run(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = t.p;
    let s = t.user();
    for (i, g) in c.gens.iter().enumerate() { one(g, &t, &p, s, cx, i)?; }
    Ok(())
}
fn one(g: &Gen, t: &Tok, p: &P, s: Sess, cx: &mut Cx, idx: usize) -> R {
    let pair = !matches!(g.w, What::Secret(..));
    let token = g.token && !(t.db == Db::Nss && matches!(g.w, What::Dh(_) | What::Secret(3, _)));
    let (mut class, mut kt, mut mech, mut lens) = (CKO_PRIVATE_KEY, 0, 0, vec![]);
    // the part of the template that says what key is wanted
    let mut own = vec![];
    let mut want_len = 0;
    match &g.w {
        What::Secret(k, l) => {
            (mech, class, kt, lens) = secrets()[*k as usize].clone();
            want_len = match l { Some(l) if lens.is_empty() => *l, Some(l) => lens[*l as usize % lens.len()], None => *lens.first().unwrap_or(&32) };
            own = tm! { CKA_VALUE_LEN => want_len };
        }
        What::Rsa(bits, e) => { (mech, kt) = (CKM_RSA_PKCS_KEY_PAIR_GEN, CKK_RSA); own = tm! { CKA_MODULUS_BITS => *bits }; if let Some(e) = e { tset(&mut own, CKA_PUBLIC_EXPONENT, e.0.clone()); } }
        What::Ec(k, n) => { (mech, kt) = (CKM_EC_KEY_PAIR_GEN, CKK_EC); own = tm! { CKA_EC_PARAMS => params(*k, *n) }; }
        What::Mont(x, n) => { (mech, kt) = (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKK_EC_MONTGOMERY); own = tm! { CKA_EC_PARAMS => params(3 + *x as u8, *n) }; }
        What::Dh(k) => { (mech, kt) = (CKM_DH_PKCS_KEY_PAIR_GEN, CKK_DH); own = tm! { CKA_PRIME => groups()[*k as usize].p.to_bytes_be(), CKA_BASE => vec![2u8] }; }
    }
    let otp = class == CKO_OTP_KEY;
    let label = format!("generated {idx}");
    let mut t1 = tm! { CKA_TOKEN => token, CKA_LABEL => &*label };
    if let Some(id) = &g.id { tset(&mut t1, CKA_ID, id.0.clone()); }
    let mut t2 = t1.clone();
    if pair && g.explicit { t2.extend(tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => kt }); t1.extend(tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => kt }); }
    if !pair && g.explicit || otp { t1.extend(tm! { CKA_CLASS => class, CKA_KEY_TYPE => kt }); }
    {
        let x = if pair { &mut t2 } else { &mut t1 };
        if let Some(v) = g.private { tset(x, CKA_PRIVATE, v); }
        if let Some(v) = g.sens { tset(x, CKA_SENSITIVE, v); }
        if let Some(v) = g.extr { tset(x, CKA_EXTRACTABLE, v); }
        match &g.w {
            What::Rsa(..) => { tset(x, CKA_SIGN, true); tset(x, CKA_DECRYPT, (g.use_flags & 1 != 0)); tset(&mut t1, CKA_VERIFY, true); tset(&mut t1, CKA_WRAP, (g.use_flags & 2 != 0)); }
            What::Ec(..) => { tset(x, CKA_SIGN, true); tset(x, CKA_DERIVE, true); tset(&mut t1, CKA_VERIFY, (g.use_flags & 2 != 0)); }
            What::Mont(..) | What::Dh(..) => tset(x, CKA_DERIVE, true),
            What::Secret(0, _) => { tset(x, CKA_ENCRYPT, true); tset(x, CKA_WRAP, (g.use_flags & 1 != 0)); }
            What::Secret(3, _) => {}
            What::Secret(..) => { tset(x, CKA_SIGN, true); tset(x, CKA_DERIVE, (g.use_flags & 1 != 0)); }
        }
    }
    t1.extend(own.clone());
    // what is wrong with it
    let mut refuse = g.bad != Bad::None;
    let mut gen_as_pair = pair;
    match &g.bad {
        Bad::None => {}
        Bad::Class => { let v: u64 = if pair { CKO_SECRET_KEY } else { CKO_PUBLIC_KEY }; tset(if g.use_flags & 4 != 0 && pair { &mut t2 } else { &mut t1 }, CKA_CLASS, v); }
        Bad::KeyType => { let v: u64 = if kt == CKK_AES { CKK_DES3 } else { CKK_AES }; tset(if g.use_flags & 4 != 0 && pair { &mut t2 } else { &mut t1 }, CKA_KEY_TYPE, v); }
        Bad::Value => {
            let v = vec![0x5a; 32];
            let (on, a) = match g.w { What::Secret(..) => (&mut t1, CKA_VALUE), What::Rsa(..) => if g.use_flags & 4 != 0 { (&mut t1, CKA_MODULUS) } else { (&mut t2, [CKA_PRIVATE_EXPONENT, CKA_MODULUS, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT][g.use_flags as usize / 8 % 7]) }, What::Ec(..) | What::Mont(..) => if g.use_flags & 4 != 0 { (&mut t1, CKA_EC_POINT) } else { (&mut t2, CKA_VALUE) }, What::Dh(..) => if g.use_flags & 4 != 0 { (&mut t1, CKA_VALUE) } else { (&mut t2, CKA_VALUE) } };
            tset(on, a, v);
        }
        Bad::Missing => {
            if otp { refuse = false; want_len = 20; }
            let a = own[0].0;
            t1.retain(|x| x.0 != a);
        }
        Bad::Never(k) => { let (a, v): (u64, V) = match k % 4 { 0 => (CKA_LOCAL, true.into()), 1 => (CKA_KEY_GEN_MECHANISM, mech.into()), 2 if !pair => (CKA_ALWAYS_SENSITIVE, true.into()), 3 if !pair => (CKA_NEVER_EXTRACTABLE, true.into()), _ => (CKA_UNIQUE_ID, "mine".into()) }; tset(if g.use_flags & 4 != 0 && pair { &mut t2 } else { &mut t1 }, a, v); }
        Bad::Twice(x) => { let e = if *x { (CKA_LABEL, V::from("another label")) } else { (own[0].0, own[0].1.clone()) }; t1.push(e); }
        Bad::Info(x) => { if !pair { refuse = false; } else { tset(if *x { &mut t1 } else { &mut t2 }, CKA_PUBLIC_KEY_INFO, rsa_spki(&(BigUint::from(1u8) << 1023), &BigUint::from(3u8))); } }
        Bad::OtherMech(k) => {
            // a mechanism that does not generate this
            match k % 4 { 0 => gen_as_pair = !pair, 1 => mech = CKM_SHA256, 2 => mech = CKM_AES_CBC, _ => mech = if pair { CKM_EC_EDWARDS_KEY_PAIR_GEN } else { CKM_DES3_KEY_GEN } }
        }
        Bad::PrivParams => match &g.w {
            // the private template asks for something else
            What::Ec(k, _) => tset(&mut t2, CKA_EC_PARAMS, params((*k + 1) % 3, false)),
            What::Mont(x, _) => tset(&mut t2, CKA_EC_PARAMS, params(3 + !*x as u8, false)),
            What::Dh(k) => tset(&mut t2, CKA_PRIME, groups()[(*k as usize + 1) % 10].p.to_bytes_be()),
            What::Rsa(..) => tset(&mut t2, CKA_PUBLIC_EXPONENT, vec![5u8]),
            _ => refuse = false,
        },
        Bad::Params(b) => tset(&mut t1, CKA_EC_PARAMS, b.0.clone()),
        Bad::Cut => { let mut v = own[0].1.bytes(); v.pop(); tset(&mut t1, own[0].0, v); }
        Bad::Extra(x) => { let mut v = own[0].1.bytes(); v.push(*x); tset(&mut t1, own[0].0, v); }
        Bad::Curve(k) => {
            let mont = matches!(g.w, What::Mont(..));
            let v = match k { 0 => tlv(0x13, b"secp256k2"), 1 => vec![6, 5, 0x2b, 0x81, 4, 0, 0x0a], 2 => vec![6, 3, 0x2b, 0x65, 0x70], 3 => params(if mont { 0 } else { 3 }, false), _ => params(if mont { 1 } else { 4 }, true) };
            tset(&mut t1, CKA_EC_PARAMS, v);
        }
        Bad::Flip(k) => { let mut v = own[0].1.bytes(); let n = v.len() * 8; v[*k as usize % n / 8] ^= 1 << (k & 7); tset(&mut t1, CKA_PRIME, v); }
        Bad::Base(b) => { tset(&mut t1, CKA_BASE, vec![*b as u8]); }
        Bad::Bits(b) => { tset(&mut t1, CKA_MODULUS_BITS, (*b)); }
        Bad::Exp(e) => { tset(&mut t1, CKA_PUBLIC_EXPONENT, e.0.clone()); }
        Bad::Len(l) => { want_len = *l; tset(&mut t1, CKA_VALUE_LEN, (*l)); refuse = *l == 0 || !lens.is_empty() && !lens.contains(l); }
        // an attribute of another kind of object
        Bad::Foreign => tset(&mut t1, if pair { CKA_VALUE_LEN } else { CKA_MODULUS_BITS }, 32u64),
        Bad::PrivFlag => refuse = false,
        // both halves are made and only then does one of them turn out to be impossible
        Bad::LateFail => refuse = false,
    }
    let (s2, late) = if g.bad == Bad::LateFail {
        // a token object asked for in a read-only session: one of the templates only
        if pair { tset(if g.use_flags & 4 != 0 { &mut t2 } else { &mut t1 }, CKA_TOKEN, true); } else { tset(&mut t1, CKA_TOKEN, true); }
        refuse = true;
        (t.open(false), true)
    } else { (s, false) };
    let what = format!("generation {idx}: {mech:#x} {:?} on {:?} with {:?}, public/secret template {:x?}, private template {:x?}", g.w, t.db, g.bad, t1.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>(), t2.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>());
    let before = all(p, s);
    let m = Mech::new(mech);
    let (rv, pu, pr) = if gen_as_pair { p.genpair(s2, &m, &t1, &t2) } else { let (rv, h) = p.genkey(s2, &m, &t1); (rv, 0, h) };
    let after = all(p, s);
    if late { p.close(s2); }
    if refuse {
        ensure!(rv != CKR_OK, "accepted", "{what}: accepted");
        ensure!(before == after, "leftover", "{what}: refused with {} but there is a new object", rvname(rv));
        cx.hit(&format!("refused {}", format!("{:?}", g.bad).split('(').next().unwrap()));
        return Ok(());
    }
    // OpenSSL does not make keys of odd length from 2048 bits
    if let What::Rsa(b, _) = g.w { if b > 2048 && b % 2 == 1 && rv != CKR_OK { ensure!(before == after, "leftover", "{what}: {} but there is a new object", rvname(rv)); return Ok(()); } }
    ensure!(rv == CKR_OK, "refused", "{what}: {}", rvname(rv));
    let new: BTreeSet<Obj> = after.difference(&before).copied().collect();
    let expect: BTreeSet<Obj> = if pair { [pu, pr].into() } else { [pr].into() };
    ensure!(new == expect && expect.len() == 1 + pair as usize, "objects", "{what}: new objects {new:?}, handles returned {pu} {pr}");
    cx.nt();
    // the attributes asked for
    for (h, t, cl) in [(pu, &t1, CKO_PUBLIC_KEY), (pr, if pair { &t2 } else { &t1 }, class)] {
        if h == 0 { continue; }
        for (a, v) in t.iter() {
            // OTP keys accept only this
            let got = p.get1(s, h, *a);
            let want = V::bytes(v);
            if want.is_empty() && matches!(&got, Ok(g) if g.is_empty()) { continue; }
            if *a == CKA_EC_PARAMS { continue; }
            ensure!(got.as_ref() == Ok(&want), "attribute", "{what}: attribute {a:#x} is {got:x?}, asked for {}", hex(&want));
        }
        ensure!(p.get_ulong(s, h, CKA_CLASS) == Ok(cl) && p.get_ulong(s, h, CKA_KEY_TYPE) == Ok(kt), "type", "{what}: class {:x?} type {:x?}", p.get_ulong(s, h, CKA_CLASS), p.get_ulong(s, h, CKA_KEY_TYPE));
        ensure!(p.get_bool(s, h, CKA_LOCAL) == Ok(true) && p.get_ulong(s, h, CKA_KEY_GEN_MECHANISM) == Ok(mech), "origin", "{what}: CKA_LOCAL {:?}, CKA_KEY_GEN_MECHANISM {:x?}", p.get_bool(s, h, CKA_LOCAL), p.get_ulong(s, h, CKA_KEY_GEN_MECHANISM));
        ensure!(p.get_bool(s, h, CKA_TOKEN) == Ok(token), "attribute", "{what}: CKA_TOKEN");
        if h == pr {
            let (se, ex) = (p.get_bool(s, h, CKA_SENSITIVE), p.get_bool(s, h, CKA_EXTRACTABLE));
            ensure!(p.get_bool(s, h, CKA_ALWAYS_SENSITIVE) == se && p.get_bool(s, h, CKA_NEVER_EXTRACTABLE) == ex.map(|b| !b), "origin", "{what}: sensitive {se:?} extractable {ex:?} but always sensitive {:?} never extractable {:?}", p.get_bool(s, h, CKA_ALWAYS_SENSITIVE), p.get_bool(s, h, CKA_NEVER_EXTRACTABLE));
        }
    }
    let readable = p.get_bool(s, pr, CKA_SENSITIVE) == Ok(false) && p.get_bool(s, pr, CKA_EXTRACTABLE) == Ok(true);
    cx.hit(&format!("{} {}", format!("{:?}", g.w).split('(').next().unwrap(), if readable { "readable" } else { "protected" }));
    let info = if pair { (p.get1(s, pu, CKA_PUBLIC_KEY_INFO).unwrap_or_default(), p.get1(s, pr, CKA_PUBLIC_KEY_INFO).unwrap_or_default()) } else { Default::default() };
    let num = |h: Obj, a: u64| -> R<BigUint> { match p.get1(s, h, a) { Ok(v) => Ok(os2ip(&v)), Err(rv) => { ensure!(false, "component", "{what}: component {a:#x}: {}", rvname(rv)); unreachable!() } } };
    let want_info;
    match &g.w {
        What::Secret(k, _) => {
            ensure!(p.get_ulong(s, pr, CKA_VALUE_LEN) == Ok(want_len), "size", "{what}: CKA_VALUE_LEN {:?}", p.get_ulong(s, pr, CKA_VALUE_LEN));
            if readable {
                let v = p.get1(s, pr, CKA_VALUE).unwrap_or_default();
                ensure!(v.len() as u64 == want_len, "size", "{what}: {} bytes", v.len());
                if v.len() >= 12 { ensure!(fresh(&v), "repeated", "{what}: the value {} was generated before", hex(&v)); }
                if v.len() >= 20 { ensure!(v.windows(8).filter(|w| w.iter().all(|b| *b == w[0])).count() == 0, "not-random", "{what}: the value {}", hex(&v)); }
                match k {
                    0 => { let e = p.enc(s, &Mech::new(CKM_AES_ECB), pr, &[7; 16]); ensure!(e.as_deref() == Ok(&refc::aes::Aes::new(&v).enc(&[7; 16])[..]), "unusable", "{what}: ciphertext {e:x?}"); }
                    3 => {}
                    _ => { let i = if *k < 4 { 2 } else { *k as usize - 4 }; if *k != 2 { let e = p.sig(s, &Mech::new(HT[i].hmac), pr, b"data"); ensure!(e.as_deref() == Ok(&refc::hash::hmac(HT[i].h, &v, b"data")[..]), "unusable", "{what}: MAC {e:x?}"); } }
                }
            } else {
                let e = match k { 0 => p.enc(s, &Mech::new(CKM_AES_ECB), pr, &[7; 16]), 2 | 3 => return Ok(()), 1 => p.sig(s, &Mech::new(CKM_SHA256_HMAC), pr, b"data"), k => p.sig(s, &Mech::new(HT[*k as usize - 4].hmac), pr, b"data") };
                let Ok(e) = e else { ensure!(false, "unusable", "{what}: {e:x?}"); unreachable!() };
                if want_len >= 12 { ensure!(fresh(&e), "repeated", "{what}: acts like a key generated before"); }
            }
            return Ok(());
        }
        What::Rsa(bits, e) => {
            let want_e = e.as_ref().map_or(BigUint::from(65537u32), |e| os2ip(e));
            let (n, e) = (num(pu, CKA_MODULUS)?, num(pu, CKA_PUBLIC_EXPONENT)?);
            ensure!(n.bits() == *bits && p.get_ulong(s, pu, CKA_MODULUS_BITS) == Ok(*bits), "size", "{what}: modulus of {} bits", n.bits());
            ensure!(e == want_e, "exponent", "{what}: exponent {e}");
            ensure!(num(pr, CKA_MODULUS)? == n && num(pr, CKA_PUBLIC_EXPONENT)? == e, "halves", "{what}: the halves differ");
            ensure!(fresh(&n.to_bytes_be()), "repeated", "{what}: the modulus {n} was generated before");
            if readable {
                let d = num(pr, CKA_PRIVATE_EXPONENT)?;
                let mut crt = vec![];
                for a in [CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT] { crt.push(num(pr, a)?); }
                let v = rsa_valid(&n, &e, &d, &crt);
                ensure!(v.is_ok(), "invalid-key", "{what}: {v:?}: n {n} e {e} d {d} {crt:?}");
                ensure!(crt[0].bits().abs_diff(crt[1].bits()) <= 2 && crt[0] != crt[1], "weak", "{what}: primes of {} and {} bits", crt[0].bits(), crt[1].bits());
                for q in &crt[..2] { ensure!(fresh(&q.to_bytes_be()), "repeated", "{what}: a prime was used before"); }
            }
            let sig = p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), pr, b"message");
            let k = refc::rsa::Pub { n: n.clone(), e: e.clone() };
            ensure!(sig.as_ref().is_ok_and(|x| x.len() == k.k() && Some(k.raw(x)) == refc::rsa::emsa15_hash(H::Sha256, b"message", k.k())), "unusable", "{what}: signature {sig:x?} by {n}");
            ensure!(p.ver(s, &Mech::new(CKM_SHA256_RSA_PKCS), pu, b"message", &sig.unwrap()) == CKR_OK, "unusable", "{what}: own signature not verified");
            want_info = rsa_spki(&n, &e);
        }
        What::Ec(k, _) => {
            let cv = &curves()[*k as usize];
            let pt = p.get1(s, pu, CKA_EC_POINT).unwrap_or_default();
            let q = cv.dec(point_of(&pt));
            let Some(q) = q else { ensure!(false, "invalid-key", "{what}: point {}", hex(&pt)); unreachable!() };
            for h in [pu, pr] { let v = p.get1(s, h, CKA_EC_PARAMS).unwrap_or_default(); ensure!(v == params(*k, false) || v == params(*k, true), "curve", "{what}: parameters {}", hex(&v)); }
            ensure!(fresh(&pt), "repeated", "{what}: generated before");
            if readable {
                let v = p.get1(s, pr, CKA_VALUE).unwrap_or_default();
                let d = os2ip(&v);
                ensure!(d > BigUint::from(0u8) && d < cv.n && v.len() <= cv.flen(), "invalid-key", "{what}: private value {}", hex(&v));
                ensure!(cv.pubkey(&d) == q, "halves", "{what}: private value {} and point {}", hex(&v), hex(&pt));
                if v[0] == 0 || v.len() < cv.flen() { cx.hit("EC short private value"); }
            }
            let sig = p.sig(s, &Mech::new(CKM_ECDSA), pr, &[9; 32]);
            ensure!(sig.as_ref().is_ok_and(|x| cv.ecdsa_verify(&q, &[9; 32], x)), "unusable", "{what}: signature {sig:x?} for {}", hex(&pt));
            want_info = ec_spki(&cv.oid, &cv.enc(&q));
        }
        What::Mont(x, _) => {
            let pt = p.get1(s, pu, CKA_EC_POINT).unwrap_or_default();
            let n = if *x { 56 } else { 32 };
            let u = if pt.len() == n { &pt[..] } else { ensure!(pt.len() == n + 2 && pt[..2] == [4, n as u8], "invalid-key", "{what}: point {}", hex(&pt)); &pt[2..] };
            for h in [pu, pr] { let v = p.get1(s, h, CKA_EC_PARAMS).unwrap_or_default(); ensure!(v == params(3 + *x as u8, false) || v == params(3 + *x as u8, true), "curve", "{what}: parameters {}", hex(&v)); }
            ensure!(fresh(u), "repeated", "{what}: generated before");
            let mut base = vec![0; n];
            base[0] = if *x { 5 } else { 9 };
            if readable {
                let v = p.get1(s, pr, CKA_VALUE).unwrap_or_default();
                ensure!(v.len() == n && refc::ec::montgomery(&v, &base) == u, "halves", "{what}: private value {} and point {}", hex(&v), hex(&pt));
            }
            // agreement with the base point gives the public value
            let mut m = Mech::new(CKM_ECDH1_DERIVE);
            let (pp, pl) = m.keep(&base);
            m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
            let (rv, o) = p.derive(s, &m, pr, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => n as u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
            ensure!(rv == CKR_OK && p.get1(s, o, CKA_VALUE).as_deref() == Ok(u), "halves", "{what}: agreement with the base point: {} {:x?}, point {}", rvname(rv), p.get1(s, o, CKA_VALUE), hex(&pt));
            p.destroy(s, o);
            want_info = mont_spki(*x, u);
        }
        What::Dh(k) => {
            let gr = &groups()[*k as usize];
            let two = BigUint::from(2u8);
            let y = num(pu, CKA_VALUE)?;
            ensure!(y > BigUint::from(1u8) && y < &gr.p - 1u8, "invalid-key", "{what}: public value {y}");
            ensure!(num(pr, CKA_PRIME)? == gr.p && num(pr, CKA_BASE)? == two, "halves", "{what}: parameters of the private key");
            ensure!(fresh(&y.to_bytes_be()), "repeated", "{what}: generated before");
            if readable {
                let x = num(pr, CKA_VALUE)?;
                ensure!(x > BigUint::from(1u8) && x < (&gr.p - 1u8) >> 1, "invalid-key", "{what}: private value {x}");
                ensure!(x.bits() >= 200, "weak", "{what}: private value of {} bits", x.bits());
                ensure!(two.modpow(&x, &gr.p) == y, "halves", "{what}: private value {x}, public {y}");
                let b = p.get_ulong(s, pr, CKA_VALUE_BITS);
                ensure!(b.is_ok_and(|b| x.bits() <= b && b < x.bits() + 64), "size", "{what}: CKA_VALUE_BITS {b:?} for a value of {} bits", x.bits());
            }
            // agreement with 2 gives the public value
            let m = Mech::bytes(CKM_DH_PKCS_DERIVE, &i2osp(&two, gr.bytes));
            let (rv, o) = p.derive(s, &m, pr, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => gr.bytes as u64, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
            if rv == CKR_OK { ensure!(p.get1(s, o, CKA_VALUE).map(|v| os2ip(&v)) == Ok(y.clone()), "halves", "{what}: agreement with 2 gives {:x?}, public {y:x}", p.get1(s, o, CKA_VALUE)); cx.hit("DH agreement"); p.destroy(s, o); }
            want_info = dh_spki(&gr.p, &y);
        }
    }
    ensure!(info.0 == want_info && info.1 == want_info, "public-key-info", "{what}: public key information {} and {}, expected {}", hex(&info.0), hex(&info.1), hex(&want_info));
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C20", level: "exploration", workers: 8, hang_s: 60,
        rule: "a key was generated and everything about it checked",
        assumptions: &["RSA keys of up to 2100 bits in quick runs", "the identifying attributes a pair shares are CKA_PUBLIC_KEY_INFO, the domain parameters and, for RSA, modulus and public exponent"],
        groups: vec![gen_("secret", 900, 12000, || cases(Fam::Sym, 8), run), gen_("ec", 900, 12000, || cases(Fam::Ec, 6), run), gen_("rsa", 120, 4000, || cases(Fam::Rsa, 4), run), gen_("dh", 200, 2000, || cases(Fam::Dh, 4), run)] }
}
