//! C19: key wrapping and unwrapping.
use super::c15::curves;
use super::c17::check_value;
use super::c18::{mont_oid, mont_priv};
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::rsakeys::KEYS;
use crate::run::*;
use crate::tok::*;
use num_bigint::BigUint;
use proptest::prelude::*;
use refc::aes;
use refc::rsa::{i2osp, os2ip};
use serde::{Deserialize, Serialize};

const WMODES: [Mode; 9] = [Mode::Ecb, Mode::Cbc, Mode::CbcPad, Mode::Ctr, Mode::Cts, Mode::Gcm, Mode::Ccm, Mode::Kw, Mode::Kwp];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrap { Aes(Ciph), Rsa { key: u8, enc: RsaEnc } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target { Generic(Hx), Aes(Hx), Mac(u8, Hx), Rsa(u8), Ec(u8, Hx), Mont(bool, Hx) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Alter { None, Flip(u16), Cut(u8), Extra(Hx), Key(u16), Param(u16), Zero }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Len { Unset, Exact, Shorter(u8), Longer(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { w: Wrap, t: Target, extr: bool, pol: Pol, alter: Alter, len: Len, usens: Option<bool>, uextr: Option<bool>, label: bool, mism: u8 }

fn target() -> BoxedStrategy<Target> {
    prop_oneof![
        4 => prop_oneof![3 => hx(1..=70usize), 2 => prop::sample::select(vec![8usize, 15, 16, 17, 20, 24, 32, 40, 48, 64, 117, 128]).prop_flat_map(hx), 1 => hx(70..=300usize)].prop_map(Target::Generic),
        3 => aeskey().prop_map(Target::Aes),
        1 => (0u8..11, hx(64)).prop_map(|(i, h)| Target::Mac(i, Hx(h[..HT[i as usize].h.len()].to_vec()))),
        2 => (0u8..10).prop_map(Target::Rsa),
        3 => (0u8..3, hx(66), 0u8..6).prop_map(|(c, mut d, z)| { if z == 0 { d.0[..7].fill(0) } Target::Ec(c, d) }),
        2 => any::<bool>().prop_flat_map(|x| hx(if x { 56 } else { 32 }).prop_map(move |d| Target::Mont(x, d))),
    ].boxed()
}
fn wrapper() -> BoxedStrategy<Wrap> {
    prop_oneof![
        4 => ciph(&WMODES).prop_map(Wrap::Aes),
        1 => (prop::sample::select(vec![0u8, 2, 5, 6, 8, 9]), rsaenc()).prop_map(|(key, enc)| Wrap::Rsa { key, enc: if enc == RsaEnc::Raw { RsaEnc::Pkcs } else { enc } }),
    ].boxed()
}
fn cases() -> BoxedStrategy<Case> {
    let alter = prop_oneof![5 => Just(Alter::None), 4 => any::<u16>().prop_map(Alter::Flip), 1 => any::<u8>().prop_map(Alter::Cut), 1 => hx(1..=24usize).prop_map(Alter::Extra), 1 => any::<u16>().prop_map(Alter::Key), 2 => any::<u16>().prop_map(Alter::Param), 1 => Just(Alter::Zero)];
    let len = prop_oneof![3 => Just(Len::Unset), 3 => Just(Len::Exact), 1 => (1u8..=255).prop_map(Len::Shorter), 1 => (1u8..=255).prop_map(Len::Longer)];
    let ob = || prop_oneof![4 => Just(Some(false)), 3 => Just(Some(true)), 1 => Just(None)];
    (wrapper(), target(), prop::bool::weighted(0.93), pol(), alter, len, ob(), ob(), any::<bool>(), prop_oneof![14 => Just(0u8), 1 => 1u8..6])
        .prop_map(|(w, t, extr, pol, alter, len, usens, uextr, label, mism)| Case { w, t, extr, pol, alter, len, usens, uextr, label, mism }).boxed()
}
// ------------------------------------------------ DER
pub fn tlv(tag: u8, b: &[u8]) -> Vec<u8> { let mut v = der_octets(b); v[0] = tag; v }
pub fn int(n: &BigUint) -> Vec<u8> { let mut b = n.to_bytes_be(); if b[0] & 0x80 != 0 { b.insert(0, 0); } tlv(2, &b) }
pub fn pkcs8(alg: &[u8], key: &[u8]) -> Vec<u8> { tlv(0x30, &[&[2, 1, 0][..], &tlv(0x30, alg), &tlv(4, key)].concat()) }
pub const RSA_OID: [u8; 13] = [6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0];
pub const EC_OID: [u8; 9] = [6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
fn num(h: &str) -> BigUint { os2ip(&unhex(h)) }
fn ec_d(c: u8, d: &[u8]) -> Vec<u8> {
    let c = &curves()[c as usize];
    i2osp(&(os2ip(&d[..c.flen()]) % (&c.n - 1u8) + 1u8), c.flen())
}
impl Target {
    /// the standard encoding of the key material
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Target::Generic(v) | Target::Aes(v) | Target::Mac(_, v) => v.0.clone(),
            Target::Rsa(i) => {
                let k = &KEYS[*i as usize];
                pkcs8(&RSA_OID, &tlv(0x30, &[vec![2, 1, 0], int(&num(k.n)), int(&num(k.e)), int(&num(k.d)), int(&num(k.p)), int(&num(k.q)), int(&num(k.dp)), int(&num(k.dq)), int(&num(k.qi))].concat()))
            }
            Target::Ec(c, d) => pkcs8(&[&EC_OID[..], &curves()[*c as usize].oid].concat(), &tlv(0x30, &[vec![2, 1, 1], tlv(4, &ec_d(*c, d))].concat())),
            Target::Mont(x, d) => pkcs8(&mont_oid(*x), &tlv(4, d)),
        }
    }
    fn create(&self, p: &P, s: Sess, extr: bool) -> Obj {
        let x = tm! { CKA_EXTRACTABLE => extr };
        let mut t = match self {
            Target::Generic(v) => return secret(p, s, CKK_GENERIC_SECRET, v, &x),
            Target::Aes(v) => return secret(p, s, CKK_AES, v, &x),
            Target::Mac(i, v) => return secret(p, s, HT[*i as usize].kt, v, &x),
            Target::Rsa(i) => rsa_priv_tmpl(&KEYS[*i as usize], true),
            // the value is a big integer, so leading zeros may be missing
            Target::Ec(c, d) => { let v = ec_d(*c, d); let z = if d[65] & 1 == 0 { v.iter().take_while(|b| **b == 0).count() } else { 0 }; ec_priv_tmpl(&curves()[*c as usize].oid, &v[z..]) }
            Target::Mont(m, d) => { if extr { return mont_priv(p, s, *m, d); } tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_TOKEN => false, CKA_DERIVE => true, CKA_EC_PARAMS => mont_oid(*m), CKA_VALUE => d.to_vec() } }
        };
        tset(&mut t, CKA_EXTRACTABLE, extr);
        must(p, s, &t, "key to wrap")
    }
    fn class(&self) -> u64 { match self { Target::Generic(_) | Target::Aes(_) | Target::Mac(..) => CKO_SECRET_KEY, _ => CKO_PRIVATE_KEY } }
    fn kt(&self) -> u64 { match self { Target::Generic(_) => CKK_GENERIC_SECRET, Target::Aes(_) => CKK_AES, Target::Mac(i, _) => HT[*i as usize].kt, Target::Rsa(_) => CKK_RSA, Target::Ec(..) => CKK_EC, Target::Mont(..) => CKK_EC_MONTGOMERY } }
    fn name(&self) -> String { match self { Target::Generic(v) => format!("generic secret of {} bytes", v.len()), Target::Aes(v) => format!("AES-{}", v.len() * 8), Target::Mac(i, _) => format!("{} HMAC key", HT[*i as usize].name), Target::Rsa(i) => format!("RSA-{}", KEYS[*i as usize].bits), Target::Ec(c, _) => curves()[*c as usize].name.to_string(), Target::Mont(x, _) => if *x { "X448" } else { "X25519" }.into() } }
}
/// the unwrapped key is the original
fn same(p: &P, s: Sess, o: Obj, t: &Target, readable: bool, what: &str) -> R {
    let want: Tmpl = match t {
        Target::Generic(v) | Target::Aes(v) | Target::Mac(_, v) => { check_value(p, s, o, t.kt(), v, what)?; return Ok(()); }
        Target::Rsa(i) => { let k = &KEYS[*i as usize]; tm! { CKA_MODULUS => unhex(k.n), CKA_PUBLIC_EXPONENT => unhex(k.e), CKA_PRIVATE_EXPONENT => unhex(k.d), CKA_PRIME_1 => unhex(k.p), CKA_PRIME_2 => unhex(k.q), CKA_EXPONENT_1 => unhex(k.dp), CKA_EXPONENT_2 => unhex(k.dq), CKA_COEFFICIENT => unhex(k.qi) } }
        Target::Ec(c, d) => tm! { CKA_EC_PARAMS => curves()[*c as usize].oid.clone(), CKA_VALUE => ec_d(*c, d) },
        Target::Mont(x, d) => tm! { CKA_EC_PARAMS => mont_oid(*x), CKA_VALUE => d.to_vec() },
    };
    let public = |a| matches!(a, CKA_MODULUS | CKA_PUBLIC_EXPONENT | CKA_EC_PARAMS);
    for (a, v) in &want {
        let g = p.get1(s, o, *a);
        let V::X(v) = v else { unreachable!() };
        if readable || public(*a) {
            let (g, v) = if *a == CKA_EC_PARAMS { (g.clone(), v.clone()) } else { (g.map(|x| { let n = x.iter().take_while(|b| **b == 0).count(); x[n..].to_vec() }), { let n = v.iter().take_while(|b| **b == 0).count(); v[n..].to_vec() }) };
            ensure!(g.as_ref() == Ok(&v), "value", "{what}: attribute {a:#x} is {:?} instead of {}", g.map(|x| hex(&x)), hex(&v));
        } else {
            ensure!(g.is_err(), "sensitive-value", "{what}: attribute {a:#x} of a sensitive or unextractable key can be read");
        }
    }
    // and it works
    let h = refc::hash::H::Sha256;
    match t {
        Target::Rsa(i) => {
            let pv = rsa_ref(&KEYS[*i as usize]);
            let sig = p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), o, b"probe");
            let em = refc::rsa::emsa15_hash(h, b"probe", pv.p.k()).unwrap();
            ensure!(sig.as_deref() == Ok(&pv.raw(&em)[..]), "value", "{what}: signs {:?}", sig.map(|x| hex(&x)));
        }
        Target::Ec(c, d) => {
            let cv = &curves()[*c as usize];
            let sig = p.sig(s, &Mech::new(CKM_ECDSA_SHA256), o, b"probe");
            let ok = matches!(&sig, Ok(x) if x.len() == 2 * cv.flen() && cv.ecdsa_verify(&cv.pubkey(&os2ip(&ec_d(*c, d))), &h.hash(b"probe"), x));
            ensure!(ok, "value", "{what}: signs {:?}", sig.map(|x| hex(&x)));
        }
        Target::Mont(x, d) => {
            let n = d.len();
            let mut base = vec![0u8; n];
            base[0] = if *x { 5 } else { 9 };
            let mut m = Mech::new(CKM_ECDH1_DERIVE);
            let (pp, pl) = m.keep(&base);
            m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
            let (rv, z) = p.derive(s, &m, o, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_VALUE_LEN => n as u64 });
            ensure!(rv == CKR_OK, "unusable", "{what}: derivation {}", rvname(rv));
            check_value(p, s, z, CKK_GENERIC_SECRET, &refc::ec::montgomery(d, &base), what)?;
            p.destroy(s, z);
        }
        _ => (),
    }
    Ok(())
}
fn nobj(p: &P, s: Sess) -> usize { [CKO_SECRET_KEY, CKO_PRIVATE_KEY, CKO_PUBLIC_KEY, CKO_DATA].iter().map(|c| p.find(s, &tm! { CKA_CLASS => *c }).1.len()).sum() }

fn run(c: &Case, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let plain = c.t.encode();
    let wname = match &c.w { Wrap::Aes(w) => format!("AES {:?}", w.mode), Wrap::Rsa { key, enc } => format!("RSA-{} {enc:?}", KEYS[*key as usize].bits) };
    let what = format!("wrapping {} with {wname}", c.t.name());
    let (wk, uk) = match &c.w { Wrap::Aes(w) => { let k = aes_obj(p, s, &w.key); (k, k) } Wrap::Rsa { key, .. } => { let (v, u) = rsa_objs(p, s, &KEYS[*key as usize]); (u, v) } };
    let o = c.t.create(p, s, c.extr);
    // what goes into the cipher
    let mut padded = plain.clone();
    if let Wrap::Aes(Ciph { mode: Mode::Ecb | Mode::Cbc, .. }) = c.w { padded.resize(plain.len().div_ceil(16) * 16, 0); }
    let fits = match &c.w {
        Wrap::Aes(w) => w.len_ok(padded.len()) && (w.mode != Mode::Ctr || w.ctr_room() >= padded.len().div_ceil(16) as u128),
        Wrap::Rsa { key, enc } => enc.max((KEYS[*key as usize].bits as usize).div_ceil(8)).is_some_and(|m| plain.len() <= m),
    };
    let mech = |l: usize| match &c.w { Wrap::Aes(w) => w.mech(l), Wrap::Rsa { enc, .. } => enc.mech() };
    let m = mech(padded.len());
    // the standard fixes no answer of a size query where the wrap would fail
    let pol = if fits && c.extr { c.pol } else { Pol::Big };
    let (rv, blob) = call(p, cx, "C_WrapKey", pol, |b, l| F!(p.C_WrapKey(s, m.ptr(), wk, o, b, l)))?;
    if !c.extr || !fits {
        ensure!(rv != CKR_OK, if c.extr { "accepted" } else { "unextractable-wrapped" }, "{what} (extractable {}) succeeded", c.extr);
        cx.hit(if c.extr { "does not fit" } else { "unextractable" });
        p.destroy(s, o);
        return Ok(());
    }
    // the counter of CTR must not wrap: exact use of the last block may be refused
    if rv != CKR_OK && matches!(&c.w, Wrap::Aes(w) if w.mode == Mode::Ctr && w.ctr_room() <= padded.len().div_ceil(16) as u128) { return Ok(()); }
    ensure!(rv == CKR_OK, "refused", "{what}: {}", rvname(rv));
    match &c.w {
        Wrap::Aes(w) => { let want = w.enc(&padded); ensure!(blob == want, "bytes", "{what}: {} instead of {}", hex(&blob), hex(&want)); }
        Wrap::Rsa { key, enc } => {
            let pv = rsa_ref(&KEYS[*key as usize]);
            ensure!(blob.len() == pv.p.k(), "bytes", "{what}: {} bytes for a modulus of {}", blob.len(), pv.p.k());
            let d = enc.decode(&pv.raw(&blob));
            ensure!(d.as_ref() == Some(&plain), "bytes", "{what}: the blob decrypts to {:?} instead of {}", d.map(|d| hex(&d)), hex(&plain));
        }
    }
    p.destroy(s, o);
    // the way back
    let auth = match &c.w { Wrap::Aes(w) => matches!(w.mode, Mode::Gcm | Mode::Ccm | Mode::Kw | Mode::Kwp), Wrap::Rsa { enc, .. } => matches!(enc, RsaEnc::Oaep { .. }) };
    let secret_key = c.t.class() == CKO_SECRET_KEY;
    let (mut uk, mut um, mut blob2) = (uk, mech(padded.len()), blob.clone());
    let mut altered = true;
    match &c.alter {
        Alter::None => altered = false,
        Alter::Flip(x) => { let i = *x as usize % (blob.len() * 8); blob2[i / 8] ^= 1 << (i % 8); }
        Alter::Cut(x) => { let n = blob.len() - 1 - *x as usize % blob.len(); blob2.truncate(n); }
        Alter::Extra(e) => blob2.extend_from_slice(e),
        Alter::Key(x) => match &c.w {
            Wrap::Aes(w) => { let mut k = w.key.clone(); let i = *x as usize % (k.len() * 8); k.0[i / 8] ^= 1 << (i % 8); uk = aes_obj(p, s, &k); }
            Wrap::Rsa { key, .. } => { let n = if *key == 5 { 6 } else { 5 }; uk = rsa_objs(p, s, &KEYS[n]).0; }
        },
        Alter::Zero => blob2.fill(0),
        Alter::Param(x) => match &c.w {
            Wrap::Aes(w) => {
                let (mut iv, mut aad, mut n) = (w.kwiv(), w.aad.0.clone(), w.n);
                if !matches!(w.mode, Mode::Kw | Mode::Kwp) { iv = w.iv.0.clone(); }
                let mut flip = |b: &mut Vec<u8>| { let i = *x as usize / 4 % (b.len() * 8); b[i / 8] ^= 1 << (i % 8); };
                match (w.mode, x % 4) {
                    (Mode::Ecb, _) => altered = false,
                    (Mode::Gcm, 1) => n = if n > 4 { n - 1 } else { n + 1 },
                    (Mode::Gcm | Mode::Ccm, 2) => if aad.is_empty() { aad.push(0) } else { flip(&mut aad) },
                    _ => flip(&mut iv),
                }
                um = w.mech_full(padded.len(), &iv, &aad, n);
            }
            Wrap::Rsa { enc: RsaEnc::Oaep { h, mgf, label }, .. } => {
                let (mut h, mut mgf, mut label) = (*h, *mgf, label.clone());
                match x % 3 { 0 => label.0.push(0), 1 => mgf = (mgf + 1) % NSIGH as u8, _ => h = (h + 1) % NSIGH as u8 }
                um = RsaEnc::Oaep { h, mgf, label }.mech();
            }
            _ => altered = false,
        },
    }
    if altered && matches!(c.alter, Alter::Zero) && blob2 == blob { altered = false; }
    let mut t = tm! { CKA_CLASS => c.t.class(), CKA_KEY_TYPE => c.t.kt(), CKA_TOKEN => false };
    if let Some(b) = c.usens { t.extend(tm! { CKA_SENSITIVE => b }); }
    if let Some(b) = c.uextr { t.extend(tm! { CKA_EXTRACTABLE => b }); }
    if c.label { t.extend(tm! { CKA_LABEL => "unwrapped", CKA_ID => vec![3u8, 4] }); }
    t.extend(match c.t { Target::Rsa(_) | Target::Ec(..) | Target::Mac(..) => tm! { CKA_SIGN => true }, Target::Mont(..) => tm! { CKA_DERIVE => true }, Target::Aes(_) => tm! { CKA_ENCRYPT => true }, _ => tm! { CKA_DERIVE => true } });
    // zero padding is only undone by an explicit length
    let mut len = c.len.clone();
    if padded.len() != plain.len() && len == Len::Unset && !matches!(c.t, Target::Aes(_)) { len = Len::Exact; }
    let vlen = match &len { Len::Unset => None, Len::Exact => Some(plain.len()), Len::Shorter(x) => Some(plain.len() - (*x as usize % plain.len()).max(1).min(plain.len())), Len::Longer(x) => Some(padded.len() + *x as usize) };
    if let (true, Some(l)) = (secret_key, vlen) { t.extend(tm! { CKA_VALUE_LEN => l as u64 }); }
    let mut must_fail = None;
    if secret_key && (!altered || auth) && matches!(len, Len::Longer(_)) { must_fail = Some("longer than the data"); }
    match c.mism {
        1 => { tset(&mut t, CKA_VALUE, vec![1u8; 16]); must_fail = Some("a value in the template"); }
        2 => { tset(&mut t, CKA_LOCAL, true); must_fail = Some("local in the template"); }
        3 => { tset(&mut t, CKA_ALWAYS_SENSITIVE, true); must_fail = Some("always sensitive in the template"); }
        4 if !secret_key => { tset(&mut t, CKA_KEY_TYPE, if c.t.kt() == CKK_RSA { CKK_EC } else if c.t.kt() == CKK_EC { CKK_EC_MONTGOMERY } else { CKK_RSA }); must_fail = Some("another private key type"); }
        5 => { t.retain(|a| a.0 != CKA_CLASS); t.retain(|a| a.0 != CKA_KEY_TYPE); must_fail = Some("neither class nor type"); }
        _ => (),
    }
    let before = nobj(p, s);
    let (rv, o) = p.unwrap(s, &um, uk, &blob2, &t);
    let what = format!("un{what} ({:?}, length {len:?}, template {:?}/{:?}, mismatch {})", c.alter, c.usens, c.uextr, c.mism);
    if rv != CKR_OK { ensure!(nobj(p, s) == before, "leftover", "{what}: {} but an object was created", rvname(rv)); }
    if let Some(why) = must_fail {
        ensure!(rv != CKR_OK, "template-accepted", "{what} succeeded with {why}");
        cx.hit("template refused");
        return Ok(());
    }
    if altered {
        if auth {
            ensure!(rv != CKR_OK, "altered-accepted", "{what} succeeded");
            cx.hit(&format!("altered refused: {}", wname.split(' ').take(2).collect::<Vec<_>>().join(" ").split('{').next().unwrap_or("")));
            cx.nt();
        } else if rv == CKR_OK {
            p.destroy(s, o);
            cx.hit("altered without integrity");
        }
        return Ok(());
    }
    if secret_key && matches!(len, Len::Shorter(_)) && vlen != Some(plain.len()) {
        // truncation may be refused; when done it keeps the front
        if rv != CKR_OK { return Ok(()); }
        let Some(l) = vlen.filter(|l| *l > 0) else { p.destroy(s, o); return viol("empty-key", format!("{what} created an empty key")); };
        check_value(p, s, o, c.t.kt(), &plain[..l], &what)?;
        p.destroy(s, o);
        return Ok(());
    }
    // an AES key padded to another size of AES keys is ambiguous without its length
    if padded.len() != plain.len() && matches!(c.t, Target::Aes(_)) && vlen.is_none() {
        if rv == CKR_OK { p.destroy(s, o); }
        return Ok(());
    }
    ensure!(rv == CKR_OK, "unwrap-refused", "{what}: {}", rvname(rv));
    let b = |a| p.get_bool(s, o, a);
    let u = |a| p.get_ulong(s, o, a);
    ensure!(u(CKA_CLASS) == Ok(c.t.class()) && u(CKA_KEY_TYPE) == Ok(c.t.kt()), "shape", "{what}: class {:?} type {:?}", u(CKA_CLASS), u(CKA_KEY_TYPE));
    if secret_key { ensure!(u(CKA_VALUE_LEN) == Ok(plain.len() as u64), "shape", "{what}: length {:?}", u(CKA_VALUE_LEN)); }
    if let Some(x) = c.usens { ensure!(b(CKA_SENSITIVE) == Ok(x), "protection", "{what}: sensitive {:?}", b(CKA_SENSITIVE)); }
    if let Some(x) = c.uextr { ensure!(b(CKA_EXTRACTABLE) == Ok(x), "protection", "{what}: extractable {:?}", b(CKA_EXTRACTABLE)); }
    ensure!(b(CKA_LOCAL) == Ok(false) && b(CKA_ALWAYS_SENSITIVE) == Ok(false) && b(CKA_NEVER_EXTRACTABLE) == Ok(false), "provenance",
        "{what}: local {:?} always sensitive {:?} never extractable {:?}", b(CKA_LOCAL), b(CKA_ALWAYS_SENSITIVE), b(CKA_NEVER_EXTRACTABLE));
    if c.label { ensure!(p.get1(s, o, CKA_LABEL).as_deref() == Ok(b"unwrapped") && p.get1(s, o, CKA_ID).as_deref() == Ok(&[3, 4]), "template", "{what}: label or id of the template lost"); }
    same(p, s, o, &c.t, b(CKA_SENSITIVE) == Ok(false) && b(CKA_EXTRACTABLE) == Ok(true), &what)?;
    p.destroy(s, o);
    ensure!(nobj(p, s) == before, "leftover", "{what}: more than one object was created");
    cx.hit(&format!("{} / {}", match &c.w { Wrap::Aes(w) => format!("{:?}", w.mode), Wrap::Rsa { enc, .. } => if *enc == RsaEnc::Pkcs { "RSA PKCS".into() } else { "RSA OAEP".into() } }, match &c.t { Target::Generic(_) => "generic", Target::Aes(_) => "AES", Target::Mac(..) => "HMAC", Target::Rsa(_) => "RSA", Target::Ec(..) => "EC", Target::Mont(..) => "Montgomery" }));
    cx.nt();
    Ok(())
}

// ------------------------------------------------ plaintexts that are no key
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad { Raw(Hx), Cut(u16), Trail(Hx), Swap(u8), EcLen(i8), EcZero, Version, Empty, /// one byte of the encoding
    Byte(u16, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase { t: Target, bad: Bad, key: Hx }
fn bads() -> BoxedStrategy<BadCase> {
    let bad = prop_oneof![2 => hx(1..=90usize).prop_map(Bad::Raw), 2 => any::<u16>().prop_map(Bad::Cut), 1 => hx(1..=20usize).prop_map(Bad::Trail), 1 => (0u8..3).prop_map(Bad::Swap), 2 => prop_oneof![Just(-1i8), Just(1), -30i8..30].prop_map(Bad::EcLen),
        1 => Just(Bad::EcZero), 1 => Just(Bad::Version), 3 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Bad::Byte(a, b))];
    (target(), bad, aeskey()).prop_map(|(t, bad, key)| BadCase { t, bad, key }).boxed()
}
fn run_bad(c: &BadCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let enc = c.t.encode();
    let private = c.t.class() == CKO_PRIVATE_KEY;
    // true: must be refused; none: up to the library
    let (plain, refuse): (Vec<u8>, bool) = match (&c.bad, &c.t) {
        (Bad::Raw(v), _) => (v.0.clone(), match &c.t { Target::Aes(_) => !matches!(v.len(), 16 | 24 | 32), Target::Generic(_) | Target::Mac(..) => return Ok(()), _ => true }),
        (Bad::Cut(x), _) if private => (enc[..1 + *x as usize % (enc.len() - 1)].to_vec(), true),
        (Bad::Trail(v), _) if private && v.iter().any(|b| *b != 0) => ([&enc[..], v].concat(), true),
        (Bad::Swap(n), Target::Rsa(_)) => (Target::Ec(*n, Hx(vec![5; 66])).encode(), true),
        (Bad::Swap(n), Target::Ec(..)) => (if *n == 0 { Target::Rsa(0) } else { Target::Mont(*n == 1, Hx(vec![5; if *n == 1 { 56 } else { 32 }])) }.encode(), true),
        (Bad::Swap(n), Target::Mont(..)) => (if *n == 0 { Target::Rsa(0) } else { Target::Ec(*n, Hx(vec![5; 66])) }.encode(), true),
        (Bad::EcLen(d), Target::Ec(cu, v)) => {
            let cv = &curves()[*cu as usize];
            let mut k = ec_d(*cu, v);
            let n = (k.len() as i64 + *d as i64).max(0) as usize;
            k.resize(n, 7);
            (pkcs8(&[&EC_OID[..], &cv.oid].concat(), &tlv(0x30, &[vec![2, 1, 1], tlv(4, &k)].concat())), n > cv.flen() || n == 0)
        }
        (Bad::EcLen(d), Target::Mont(x, v)) => {
            let mut k = v.to_vec();
            let n = (k.len() as i64 + *d as i64).max(0) as usize;
            k.resize(n, 7);
            (pkcs8(&mont_oid(*x), &tlv(4, &k)), !matches!(*d, 0 | -2)) // -2: a bare key, the encoding of older versions
        }
        (Bad::EcZero, Target::Ec(cu, _)) => { let cv = &curves()[*cu as usize]; (pkcs8(&[&EC_OID[..], &cv.oid].concat(), &tlv(0x30, &[vec![2, 1, 1], tlv(4, &[])].concat())), true) }
        (Bad::Byte(a, b), _) if private => { let mut e = enc.clone(); let i = *a as usize % e.len(); e[i] ^= b; (e, false) }
        _ => return Ok(()),
    };
    let w = Ciph { mode: Mode::Kwp, key: c.key.clone(), iv: Hx(vec![]), aad: Hx(vec![]), n: 0 };
    let blob = w.enc(&plain);
    let k = aes_obj(p, s, &c.key);
    let before = nobj(p, s);
    let t = tm! { CKA_CLASS => c.t.class(), CKA_KEY_TYPE => c.t.kt(), CKA_TOKEN => false, CKA_SIGN => c.t.kt() == CKK_RSA || c.t.kt() == CKK_EC };
    let (rv, o) = p.unwrap(s, &w.mech(plain.len()), k, &blob, &t);
    if rv == CKR_OK {
        ensure!(!refuse, "bad-key-accepted", "unwrapping {} as {} ({:?}) succeeded", hex(&plain), c.t.name(), c.bad);
        // whatever it is, using it must not hurt
        if c.t.kt() == CKK_RSA { let _ = p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), o, b"x"); }
        if c.t.kt() == CKK_EC { let _ = p.sig(s, &Mech::new(CKM_ECDSA_SHA256), o, b"x"); }
        p.destroy(s, o);
        cx.hit("odd encoding accepted");
    } else { cx.hit("refused"); }
    ensure!(nobj(p, s) == before, "leftover", "unwrapping {} as {}: {} and an object is left", hex(&plain), c.t.name(), rvname(rv));
    cx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19", level: "exploration", workers: 8, hang_s: 60,
        rule: "a key was wrapped, its blob compared with the reference and the key restored and used, or an altered blob of an integrity protected mechanism was refused, or a malformed key encoding was unwrapped",
        assumptions: &["reference AES modes, RSA and DER encoders of harness/refc and this file", "the defaults of CKA_SENSITIVE and CKA_EXTRACTABLE of unwrapped keys are not judged", "unwrapping with CKA_VALUE_LEN below the key length may be refused or truncate"],
        groups: vec![
            gen_("wrap", 12000, 600_000, cases, run),
            gen_("malformed", 4000, 120_000, bads, run_bad),
        ],
    }
}
