//! Short Weierstrass curves (affine, BigUint) and the RFC 7748 ladder.
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Zero};
#[derive(Clone, Debug)]
pub struct Curve { pub name: &'static str, pub p: BigUint, pub a: BigUint, pub b: BigUint, pub n: BigUint, pub g: (BigUint, BigUint), pub oid: Vec<u8>, pub bits: usize }
fn h(s: &str) -> BigUint { BigUint::parse_bytes(s.replace(' ', "").as_bytes(), 16).unwrap() }
pub type Pt = Option<(BigUint, BigUint)>;
pub fn p256() -> Curve { Curve { name: "P-256", bits: 256,
    p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
    a: h("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
    b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
    n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
    g: (h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
    oid: vec![6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7] } }
pub fn p384() -> Curve { Curve { name: "P-384", bits: 384,
    p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
    a: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc"),
    b: h("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
    n: h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
    g: (h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"), h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")),
    oid: vec![6, 5, 0x2b, 0x81, 4, 0, 0x22] } }
pub fn p521() -> Curve { Curve { name: "P-521", bits: 521,
    p: (BigUint::one() << 521u32) - 1u8,
    a: (BigUint::one() << 521u32) - 4u8,
    b: h("0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
    n: h("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
    g: (h("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"), h("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")),
    oid: vec![6, 5, 0x2b, 0x81, 4, 0, 0x23] } }
pub fn all() -> Vec<Curve> { vec![p256(), p384(), p521()] }
pub fn inv(a: &BigUint, m: &BigUint) -> BigUint {
    let (a, mi) = (BigInt::from(a % m), BigInt::from(m.clone()));
    let e = a.extended_gcd(&mi);
    e.x.mod_floor(&mi).to_biguint().unwrap()
}
impl Curve {
    pub fn flen(&self) -> usize { self.bits.div_ceil(8) }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint { (a + &self.p - (b % &self.p)) % &self.p }
    pub fn on(&self, q: &(BigUint, BigUint)) -> bool {
        let (x, y) = q;
        if x >= &self.p || y >= &self.p { return false; }
        (y * y) % &self.p == (x * x * x + &self.a * x + &self.b) % &self.p
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let (Some((x1, y1)), Some((x2, y2))) = (p, q) else { return if p.is_none() { q.clone() } else { p.clone() } };
        let l = if x1 == x2 {
            if ((y1 + y2) % &self.p).is_zero() { return None; }
            (x1 * x1 * 3u8 + &self.a) * inv(&(y1 * 2u8), &self.p) % &self.p
        } else { self.sub(y2, y1) * inv(&self.sub(x2, x1), &self.p) % &self.p };
        let x3 = self.sub(&self.sub(&(&l * &l % &self.p), x1), x2);
        let y3 = self.sub(&(&l * self.sub(x1, &x3) % &self.p), y1);
        Some((x3, y3))
    }
    // Jacobian arithmetic for speed
    fn jdbl(&self, p: &(BigUint, BigUint, BigUint)) -> (BigUint, BigUint, BigUint) {
        let (x, y, z) = p; let m = &self.p;
        if z.is_zero() { return p.clone(); }
        let yy = y * y % m; let s = x * &yy * 4u8 % m; let zz = z * z % m;
        let mm = (x * x * 3u8 + &self.a * (&zz * &zz % m)) % m;
        let x3 = self.sub(&(&mm * &mm % m), &(&s * 2u8));
        let y3 = self.sub(&(&mm * self.sub(&s, &x3) % m), &(&yy * &yy * 8u8 % m));
        (x3, y3, y * z * 2u8 % m)
    }
    fn jadd(&self, p: &(BigUint, BigUint, BigUint), q: &(BigUint, BigUint, BigUint)) -> (BigUint, BigUint, BigUint) {
        if p.2.is_zero() { return q.clone(); }
        if q.2.is_zero() { return p.clone(); }
        let m = &self.p;
        let z1 = &p.2 * &p.2 % m; let z2 = &q.2 * &q.2 % m;
        let u1 = &p.0 * &z2 % m; let u2 = &q.0 * &z1 % m;
        let s1 = &p.1 * &q.2 % m * &z2 % m; let s2 = &q.1 * &p.2 % m * &z1 % m;
        if u1 == u2 { if s1 == s2 { return self.jdbl(p); } return (BigUint::one(), BigUint::one(), BigUint::zero()); }
        let hh = self.sub(&u2, &u1); let r = self.sub(&s2, &s1);
        let h2 = &hh * &hh % m; let h3 = &h2 * &hh % m; let v = &u1 * &h2 % m;
        let x3 = self.sub(&self.sub(&(&r * &r % m), &h3), &(&v * 2u8));
        let y3 = self.sub(&(&r * self.sub(&v, &x3) % m), &(&s1 * &h3 % m));
        (x3, y3, &p.2 * &q.2 % m * &hh % m)
    }
    pub fn mul(&self, k: &BigUint, q: &(BigUint, BigUint)) -> Pt {
        let qj = (q.0.clone(), q.1.clone(), BigUint::one());
        let mut r = (BigUint::one(), BigUint::one(), BigUint::zero());
        for i in (0..k.bits()).rev() { r = self.jdbl(&r); if k.bit(i) { r = self.jadd(&r, &qj); } }
        if r.2.is_zero() { return None; }
        let zi = inv(&r.2, &self.p); let z2 = &zi * &zi % &self.p;
        Some((&r.0 * &z2 % &self.p, &r.1 * &z2 % &self.p * &zi % &self.p))
    }
    pub fn pubkey(&self, d: &BigUint) -> (BigUint, BigUint) { self.mul(d, &self.g).unwrap() }
    pub fn enc(&self, q: &(BigUint, BigUint)) -> Vec<u8> { let l = self.flen(); [vec![4], crate::rsa::i2osp(&q.0, l), crate::rsa::i2osp(&q.1, l)].concat() }
    pub fn enc_comp(&self, q: &(BigUint, BigUint)) -> Vec<u8> { [vec![2 + q.1.bit(0) as u8], crate::rsa::i2osp(&q.0, self.flen())].concat() }
    pub fn dec(&self, b: &[u8]) -> Option<(BigUint, BigUint)> {
        let l = self.flen();
        if b.len() != 1 + 2 * l || b[0] != 4 { return None; }
        let q = (crate::rsa::os2ip(&b[1..1 + l]), crate::rsa::os2ip(&b[1 + l..]));
        if self.on(&q) { Some(q) } else { None }
    }
    fn bits2int(&self, hash: &[u8]) -> BigUint {
        let z = crate::rsa::os2ip(hash);
        let hb = hash.len() * 8; let nb = self.n.bits() as usize;
        if hb > nb { z >> (hb - nb) } else { z }
    }
    pub fn ecdsa_verify(&self, q: &(BigUint, BigUint), hash: &[u8], sig: &[u8]) -> bool {
        let l = self.n.bits().div_ceil(8) as usize;
        if sig.len() != 2 * l { return false; }
        let (r, s) = (crate::rsa::os2ip(&sig[..l]), crate::rsa::os2ip(&sig[l..]));
        if r.is_zero() || s.is_zero() || r >= self.n || s >= self.n { return false; }
        let w = inv(&s, &self.n); let z = self.bits2int(hash);
        let u1 = &z * &w % &self.n; let u2 = &r * &w % &self.n;
        match self.add(&self.mul(&u1, &self.g), &self.mul(&u2, q)) { None => false, Some((x, _)) => x % &self.n == r }
    }
    pub fn ecdsa_sign(&self, d: &BigUint, hash: &[u8], k: &BigUint) -> Option<Vec<u8>> {
        let (x, _) = self.mul(k, &self.g)?;
        let r = x % &self.n; if r.is_zero() { return None; }
        let s = inv(k, &self.n) * (self.bits2int(hash) + &r * d) % &self.n;
        if s.is_zero() { return None; }
        let l = self.n.bits().div_ceil(8) as usize;
        Some([crate::rsa::i2osp(&r, l), crate::rsa::i2osp(&s, l)].concat())
    }
}
/// X25519 (len 32) / X448 (len 56)
pub fn montgomery(k: &[u8], u: &[u8]) -> Vec<u8> {
    let x25 = k.len() == 32;
    let bits = if x25 { 255u64 } else { 448 };
    let p = if x25 { (BigUint::one() << 255u32) - 19u8 } else { (BigUint::one() << 448u32) - (BigUint::one() << 224u32) - 1u8 };
    let a24 = BigUint::from(if x25 { 121665u32 } else { 39081 });
    let mut kk = k.to_vec();
    if x25 { kk[0] &= 248; kk[31] &= 127; kk[31] |= 64; } else { kk[0] &= 252; kk[55] |= 128; }
    let mut uu = u.to_vec();
    if x25 { uu[31] &= 127; }
    let ks = BigUint::from_bytes_le(&kk);
    let x1 = BigUint::from_bytes_le(&uu) % &p;
    let sub = |a: &BigUint, b: &BigUint| (a + &p - (b % &p)) % &p;
    let (mut x2, mut z2, mut x3, mut z3) = (BigUint::one(), BigUint::zero(), x1.clone(), BigUint::one());
    let mut swap = false;
    for t in (0..bits).rev() {
        let kt = ks.bit(t);
        if swap != kt { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
        swap = kt;
        let a = (&x2 + &z2) % &p; let aa = &a * &a % &p; let b = sub(&x2, &z2); let bb = &b * &b % &p; let e = sub(&aa, &bb);
        let c = (&x3 + &z3) % &p; let d = sub(&x3, &z3); let da = &d * &a % &p; let cb = &c * &b % &p;
        let s = (&da + &cb) % &p; x3 = &s * &s % &p;
        let t = sub(&da, &cb); z3 = &x1 * (&t * &t % &p) % &p;
        x2 = &aa * &bb % &p; z2 = &e * ((&aa + &a24 * &e) % &p) % &p;
    }
    if swap { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
    let r = &x2 * z2.modpow(&(&p - 2u8), &p) % &p;
    let mut o = r.to_bytes_le(); o.resize(k.len(), 0); o
}
#[cfg(test)]
mod t {
    use super::*;
    #[test] fn params() { for c in all() { assert!(c.on(&c.g)); assert!(c.mul(&c.n, &c.g).is_none(), "{}", c.name); } }
    #[test] fn x() {
        // base point ladder agrees both ways
        let (a, b) = ([7u8; 32], [9u8; 32]); let mut g = [0u8; 32]; g[0] = 9;
        assert_eq!(montgomery(&a, &montgomery(&b, &g)), montgomery(&b, &montgomery(&a, &g)));
        let (a, b) = ([7u8; 56], [9u8; 56]); let mut g = [0u8; 56]; g[0] = 5;
        assert_eq!(montgomery(&a, &montgomery(&b, &g)), montgomery(&b, &montgomery(&a, &g)));
    }
}
