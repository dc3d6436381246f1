//! AES from FIPS 197 and the modes from SP 800-38x, RFC 3394/5649.
fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a; } a = xt(a); b >>= 1; } r }
struct T { s: [u8; 256], i: [u8; 256] }
fn tabs() -> &'static T {
    use std::sync::OnceLock;
    static S: OnceLock<T> = OnceLock::new();
    S.get_or_init(|| {
        let mut t = T { s: [0; 256], i: [0; 256] };
        for x in 0..256usize {
            let inv = if x == 0 { 0 } else { (1..=255u8).find(|y| mul(x as u8, *y) == 1).unwrap() };
            let mut r = 0x63;
            for k in 0..5 { r ^= inv.rotate_left(k); }
            t.s[x] = r; t.i[r as usize] = x as u8;
        }
        t
    })
}
pub type B = [u8; 16];
pub struct Aes { rk: Vec<B> }
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tabs();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 { x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]]; rc = xt(rc); }
            else if nk > 6 && i % nk == 4 { x = x.map(|b| t.s[b as usize]); }
            let p = w[i - nk];
            w.push([x[0] ^ p[0], x[1] ^ p[1], x[2] ^ p[2], x[3] ^ p[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn enc(&self, b: &B) -> B {
        let t = tabs();
        let mut s = xor(b, &self.rk[0]);
        let n = self.rk.len() - 1;
        for r in 1..=n {
            let mut o = [0u8; 16];
            for c in 0..4 { for i in 0..4 { o[4 * c + i] = t.s[s[4 * ((c + i) % 4) + i] as usize]; } }
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = o[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 { o[4 * c + i] = xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]; }
                }
            }
            s = xor(&o, &self.rk[r]);
        }
        s
    }
    pub fn dec(&self, b: &B) -> B {
        let t = tabs();
        let n = self.rk.len() - 1;
        let mut s = *b;
        for r in (1..=n).rev() {
            s = xor(&s, &self.rk[r]);
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 { s[4 * c + i] = mul(a[i], 14) ^ mul(a[(i + 1) % 4], 11) ^ mul(a[(i + 2) % 4], 13) ^ mul(a[(i + 3) % 4], 9); }
                }
            }
            let mut o = [0u8; 16];
            for c in 0..4 { for i in 0..4 { o[4 * ((c + i) % 4) + i] = t.i[s[4 * c + i] as usize]; } }
            s = o;
        }
        xor(&s, &self.rk[0])
    }
}
pub fn xor(a: &B, b: &B) -> B { let mut o = [0; 16]; for i in 0..16 { o[i] = a[i] ^ b[i]; } o }
fn blk(d: &[u8]) -> B { d.try_into().unwrap() }
pub fn ecb(key: &[u8], d: &[u8], e: bool) -> Vec<u8> { let a = Aes::new(key); d.chunks(16).flat_map(|c| if e { a.enc(&blk(c)) } else { a.dec(&blk(c)) }).collect() }
pub fn cbc_enc(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let a = Aes::new(key); let mut p = blk(iv); let mut o = vec![];
    for c in d.chunks(16) { p = a.enc(&xor(&blk(c), &p)); o.extend(p); }
    o
}
pub fn cbc_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let a = Aes::new(key); let mut p = blk(iv); let mut o = vec![];
    for c in d.chunks(16) { o.extend(xor(&a.dec(&blk(c)), &p)); p = blk(c); }
    o
}
pub fn pad(d: &[u8]) -> Vec<u8> { let n = 16 - d.len() % 16; let mut v = d.to_vec(); v.resize(d.len() + n, n as u8); v }
pub fn unpad(d: &[u8]) -> Option<Vec<u8>> {
    let n = *d.last()? as usize;
    if n == 0 || n > 16 || n > d.len() || d[d.len() - n..].iter().any(|b| *b as usize != n) { return None; }
    Some(d[..d.len() - n].to_vec())
}
/// the low `bits` bits of the block are the counter. None when the counter would wrap
pub fn ctr(key: &[u8], cb: &[u8], bits: u32, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(key);
    let c0 = u128::from_be_bytes(blk(cb));
    let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut o = Vec::with_capacity(d.len());
    for (i, c) in d.chunks(16).enumerate() {
        let v = (c0 & !mask) | ((c0 & mask).wrapping_add(i as u128) & mask);
        let k = a.enc(&v.to_be_bytes());
        o.extend(c.iter().zip(k).map(|(x, y)| x ^ y));
    }
    o
}
pub fn ofb(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let a = Aes::new(key); let mut p = blk(iv); let mut o = vec![];
    for c in d.chunks(16) { p = a.enc(&p); o.extend(c.iter().zip(p).map(|(x, y)| x ^ y)); }
    o
}
pub fn cfb8(key: &[u8], iv: &[u8], d: &[u8], e: bool) -> Vec<u8> {
    let a = Aes::new(key); let mut r = iv.to_vec(); let mut o = vec![];
    for &b in d { let k = a.enc(&blk(&r)); let c = b ^ k[0]; o.push(c); r.remove(0); r.push(if e { c } else { b }); }
    o
}
pub fn cfb128(key: &[u8], iv: &[u8], d: &[u8], e: bool) -> Vec<u8> {
    let a = Aes::new(key); let mut p = blk(iv); let mut o = vec![];
    for c in d.chunks(16) {
        let k = a.enc(&p);
        let x: Vec<u8> = c.iter().zip(k).map(|(x, y)| x ^ y).collect();
        if c.len() == 16 { p = if e { blk(&x) } else { blk(c) }; }
        o.extend(x);
    }
    o
}
/// bit-wise CFB over whole bytes, most significant bit first
pub fn cfb1(key: &[u8], iv: &[u8], d: &[u8], e: bool) -> Vec<u8> {
    let a = Aes::new(key); let mut r = u128::from_be_bytes(blk(iv)); let mut o = vec![];
    for &b in d {
        let mut ob = 0u8;
        for i in (0..8).rev() {
            let bit = (b >> i) & 1;
            let k = a.enc(&r.to_be_bytes())[0] >> 7;
            let c = bit ^ k;
            ob |= c << i;
            r = (r << 1) | (if e { c } else { bit }) as u128;
        }
        o.push(ob);
    }
    o
}
/// CBC-CS1 (SP 800-38A addendum)
pub fn cts_enc(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let m = d.len() % 16;
    if m == 0 { return cbc_enc(key, iv, d); }
    let mut p = d.to_vec(); p.resize(d.len() + 16 - m, 0);
    let c = cbc_enc(key, iv, &p);
    let n = c.len();
    let mut o = c[..n - 32 + m].to_vec();
    o.extend_from_slice(&c[n - 16..]);
    o
}
pub fn cts_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let m = d.len() % 16;
    if m == 0 { return cbc_dec(key, iv, d); }
    let n = d.len();
    let last = &d[n - 16..];
    let z = Aes::new(key).dec(&blk(last));
    let mut prev = d[n - 16 - m..n - 16].to_vec();
    prev.extend_from_slice(&z[m..]);
    let mut c = d[..n - 16 - m].to_vec();
    c.extend_from_slice(&prev);
    c.extend_from_slice(last);
    let mut o = cbc_dec(key, iv, &c);
    o.truncate(n);
    o
}
fn gmul(x: u128, y: u128) -> u128 {
    let mut z = 0u128; let mut v = y;
    for i in (0..128).rev() {
        if (x >> i) & 1 == 1 { z ^= v; }
        let l = v & 1; v >>= 1;
        if l == 1 { v ^= 0xe1u128 << 120; }
    }
    z
}
fn ghash(h: u128, parts: &[&[u8]]) -> u128 {
    let mut y = 0u128;
    for p in parts { for c in p.chunks(16) { let mut b = [0u8; 16]; b[..c.len()].copy_from_slice(c); y = gmul(y ^ u128::from_be_bytes(b), h); } }
    y
}
fn inc32(b: B) -> B { let mut o = b; let c = u32::from_be_bytes(b[12..].try_into().unwrap()).wrapping_add(1); o[12..].copy_from_slice(&c.to_be_bytes()); o }
fn gcm_core(key: &[u8], iv: &[u8], aad: &[u8], d: &[u8], e: bool) -> (Vec<u8>, B) {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.enc(&[0; 16]));
    let j0: B = if iv.len() == 12 { let mut b = [0; 16]; b[..12].copy_from_slice(iv); b[15] = 1; b } else {
        let l = ((iv.len() as u128) * 8).to_be_bytes();
        ghash(h, &[iv, &l]).to_be_bytes()
    };
    let mut c = inc32(j0); let mut o = vec![];
    for b in d.chunks(16) { let k = a.enc(&c); o.extend(b.iter().zip(k).map(|(x, y)| x ^ y)); c = inc32(c); }
    let ct: &[u8] = if e { &o } else { d };
    let l = (((aad.len() as u128) * 8) << 64 | (ct.len() as u128) * 8).to_be_bytes();
    let s = ghash(h, &[aad, ct, &l]).to_be_bytes();
    let t = xor(&s, &a.enc(&j0));
    (o, t)
}
pub fn gcm_enc(key: &[u8], iv: &[u8], aad: &[u8], d: &[u8], tag: usize) -> Vec<u8> { let (mut o, t) = gcm_core(key, iv, aad, d, true); o.extend_from_slice(&t[..tag]); o }
pub fn gcm_dec(key: &[u8], iv: &[u8], aad: &[u8], d: &[u8], tag: usize) -> Option<Vec<u8>> {
    if d.len() < tag { return None; }
    let (c, t0) = d.split_at(d.len() - tag);
    let (o, t) = gcm_core(key, iv, aad, c, false);
    if &t[..tag] == t0 { Some(o) } else { None }
}
fn ccm_mac(a: &Aes, nonce: &[u8], aad: &[u8], d: &[u8], tag: usize) -> B {
    let q = 15 - nonce.len();
    let mut b0 = [0u8; 16];
    b0[0] = (if aad.is_empty() { 0 } else { 0x40 }) | (((tag - 2) / 2) as u8) << 3 | (q - 1) as u8;
    b0[1..1 + nonce.len()].copy_from_slice(nonce);
    let l = (d.len() as u128).to_be_bytes();
    b0[16 - q..].copy_from_slice(&l[16 - q..]);
    let mut y = a.enc(&b0);
    if !aad.is_empty() {
        let mut v = if aad.len() < 0xff00 { (aad.len() as u16).to_be_bytes().to_vec() } else { let mut v = vec![0xff, 0xfe]; v.extend((aad.len() as u32).to_be_bytes()); v };
        v.extend_from_slice(aad);
        while v.len() % 16 != 0 { v.push(0); }
        for c in v.chunks(16) { y = a.enc(&xor(&y, &blk(c))); }
    }
    for c in d.chunks(16) { let mut b = [0; 16]; b[..c.len()].copy_from_slice(c); y = a.enc(&xor(&y, &b)); }
    y
}
fn ccm_ctr(a: &Aes, nonce: &[u8], i: u128) -> B {
    let q = 15 - nonce.len();
    let mut b = i.to_be_bytes();
    b[0] = (q - 1) as u8;
    b[1..1 + nonce.len()].copy_from_slice(nonce);
    a.enc(&b)
}
pub fn ccm_enc(key: &[u8], nonce: &[u8], aad: &[u8], d: &[u8], tag: usize) -> Vec<u8> {
    let a = Aes::new(key);
    let m = xor(&ccm_mac(&a, nonce, aad, d, tag), &ccm_ctr(&a, nonce, 0));
    let mut o = vec![];
    for (i, c) in d.chunks(16).enumerate() { let k = ccm_ctr(&a, nonce, i as u128 + 1); o.extend(c.iter().zip(k).map(|(x, y)| x ^ y)); }
    o.extend_from_slice(&m[..tag]);
    o
}
pub fn cmac(key: &[u8], d: &[u8]) -> B {
    let a = Aes::new(key);
    let dbl = |b: B| { let v = u128::from_be_bytes(b); ((v << 1) ^ if v >> 127 == 1 { 0x87 } else { 0 }).to_be_bytes() };
    let k1 = dbl(a.enc(&[0; 16])); let k2 = dbl(k1);
    let n = d.len().div_ceil(16).max(1);
    let mut y = [0u8; 16];
    for i in 0..n - 1 { y = a.enc(&xor(&y, &blk(&d[16 * i..16 * i + 16]))); }
    let l = &d[16 * (n - 1)..];
    let mut b = [0u8; 16];
    b[..l.len()].copy_from_slice(l);
    let k = if l.len() == 16 { k1 } else { b[l.len()] = 0x80; k2 };
    a.enc(&xor(&xor(&y, &b), &k))
}
/// CBC-MAC with zero padding (CKM_AES_MAC)
pub fn cbcmac(key: &[u8], d: &[u8]) -> B {
    let a = Aes::new(key); let mut y = [0u8; 16];
    for c in d.chunks(16) { let mut b = [0; 16]; b[..c.len()].copy_from_slice(c); y = a.enc(&xor(&y, &b)); }
    y
}
fn kw_w(a: &Aes, s: &[u8]) -> Vec<u8> {
    let n = s.len() / 8 - 1;
    let mut r: Vec<[u8; 8]> = s.chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in 0..6 { for i in 1..=n {
        let b = a.enc(&blk(&[r[0], r[i]].concat()));
        let t = (n * j + i) as u64;
        r[0] = (u64::from_be_bytes(b[..8].try_into().unwrap()) ^ t).to_be_bytes();
        r[i] = b[8..].try_into().unwrap();
    } }
    r.concat()
}
fn kw_u(a: &Aes, s: &[u8]) -> Vec<u8> {
    let n = s.len() / 8 - 1;
    let mut r: Vec<[u8; 8]> = s.chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in (0..6).rev() { for i in (1..=n).rev() {
        let t = (n * j + i) as u64;
        let x = (u64::from_be_bytes(r[0]) ^ t).to_be_bytes();
        let b = a.dec(&blk(&[x, r[i]].concat()));
        r[0] = b[..8].try_into().unwrap();
        r[i] = b[8..].try_into().unwrap();
    } }
    r.concat()
}
pub fn kw(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> { kw_w(&Aes::new(key), &[iv, d].concat()) }
pub fn kw_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 24 || d.len() % 8 != 0 { return None; }
    let r = kw_u(&Aes::new(key), d);
    if &r[..8] == iv { Some(r[8..].to_vec()) } else { None }
}
pub fn kwp(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let mut s = [iv, &(d.len() as u32).to_be_bytes(), d].concat();
    while s.len() % 8 != 0 { s.push(0); }
    let a = Aes::new(key);
    if s.len() == 16 { a.enc(&blk(&s)).to_vec() } else { kw_w(&a, &s) }
}
pub fn kwp_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 16 || d.len() % 8 != 0 { return None; }
    let a = Aes::new(key);
    let r = if d.len() == 16 { a.dec(&blk(d)).to_vec() } else { kw_u(&a, d) };
    let n = u32::from_be_bytes(r[4..8].try_into().unwrap()) as usize;
    if &r[..4] != iv { return None; }
    let p = r.len() - 8;
    if n > p || n + 8 <= p || r[8 + n..].iter().any(|b| *b != 0) { return None; }
    Some(r[8..8 + n].to_vec())
}
#[cfg(test)]
mod t {
    fn h(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
    #[test] fn fips197() {
        let pt = h("00112233445566778899aabbccddeeff");
        assert_eq!(super::ecb(&h("000102030405060708090a0b0c0d0e0f"), &pt, true), h("69c4e0d86a7b0430d8cdb78070b4c55a"));
        assert_eq!(super::ecb(&h("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"), &pt, true), h("8ea2b7ca516745bfeafc49904b496089"));
        for l in [16, 24, 32] { let k: Vec<u8> = (0..l).collect(); assert_eq!(super::ecb(&k, &super::ecb(&k, &pt, true), false), pt); }
    }
}
