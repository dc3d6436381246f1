#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H { Sha1, Sha224, Sha256, Sha384, Sha512, Sha512_224, Sha512_256, Sha3_224, Sha3_256, Sha3_384, Sha3_512 }
pub const ALL: [H; 11] = [H::Sha1, H::Sha224, H::Sha256, H::Sha384, H::Sha512, H::Sha512_224, H::Sha512_256, H::Sha3_224, H::Sha3_256, H::Sha3_384, H::Sha3_512];

impl H {
    pub fn len(self) -> usize {
        use H::*;
        match self { Sha1 => 20, Sha224 | Sha512_224 | Sha3_224 => 28, Sha256 | Sha512_256 | Sha3_256 => 32, Sha384 | Sha3_384 => 48, Sha512 | Sha3_512 => 64 }
    }
    pub fn block(self) -> usize {
        use H::*;
        match self { Sha1 | Sha224 | Sha256 => 64, Sha384 | Sha512 | Sha512_224 | Sha512_256 => 128, Sha3_224 => 144, Sha3_256 => 136, Sha3_384 => 104, Sha3_512 => 72 }
    }
    pub fn hash(self, d: &[u8]) -> Vec<u8> {
        use H::*;
        match self {
            Sha1 => sha1(d),
            Sha224 => sha256(d, [0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4], 28),
            Sha256 => sha256(d, [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19], 32),
            Sha384 => sha512(d, [0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4], 48),
            Sha512 => sha512(d, IV512, 64),
            Sha512_224 => sha512t(d, 224),
            Sha512_256 => sha512t(d, 256),
            Sha3_224 | Sha3_256 | Sha3_384 | Sha3_512 => sha3(d, self.len()),
        }
    }
}
fn pad(d: &[u8], blk: usize, lenbytes: usize) -> Vec<u8> {
    let mut v = d.to_vec();
    v.push(0x80);
    while v.len() % blk != blk - lenbytes { v.push(0); }
    let bits = (d.len() as u128) * 8;
    v.extend_from_slice(&bits.to_be_bytes()[16 - lenbytes..]);
    v
}
fn sha1(d: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for b in pad(d, 64, 8).chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 { w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
        let [mut a, mut bb, mut c, mut dd, mut e] = h;
        for i in 0..80 {
            let (f, k) = match i / 20 { 0 => ((bb & c) | (!bb & dd), 0x5a827999u32), 1 => (bb ^ c ^ dd, 0x6ed9eba1), 2 => ((bb & c) | (bb & dd) | (c & dd), 0x8f1bbcdc), _ => (bb ^ c ^ dd, 0xca62c1d6) };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = dd; dd = c; c = bb.rotate_left(30); bb = a; a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, dd, e]) { *x = x.wrapping_add(y); }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
/// first 64 bits of the fractional part of cube roots of the first 80 primes
fn k512() -> &'static [u64; 80] {
    use std::sync::OnceLock;
    static K: OnceLock<[u64; 80]> = OnceLock::new();
    K.get_or_init(|| {
        use num_bigint::BigUint;
        let mut k = [0u64; 80];
        let mut p = 2u64; let mut n = 0;
        while n < 80 {
            if (2..p).take_while(|q| q * q <= p).all(|q| p % q != 0) {
                // floor(cbrt(p) * 2^64) mod 2^64
                let x = BigUint::from(p) << 192u32;
                let r = x.cbrt();
                k[n] = (&r % (BigUint::from(1u8) << 64u32)).iter_u64_digits().next().unwrap_or(0);
                n += 1;
            }
            p += 1;
        }
        k
    })
}
fn sha256(d: &[u8], iv: [u32; 8], out: usize) -> Vec<u8> {
    let k = k512();
    let mut h = iv;
    for b in pad(d, 64, 8).chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 { w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((k[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let o: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    o[..out].to_vec()
}
const IV512: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
fn sha512(d: &[u8], iv: [u64; 8], out: usize) -> Vec<u8> {
    let k = k512();
    let mut h = iv;
    for b in pad(d, 128, 16).chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 { w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let o: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    o[..out].to_vec()
}
fn sha512t(d: &[u8], t: usize) -> Vec<u8> {
    let iv = IV512.map(|x| x ^ 0xa5a5a5a5a5a5a5a5);
    let g = sha512(format!("SHA-512/{t}").as_bytes(), iv, 64);
    let mut iv2 = [0u64; 8];
    for i in 0..8 { iv2[i] = u64::from_be_bytes(g[8 * i..8 * i + 8].try_into().unwrap()); }
    sha512(d, iv2, t / 8)
}
fn keccak(s: &mut [u64; 25]) {
    // round constants by LFSR, rotations by the t-recurrence
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20]; }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { s[x + 5 * y] ^= d; } }
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = s[x + 5 * y];
        for t in 0..24u32 {
            let ny = (2 * x + 3 * y) % 5; x = y; y = ny;
            let tmp = s[x + 5 * y];
            s[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
        }
        for y in 0..5 {
            let r: [u64; 5] = s[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 { s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 { s[0] ^= 1u64 << ((1u32 << j) - 1); }
            let hi = lfsr & 0x80 != 0;
            lfsr <<= 1;
            if hi { lfsr ^= 0x71; }
        }
    }
}
fn sha3(d: &[u8], out: usize) -> Vec<u8> {
    let rate = 200 - 2 * out;
    let mut v = d.to_vec();
    v.push(6);
    while v.len() % rate != 0 { v.push(0); }
    *v.last_mut().unwrap() |= 0x80;
    let mut s = [0u64; 25];
    for b in v.chunks(rate) {
        for (i, w) in b.chunks(8).enumerate() { s[i] ^= u64::from_le_bytes(w.try_into().unwrap()); }
        keccak(&mut s);
    }
    let o: Vec<u8> = s.iter().flat_map(|x| x.to_le_bytes()).collect();
    o[..out].to_vec()
}
pub fn hmac(h: H, key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.hash(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(d);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&h.hash(&i));
    h.hash(&o)
}
pub fn hotp(key: &[u8], counter: u64, digits: u32) -> String { hotp_with(H::Sha1, key, counter, digits) }
/// RFC 4226 value with another hash (RFC 6238)
pub fn hotp_with(h: H, key: &[u8], counter: u64, digits: u32) -> String {
    let m = hmac(h, key, &counter.to_be_bytes());
    let o = (m[m.len() - 1] & 15) as usize;
    let v = u32::from_be_bytes(m[o..o + 4].try_into().unwrap()) & 0x7fffffff;
    format!("{:0w$}", (v as u64) % 10u64.pow(digits), w = digits as usize)
}
