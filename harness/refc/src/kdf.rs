use crate::aes;
use crate::hash::{H, hmac};
#[derive(Clone, Copy, Debug)]
pub enum Prf { Hmac(H), Cmac }
impl Prf {
    pub fn mac(self, k: &[u8], d: &[u8]) -> Vec<u8> { match self { Prf::Hmac(h) => hmac(h, k, d), Prf::Cmac => aes::cmac(k, d).to_vec() } }
    pub fn len(self) -> usize { match self { Prf::Hmac(h) => h.len(), Prf::Cmac => 16 } }
}
pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> { hmac(h, salt, ikm) }
pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
    let (mut o, mut t) = (vec![], vec![]);
    let mut i = 1u8;
    while o.len() < l { t = hmac(h, prk, &[&t[..], info, &[i]].concat()); o.extend_from_slice(&t); i = i.wrapping_add(1); }
    o.truncate(l); o
}
pub fn pbkdf2(h: H, pw: &[u8], salt: &[u8], it: u32, l: usize) -> Vec<u8> {
    let mut o = vec![]; let mut i = 1u32;
    while o.len() < l {
        let mut u = hmac(h, pw, &[salt, &i.to_be_bytes()].concat());
        let mut t = u.clone();
        for _ in 1..it { u = hmac(h, pw, &u); for (a, b) in t.iter_mut().zip(&u) { *a ^= b; } }
        o.extend(t); i += 1;
    }
    o.truncate(l); o
}
/// TLS 1.2 PRF
pub fn tls12(h: H, secret: &[u8], label: &[u8], seed: &[u8], l: usize) -> Vec<u8> {
    let s = [label, seed].concat();
    let mut a = hmac(h, secret, &s); let mut o = vec![];
    while o.len() < l { o.extend(hmac(h, secret, &[&a[..], &s].concat())); a = hmac(h, secret, &a); }
    o.truncate(l); o
}
/// ANSI X9.63 KDF
pub fn x963(h: H, z: &[u8], info: &[u8], l: usize) -> Vec<u8> {
    let mut o = vec![]; let mut i = 1u32;
    while o.len() < l { o.extend(h.hash(&[z, &i.to_be_bytes(), info].concat())); i += 1; }
    o.truncate(l); o
}
/// RFC 4253 7.2; k is the mpint-encoded shared secret as given
pub fn ssh(h: H, k: &[u8], hash: &[u8], sid: &[u8], letter: u8, l: usize) -> Vec<u8> {
    let mut o = h.hash(&[k, hash, &[letter], sid].concat());
    while o.len() < l { let n = h.hash(&[k, hash, &o].concat()); o.extend(n); }
    o.truncate(l); o
}
