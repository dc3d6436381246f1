use crate::hash::H;
use num_bigint::BigUint;
pub fn i2osp(x: &BigUint, l: usize) -> Vec<u8> { let b = x.to_bytes_be(); let b = if b == [0] { vec![] } else { b }; let mut v = vec![0; l.saturating_sub(b.len())]; v.extend(b); v }
pub fn os2ip(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }
#[derive(Clone, Debug)]
pub struct Pub { pub n: BigUint, pub e: BigUint }
impl Pub {
    pub fn k(&self) -> usize { self.n.bits().div_ceil(8) as usize }
    pub fn raw(&self, m: &[u8]) -> Vec<u8> { i2osp(&os2ip(m).modpow(&self.e, &self.n), self.k()) }
}
#[derive(Clone, Debug)]
pub struct Priv { pub p: Pub, pub d: BigUint }
impl Priv { pub fn raw(&self, c: &[u8]) -> Vec<u8> { i2osp(&os2ip(c).modpow(&self.d, &self.p.n), self.p.k()) } }

pub fn digestinfo(h: H) -> Vec<u8> {
    let oid: Vec<u8> = match h {
        H::Sha1 => vec![0x2b, 0x0e, 0x03, 0x02, 0x1a],
        _ => { let x = match h { H::Sha256 => 1, H::Sha384 => 2, H::Sha512 => 3, H::Sha224 => 4, H::Sha512_224 => 5, H::Sha512_256 => 6, H::Sha3_224 => 7, H::Sha3_256 => 8, H::Sha3_384 => 9, H::Sha3_512 => 10, H::Sha1 => unreachable!() }; vec![0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, x] }
    };
    let mut alg = vec![0x06, oid.len() as u8]; alg.extend(&oid); alg.extend([5, 0]);
    let mut v = vec![0x30, (alg.len() + 2 + 2 + h.len()) as u8, 0x30, alg.len() as u8];
    v.extend(alg); v.extend([4, h.len() as u8]);
    v
}
/// EMSA-PKCS1-v1_5 with the raw T
pub fn emsa15(t: &[u8], k: usize) -> Option<Vec<u8>> {
    if k < t.len() + 11 { return None; }
    let mut v = vec![0, 1]; v.resize(k - t.len() - 1, 0xff); v.push(0); v.extend_from_slice(t); Some(v)
}
pub fn emsa15_hash(h: H, m: &[u8], k: usize) -> Option<Vec<u8>> { emsa15(&[digestinfo(h), h.hash(m)].concat(), k) }
pub fn mgf1(h: H, seed: &[u8], l: usize) -> Vec<u8> {
    let mut o = vec![]; let mut c = 0u32;
    while o.len() < l { o.extend(h.hash(&[seed, &c.to_be_bytes()].concat())); c += 1; }
    o.truncate(l); o
}
pub fn pss_encode(mh: &[u8], h: H, mgf: H, salt: &[u8], embits: usize) -> Option<Vec<u8>> {
    let em = embits.div_ceil(8);
    if em < h.len() + salt.len() + 2 { return None; }
    let hh = h.hash(&[&[0u8; 8][..], mh, salt].concat());
    let mut db = vec![0; em - salt.len() - h.len() - 2]; db.push(1); db.extend_from_slice(salt);
    let mask = mgf1(mgf, &hh, em - h.len() - 1);
    for (a, b) in db.iter_mut().zip(mask) { *a ^= b; }
    db[0] &= 0xff >> (8 * em - embits);
    db.extend(hh); db.push(0xbc);
    Some(db)
}
pub fn pss_verify(mh: &[u8], h: H, mgf: H, slen: usize, em: &[u8], embits: usize) -> bool {
    let l = embits.div_ceil(8);
    let em = if em.len() == l + 1 && em[0] == 0 { &em[1..] } else { em };
    if em.len() != l || l < h.len() + slen + 2 || em[l - 1] != 0xbc { return false; }
    let (mdb, rest) = em.split_at(l - h.len() - 1);
    let hh = &rest[..h.len()];
    if mdb[0] & !(0xffu8 >> (8 * l - embits)) != 0 { return false; }
    let mut db: Vec<u8> = mdb.iter().zip(mgf1(mgf, hh, mdb.len())).map(|(a, b)| a ^ b).collect();
    db[0] &= 0xff >> (8 * l - embits);
    let z = l - h.len() - slen - 2;
    if db[..z].iter().any(|b| *b != 0) || db[z] != 1 { return false; }
    h.hash(&[&[0u8; 8][..], mh, &db[z + 1..]].concat()) == hh
}
pub fn oaep_encode(m: &[u8], h: H, mgf: H, label: &[u8], seed: &[u8], k: usize) -> Option<Vec<u8>> {
    if m.len() + 2 * h.len() + 2 > k { return None; }
    let mut db = h.hash(label); db.resize(k - m.len() - h.len() - 2, 0); db.push(1); db.extend_from_slice(m);
    let dbm = mgf1(mgf, seed, k - h.len() - 1);
    for (a, b) in db.iter_mut().zip(dbm) { *a ^= b; }
    let sm = mgf1(mgf, &db, h.len());
    let s: Vec<u8> = seed.iter().zip(sm).map(|(a, b)| a ^ b).collect();
    Some([vec![0], s, db].concat())
}
pub fn oaep_decode(em: &[u8], h: H, mgf: H, label: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 2 * h.len() + 2 || em[0] != 0 { return None; }
    let (s, db) = em[1..].split_at(h.len());
    let seed: Vec<u8> = s.iter().zip(mgf1(mgf, db, h.len())).map(|(a, b)| a ^ b).collect();
    let d: Vec<u8> = db.iter().zip(mgf1(mgf, &seed, db.len())).map(|(a, b)| a ^ b).collect();
    if d[..h.len()] != h.hash(label)[..] { return None; }
    let i = d[h.len()..].iter().position(|b| *b != 0)? + h.len();
    if d[i] != 1 { return None; }
    Some(d[i + 1..].to_vec())
}
pub fn pkcs1_type2_decode(em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 11 || em[0] != 0 || em[1] != 2 { return None; }
    let i = em[2..].iter().position(|b| *b == 0)? + 2;
    if i < 10 { return None; }
    Some(em[i + 1..].to_vec())
}
