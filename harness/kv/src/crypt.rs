//! Shared pieces of the cryptographic properties: key creation and the
//! description of a cipher together with its reference computation.
#![allow(dead_code)]
use crate::p11::pkcs11::*;
use crate::p11::*;
use proptest::prelude::*;
use refc::aes;
use serde::{Deserialize, Serialize};

/// hex-serialised bytes
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize, Default, Hash, PartialOrd, Ord)]
pub struct Hx(#[serde(with = "crate::p11::hexser")] pub Vec<u8>);
impl std::fmt::Debug for Hx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", hex(&self.0)) } }
impl std::ops::Deref for Hx { type Target = Vec<u8>; fn deref(&self) -> &Vec<u8> { &self.0 } }

pub fn hx(r: impl Into<prop::collection::SizeRange>) -> BoxedStrategy<Hx> {
    prop::collection::vec(any::<u8>().no_shrink(), r).prop_map(Hx).boxed()
}
/// message lengths biased to block boundaries
pub fn msg() -> BoxedStrategy<Hx> {
    prop_oneof![
        4 => hx(0..=70usize),
        3 => prop::sample::select(vec![0usize, 1, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 80, 96, 127, 128, 129, 143, 144, 145, 255, 256, 257]).prop_flat_map(hx),
        1 => hx(70..=700usize),
    ].boxed()
}
pub fn aeskey() -> BoxedStrategy<Hx> { prop_oneof![hx(16), hx(24), hx(32)].boxed() }

pub fn secret(p: &P, s: Sess, kt: u64, val: &[u8], extra: &[Attr]) -> Obj {
    let mut t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => kt, CKA_VALUE => val, CKA_TOKEN => false,
        CKA_ENCRYPT => true, CKA_DECRYPT => true, CKA_SIGN => true, CKA_VERIFY => true, CKA_WRAP => true, CKA_UNWRAP => true, CKA_DERIVE => true,
        CKA_SENSITIVE => false, CKA_EXTRACTABLE => true };
    for (k, v) in extra { tset(&mut t, *k, v.clone()); }
    let (rv, h) = p.create(s, &t);
    if rv != CKR_OK { panic!("create secret key type {kt} len {}: {}", val.len(), rvname(rv)); }
    h
}
pub fn aes_obj(p: &P, s: Sess, val: &[u8]) -> Obj { secret(p, s, CKK_AES, val, &[]) }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Mode { Ecb, Cbc, CbcPad, Ctr, Ofb, Cfb1, Cfb8, Cfb128, Cts, Gcm, Ccm, Kw, Kwp }
pub const MODES: [Mode; 13] = [Mode::Ecb, Mode::Cbc, Mode::CbcPad, Mode::Ctr, Mode::Ofb, Mode::Cfb1, Mode::Cfb8, Mode::Cfb128, Mode::Cts, Mode::Gcm, Mode::Ccm, Mode::Kw, Mode::Kwp];
impl Mode {
    pub fn ckm(self) -> u64 {
        match self {
            Mode::Ecb => CKM_AES_ECB, Mode::Cbc => CKM_AES_CBC, Mode::CbcPad => CKM_AES_CBC_PAD, Mode::Ctr => CKM_AES_CTR, Mode::Ofb => CKM_AES_OFB,
            Mode::Cfb1 => CKM_AES_CFB1, Mode::Cfb8 => CKM_AES_CFB8, Mode::Cfb128 => CKM_AES_CFB128, Mode::Cts => CKM_AES_CTS, Mode::Gcm => CKM_AES_GCM,
            Mode::Ccm => CKM_AES_CCM, Mode::Kw => CKM_AES_KEY_WRAP, Mode::Kwp => CKM_AES_KEY_WRAP_KWP,
        }
    }
    pub fn aead(self) -> bool { matches!(self, Mode::Gcm | Mode::Ccm) }
}

/// a cipher with all its parameters
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ciph {
    pub mode: Mode,
    pub key: Hx,
    /// IV / counter block / nonce / wrap IV (may be empty for the wrap modes)
    pub iv: Hx,
    pub aad: Hx,
    /// tag length in bytes (GCM, CCM), counter bits (CTR)
    pub n: u32,
}

impl Ciph {
    pub fn mech(&self, datalen: usize) -> Mech { self.mech_full(datalen, &self.iv, &self.aad, self.n) }
    pub fn mech_full(&self, datalen: usize, iv: &[u8], aad: &[u8], n: u32) -> Mech {
        let t = self.mode.ckm();
        match self.mode {
            Mode::Ecb => Mech::new(t),
            Mode::Ctr => {
                let mut p = CK_AES_CTR_PARAMS::default();
                p.ulCounterBits = n as CK_ULONG;
                let mut cb = [0u8; 16];
                for (a, b) in cb.iter_mut().zip(iv) { *a = *b; }
                p.cb = cb;
                Mech::with(t, p)
            }
            Mode::Gcm => {
                let mut m = Mech::new(t);
                let mut p = CK_GCM_PARAMS::default();
                (p.pIv, p.ulIvLen) = m.keep_exact(iv);
                p.ulIvBits = p.ulIvLen * 8;
                (p.pAAD, p.ulAADLen) = m.keep(aad);
                p.ulTagBits = n as CK_ULONG * 8;
                m.set(p);
                m
            }
            Mode::Ccm => {
                let mut m = Mech::new(t);
                let mut p = CK_CCM_PARAMS::default();
                p.ulDataLen = datalen as CK_ULONG;
                (p.pNonce, p.ulNonceLen) = m.keep_exact(iv);
                (p.pAAD, p.ulAADLen) = m.keep(aad);
                p.ulMACLen = n as CK_ULONG;
                m.set(p);
                m
            }
            Mode::Kw | Mode::Kwp if iv.is_empty() => Mech::new(t),
            _ => Mech::bytes(t, iv),
        }
    }
    /// lengths the mode can encrypt
    pub fn len_ok(&self, l: usize) -> bool {
        match self.mode {
            Mode::Ecb | Mode::Cbc => l % 16 == 0,
            Mode::Cts => l >= 16,
            Mode::Kw => l >= 16 && l % 8 == 0,
            Mode::Kwp => l >= 1,
            Mode::Ccm => l >= 1 && (self.iv.len() < 13 || l < 65536),
            _ => true,
        }
    }
    pub fn kwiv(&self) -> Vec<u8> {
        if self.iv.is_empty() { if self.mode == Mode::Kw { vec![0xa6; 8] } else { unhex("a65959a6") } } else { self.iv.0.clone() }
    }
    pub fn enc(&self, d: &[u8]) -> Vec<u8> {
        let (k, iv) = (&self.key[..], &self.iv[..]);
        match self.mode {
            Mode::Ecb => aes::ecb(k, d, true),
            Mode::Cbc => aes::cbc_enc(k, iv, d),
            Mode::CbcPad => aes::cbc_enc(k, iv, &aes::pad(d)),
            Mode::Ctr => aes::ctr(k, iv, self.n, d),
            Mode::Ofb => aes::ofb(k, iv, d),
            Mode::Cfb1 => aes::cfb1(k, iv, d, true),
            Mode::Cfb8 => aes::cfb8(k, iv, d, true),
            Mode::Cfb128 => aes::cfb128(k, iv, d, true),
            Mode::Cts => aes::cts_enc(k, iv, d),
            Mode::Gcm => aes::gcm_enc(k, iv, &self.aad, d, self.n as usize),
            Mode::Ccm => aes::ccm_enc(k, iv, &self.aad, d, self.n as usize),
            Mode::Kw => aes::kw(k, &self.kwiv(), d),
            Mode::Kwp => aes::kwp(k, &self.kwiv(), d),
        }
    }
    /// number of blocks the counter can still address (CTR)
    pub fn ctr_room(&self) -> u128 {
        let c = u128::from_be_bytes(self.iv[..16].try_into().unwrap());
        if self.n >= 128 { return u128::MAX; }
        let m = 1u128 << self.n;
        m - (c & (m - 1))
    }
}

pub fn ciph(modes: &'static [Mode]) -> BoxedStrategy<Ciph> {
    (prop::sample::select(modes), aeskey()).prop_flat_map(|(mode, key)| {
        let iv: BoxedStrategy<Hx> = match mode {
            Mode::Ecb => hx(0).boxed(),
            Mode::Gcm => prop_oneof![4 => hx(12), 2 => hx(1..=16usize), 1 => hx(16..=128usize)].boxed(),
            Mode::Ccm => hx(7..=13usize),
            Mode::Kw => prop_oneof![hx(0), hx(8)].boxed(),
            Mode::Kwp => prop_oneof![hx(0), hx(4)].boxed(),
            Mode::Ctr => prop_oneof![2 => hx(16), 1 => (hx(16), 0usize..=16).prop_map(|(mut v, n)| { for b in v.0[16 - n..].iter_mut() { *b = 0 } v }),
                1 => (hx(16), 1usize..=16).prop_map(|(mut v, n)| { for b in v.0[16 - n..].iter_mut() { *b = 0xff } v })].boxed(),
            _ => hx(16),
        };
        let n: BoxedStrategy<u32> = match mode {
            Mode::Gcm => prop_oneof![4 => Just(16u32), 1 => Just(12u32), 1 => 1u32..=16].boxed(),
            Mode::Ccm => (2u32..=8).prop_map(|x| x * 2).boxed(),
            Mode::Ctr => prop_oneof![3 => Just(128u32), 2 => Just(32u32), 2 => Just(64u32), 3 => 4u32..=128].boxed(),
            _ => Just(0u32).boxed(),
        };
        let aad = if mode.aead() { prop_oneof![1 => hx(0), 3 => hx(0..=40usize), 1 => hx(40..=300usize)].boxed() } else { hx(0) };
        (Just(mode), Just(key), iv, aad, n).prop_map(|(mode, key, iv, aad, n)| Ciph { mode, key, iv, aad, n })
    }).boxed()
}
