//! Message based AEAD interface.
#![allow(dead_code)]
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use std::ffi::c_void;

/// Owned message parameters; the IV and the tag may be written by the library.
pub struct Mp { pub gcm: bool, pub iv: Vec<u8>, pub tag: Vec<u8>, g: Box<CK_GCM_MESSAGE_PARAMS>, c: Box<CK_CCM_MESSAGE_PARAMS> }
impl Mp {
    /// bits: tag length in bits for GCM, in octets for CCM
    pub fn new(mode: Mode, iv: &[u8], fixed: u64, gener: u64, datalen: usize, tagn: u64, tag: &[u8]) -> Mp {
        let mut m = Mp { gcm: mode == Mode::Gcm, iv: iv.to_vec(), tag: tag.to_vec(), g: Box::default(), c: Box::default() };
        if m.gcm {
            m.g.pIv = m.iv.as_mut_ptr();
            m.g.ulIvLen = m.iv.len() as CK_ULONG;
            m.g.ulIvFixedBits = fixed;
            m.g.ivGenerator = gener;
            m.g.pTag = m.tag.as_mut_ptr();
            m.g.ulTagBits = tagn;
        } else {
            m.c.ulDataLen = datalen as CK_ULONG;
            m.c.pNonce = m.iv.as_mut_ptr();
            m.c.ulNonceLen = m.iv.len() as CK_ULONG;
            m.c.ulNonceFixedBits = fixed;
            m.c.nonceGenerator = gener;
            m.c.pMAC = m.tag.as_mut_ptr();
            m.c.ulMACLen = tagn;
        }
        m
    }
    pub fn enc(c: &Ciph, datalen: usize) -> Mp {
        Mp::new(c.mode, &c.iv, 0, CKG_NO_GENERATE, datalen, if c.mode == Mode::Gcm { c.n as u64 * 8 } else { c.n as u64 }, &vec![0u8; c.n as usize])
    }
    pub fn dec(c: &Ciph, datalen: usize, tag: &[u8]) -> Mp {
        Mp::new(c.mode, &c.iv, 0, CKG_NO_GENERATE, datalen, if c.mode == Mode::Gcm { tag.len() as u64 * 8 } else { tag.len() as u64 }, tag)
    }
    pub fn ptr(&mut self) -> (*mut c_void, CK_ULONG) {
        if self.gcm { (&mut *self.g as *mut _ as *mut c_void, std::mem::size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG) }
        else { (&mut *self.c as *mut _ as *mut c_void, std::mem::size_of::<CK_CCM_MESSAGE_PARAMS>() as CK_ULONG) }
    }
}

pub fn menc_init(p: &P, s: Sess, m: &Mech, k: Obj) -> Rv { F!(p.C_MessageEncryptInit(s, m.ptr(), k)) }
pub fn mdec_init(p: &P, s: Sess, m: &Mech, k: Obj) -> Rv { F!(p.C_MessageDecryptInit(s, m.ptr(), k)) }
pub fn menc_final(p: &P, s: Sess) -> Rv { F!(p.C_MessageEncryptFinal(s)) }
pub fn mdec_final(p: &P, s: Sess) -> Rv { F!(p.C_MessageDecryptFinal(s)) }

/// one-shot message call
pub fn mcrypt(p: &P, s: Sess, cx: &mut Cx, enc: bool, pol: Pol, mp: &mut Mp, aad: &[u8], d: &[u8]) -> R<(Rv, Vec<u8>)> {
    let (pp, pl) = mp.ptr();
    if enc { call(p, cx, "C_EncryptMessage", pol, |b, l| F!(p.C_EncryptMessage(s, pp, pl, cbytes(aad), ul(aad), dbytes(d), ul(d), b, l))) }
    else { call(p, cx, "C_DecryptMessage", pol, |b, l| F!(p.C_DecryptMessage(s, pp, pl, cbytes(aad), ul(aad), dbytes(d), ul(d), b, l))) }
}
pub fn mbegin(p: &P, s: Sess, enc: bool, mp: &mut Mp, aad: &[u8]) -> Rv {
    let (pp, pl) = mp.ptr();
    if enc { F!(p.C_EncryptMessageBegin(s, pp, pl, cbytes(aad), ul(aad))) } else { F!(p.C_DecryptMessageBegin(s, pp, pl, cbytes(aad), ul(aad))) }
}
pub fn mnext(p: &P, s: Sess, cx: &mut Cx, enc: bool, pol: Pol, mp: &mut Mp, d: &[u8], last: bool) -> R<(Rv, Vec<u8>)> {
    let (pp, pl) = mp.ptr();
    let fl = if last { CKF_END_OF_MESSAGE } else { 0 };
    if enc { call(p, cx, "C_EncryptMessageNext", pol, |b, l| F!(p.C_EncryptMessageNext(s, pp, pl, dbytes(d), ul(d), b, l, fl))) }
    else { call(p, cx, "C_DecryptMessageNext", pol, |b, l| F!(p.C_DecryptMessageNext(s, pp, pl, dbytes(d), ul(d), b, l, fl))) }
}
