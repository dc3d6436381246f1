//! C24: no input makes the library crash, hang or corrupt memory.
//! All functions are called with generated arguments, which satisfy the C
//! calling contract (pointers are valid for the stated length, or null) and
//! are otherwise arbitrary. Every buffer ends at an inaccessible page and is
//! taken away after the call.
use super::c18;
use crate::crypt::*;
use crate::objmodel;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// the arguments of a function: s session, l slot, h object, k key, m mechanism, d data, o output, t template,
/// n handle that is returned, f flags, u user type, i information (pointer to a big enough structure), q message
/// parameter, z reserved pointer, x number, b byte, r label (32 bytes), a attributes to read, j found handles,
/// g buffer that is filled, p PIN, N name or null, L slot list, M mechanism list, I interface list
macro_rules! fns { ($($n:ident $s:literal),* $(,)?) => {
    pub const SIG: &[(&str, &str)] = &[$((stringify!($n), $s)),*];
    fn addrs(p: &P) -> Vec<usize> { vec![$(p.f.$n.map(|f| f as usize).unwrap_or(0)),*] }
} }
fns! {
    C_GetInfo "i", C_GetFunctionList "i", C_GetSlotList "bL", C_GetSlotInfo "li", C_GetTokenInfo "li", C_GetMechanismList "lM", C_GetMechanismInfo "lyi", C_InitToken "lpr",
    C_InitPIN "sp", C_SetPIN "spp", C_OpenSession "lfzzn", C_CloseSession "s", C_CloseAllSessions "l", C_GetSessionInfo "si", C_GetOperationState "so", C_SetOperationState "sdkk",
    C_Login "sup", C_Logout "s", C_CreateObject "stn", C_CopyObject "shtn", C_DestroyObject "sh", C_GetObjectSize "shi", C_GetAttributeValue "sha", C_SetAttributeValue "sht",
    C_FindObjectsInit "st", C_FindObjects "sj", C_FindObjectsFinal "s", C_EncryptInit "smk", C_Encrypt "sdo", C_EncryptUpdate "sdo", C_EncryptFinal "so", C_DecryptInit "smk",
    C_Decrypt "sdo", C_DecryptUpdate "sdo", C_DecryptFinal "so", C_DigestInit "sm", C_Digest "sdo", C_DigestUpdate "sd", C_DigestKey "sk", C_DigestFinal "so", C_SignInit "smk",
    C_Sign "sdo", C_SignUpdate "sd", C_SignFinal "so", C_SignRecoverInit "smk", C_SignRecover "sdo", C_VerifyInit "smk", C_Verify "sdd", C_VerifyUpdate "sd", C_VerifyFinal "sd",
    C_VerifyRecoverInit "smk", C_VerifyRecover "sdo", C_DigestEncryptUpdate "sdo", C_DecryptDigestUpdate "sdo", C_SignEncryptUpdate "sdo", C_DecryptVerifyUpdate "sdo",
    C_GenerateKey "smtn", C_GenerateKeyPair "smttnn", C_WrapKey "smkho", C_UnwrapKey "smkdtn", C_DeriveKey "smktn", C_SeedRandom "sd", C_GenerateRandom "sg", C_GetFunctionStatus "s",
    C_CancelFunction "s", C_WaitForSlotEvent "wiz", C_GetInterfaceList "I", C_GetInterface "NNif", C_LoginUser "supp", C_SessionCancel "sf", C_MessageEncryptInit "smk",
    C_EncryptMessage "sqddo", C_EncryptMessageBegin "sqd", C_EncryptMessageNext "sqdof", C_MessageEncryptFinal "s", C_MessageDecryptInit "smk", C_DecryptMessage "sqddo",
    C_DecryptMessageBegin "sqd", C_DecryptMessageNext "sqdof", C_MessageDecryptFinal "s", C_MessageSignInit "smk", C_SignMessage "sqdo", C_SignMessageBegin "sq",
    C_SignMessageNext "sqdo", C_MessageSignFinal "s", C_MessageVerifyInit "smk", C_VerifyMessage "sqdd", C_VerifyMessageBegin "sq", C_VerifyMessageNext "sqdd",
    C_MessageVerifyFinal "s", C_EncapsulateKey "smkton", C_DecapsulateKey "smktdn", C_VerifySignatureInit "smkd", C_VerifySignature "sd", C_VerifySignatureUpdate "sd",
    C_VerifySignatureFinal "s", C_GetSessionValidationFlags "sxi", C_AsyncComplete "sNi", C_AsyncGetID "sNi", C_AsyncJoin "sNxg", C_WrapKeyAuthenticated "smkhdo",
    C_UnwrapKeyAuthenticated "smkdtdn",
}
fn fi(n: &str) -> u8 { SIG.iter().position(|x| x.0 == n).unwrap_or_else(|| panic!("{n}")) as u8 }

/// what follows an initialization
const SCRIPTS: &[(&str, &[&str])] = &[
    ("C_EncryptInit", &["C_Encrypt", "C_EncryptUpdate", "C_EncryptUpdate", "C_EncryptFinal", "C_DigestEncryptUpdate", "C_SignEncryptUpdate", "C_GetOperationState"]),
    ("C_DecryptInit", &["C_Decrypt", "C_DecryptUpdate", "C_DecryptUpdate", "C_DecryptFinal", "C_DecryptDigestUpdate", "C_DecryptVerifyUpdate", "C_GetOperationState"]),
    ("C_DigestInit", &["C_Digest", "C_DigestUpdate", "C_DigestUpdate", "C_DigestKey", "C_DigestFinal", "C_DigestEncryptUpdate", "C_GetOperationState", "C_EncryptInit"]),
    ("C_SignInit", &["C_Sign", "C_SignUpdate", "C_SignUpdate", "C_SignFinal", "C_SignEncryptUpdate", "C_GetOperationState", "C_EncryptInit"]),
    ("C_VerifyInit", &["C_Verify", "C_VerifyUpdate", "C_VerifyUpdate", "C_VerifyFinal", "C_DecryptVerifyUpdate", "C_DecryptInit"]),
    ("C_VerifySignatureInit", &["C_VerifySignature", "C_VerifySignatureUpdate", "C_VerifySignatureUpdate", "C_VerifySignatureFinal", "C_Verify"]),
    ("C_MessageEncryptInit", &["C_EncryptMessage", "C_EncryptMessageBegin", "C_EncryptMessageNext", "C_EncryptMessageNext", "C_MessageEncryptFinal"]),
    ("C_MessageDecryptInit", &["C_DecryptMessage", "C_DecryptMessageBegin", "C_DecryptMessageNext", "C_DecryptMessageNext", "C_MessageDecryptFinal"]),
    ("C_WrapKey", &["C_UnwrapKey", "C_UnwrapKey", "C_GetAttributeValue"]),
    ("C_FindObjectsInit", &["C_FindObjects", "C_FindObjects", "C_FindObjectsFinal", "C_DestroyObject"]),
    ("C_CreateObject", &["C_GetAttributeValue", "C_CopyObject", "C_SetAttributeValue", "C_DestroyObject", "C_DeriveKey", "C_WrapKey", "C_SignInit", "C_EncryptInit"]),
];
const MAKERS: &[&str] = &["C_CreateObject", "C_CopyObject", "C_GenerateKey", "C_GenerateKeyPair", "C_UnwrapKey", "C_DeriveKey", "C_WrapKey", "C_EncapsulateKey", "C_DecapsulateKey", "C_UnwrapKeyAuthenticated", "C_GetAttributeValue", "C_SetAttributeValue"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step { f: u8, lvl: u8, seed: u64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { nss: bool, login: u8, steps: Vec<Step> }
fn cases(nss: bool, makers: bool, max: usize) -> BoxedStrategy<Case> {
    let step = |f: BoxedStrategy<u8>| (f, prop_oneof![4 => Just(0u8), 4 => Just(1), 2 => Just(2)], any::<u64>()).prop_map(|(f, lvl, seed)| Step { f, lvl, seed });
    let any_f = (0..SIG.len() as u8).boxed();
    let maker = (0..MAKERS.len()).prop_map(|i| fi(MAKERS[i])).boxed();
    let script = (0..SCRIPTS.len()).prop_flat_map(move |i| {
        let (f, next) = SCRIPTS[i];
        (step(Just(fi(f)).boxed()), prop::collection::vec(step((0..next.len()).prop_map(move |j| fi(next[j])).boxed()), 0..5)).prop_map(|(a, b)| { let mut v = vec![a]; v.extend(b); v })
    });
    let one = |s: BoxedStrategy<u8>| step(s).prop_map(|s| vec![s]);
    let item = if makers { prop_oneof![1 => one(any_f), 8 => one(maker), 1 => script].boxed() } else { prop_oneof![4 => one(any_f), 2 => one(maker), 6 => script].boxed() };
    (prop_oneof![8 => Just(0u8), 1 => Just(1), 1 => Just(2)], prop::collection::vec(item, 3..max)).prop_map(move |(login, v)| Case { nss, login, steps: v.into_iter().flatten().collect() }).boxed()
}

/// buffers that end where their page ends and are inaccessible after the call
struct Arena { base: usize, next: usize, used: Vec<usize> }
const PG: usize = 4096;
const BUF: usize = 16 * PG;
const SLOT_SZ: usize = BUF + PG;
const SLOTS: usize = 512;
impl Arena {
    fn new() -> Arena {
        let m = unsafe { libc::mmap(std::ptr::null_mut(), SLOT_SZ * SLOTS, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(m != libc::MAP_FAILED);
        Arena { base: m as usize, next: 0, used: vec![] }
    }
    fn put(&mut self, b: &[u8]) -> usize {
        assert!(b.len() <= BUF);
        let s = self.base + self.next * SLOT_SZ;
        self.next = (self.next + 1) % SLOTS;
        self.used.push(s);
        assert!(self.used.len() < SLOTS, "too many buffers in a call");
        let p = s + BUF - b.len();
        unsafe {
            assert_eq!(libc::mprotect(s as *mut _, BUF, libc::PROT_READ | libc::PROT_WRITE), 0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, b.len());
        }
        p
    }
    fn end(&mut self) { for s in self.used.drain(..) { unsafe { libc::madvise(s as *mut _, BUF, libc::MADV_DONTNEED); libc::mprotect(s as *mut _, BUF, libc::PROT_NONE); } } }
}
impl Drop for Arena { fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut _, SLOT_SZ * SLOTS); } } }
fn peek(p: usize) -> u64 { unsafe { std::ptr::read_unaligned(p as *const u64) } }

struct G<'a> { r: u64, lvl: u8, a: &'a mut Arena, pool: &'a [(char, Obj)], extra: &'a [Obj], sess: &'a [Sess], slot: u64, blobs: &'a [Vec<u8>], outs: &'a [Vec<u8>], msg: u64 }
const NUMS: &[u64] = &[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 16, 1 << 48, (1 << 61), (1 << 63) - 1, 1 << 63, u64::MAX - 7, u64::MAX - 1, u64::MAX];
/// lengths: nothing that would really be allocated and takes long
const LENS: &[u64] = &[0, 1, 2, 7, 8, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 128, 255, 256, 257, 1000, 4096, 65536, 1 << 48, 1 << 60, 1 << 61, (1 << 63) - 1, 1 << 63, u64::MAX - 15, u64::MAX - 7, u64::MAX - 1, u64::MAX];
enum Fd { It, U(&'static [u64]), L(&'static [u64]), Pt(&'static [usize]), LP(&'static [usize]), N(usize), Rw(usize), B, H }
use Fd::*;
const HASHES: &[u64] = &[CKM_SHA_1, CKM_SHA256, CKM_SHA384, CKM_SHA512, CKM_SHA224, CKM_SHA3_256, CKM_SHA512_256];
const MGFS: &[u64] = &[CKG_MGF1_SHA1, CKG_MGF1_SHA256, CKG_MGF1_SHA384, CKG_MGF1_SHA512];
const PRFS: &[u64] = &[CKM_SHA256_HMAC, CKM_SHA_1_HMAC, CKM_SHA512_HMAC, CKM_AES_CMAC, CKM_SHA3_256_HMAC];
/// mechanism, parameters, kinds of keys, operations (E encrypt, S sign, D digest, W wrap, V derive, G generate, P pair, Q message)
type Me = (u64, &'static [Fd], &'static str, &'static str);
const SP_COUNTER: u64 = 1;
const SP_FEEDBACK: u64 = 2;
const MECHS: &[Me] = &[
    (CKM_AES_ECB, &[], "aA", "EW"), (CKM_AES_CBC, &[Rw(16)], "aA", "EW"), (CKM_AES_CBC_PAD, &[Rw(16)], "aA", "EW"), (CKM_AES_CTS, &[Rw(16)], "aA", "E"), (CKM_AES_OFB, &[Rw(16)], "aA", "E"),
    (CKM_AES_CFB1, &[Rw(16)], "aA", "E"), (CKM_AES_CFB8, &[Rw(16)], "aA", "E"), (CKM_AES_CFB128, &[Rw(16)], "aA", "E"), (CKM_AES_CTR, &[U(&[128, 1, 8, 32, 64, 0, 129]), Rw(16)], "aA", "EW"),
    (CKM_AES_GCM, &[Pt(&[12, 1, 16, 64]), U(&[96, 0, 128]), Pt(&[0, 5, 300]), U(&[128, 96, 32, 0, 129])], "aA", "EW"), (CKM_AES_CCM, &[L(&[16, 0, 1, 32, 100]), Pt(&[12, 7, 13]), Pt(&[0, 5, 300]), U(&[16, 4, 8, 0])], "aA", "EW"),
    (CKM_AES_GCM, &[], "aA", "QQQ"), (CKM_AES_CCM, &[], "aA", "QQQ"),
    (CKM_AES_KEY_WRAP, &[Rw(8)], "aA", "EW"), (CKM_AES_KEY_WRAP, &[], "aA", "EW"), (CKM_AES_KEY_WRAP_KWP, &[Rw(4)], "aA", "EW"), (CKM_AES_KEY_WRAP_KWP, &[], "aA", "EW"),
    (CKM_AES_MAC, &[], "aA", "S"), (CKM_AES_MAC_GENERAL, &[U(&[8, 0, 1, 16, 17])], "aA", "S"), (CKM_AES_CMAC, &[], "aA", "S"), (CKM_AES_CMAC_GENERAL, &[U(&[8, 0, 1, 16, 17])], "aA", "S"),
    (CKM_AES_ECB_ENCRYPT_DATA, &[Pt(&[16, 32, 0, 15])], "aA", "V"), (CKM_AES_CBC_ENCRYPT_DATA, &[Rw(16), Pt(&[16, 32, 0, 15])], "aA", "V"),
    (CKM_SHA256, &[], "", "D"), (CKM_SHA_1, &[], "", "D"), (CKM_SHA3_512, &[], "", "D"), (CKM_SHA512_224, &[], "", "D"),
    (CKM_SHA256_HMAC, &[], "gh", "S"), (CKM_SHA256_HMAC_GENERAL, &[U(&[8, 0, 1, 32, 33])], "gh", "S"), (CKM_SHA_1_HMAC, &[], "g", "S"), (CKM_SHA3_384_HMAC_GENERAL, &[U(&[8, 0, 48, 49])], "g", "S"),
    (CKM_TLS_MAC, &[U(HASHES), U(&[12, 0, 32, 33]), U(&[1, 2, 0])], "gt", "S"), (CKM_TLS12_MAC, &[U(HASHES), U(&[12, 0, 32, 33]), U(&[1, 2, 0])], "gt", "S"),
    (CKM_HOTP, &[], "o", "S"), (CKM_HOTP, &[], "o", "S"),
    (CKM_RSA_PKCS, &[], "rR", "ESW"), (CKM_RSA_X_509, &[], "rR", "ESW"), (CKM_RSA_PKCS_OAEP, &[U(HASHES), U(MGFS), U(&[1, 0]), Pt(&[0, 10])], "rR", "EW"), (CKM_SHA256_RSA_PKCS, &[], "rR", "S"), (CKM_SHA1_RSA_PKCS, &[], "rR", "S"),
    (CKM_RSA_PKCS_PSS, &[U(HASHES), U(MGFS), U(&[0, 20, 32, 1000])], "rR", "S"), (CKM_SHA256_RSA_PKCS_PSS, &[U(&[CKM_SHA256, CKM_SHA_1]), U(MGFS), U(&[0, 20, 32, 1000])], "rR", "S"),
    (CKM_ECDSA, &[], "eF", "S"), (CKM_ECDSA_SHA256, &[], "eF", "S"), (CKM_ECDSA_SHA512, &[], "eF", "S"),
    (CKM_ECDH1_DERIVE, &[U(&[CKD_NULL, CKD_SHA1_KDF, CKD_SHA256_KDF, CKD_SHA512_KDF]), LP(&[0, 10]), LP(&[65, 67, 32, 97, 133])], "em", "V"), (CKM_ECDH1_COFACTOR_DERIVE, &[U(&[CKD_NULL, CKD_SHA256_KDF]), LP(&[0]), LP(&[65, 67, 32])], "em", "V"),
    (CKM_DH_PKCS_DERIVE, &[Rw(256)], "d", "V"), (CKM_DH_PKCS_DERIVE, &[Rw(1)], "d", "V"),
    (CKM_HKDF_DERIVE, &[Rw(8), U(HASHES), U(&[CKF_HKDF_SALT_NULL, CKF_HKDF_SALT_DATA, CKF_HKDF_SALT_KEY]), Pt(&[0, 10, 32]), H, Pt(&[0, 10, 100])], "gkD", "V"), (CKM_HKDF_DATA, &[Rw(8), U(HASHES), U(&[CKF_HKDF_SALT_NULL, CKF_HKDF_SALT_DATA, CKF_HKDF_SALT_KEY]), Pt(&[0, 10]), H, Pt(&[0, 10])], "gkD", "V"),
    (CKM_PKCS5_PBKD2, &[U(&[CKZ_SALT_SPECIFIED]), Pt(&[8, 0, 16]), It, U(&[CKP_PKCS5_PBKD2_HMAC_SHA1, CKP_PKCS5_PBKD2_HMAC_SHA256, CKP_PKCS5_PBKD2_HMAC_SHA512]), Pt(&[0]), Pt(&[0, 8, 100])], "", "G"),
    (CKM_TLS12_MASTER_KEY_DERIVE, &[Pt(&[32]), Pt(&[32]), N(2), U(HASHES)], "t", "V"), (CKM_TLS12_MASTER_KEY_DERIVE_DH, &[Pt(&[32]), Pt(&[32]), N(2), U(HASHES)], "tg", "V"),
    (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, &[U(HASHES), Pt(&[32, 20, 0]), N(2)], "t", "V"), (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, &[U(HASHES), Pt(&[32, 20, 0]), N(2)], "tg", "V"),
    (CKM_TLS12_KEY_AND_MAC_DERIVE, &[], "t", "VV"), (CKM_TLS12_KEY_SAFE_DERIVE, &[], "t", "V"),
    (CKM_TLS12_KDF, &[U(HASHES), Pt(&[10, 0]), Pt(&[32]), Pt(&[32]), Pt(&[0, 5])], "tg", "V"), (CKM_TLS_KDF, &[U(HASHES), Pt(&[10, 0]), Pt(&[32]), Pt(&[32]), Pt(&[0, 5])], "tg", "V"),
    (CKM_SP800_108_COUNTER_KDF, &[], "agk", "VVV"), (CKM_SP800_108_FEEDBACK_KDF, &[], "agk", "VVV"),
    (KRM_SSHKDF_DERIVE, &[U(HASHES), B, Pt(&[32, 20, 0]), Pt(&[32, 0])], "g", "V"),
    (CKM_SHA256_KEY_DERIVATION, &[], "ag", "V"), (CKM_SHA512_KEY_DERIVATION, &[], "ag", "V"),
    (CKM_CONCATENATE_BASE_AND_KEY, &[H], "ag", "V"), (CKM_CONCATENATE_BASE_AND_DATA, &[Pt(&[0, 5, 16])], "ag", "V"), (CKM_CONCATENATE_DATA_AND_BASE, &[Pt(&[0, 5, 16])], "ag", "V"), (CKM_XOR_BASE_AND_DATA, &[Pt(&[16, 32, 0, 5])], "ag", "V"),
    (CKM_EXTRACT_KEY_FROM_KEY, &[U(&[0, 1, 8, 100, 127, 128, 255, 256])], "ag", "V"), (CKM_PUB_KEY_FROM_PRIV_KEY, &[], "rem", "V"),
    (CKM_AES_KEY_GEN, &[], "", "G"), (CKM_GENERIC_SECRET_KEY_GEN, &[], "", "G"), (CKM_SHA256_KEY_GEN, &[], "", "G"), (CKM_HOTP_KEY_GEN, &[], "", "G"), (CKM_HKDF_KEY_GEN, &[], "", "G"),
    (CKM_RSA_PKCS_KEY_PAIR_GEN, &[], "", "P"), (CKM_EC_KEY_PAIR_GEN, &[], "", "P"), (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, &[], "", "P"), (CKM_DH_PKCS_KEY_PAIR_GEN, &[], "", "P"),
    (CKM_EC_EDWARDS_KEY_PAIR_GEN, &[], "", "P"), (CKM_EDDSA, &[Rw(8), Pt(&[0, 10])], "e", "S"), (CKM_AES_GMAC, &[Rw(12)], "a", "S"), (CKM_DES3_CBC, &[Rw(8)], "a", "EW"),
];
fn op_of(f: &str) -> &'static str {
    match f {
        "C_EncryptInit" | "C_DecryptInit" => "E", "C_SignInit" | "C_VerifyInit" | "C_VerifySignatureInit" | "C_SignRecoverInit" | "C_VerifyRecoverInit" | "C_MessageSignInit" | "C_MessageVerifyInit" => "S", "C_DigestInit" => "D", "C_WrapKey" | "C_UnwrapKey" => "W",
        "C_WrapKeyAuthenticated" | "C_UnwrapKeyAuthenticated" => "W", "C_DeriveKey" => "V", "C_GenerateKey" => "G", "C_GenerateKeyPair" => "P", "C_MessageEncryptInit" | "C_MessageDecryptInit" => "Q", _ => "E",
    }
}
impl G<'_> {
    fn n(&mut self) -> u64 { self.r = self.r.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.r; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn b(&mut self, n: usize) -> usize { (self.n() % n as u64) as usize }
    fn p(&mut self, pc: u64) -> bool { self.n() % 100 < pc }
    /// something goes wrong here
    fn bad(&mut self) -> bool { let p = [0, 5, 25][self.lvl as usize % 3]; self.p(p) }
    fn of(&mut self, v: &[u64]) -> u64 { v[self.b(v.len())] }
    fn rnd(&mut self, n: usize) -> Vec<u8> { let m = self.b(6); let x = self.n() as u8; (0..n).map(|_| match m { 0 => 0, 1 => 0xff, 2 => x, _ => self.n() as u8 }).collect() }
    fn len(&mut self) -> usize { match self.b(8) { 0 => 0, 1 => 1, 2 => 16, 3 => 32, 4 => self.b(20), 5 => self.b(300), 6 => 16 * self.b(20), _ => [4096, 1000, 8191, 65536][self.b(4)] } }
    fn huge(&mut self) -> u64 { let x = self.of(NUMS); if self.p(20) { self.n() } else { x } }
    fn u(&mut self, v: &mut Vec<u8>, x: u64) { v.extend(x.to_ne_bytes()) }
    /// a pointer and its length
    fn ptr(&mut self, good: &[usize]) -> (u64, u64) {
        let n = good[self.b(good.len())];
        if self.bad() {
            return match self.b(5) { 0 => (0, n as u64), 1 => (0, self.huge()), 2 => { let b = self.a.put(&[]); (b as u64, 0) } 3 => (0, 0), _ => { let l = self.len(); let d = self.rnd(l); (self.a.put(&d) as u64, l as u64) } };
        }
        if n == 0 && self.p(50) { return (0, 0); }
        let d = self.data(n);
        (self.a.put(&d) as u64, n as u64)
    }
    /// bytes that may mean something
    fn data(&mut self, n: usize) -> Vec<u8> {
        if n == 65 && self.p(70) { return test_ec().2.clone(); }
        if n == 67 && self.p(70) { return der_octets(&test_ec().2); }
        self.rnd(n)
    }
    fn fields(&mut self, fs: &[Fd]) -> Vec<u8> {
        let mut v = vec![];
        for f in fs {
            match f {
                U(c) => { let x = if self.bad() { self.huge() } else if self.p(70) { c[0] } else { self.of(c) }; self.u(&mut v, x); }
                L(c) => { let x = if self.bad() { self.of(LENS) } else if self.p(70) { c[0] } else { self.of(c) }; self.u(&mut v, x); }
                Pt(c) => { let (p, l) = self.ptr(c); self.u(&mut v, p); self.u(&mut v, l); }
                LP(c) => { let (p, l) = self.ptr(c); self.u(&mut v, l); self.u(&mut v, p); }
                It => { let x = self.of(&[1, 10, 0, 1, 3]); self.u(&mut v, x); }
                N(n) => { let p = if self.bad() { 0 } else { let d = self.rnd(*n); self.a.put(&d) as u64 }; self.u(&mut v, p); }
                Rw(n) => { let d = if *n == 8 && self.p(80) { vec![self.b(2) as u8, 1, 0, 0, 0, 0, 0, 0] } else { self.rnd(*n) }; v.extend(d); }
                B => { let x = if self.bad() { self.n() as u8 } else { b'A' + self.b(6) as u8 }; v.extend([x, 0, 0, 0, 0, 0, 0, 0]); }
                H => { let h = self.handle(); self.u(&mut v, h); }
            }
        }
        v
    }
    fn handle(&mut self) -> u64 {
        if self.bad() || (self.pool.is_empty() && self.extra.is_empty()) { return match self.b(4) { 0 => 0, 1 => u64::MAX, 2 => self.n() % 200, _ => self.n() }; }
        if !self.extra.is_empty() && (self.p(25) || self.pool.is_empty()) { return self.extra[self.b(self.extra.len())]; }
        self.pool[self.b(self.pool.len())].1
    }
    fn key(&mut self, kinds: &str) -> u64 {
        let c: Vec<Obj> = self.pool.iter().filter(|x| kinds.contains(x.0)).map(|x| x.1).collect();
        if c.is_empty() || self.p(4) || self.bad() { return self.handle(); }
        c[self.b(c.len())]
    }
    fn sp_template(&mut self) -> (u64, u64) { let t = self.template("C_DeriveKey", CKM_SP800_108_COUNTER_KDF); (t.0, t.1) }
    fn sp800(&mut self, mode: u64) -> Vec<u8> {
        let mut items = vec![];
        let n = if self.bad() { self.b(20) } else { 1 + self.b(4) };
        for i in 0..n {
            let t = if self.bad() { self.huge() } else if i == 0 && mode == SP_COUNTER { CK_SP800_108_ITERATION_VARIABLE } else { self.of(&[CK_SP800_108_ITERATION_VARIABLE, CK_SP800_108_COUNTER, CK_SP800_108_DKM_LENGTH, CK_SP800_108_BYTE_ARRAY, CK_SP800_108_BYTE_ARRAY]) };
            let d = match t {
                CK_SP800_108_ITERATION_VARIABLE if mode == SP_FEEDBACK && self.p(70) => vec![],
                CK_SP800_108_ITERATION_VARIABLE | CK_SP800_108_COUNTER => { let mut v = vec![self.b(2) as u8, 0, 0, 0, 0, 0, 0, 0]; let w = if self.bad() { self.huge() } else { 8 * (1 + self.b(4)) as u64 }; self.u(&mut v, w); v }
                CK_SP800_108_DKM_LENGTH => { let mut v = vec![]; let m = if self.bad() { self.huge() } else { 1 + self.b(2) as u64 }; self.u(&mut v, m); v.extend([self.b(2) as u8, 0, 0, 0, 0, 0, 0, 0]); let w = if self.bad() { self.huge() } else { 8 * (1 + self.b(8)) as u64 }; self.u(&mut v, w); v }
                _ => { let l = self.b(40); self.rnd(l) }
            };
            let (p, l) = if self.bad() { let l = self.len() % 100; let p = if self.p(50) { 0 } else { let d = self.rnd(l); self.a.put(&d) as u64 }; let l = if p == 0 { self.huge() } else { l as u64 }; (p, l) } else if d.is_empty() { (0, 0) } else { (self.a.put(&d) as u64, d.len() as u64) };
            for x in [t, p, l] { items.extend(x.to_ne_bytes()); }
        }
        let mut v = vec![];
        let prf = if self.bad() { self.huge() } else { self.of(PRFS) };
        self.u(&mut v, prf);
        let (p, l) = if self.bad() { (0, self.huge()) } else { (self.a.put(&items) as u64, n as u64) };
        self.u(&mut v, l); self.u(&mut v, p);
        if mode == SP_FEEDBACK { let (p, l) = self.ptr(&[0, 16, 32]); self.u(&mut v, l); self.u(&mut v, p); }
        let na = if self.p(60) { 0 } else { 1 + self.b(3) };
        let mut add = vec![];
        for _ in 0..na {
            let (t, c) = self.sp_template();
            let h = if self.bad() { 0 } else { self.a.put(&[0xee; 8]) as u64 };
            for x in [t, c, h] { add.extend(x.to_ne_bytes()); }
        }
        let (p, l) = if self.bad() { (0, self.huge()) } else if na == 0 { (0, 0) } else { (self.a.put(&add) as u64, na as u64) };
        self.u(&mut v, l); self.u(&mut v, p);
        v
    }
    fn key_mat(&mut self) -> Vec<u8> {
        let mut v = vec![];
        let mut bits = |g: &mut Self, good: &[u64]| { let x = if g.bad() { g.of(LENS) } else { g.of(good) }; v.extend(x.to_ne_bytes()); x };
        bits(self, &[256, 160, 0]);
        bits(self, &[128, 256, 0]);
        let iv = bits(self, &[0, 96, 128, 13]);
        let ex = if self.bad() { self.n() as u8 } else { 0 };
        v.extend([ex, 0, 0, 0, 0, 0, 0, 0]);
        for _ in 0..2 { let (p, l) = self.ptr(&[32]); self.u(&mut v, p); self.u(&mut v, l); }
        let mut out = vec![0xee; 32];
        for _ in 0..2 { let p = if iv > 65536 || iv == 0 && self.p(50) || self.bad() { 0 } else { let b = vec![0xee; iv.div_ceil(8) as usize]; self.a.put(&b) as u64 }; self.u(&mut out, p); }
        let p = if self.bad() { 0 } else { self.a.put(&out) as u64 };
        self.u(&mut v, p);
        let h = if self.bad() { self.huge() } else { self.of(HASHES) };
        self.u(&mut v, h);
        v
    }
    fn otp(&mut self) -> Vec<u8> {
        let mut items = vec![];
        let n = self.b(4);
        for _ in 0..n {
            let t = if self.bad() { self.huge() } else { self.of(&[CK_OTP_COUNTER, CK_OTP_FLAGS, CK_OTP_OUTPUT_LENGTH, CK_OTP_OUTPUT_FORMAT, CK_OTP_VALUE]) };
            let (p, l) = self.ptr(&[8, 8, 0, 4]);
            for x in [t, p, l] { items.extend(x.to_ne_bytes()); }
        }
        let mut v = vec![];
        let (p, l) = if self.bad() { (0, self.huge()) } else { (self.a.put(&items) as u64, n as u64) };
        self.u(&mut v, p); self.u(&mut v, l);
        v
    }
    /// a mechanism: pointer, type, kinds of keys
    fn mech(&mut self, f: &str) -> (u64, u64, &'static str) {
        if self.bad() && self.p(15) { return (0, 0, ""); }
        let op = op_of(f);
        let c: Vec<&Me> = MECHS.iter().filter(|m| m.3.contains(op)).collect();
        let any = self.p(10);
        let me: &Me = if any || c.is_empty() { &MECHS[self.b(MECHS.len())] } else { c[self.b(c.len())] };
        let mut t = me.0;
        let par = match me.0 {
            CKM_SP800_108_COUNTER_KDF => self.sp800(SP_COUNTER), CKM_SP800_108_FEEDBACK_KDF => self.sp800(SP_FEEDBACK), CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE => self.key_mat(),
            CKM_HOTP if self.p(50) => self.otp(), _ => self.fields(me.1),
        };
        let (mut pp, mut pl) = if par.is_empty() { (0, 0) } else { (self.a.put(&par) as u64, par.len() as u64) };
        if self.bad() {
            match self.b(8) {
                0 => pp = 0,
                1 => { pp = 0; pl = 0; }
                2 => pl = 0,
                3 => { let n = if par.is_empty() { 0 } else { self.b(par.len()) }; pp = self.a.put(&par[..n]) as u64; pl = n as u64; }
                4 => { let mut x = par.clone(); let n = 1 + self.b(200); if x.is_empty() { x = vec![0; n] } else { x.extend(self.rnd(n)) } pp = self.a.put(&x) as u64; pl = x.len() as u64; }
                5 => { pp = 0; pl = self.huge(); }
                6 => t = if self.p(50) { self.n() } else { MECHS[self.b(MECHS.len())].0 },
                // numbers only: pointers in a parameter have to be valid
                _ => { let n = [1, 4, 8, 16, 24, 32, 48][self.b(7)]; let x = vec![0; n]; pp = self.a.put(&x) as u64; pl = n as u64; }
            }
            // a parameter whose fields do not mean pointers may be anything; others must keep their layout
            if t != me.0 && !par.is_empty() { let x = vec![0u8; par.len()]; pp = self.a.put(&x) as u64; pl = x.len() as u64; }
        }
        let mut m = vec![];
        for x in [t, pp, pl] { m.extend(x.to_ne_bytes()); }
        (self.a.put(&m) as u64, me.0, me.2)
    }
    fn base(&mut self, f: &str, mech: u64, second: bool) -> Tmpl {
        let mut t: Tmpl = match f {
            "C_CreateObject" => match self.b(14) {
                0 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![7u8; 16], CKA_ENCRYPT => true, CKA_DERIVE => true },
                1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => vec![7u8; 40], CKA_SIGN => true },
                2 => rsa_priv_tmpl(&crate::rsakeys::KEYS[0], true),
                3 => rsa_pub_tmpl(&crate::rsakeys::KEYS[0]),
                4 => { let e = test_ec(); ec_priv_tmpl(&e.0, &e.1) }
                5 => { let e = test_ec(); ec_pub_tmpl(&e.0, &e.2) }
                6 => tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_DERIVE => true, CKA_EC_PARAMS => c18::mont_oid(false), CKA_VALUE => vec![9u8; 32] },
                7 => tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_EC_PARAMS => c18::mont_oid(false), CKA_EC_POINT => vec![9u8; 32] },
                8 => c18::dh_priv_tmpl(0, &[5; 30]),
                9 => tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_SUBJECT => vec![0x30u8, 0], CKA_VALUE => vec![0x30u8, 0], CKA_ISSUER => vec![0x30u8, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 1] },
                10 => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => vec![1u8, 2, 3], CKA_APPLICATION => "app", CKA_OBJECT_ID => vec![6u8, 1, 1] },
                11 => tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_VALUE => vec![7u8; 20], CKA_OTP_LENGTH => 6u64, CKA_OTP_COUNTER => vec![0u8; 8], CKA_SIGN => true, CKA_VERIFY => true },
                12 => tm! { CKA_CLASS => CKO_TRUST, CKA_ISSUER => vec![0x30u8, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 2], CKA_HASH_OF_CERTIFICATE => vec![1u8; 32], CKA_NAME_HASH_ALGORITHM => CKM_SHA256, CKA_TRUST_SERVER_AUTH => CKT_TRUSTED },
                _ => tm! { CKA_CLASS => self.of(&[0xce534353, CKO_DOMAIN_PARAMETERS, CKO_OTP_KEY, CKO_PROFILE, CKO_MECHANISM, CKO_HW_FEATURE, 0xce534351]), CKA_LABEL => "x", CKA_ISSUER => vec![0x30u8, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 2] },
            },
            "C_GenerateKey" => match mech { CKM_AES_KEY_GEN | CKM_GENERIC_SECRET_KEY_GEN | CKM_SHA256_KEY_GEN | CKM_HKDF_KEY_GEN => tm! { CKA_VALUE_LEN => 32u64, CKA_TOKEN => false }, CKM_HOTP_KEY_GEN => tm! { CKA_VALUE_LEN => 20u64, CKA_OTP_LENGTH => 6u64 }, _ => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE_LEN => 16u64 } },
            "C_GenerateKeyPair" => match (mech, second) {
                (CKM_RSA_PKCS_KEY_PAIR_GEN, false) => tm! { CKA_MODULUS_BITS => 1024u64, CKA_PUBLIC_EXPONENT => vec![1u8, 0, 1] },
                (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, false) => tm! { CKA_EC_PARAMS => c18::mont_oid(false) },
                (CKM_DH_PKCS_KEY_PAIR_GEN, false) => tm! { CKA_PRIME => c18::groups()[0].p.to_bytes_be(), CKA_BASE => vec![2u8] },
                (CKM_DH_PKCS_KEY_PAIR_GEN, true) => tm! { CKA_VALUE_BITS => 256u64 },
                (_, false) => tm! { CKA_EC_PARAMS => test_ec().0.clone(), CKA_VERIFY => true },
                _ => tm! { CKA_SIGN => true, CKA_LABEL => "p" },
            },
            "C_UnwrapKey" | "C_UnwrapKeyAuthenticated" => { let k = self.of(&[CKK_AES, CKK_GENERIC_SECRET, CKK_RSA, CKK_EC, CKK_EC_MONTGOMERY]); tm! { CKA_CLASS => if k == CKK_AES || k == CKK_GENERIC_SECRET { CKO_SECRET_KEY } else { CKO_PRIVATE_KEY }, CKA_KEY_TYPE => k } }
            "C_DeriveKey" => { if mech == CKM_PUB_KEY_FROM_PRIV_KEY { tm! { CKA_CLASS => CKO_PUBLIC_KEY } } else { let mut t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => self.of(&[CKK_GENERIC_SECRET, CKK_GENERIC_SECRET, CKK_AES]) }; if self.p(80) { tset(&mut t, CKA_VALUE_LEN, self.of(&[16, 32, 16, 48])) } if mech == CKM_HKDF_DATA { t = tm! { CKA_CLASS => CKO_DATA, CKA_VALUE_LEN => 20u64 } } t } }
            "C_CopyObject" => if self.p(50) { tm! {} } else { tm! { CKA_TOKEN => false, CKA_LABEL => "copy" } },
            "C_FindObjectsInit" => match self.b(4) { 0 => tm! {}, 1 => tm! { CKA_CLASS => CKO_SECRET_KEY }, 2 => tm! { CKA_TOKEN => true, CKA_LABEL => "x" }, _ => tm! { CKA_ID => vec![1u8] } },
            _ => tm! { CKA_LABEL => "l", CKA_ID => vec![1u8, 2] },
        };
        if f != "C_FindObjectsInit" && f != "C_SetAttributeValue" && self.p(30) { let v = self.p(50); tset(&mut t, CKA_TOKEN, v) }
        let public = f == "C_GenerateKeyPair" && !second || mech == CKM_PUB_KEY_FROM_PRIV_KEY || f == "C_FindObjectsInit" || tget(&t, CKA_CLASS).is_some_and(|c| ![CKO_SECRET_KEY, CKO_PRIVATE_KEY, CKO_OTP_KEY].iter().any(|k| c.bytes() == k.to_ne_bytes()));
        if !public && self.p(40) { tset(&mut t, CKA_SENSITIVE, false); }
        if !public && self.p(40) { tset(&mut t, CKA_EXTRACTABLE, true); }
        t
    }
    fn attr(&mut self) -> u64 {
        match self.b(10) { 0 => self.n(), 1 => self.of(&[CKA_WRAP_TEMPLATE, CKA_UNWRAP_TEMPLATE, CKA_DERIVE_TEMPLATE, CKA_ALLOWED_MECHANISMS, CKA_OTP_COUNTER, CKA_OTP_LENGTH, CKA_OTP_FORMAT, CKA_VALUE_BITS, CKA_PRIME, CKA_BASE, CKA_SUBPRIME, CKA_PRIME_BITS, CKA_PARAMETER_SET, CKA_MECHANISM_TYPE, CKA_PROFILE_ID, CKA_CHECK_VALUE]), 2 => 0xce534351 + self.n() % 40, 3 => self.n() % 0x800, _ => self.of(objmodel::ALL) }
    }
    /// a template: pointer, count
    fn template(&mut self, f: &str, mech: u64) -> (u64, u64) { self.template2(f, mech, false) }
    fn template2(&mut self, f: &str, mech: u64, second: bool) -> (u64, u64) {
        if self.bad() && self.p(20) { return match self.b(3) { 0 => (0, self.huge()), 1 => (0, 0), _ => (self.a.put(&[]) as u64, 0) }; }
        let t = self.base(f, mech, second);
        // type, pointer, length
        let mut l: Vec<(u64, u64, u64)> = vec![];
        for (k, v) in &t { let b = v.bytes(); l.push((*k, if b.is_empty() { 0 } else { self.a.put(&b) as u64 }, b.len() as u64)); }
        let n = if self.bad() { 1 + self.b(3) } else { 0 };
        for _ in 0..n {
            let i = if l.is_empty() { 0 } else { self.b(l.len()) };
            match self.b(12) {
                0 if !l.is_empty() => { l.remove(i); }
                1 if !l.is_empty() => { let x = l[i]; l.push(x); }
                2 if !l.is_empty() => { let n = self.b(40); let d = self.rnd(n); l[i].1 = self.a.put(&d) as u64; l[i].2 = n as u64; }
                3 if !l.is_empty() => { let x = self.of(LENS); l[i].1 = self.a.put(&x.to_ne_bytes()) as u64; l[i].2 = 8; }
                4 if !l.is_empty() => { l[i].1 = 0; l[i].2 = if self.p(50) { l[i].2 } else { self.huge() }; }
                5 if !l.is_empty() => l[i].2 = 0,
                6 if !l.is_empty() && l[i].1 != 0 && l[i].2 > 0 => { let n = self.b(l[i].2 as usize); let d = unsafe { std::slice::from_raw_parts(l[i].1 as *const u8, l[i].2 as usize) }.to_vec(); l[i].1 = self.a.put(&d[..n]) as u64; l[i].2 = n as u64; }
                7 if !l.is_empty() && l[i].1 != 0 && l[i].2 > 0 && l[i].2 < 5000 => { let mut d = unsafe { std::slice::from_raw_parts(l[i].1 as *const u8, l[i].2 as usize) }.to_vec(); let j = self.b(d.len()); d[j] ^= 1 << self.b(8); l[i].1 = self.a.put(&d) as u64; }
                8 if !l.is_empty() => l[i].0 = self.attr(),
                9 => {
                    // nested attributes
                    let k = self.of(&[CKA_WRAP_TEMPLATE, CKA_UNWRAP_TEMPLATE, CKA_DERIVE_TEMPLATE]);
                    let mut v = vec![];
                    let n = self.b(4);
                    for _ in 0..n { let a = if self.p(20) { k } else { self.attr() }; let (p, l) = self.ptr(&[1, 8, 0]); for x in [a, p, l] { v.extend(x.to_ne_bytes()); } }
                    if self.p(30) { let n = self.b(24); v.truncate(v.len().saturating_sub(n)); }
                    l.push((k, self.a.put(&v) as u64, v.len() as u64));
                }
                10 => { let a = self.attr(); let (p, n) = self.ptr(&[1, 8, 0, 16]); l.insert(i, (a, p, n)); }
                _ => { let a = self.attr(); let x = self.of(LENS); l.push((a, self.a.put(&x.to_ne_bytes()) as u64, 8)); }
            }
        }
        // moderate sizes only: a real allocation of gigabytes is the caller's wish, and big primes take their time
        for x in l.iter_mut() { if x.2 == 8 && x.1 != 0 { let v = peek(x.1 as usize); if x.0 == CKA_MODULUS_BITS && (1100..1 << 20).contains(&v) || matches!(x.0, CKA_VALUE_LEN | CKA_VALUE_BITS) && (1 << 17..1 << 47).contains(&v) { x.1 = self.a.put(&1024u64.to_ne_bytes()) as u64; } } }
        if l.is_empty() && self.p(50) { return (0, 0); }
        let mut v = vec![];
        for x in &l { for y in [x.0, x.1, x.2] { v.extend(y.to_ne_bytes()); } }
        (self.a.put(&v) as u64, l.len() as u64)
    }
    fn read_template(&mut self) -> (u64, u64) {
        if self.bad() && self.p(30) { return (0, self.huge()); }
        let n = self.b(8);
        let mut v = vec![];
        for _ in 0..n {
            let a = self.attr();
            let (p, l) = match self.b(5) { 0 => (0, 0), 1 => (0, self.huge()), 2 => { let l = self.b(20); let d = vec![0xee; l]; (self.a.put(&d) as u64, l as u64) }
                3 if a & CKF_ARRAY_ATTRIBUTE != 0 => { let mut d = vec![]; for _ in 0..self.b(3) { let b = vec![0xee; 8]; for x in [0, self.a.put(&b) as u64, 8] { d.extend(x.to_ne_bytes()); } } (self.a.put(&d) as u64, d.len() as u64) }
                _ => { let l = 300 + self.b(300); let d = vec![0xee; l]; (self.a.put(&d) as u64, l as u64) } };
            for x in [a, p, l] { v.extend(x.to_ne_bytes()); }
        }
        (self.a.put(&v) as u64, n as u64)
    }
    fn message(&mut self) -> (u64, u64) {
        let gens = &[CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM, CKG_GENERATE_COUNTER_XOR];
        let mut v = vec![];
        let gcm = if self.msg == 0 || self.bad() { self.p(60) } else { self.msg == CKM_AES_GCM };
        if !gcm { let n = if self.bad() { self.of(LENS) } else { self.of(&[16, 0, 32]) }; self.u(&mut v, n); }
        let (p, l) = self.ptr(&[12, 13, 16]);
        self.u(&mut v, p); self.u(&mut v, l);
        let fx = if self.bad() { self.huge() } else { self.of(&[0, 32, 64, 96]) };
        self.u(&mut v, fx);
        let g = if self.bad() { self.huge() } else { self.of(gens) };
        self.u(&mut v, g);
        let bits = if self.bad() { self.huge() } else if gcm { self.of(&[128, 96, 32, 121]) } else { self.of(&[16, 4, 8]) };
        let p = if self.bad() { 0 } else { self.a.put(&[0xee; 16]) as u64 };
        self.u(&mut v, p); self.u(&mut v, bits);
        if self.bad() {
            return match self.b(5) { 0 => (0, v.len() as u64), 1 => (0, 0), 2 => (self.a.put(&v) as u64, 0), 3 => { let n = self.b(v.len()); (self.a.put(&v[..n]) as u64, n as u64) } _ => { let n = self.b(60); let z = vec![0; n]; (self.a.put(&z) as u64, n as u64) } };
        }
        (self.a.put(&v) as u64, v.len() as u64)
    }
}

/// names that are no return codes at all
fn known_rv(rv: Rv) -> bool { !rvname(rv).starts_with("CKR_0x") || rv & CKR_VENDOR_DEFINED != 0 }

fn pool(p: &P, s: Sess, nss: bool) -> Vec<(char, Obj)> {
    let mut v = vec![];
    let usage = |t: &mut Tmpl, secret: bool| { for a in [CKA_DERIVE, CKA_SIGN, CKA_VERIFY, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP] { if secret { tset(t, a, true); } } tset(t, CKA_SENSITIVE, false); tset(t, CKA_EXTRACTABLE, true); };
    let mut key = |c: char, kt: u64, val: &[u8], token: bool| { let mut t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => kt, CKA_VALUE => val, CKA_TOKEN => token }; usage(&mut t, true); v.push((c, must(p, s, &t, "pool key"))); };
    key('a', CKK_AES, &[1; 16], false);
    key('A', CKK_AES, &[2; 32], true);
    key('g', CKK_GENERIC_SECRET, &[3; 32], false);
    key('g', CKK_GENERIC_SECRET, &[4; 20], true);
    key('t', CKK_GENERIC_SECRET, &[3, 3].repeat(24), false);
    key('h', CKK_SHA256_HMAC, &[5; 32], false);
    key('k', CKK_HKDF, &[6; 40], false);
    drop(key);
    let (pr, pu) = rsa_objs(p, s, &crate::rsakeys::KEYS[0]);
    v.push(('r', pr)); v.push(('R', pu));
    let (oid, d, pt) = test_ec();
    v.push(('e', ec_priv(p, s, oid, d)));
    v.push(('F', must(p, s, &ec_pub_tmpl(oid, pt), "ec public")));
    v.push(('m', c18::mont_priv(p, s, false, &[9; 32])));
    v.push(('d', c18::dh_priv(p, s, 0, &[5; 32])));
    v.push(('o', must(p, s, &tm! { CKA_CLASS => CKO_OTP_KEY, CKA_KEY_TYPE => CKK_HOTP, CKA_VALUE => vec![7u8; 20], CKA_OTP_LENGTH => 6u64, CKA_OTP_COUNTER => vec![0u8; 8], CKA_SIGN => true, CKA_VERIFY => true, CKA_SENSITIVE => false }, "hotp")));
    v.push(('D', must(p, s, &tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => vec![1u8; 10], CKA_TOKEN => !nss }, "data")));
    v.push(('c', must(p, s, &tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_SUBJECT => vec![0x30u8, 0], CKA_VALUE => vec![0x30u8, 0], CKA_ISSUER => vec![0x30u8, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 1], CKA_TOKEN => true }, "cert")));
    v
}
/// the number of objects
fn count(p: &P, s: Sess) -> Option<usize> { let (rv, v) = p.find(s, &[]); if rv == CKR_OK { Some(v.len()) } else { None } }

fn run(c: &Case, cx: &mut Cx) -> R {
    let mut t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = t.p;
    let f = addrs(&p);
    let mut pool_ = vec![];
    let mut sess = vec![];
    match c.login { 1 => { sess.push(t.open(true)); } 2 => { let s = t.open(true); p.login(s, CKU_SO, SO); sess.push(s); } _ => { let s = t.user(); pool_ = pool(&p, s, c.nss); sess.push(s); sess.push(t.open(true)); sess.push(t.open(false)); } }
    let mut extra: Vec<Obj> = vec![];
    let mut blobs: Vec<Vec<u8>> = vec![];
    let mut arena = Arena::new();
    let mut results: Vec<Vec<u8>> = vec![];
    let mut msg = 0;
    let mut accepted = 0;
    for (si, st) in c.steps.iter().enumerate() {
        let (name, sig) = SIG[st.f as usize % SIG.len()];
        let fp = f[st.f as usize % SIG.len()];
        if fp == 0 { continue; }
        let helper = p.open(t.slot, false).1;
        let before = if sig.contains('n') && sig.contains('s') { count(&p, helper) } else { None };
        let mut g = G { r: st.seed, lvl: st.lvl, a: &mut arena, pool: &pool_, extra: &extra, sess: &sess, slot: t.slot, blobs: &blobs, outs: &results, msg };
        let mut a: Vec<u64> = vec![];
        let (mut mech, mut kinds) = (0, "");
        let mut outs: Vec<(usize, u64)> = vec![]; // pointer to a length, size of the buffer
        let mut bufs: Vec<(usize, usize)> = vec![];
        let mut handles: Vec<usize> = vec![];
        let mut state: Option<(usize, usize)> = None;
        let mut templates = 0;
        for k in sig.chars() {
            match k {
                's' => { let x = if g.bad() || g.sess.is_empty() { match g.b(3) { 0 => 0, 1 => u64::MAX, _ => g.n() } } else if g.p(95) { g.sess[0] } else { g.sess[g.b(g.sess.len())] }; a.push(x); }
                'l' => { let x = if g.bad() { match g.b(3) { 0 => g.slot + 1, 1 => u64::MAX, _ => g.n() } } else { g.slot }; a.push(x); }
                'h' => { let x = g.handle(); a.push(x); }
                'k' => { let x = g.key(kinds); a.push(x); }
                'm' => { let (m, t, k) = g.mech(name); mech = t; kinds = k; a.push(m); }
                'd' => {
                    let n = g.len();
                    if g.bad() { let x = if g.p(50) { g.huge() } else { 0 }; a.extend([0, x]); }
                    else if name == "C_SetOperationState" && !g.blobs.is_empty() && g.p(80) { let mut b = g.blobs[g.b(g.blobs.len())].clone(); if g.bad() && !b.is_empty() { let i = g.b(b.len()); b[i] ^= 1; } a.extend([g.a.put(&b) as u64, b.len() as u64]); }
                    else if (name.contains("Decrypt") || name.contains("Unwrap") || name.contains("Verify")) && !g.outs.is_empty() && g.p(50) { let mut d = g.outs[g.b(g.outs.len())].clone(); if g.bad() && !d.is_empty() { let i = g.b(d.len()); d[i] ^= 1; } a.extend([g.a.put(&d) as u64, d.len() as u64]); }
                    else { let n = if name.contains("Verify") && !name.contains("Update") && g.p(60) { [16, 20, 32, 64, 128, 8, 12, 62][g.b(8)] } else { n }; let d = g.rnd(n); a.extend([g.a.put(&d) as u64, n as u64]); }
                }
                'o' => {
                    let n = if g.p(70) { [256usize, 512, 1024, 65536][g.b(4)] } else { g.len() };
                    let big = n.max(65536.min(n + 4096)).min(65536);
                    let n = if g.p(70) { big } else { n };
                    let b = vec![0xee; n];
                    let buf = if g.p(10) { 0 } else { g.a.put(&b) };
                    let l = if buf == 0 { g.huge() } else { n as u64 };
                    let lp = if g.bad() { 0 } else { g.a.put(&l.to_ne_bytes()) };
                    if lp != 0 && buf != 0 { outs.push((lp, n as u64)); bufs.push((lp, buf)); }
                    if name == "C_GetOperationState" && lp != 0 && buf != 0 { state = Some((buf, lp)); }
                    a.extend([buf as u64, lp as u64]);
                }
                't' => { let (x, n) = g.template2(name, mech, templates > 0); templates += 1; a.extend([x, n]); }
                'n' => { let x = if g.bad() { 0 } else { g.a.put(&[0xee; 8]) }; if x != 0 { handles.push(x); } a.push(x as u64); }
                'f' => { let x = if g.bad() { g.n() } else { let all = 2 * g.b(2) as u64 | 4; match name { "C_OpenSession" => all, "C_SessionCancel" => [CKF_ENCRYPT, CKF_DECRYPT, CKF_SIGN, CKF_VERIFY, CKF_DIGEST, CKF_FIND_OBJECTS, CKF_MESSAGE_ENCRYPT, CKF_MESSAGE_DECRYPT, u64::MAX][g.b(9)], "C_EncryptMessageNext" | "C_DecryptMessageNext" => g.b(2) as u64, _ => 0 } }; a.push(x); }
                'u' => { let x = if g.bad() { g.n() } else { g.of(&[CKU_USER, CKU_SO, CKU_CONTEXT_SPECIFIC]) }; a.push(x); }
                'i' => { let x = if g.bad() { 0 } else { g.a.put(&[0; 512]) }; a.push(x as u64); }
                'q' => { let (x, n) = if name.contains("Sign") || name.contains("Verify") { g.ptr(&[0, 16]) } else { g.message() }; a.extend([x, n]); }
                'z' => { let x = if g.bad() && name != "C_OpenSession" { g.a.put(&[0; 64]) as u64 } else { 0 }; a.push(x); }
                'w' => a.push(CKF_DONT_BLOCK),
                'x' => { let x = if g.p(50) { 1 } else { g.huge() }; a.push(x); }
                'y' => { let x = if g.bad() { g.n() } else { MECHS[g.b(MECHS.len())].0 }; a.push(x); }
                'b' => { let x = g.of(&[0, 1, 2, 255]); a.push(x); }
                'r' => { let x = if g.bad() { 0 } else { let d = g.rnd(32); g.a.put(&d) }; a.push(x as u64); }
                'a' => { let (x, n) = g.read_template(); a.extend([x, n]); }
                'j' => { let n = g.b(40); let b = vec![0xee; 8 * n]; let (x, n) = if g.bad() { (0, g.huge()) } else { (g.a.put(&b), n as u64) }; let lp = if g.bad() { 0 } else { g.a.put(&[0xee; 8]) }; a.extend([x as u64, n, lp as u64]); }
                'g' => { let n = g.len(); let b = vec![0xee; n]; let (x, n) = if g.bad() { (0, g.huge()) } else { (g.a.put(&b), n as u64) }; a.extend([x as u64, n]); }
                'p' => { let d = match g.b(6) { 0 => SO.to_vec(), 1 => vec![], 2 => { let n = g.b(300); g.rnd(n) } 3 => vec![b'p'; [3, 4, 8, 255, 256, 512, 5000][g.b(7)]], _ => USER.to_vec() }; if g.bad() { let x = g.huge(); a.extend([0, x]); } else { a.extend([g.a.put(&d) as u64, d.len() as u64]); } }
                'N' => { let x = if g.p(40) { 0 } else { let d: &[u8] = [b"PKCS 11\0".as_slice(), b"Vendor\0", b"\0", b"\x03\x02", b"\xff\xff\0"][g.b(5)]; g.a.put(d) }; a.push(x as u64); }
                'L' | 'M' | 'I' => { let n = if g.p(50) { g.b(300) } else { 250 }; let sz = if k == 'I' { 24 } else { 8 }; let b = vec![0xee; sz * n]; let x = if g.p(20) { 0 } else { g.a.put(&b) }; let l = if x == 0 { g.huge() } else { n as u64 }; let lp = if g.bad() { 0 } else { g.a.put(&l.to_ne_bytes()) }; a.extend([x as u64, lp as u64]); }
                _ => unreachable!(),
            }
        }
        if name == "C_GetInterface" && a[1] != 0 { a[1] = g.a.put(&[3, 2]) as u64; }
        let n = a.len();
        ensure!(n <= 11, "arguments", "{name}");
        a.resize(11, 0);
        let args = a.clone();
        let call: extern "C" fn(usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize) -> u64 = unsafe { std::mem::transmute(fp) };
        let w = |i: usize| a[i] as usize;
        let began = std::time::Instant::now();
        let rv = call(w(0), w(1), w(2), w(3), w(4), w(5), w(6), w(7), w(8), w(9), w(10));
        let took = began.elapsed();
        let what = format!("step {si}: {name} mech {mech:#x} args {:x?}", &args[..n]);
        ensure!(known_rv(rv), "code", "{what}: {rv:#x} is no return code");
        ensure!(took.as_secs() < 30, "time", "{what}: took {took:?}");
        for (lp, n) in &outs { if rv == CKR_OK { ensure!(peek(*lp) <= *n, "length", "{what}: {} bytes in a buffer of {n}", peek(*lp)); } }
        let mut made = vec![];
        if rv == CKR_OK { for h in &handles { made.push(peek(*h)); } accepted += 1; if st.lvl > 0 { cx.hit("odd call accepted"); } }
        if let (Some((b, l)), CKR_OK) = (state, rv) { let n = peek(l) as usize; blobs.push(unsafe { std::slice::from_raw_parts(b as *const u8, n) }.to_vec()); }
        if rv == CKR_OK {
            for (lp, b) in &bufs { let n = peek(*lp) as usize; if n <= BUF { results.push(unsafe { std::slice::from_raw_parts(*b as *const u8, n) }.to_vec()); if results.len() > 12 { results.remove(0); } } }
            if name == "C_MessageEncryptInit" || name == "C_MessageDecryptInit" { msg = mech; }
        }
        arena.end();
        if name == "C_OpenSession" { sess.extend(&made); } else if !made.is_empty() { extra.extend(&made); if extra.len() > 60 { for o in extra.drain(..20) { p.destroy(sess[0], o); } } }
        if name == "C_CloseSession" && rv == CKR_OK { sess.retain(|s| *s != args[0]); }
        if name == "C_CloseAllSessions" && rv == CKR_OK || name == "C_InitToken" && rv == CKR_OK { sess.clear(); pool_.clear(); extra.clear(); }
        if let Some(b) = before {
            let after = count(&p, helper);
            if rv != CKR_OK { ensure!(after == Some(b), "left over", "{what}: {} and {b} objects became {after:?}", rvname(rv)); cx.hit("refused call left nothing"); }
        }
        if std::env::var("KV_STAT").is_ok() && st.lvl == 0 { cx.hit(&format!("Z {name} {mech:x} {}", rvname(rv))); }
        if rv != CKR_OK { cx.hit(if rv == CKR_ARGUMENTS_BAD { "arguments refused" } else { "refused" }); }
        p.close(helper);
        if sess.is_empty() {
            let (rv, s) = p.open(t.slot, true);
            ensure!(rv == CKR_OK, "usable", "{what}: then C_OpenSession: {}", rvname(rv));
            sess.push(s);
        }
    }
    cx.hitn("calls accepted", accepted);
    if accepted > 0 && c.steps.len() > 2 { cx.nt(); }
    // the library is still usable
    for round in 0..2 {
        let (rv, s) = p.open(t.slot, true);
        ensure!(rv == CKR_OK, "usable", "C_OpenSession: {}", rvname(rv));
        ensure!(p.digest_init(s, &Mech::new(CKM_SHA256)) == CKR_OK && p.digest_update(s, b"abc") == CKR_OK, "usable", "SHA-256");
        ensure!(p.digest_final(s).1 == refc::hash::H::Sha256.hash(b"abc"), "usable", "SHA-256");
        let (rv, k) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![1u8; 16], CKA_TOKEN => false, CKA_PRIVATE => false, CKA_ENCRYPT => true });
        ensure!(rv == CKR_OK, "usable", "C_CreateObject: {}", rvname(rv));
        let e = p.enc(s, &Mech::new(CKM_AES_ECB), k, &[7; 16]);
        ensure!(e == Ok(refc::aes::ecb(&[1; 16], &[7; 16], true)), "usable", "AES: {e:x?}");
        if round == 0 { t.restart(); cx.hit("restarted"); }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C24", level: "exploration", workers: 8, hang_s: 60,
        rule: "at least one of the generated calls was accepted and the case has more than two calls",
        assumptions: &["pointers are null or valid for the length that goes with them; a null length pointer is allowed", "requests whose legitimate execution takes unbounded time or memory (PBKDF2 iteration counts, RSA key sizes beyond 1100 bits, secret lengths from 2^17 to 2^47 bytes) are left out", "C_Initialize and C_Finalize arguments: C27"],
        groups: vec![
            gen_("calls", 12000, 150000, || cases(false, false, 14), run),
            gen_("templates", 9000, 100000, || cases(false, true, 14), run),
            gen_("nss", 2500, 30000, || cases(true, true, 12), run),
        ],
    }
}
