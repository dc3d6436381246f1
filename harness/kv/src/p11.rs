//! Thin safe-ish wrapper over the PKCS#11 function list of the library under
//! test.  All output buffers are surrounded by guard bytes; any write outside
//! the length handed to the library sets `GUARD_BROKEN`.
#![allow(dead_code, non_snake_case)]
use kryoptic_lib::pkcs11::*;
use serde::{Deserialize, Serialize};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU64, Ordering};

pub use kryoptic_lib::pkcs11;
pub use kryoptic_lib::pkcs11::vendor::*;

pub type Rv = CK_RV;
pub type Sess = CK_SESSION_HANDLE;
pub type Obj = CK_OBJECT_HANDLE;

pub static GUARD_BROKEN: AtomicU64 = AtomicU64::new(0);
const GUARD: usize = 64;

pub fn rvname(rv: Rv) -> String {
    macro_rules! n { ($($x:ident),* $(,)?) => { match rv { $($x => stringify!($x).to_string(),)* _ => format!("CKR_0x{:x}", rv) } } }
    n!(
        CKR_OK, CKR_GENERAL_ERROR, CKR_FUNCTION_FAILED, CKR_ARGUMENTS_BAD, CKR_SLOT_ID_INVALID, CKR_HOST_MEMORY,
        CKR_ATTRIBUTE_READ_ONLY, CKR_ATTRIBUTE_SENSITIVE, CKR_ATTRIBUTE_TYPE_INVALID, CKR_ATTRIBUTE_VALUE_INVALID,
        CKR_ACTION_PROHIBITED, CKR_DATA_INVALID, CKR_DATA_LEN_RANGE, CKR_DEVICE_ERROR, CKR_DEVICE_MEMORY,
        CKR_ENCRYPTED_DATA_INVALID, CKR_ENCRYPTED_DATA_LEN_RANGE, CKR_AEAD_DECRYPT_FAILED,
        CKR_FUNCTION_NOT_SUPPORTED, CKR_KEY_HANDLE_INVALID, CKR_KEY_SIZE_RANGE, CKR_KEY_TYPE_INCONSISTENT,
        CKR_KEY_INDIGESTIBLE, CKR_KEY_FUNCTION_NOT_PERMITTED, CKR_KEY_NOT_WRAPPABLE, CKR_KEY_UNEXTRACTABLE,
        CKR_MECHANISM_INVALID, CKR_MECHANISM_PARAM_INVALID, CKR_OBJECT_HANDLE_INVALID, CKR_OPERATION_ACTIVE,
        CKR_OPERATION_NOT_INITIALIZED, CKR_PIN_INCORRECT, CKR_PIN_INVALID, CKR_PIN_LEN_RANGE, CKR_PIN_LOCKED,
        CKR_SESSION_CLOSED, CKR_SESSION_COUNT, CKR_SESSION_HANDLE_INVALID, CKR_SESSION_PARALLEL_NOT_SUPPORTED,
        CKR_SESSION_READ_ONLY, CKR_SESSION_EXISTS, CKR_SESSION_READ_ONLY_EXISTS, CKR_SESSION_READ_WRITE_SO_EXISTS,
        CKR_SIGNATURE_INVALID, CKR_SIGNATURE_LEN_RANGE, CKR_TEMPLATE_INCOMPLETE, CKR_TEMPLATE_INCONSISTENT,
        CKR_TOKEN_NOT_PRESENT, CKR_TOKEN_NOT_RECOGNIZED, CKR_TOKEN_WRITE_PROTECTED, CKR_TOKEN_NOT_INITIALIZED,
        CKR_UNWRAPPING_KEY_HANDLE_INVALID, CKR_UNWRAPPING_KEY_SIZE_RANGE, CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT,
        CKR_USER_ALREADY_LOGGED_IN, CKR_USER_NOT_LOGGED_IN, CKR_USER_PIN_NOT_INITIALIZED, CKR_USER_TYPE_INVALID,
        CKR_USER_ANOTHER_ALREADY_LOGGED_IN, CKR_USER_TOO_MANY_TYPES, CKR_WRAPPED_KEY_INVALID, CKR_WRAPPED_KEY_LEN_RANGE,
        CKR_WRAPPING_KEY_HANDLE_INVALID, CKR_WRAPPING_KEY_SIZE_RANGE, CKR_WRAPPING_KEY_TYPE_INCONSISTENT,
        CKR_RANDOM_SEED_NOT_SUPPORTED, CKR_RANDOM_NO_RNG, CKR_DOMAIN_PARAMS_INVALID, CKR_CURVE_NOT_SUPPORTED,
        CKR_BUFFER_TOO_SMALL, CKR_SAVED_STATE_INVALID, CKR_STATE_UNSAVEABLE, CKR_CRYPTOKI_NOT_INITIALIZED,
        CKR_CRYPTOKI_ALREADY_INITIALIZED, CKR_FUNCTION_REJECTED, CKR_PUBLIC_KEY_INVALID, CKR_KEY_EXHAUSTED,
        CKR_OPERATION_CANCEL_FAILED, CKR_FUNCTION_NOT_PARALLEL, CKR_NO_EVENT, CKR_CANT_LOCK, CKR_MUTEX_BAD,
        CKR_INFORMATION_SENSITIVE, CKR_PIN_EXPIRED, CKR_KEY_CHANGED, CKR_KEY_NEEDED, CKR_KEY_NOT_NEEDED,
    )
}

/// Attribute value as plain data.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum V {
    B(bool),
    U(u64),
    X(#[serde(with = "hexser")] Vec<u8>),
    L(Vec<u64>),
}
impl V {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            V::B(b) => vec![*b as u8],
            V::U(u) => u.to_ne_bytes().to_vec(),
            V::X(v) => v.clone(),
            V::L(l) => l.iter().flat_map(|u| u.to_ne_bytes()).collect(),
        }
    }
}
impl From<bool> for V { fn from(b: bool) -> V { V::B(b) } }
impl From<u64> for V { fn from(b: u64) -> V { V::U(b) } }
impl From<&[u8]> for V { fn from(b: &[u8]) -> V { V::X(b.to_vec()) } }
impl From<Vec<u8>> for V { fn from(b: Vec<u8>) -> V { V::X(b) } }
impl From<&Vec<u8>> for V { fn from(b: &Vec<u8>) -> V { V::X(b.clone()) } }
impl From<&str> for V { fn from(b: &str) -> V { V::X(b.as_bytes().to_vec()) } }

pub mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
    pub fn dec(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc(v)) }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok(dec(&s))
    }
}
pub use hexser::{dec as unhex, enc as hex};

pub type Attr = (u64, V);
pub type Tmpl = Vec<Attr>;

#[macro_export]
macro_rules! tm {
    ($($k:expr => $v:expr),* $(,)?) => { vec![$(($k as u64, $crate::p11::V::from($v))),*] };
}

pub fn tget<'a>(t: &'a Tmpl, k: u64) -> Option<&'a V> { t.iter().find(|a| a.0 == k).map(|a| &a.1) }
pub fn tset(t: &mut Tmpl, k: u64, v: impl Into<V>) {
    let v = v.into();
    if let Some(a) = t.iter_mut().find(|a| a.0 == k) { a.1 = v } else { t.push((k, v)) }
}

/// Owned CK_ATTRIBUTE array.
pub struct CT { _store: Vec<Vec<u8>>, pub a: Vec<CK_ATTRIBUTE> }
impl CT {
    pub fn new(t: &[Attr]) -> CT {
        let mut store: Vec<Vec<u8>> = t.iter().map(|x| x.1.bytes()).collect();
        let a = t.iter().zip(store.iter_mut()).map(|(x, b)| CK_ATTRIBUTE {
            type_: x.0,
            pValue: if b.is_empty() { null_mut() } else { b.as_mut_ptr() as *mut _ },
            ulValueLen: b.len() as CK_ULONG,
        }).collect();
        CT { _store: store, a }
    }
    pub fn ptr(&mut self) -> *mut CK_ATTRIBUTE { if self.a.is_empty() { null_mut() } else { self.a.as_mut_ptr() } }
    pub fn len(&self) -> CK_ULONG { self.a.len() as CK_ULONG }
}

/// Owned mechanism.
pub struct Mech { m: CK_MECHANISM, _own: Vec<Box<[u8]>>, _u: Vec<Box<[u64]>> }
impl Mech {
    pub fn new(t: u64) -> Mech {
        Mech { m: CK_MECHANISM { mechanism: t, pParameter: null_mut(), ulParameterLen: 0 }, _own: vec![], _u: vec![] }
    }
    pub fn bytes(t: u64, p: &[u8]) -> Mech {
        let mut m = Mech::new(t);
        let (ptr, l) = m.keep(p);
        m.m.pParameter = ptr as *mut _;
        m.m.ulParameterLen = l;
        m
    }
    /// keep a copy of bytes, return pointer (null when empty) and length
    pub fn keep(&mut self, p: &[u8]) -> (*mut u8, CK_ULONG) {
        if p.is_empty() { return (null_mut(), 0); }
        // 8-byte aligned storage
        let mut v = vec![0u64; p.len().div_ceil(8)].into_boxed_slice();
        let ptr = v.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(p.as_ptr(), ptr, p.len()) };
        self._u.push(v);
        (ptr, p.len() as CK_ULONG)
    }
    pub fn keep_exact(&mut self, p: &[u8]) -> (*mut u8, CK_ULONG) {
        let mut v = p.to_vec().into_boxed_slice();
        let ptr = v.as_mut_ptr();
        self._own.push(v);
        (ptr, p.len() as CK_ULONG)
    }
    pub fn set<T: Copy>(&mut self, p: T) -> &mut Self {
        let n = std::mem::size_of::<T>();
        let bytes = unsafe { std::slice::from_raw_parts(&p as *const T as *const u8, n) };
        let (ptr, l) = self.keep(bytes);
        self.m.pParameter = ptr as *mut _;
        self.m.ulParameterLen = l;
        self
    }
    pub fn with<T: Copy>(t: u64, p: T) -> Mech { let mut m = Mech::new(t); m.set(p); m }
    pub fn param<T>(&self) -> &T { unsafe { &*(self.m.pParameter as *const T) } }
    pub fn ptr(&self) -> *mut CK_MECHANISM { &self.m as *const _ as *mut _ }
    pub fn typ(&self) -> u64 { self.m.mechanism }
    pub fn raw(&self) -> CK_MECHANISM { self.m }
    pub fn raw_mut(&mut self) -> &mut CK_MECHANISM { &mut self.m }
}

pub static NB: [u8; 8] = [0; 8];
/// like cbytes, but an empty slice is a non-null pointer
pub fn dbytes(v: &[u8]) -> *mut u8 { if v.is_empty() { NB.as_ptr() as *mut u8 } else { v.as_ptr() as *mut u8 } }
pub fn cbytes(v: &[u8]) -> *mut u8 { if v.is_empty() { null_mut() } else { v.as_ptr() as *mut u8 } }

/// output buffer with guards
pub struct GBuf { v: Vec<u8>, cap: usize }
impl GBuf {
    pub fn new(cap: usize) -> GBuf { GBuf { v: vec![0xA5; cap + 2 * GUARD], cap } }
    pub fn ptr(&mut self) -> *mut u8 { unsafe { self.v.as_mut_ptr().add(GUARD) } }
    pub fn data(&self, n: usize) -> Vec<u8> { self.v[GUARD..GUARD + n.min(self.cap)].to_vec() }
    pub fn ok(&self) -> bool {
        self.v[..GUARD].iter().all(|b| *b == 0xA5) && self.v[GUARD + self.cap..].iter().all(|b| *b == 0xA5)
    }
    pub fn check(&self) { if !self.ok() { GUARD_BROKEN.fetch_add(1, Ordering::SeqCst); } watch::scan(&self.v[GUARD..GUARD + self.cap]); }
    pub fn untouched(&self) -> bool { self.v.iter().all(|b| *b == 0xA5) }
}

/// Watches every buffer the library writes for secret bytes that must not come out.
pub mod watch {
    use std::collections::HashSet;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Mutex;
    static ON: AtomicBool = AtomicBool::new(false);
    static W: Mutex<Option<HashSet<[u8; 8]>>> = Mutex::new(None);
    static LEAK: Mutex<Option<String>> = Mutex::new(None);
    pub type Windows = HashSet<[u8; 8]>;
    /// all sequences of 8 bytes of a secret, save those any data might hold
    pub fn windows(b: &[u8]) -> Windows {
        b.windows(8).map(|w| <[u8; 8]>::try_from(w).unwrap()).filter(|w| w.iter().collect::<HashSet<_>>().len() > 3).collect()
    }
    pub fn arm(w: Windows) { ON.store(!w.is_empty(), Ordering::SeqCst); *W.lock().unwrap() = Some(w); }
    pub fn disarm() { ON.store(false, Ordering::SeqCst); *W.lock().unwrap() = None; *LEAK.lock().unwrap() = None; }
    pub fn armed() -> bool { ON.load(Ordering::SeqCst) }
    pub fn leak() -> Option<String> { LEAK.lock().unwrap().take() }
    pub fn scan(b: &[u8]) {
        if !ON.load(Ordering::SeqCst) { return; }
        let n = b.iter().rposition(|x| *x != 0xA5).map_or(0, |i| i + 1);
        let g = W.lock().unwrap();
        let Some(w) = g.as_ref() else { return };
        if let Some(x) = b[..n].windows(8).find(|x| w.contains(*x)) { *LEAK.lock().unwrap() = Some(super::hex(x)); }
    }
}

#[derive(Clone, Copy)]
pub struct P { pub f: CK_FUNCTION_LIST_3_2 }

macro_rules! C { ($s:ident . $f:ident ( $($a:expr),* )) => { unsafe { ($s.f.$f.unwrap())($($a),*) } } }

pub const BIG: usize = 1 << 14;

impl P {
    pub fn load() -> P {
        let mut ptr: *mut CK_INTERFACE = null_mut();
        let mut v = CK_VERSION { major: 3, minor: 2 };
        let rv = kryoptic_lib::fns::general::fn_get_interface(
            b"PKCS 11\0".as_ptr() as *mut _, &mut v, &mut ptr as *mut _ as *mut _, 0);
        if rv != CKR_OK { panic!("C_GetInterface failed {}", rvname(rv)); }
        let p = unsafe { *((*ptr).pFunctionList as *const CK_FUNCTION_LIST_3_2) };
        P { f: p }
    }
    pub fn initialize(&self, arg: Option<&str>) -> Rv {
        let mut a = CK_C_INITIALIZE_ARGS::default();
        a.flags = CKF_OS_LOCKING_OK;
        let s = arg.map(|s| std::ffi::CString::new(s).unwrap());
        if let Some(s) = &s { a.pReserved = s.as_ptr() as *mut _; }
        C!(self.C_Initialize(&mut a as *mut _ as *mut _))
    }
    pub fn finalize(&self) -> Rv { C!(self.C_Finalize(null_mut())) }
    pub fn slots(&self, present: bool) -> (Rv, Vec<u64>) {
        let mut n: CK_ULONG = 0;
        let rv = C!(self.C_GetSlotList(present as u8, null_mut(), &mut n));
        if rv != CKR_OK { return (rv, vec![]); }
        let mut v = vec![0u64; n as usize];
        let rv = C!(self.C_GetSlotList(present as u8, v.as_mut_ptr(), &mut n));
        v.truncate(n as usize);
        (rv, v)
    }
    pub fn slot_info(&self, s: u64) -> (Rv, CK_SLOT_INFO) {
        let mut i = CK_SLOT_INFO::default();
        (C!(self.C_GetSlotInfo(s, &mut i)), i)
    }
    pub fn token_info(&self, s: u64) -> (Rv, CK_TOKEN_INFO) {
        let mut i = CK_TOKEN_INFO::default();
        (C!(self.C_GetTokenInfo(s, &mut i)), i)
    }
    pub fn mech_list(&self, s: u64) -> (Rv, Vec<u64>) {
        let mut n: CK_ULONG = 0;
        let rv = C!(self.C_GetMechanismList(s, null_mut(), &mut n));
        if rv != CKR_OK { return (rv, vec![]); }
        let mut v = vec![0u64; n as usize];
        let rv = C!(self.C_GetMechanismList(s, v.as_mut_ptr(), &mut n));
        v.truncate(n as usize);
        (rv, v)
    }
    pub fn mech_info(&self, s: u64, m: u64) -> (Rv, CK_MECHANISM_INFO) {
        let mut i = CK_MECHANISM_INFO::default();
        (C!(self.C_GetMechanismInfo(s, m, &mut i)), i)
    }
    pub fn init_token(&self, slot: u64, pin: &[u8], label: &str) -> Rv {
        let mut l = [b' '; 32];
        for (i, b) in label.bytes().take(32).enumerate() { l[i] = b; }
        C!(self.C_InitToken(slot, cbytes(pin), pin.len() as CK_ULONG, l.as_mut_ptr()))
    }
    pub fn init_pin(&self, s: Sess, pin: &[u8]) -> Rv { C!(self.C_InitPIN(s, cbytes(pin), pin.len() as CK_ULONG)) }
    pub fn set_pin(&self, s: Sess, old: &[u8], new: &[u8]) -> Rv {
        C!(self.C_SetPIN(s, cbytes(old), old.len() as CK_ULONG, cbytes(new), new.len() as CK_ULONG))
    }
    pub fn open(&self, slot: u64, rw: bool) -> (Rv, Sess) {
        let mut h: CK_ULONG = 0;
        let fl = CKF_SERIAL_SESSION | if rw { CKF_RW_SESSION } else { 0 };
        (C!(self.C_OpenSession(slot, fl, null_mut(), None, &mut h)), h)
    }
    pub fn close(&self, s: Sess) -> Rv { C!(self.C_CloseSession(s)) }
    pub fn close_all(&self, slot: u64) -> Rv { C!(self.C_CloseAllSessions(slot)) }
    pub fn sess_info(&self, s: Sess) -> (Rv, CK_SESSION_INFO) {
        let mut i = CK_SESSION_INFO::default();
        (C!(self.C_GetSessionInfo(s, &mut i)), i)
    }
    pub fn login(&self, s: Sess, u: u64, pin: &[u8]) -> Rv { C!(self.C_Login(s, u, cbytes(pin), pin.len() as CK_ULONG)) }
    pub fn logout(&self, s: Sess) -> Rv { C!(self.C_Logout(s)) }
    pub fn cancel(&self, s: Sess, flags: u64) -> Rv { C!(self.C_SessionCancel(s, flags)) }

    // objects
    pub fn create(&self, s: Sess, t: &[Attr]) -> (Rv, Obj) {
        let mut h: CK_ULONG = 0;
        let mut c = CT::new(t);
        (C!(self.C_CreateObject(s, c.ptr(), c.len(), &mut h)), h)
    }
    pub fn copy(&self, s: Sess, o: Obj, t: &[Attr]) -> (Rv, Obj) {
        let mut h: CK_ULONG = 0;
        let mut c = CT::new(t);
        (C!(self.C_CopyObject(s, o, c.ptr(), c.len(), &mut h)), h)
    }
    pub fn destroy(&self, s: Sess, o: Obj) -> Rv { C!(self.C_DestroyObject(s, o)) }
    pub fn size(&self, s: Sess, o: Obj) -> (Rv, u64) {
        let mut n: CK_ULONG = 0;
        (C!(self.C_GetObjectSize(s, o, &mut n)), n)
    }
    /// get attributes with a query for length then values. (rv of value call, per attr Some(bytes) or None)
    pub fn get(&self, s: Sess, o: Obj, types: &[u64]) -> (Rv, Vec<Option<Vec<u8>>>) {
        let mut a: Vec<CK_ATTRIBUTE> = types.iter().map(|t| CK_ATTRIBUTE { type_: *t, pValue: null_mut(), ulValueLen: 0 }).collect();
        let rv = C!(self.C_GetAttributeValue(s, o, a.as_mut_ptr(), a.len() as CK_ULONG));
        if !matches!(rv, CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID) {
            return (rv, vec![None; types.len()]);
        }
        let mut bufs: Vec<GBuf> = a.iter().map(|x| GBuf::new(if x.ulValueLen == CK_UNAVAILABLE_INFORMATION { 0 } else { x.ulValueLen as usize })).collect();
        for (x, b) in a.iter_mut().zip(bufs.iter_mut()) {
            let l = if x.ulValueLen == CK_UNAVAILABLE_INFORMATION { 0 } else { x.ulValueLen };
            x.pValue = b.ptr() as *mut _;
            x.ulValueLen = l;
        }
        let rv = C!(self.C_GetAttributeValue(s, o, a.as_mut_ptr(), a.len() as CK_ULONG));
        let out = a.iter().zip(bufs.iter()).map(|(x, b)| {
            b.check();
            if x.ulValueLen == CK_UNAVAILABLE_INFORMATION { None } else { Some(b.data(x.ulValueLen as usize)) }
        }).collect();
        (rv, out)
    }
    pub fn get1(&self, s: Sess, o: Obj, t: u64) -> Result<Vec<u8>, Rv> {
        let (rv, mut v) = self.get(s, o, &[t]);
        if rv != CKR_OK { return Err(rv); }
        v.pop().unwrap().ok_or(CKR_GENERAL_ERROR)
    }
    pub fn get_bool(&self, s: Sess, o: Obj, t: u64) -> Result<bool, Rv> { self.get1(s, o, t).map(|v| v.len() == 1 && v[0] != 0) }
    pub fn get_ulong(&self, s: Sess, o: Obj, t: u64) -> Result<u64, Rv> {
        self.get1(s, o, t).and_then(|v| v.try_into().map(u64::from_ne_bytes).map_err(|_| CKR_GENERAL_ERROR))
    }
    pub fn set(&self, s: Sess, o: Obj, t: &[Attr]) -> Rv {
        let mut c = CT::new(t);
        C!(self.C_SetAttributeValue(s, o, c.ptr(), c.len()))
    }
    pub fn find_init(&self, s: Sess, t: &[Attr]) -> Rv {
        let mut c = CT::new(t);
        C!(self.C_FindObjectsInit(s, c.ptr(), c.len()))
    }
    pub fn find_next(&self, s: Sess, max: usize) -> (Rv, Vec<Obj>) {
        let mut v = vec![0u64; max];
        let mut n: CK_ULONG = 0;
        let rv = C!(self.C_FindObjects(s, v.as_mut_ptr(), max as CK_ULONG, &mut n));
        v.truncate(n as usize);
        (rv, v)
    }
    pub fn find_final(&self, s: Sess) -> Rv { C!(self.C_FindObjectsFinal(s)) }
    pub fn find(&self, s: Sess, t: &[Attr]) -> (Rv, Vec<Obj>) {
        let rv = self.find_init(s, t);
        if rv != CKR_OK { return (rv, vec![]); }
        let mut out = vec![];
        loop {
            let (rv, v) = self.find_next(s, 64);
            if rv != CKR_OK { self.find_final(s); return (rv, out); }
            if v.is_empty() { break; }
            out.extend(v);
        }
        let rv = self.find_final(s);
        (rv, out)
    }

    // generic output call
    pub fn out(&self, cap: usize, mut f: impl FnMut(*mut u8, *mut CK_ULONG) -> Rv) -> (Rv, Vec<u8>, u64) {
        let mut b = GBuf::new(cap);
        let mut l = cap as CK_ULONG;
        let rv = f(b.ptr(), &mut l);
        b.check();
        let d = if rv == CKR_OK {
            if l as usize > cap { GUARD_BROKEN.fetch_add(1, Ordering::SeqCst); }
            b.data(l as usize)
        } else { vec![] };
        (rv, d, l)
    }

    // digest
    pub fn digest_init(&self, s: Sess, m: &Mech) -> Rv { C!(self.C_DigestInit(s, m.ptr())) }
    pub fn digest(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_Digest(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn digest_update(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_DigestUpdate(s, dbytes(d), d.len() as CK_ULONG)) }
    pub fn digest_key(&self, s: Sess, k: Obj) -> Rv { C!(self.C_DigestKey(s, k)) }
    pub fn digest_final(&self, s: Sess) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_DigestFinal(s, p, l))); (r, o) }
    // encrypt
    pub fn encrypt_init(&self, s: Sess, m: &Mech, k: Obj) -> Rv { C!(self.C_EncryptInit(s, m.ptr(), k)) }
    pub fn encrypt(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(d.len() + BIG, |p, l| C!(self.C_Encrypt(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn encrypt_update(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(d.len() + BIG, |p, l| C!(self.C_EncryptUpdate(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn encrypt_final(&self, s: Sess) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_EncryptFinal(s, p, l))); (r, o) }
    pub fn decrypt_init(&self, s: Sess, m: &Mech, k: Obj) -> Rv { C!(self.C_DecryptInit(s, m.ptr(), k)) }
    pub fn decrypt(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(d.len() + BIG, |p, l| C!(self.C_Decrypt(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn decrypt_update(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(d.len() + BIG, |p, l| C!(self.C_DecryptUpdate(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn decrypt_final(&self, s: Sess) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_DecryptFinal(s, p, l))); (r, o) }
    pub fn enc(&self, s: Sess, m: &Mech, k: Obj, d: &[u8]) -> Result<Vec<u8>, Rv> {
        let rv = self.encrypt_init(s, m, k);
        if rv != CKR_OK { return Err(rv); }
        let (rv, o) = self.encrypt(s, d);
        if rv != CKR_OK { Err(rv) } else { Ok(o) }
    }
    pub fn dec(&self, s: Sess, m: &Mech, k: Obj, d: &[u8]) -> Result<Vec<u8>, Rv> {
        let rv = self.decrypt_init(s, m, k);
        if rv != CKR_OK { return Err(rv); }
        let (rv, o) = self.decrypt(s, d);
        if rv != CKR_OK { Err(rv) } else { Ok(o) }
    }
    // sign
    pub fn sign_init(&self, s: Sess, m: &Mech, k: Obj) -> Rv { C!(self.C_SignInit(s, m.ptr(), k)) }
    pub fn sign(&self, s: Sess, d: &[u8]) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_Sign(s, dbytes(d), d.len() as CK_ULONG, p, l))); (r, o) }
    pub fn sign_update(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_SignUpdate(s, dbytes(d), d.len() as CK_ULONG)) }
    pub fn sign_final(&self, s: Sess) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_SignFinal(s, p, l))); (r, o) }
    pub fn verify_init(&self, s: Sess, m: &Mech, k: Obj) -> Rv { C!(self.C_VerifyInit(s, m.ptr(), k)) }
    pub fn verify(&self, s: Sess, d: &[u8], g: &[u8]) -> Rv { C!(self.C_Verify(s, dbytes(d), d.len() as CK_ULONG, dbytes(g), g.len() as CK_ULONG)) }
    pub fn verify_update(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_VerifyUpdate(s, dbytes(d), d.len() as CK_ULONG)) }
    pub fn verify_final(&self, s: Sess, g: &[u8]) -> Rv { C!(self.C_VerifyFinal(s, dbytes(g), g.len() as CK_ULONG)) }
    pub fn vsig_init(&self, s: Sess, m: &Mech, k: Obj, g: &[u8]) -> Rv { C!(self.C_VerifySignatureInit(s, m.ptr(), k, dbytes(g), g.len() as CK_ULONG)) }
    pub fn vsig(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_VerifySignature(s, dbytes(d), d.len() as CK_ULONG)) }
    pub fn vsig_update(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_VerifySignatureUpdate(s, dbytes(d), d.len() as CK_ULONG)) }
    pub fn vsig_final(&self, s: Sess) -> Rv { C!(self.C_VerifySignatureFinal(s)) }
    pub fn sig(&self, s: Sess, m: &Mech, k: Obj, d: &[u8]) -> Result<Vec<u8>, Rv> {
        let rv = self.sign_init(s, m, k);
        if rv != CKR_OK { return Err(rv); }
        let (rv, o) = self.sign(s, d);
        if rv != CKR_OK { Err(rv) } else { Ok(o) }
    }
    pub fn ver(&self, s: Sess, m: &Mech, k: Obj, d: &[u8], g: &[u8]) -> Rv {
        let rv = self.verify_init(s, m, k);
        if rv != CKR_OK { return rv; }
        self.verify(s, d, g)
    }
    // keys
    pub fn genkey(&self, s: Sess, m: &Mech, t: &[Attr]) -> (Rv, Obj) {
        let mut h: CK_ULONG = 0;
        let mut c = CT::new(t);
        (C!(self.C_GenerateKey(s, m.ptr(), c.ptr(), c.len(), &mut h)), h)
    }
    pub fn genpair(&self, s: Sess, m: &Mech, tp: &[Attr], ts: &[Attr]) -> (Rv, Obj, Obj) {
        let (mut a, mut b): (CK_ULONG, CK_ULONG) = (0, 0);
        let mut c = CT::new(tp);
        let mut d = CT::new(ts);
        let rv = C!(self.C_GenerateKeyPair(s, m.ptr(), c.ptr(), c.len(), d.ptr(), d.len(), &mut a, &mut b));
        (rv, a, b)
    }
    pub fn wrap(&self, s: Sess, m: &Mech, w: Obj, k: Obj) -> (Rv, Vec<u8>) { let (r, o, _) = self.out(BIG, |p, l| C!(self.C_WrapKey(s, m.ptr(), w, k, p, l))); (r, o) }
    pub fn unwrap(&self, s: Sess, m: &Mech, w: Obj, d: &[u8], t: &[Attr]) -> (Rv, Obj) {
        let mut h: CK_ULONG = 0;
        let mut c = CT::new(t);
        (C!(self.C_UnwrapKey(s, m.ptr(), w, cbytes(d), d.len() as CK_ULONG, c.ptr(), c.len(), &mut h)), h)
    }
    pub fn derive(&self, s: Sess, m: &Mech, k: Obj, t: &[Attr]) -> (Rv, Obj) {
        let mut h: CK_ULONG = 0;
        let mut c = CT::new(t);
        (C!(self.C_DeriveKey(s, m.ptr(), k, c.ptr(), c.len(), &mut h)), h)
    }
    pub fn random(&self, s: Sess, n: usize) -> (Rv, Vec<u8>) {
        let mut b = GBuf::new(n);
        let rv = C!(self.C_GenerateRandom(s, b.ptr(), n as CK_ULONG));
        b.check();
        (rv, b.data(n))
    }
    pub fn seed(&self, s: Sess, d: &[u8]) -> Rv { C!(self.C_SeedRandom(s, cbytes(d), d.len() as CK_ULONG)) }
    pub fn get_state(&self, s: Sess) -> (Rv, Vec<u8>) {
        let mut l: CK_ULONG = 0;
        let rv = C!(self.C_GetOperationState(s, null_mut(), &mut l));
        if rv != CKR_OK { return (rv, vec![]); }
        let (r, o, _) = self.out(l as usize, |p, l| C!(self.C_GetOperationState(s, p, l)));
        (r, o)
    }
    pub fn set_state(&self, s: Sess, d: &[u8], e: Obj, a: Obj) -> Rv { C!(self.C_SetOperationState(s, cbytes(d), d.len() as CK_ULONG, e, a)) }
}
