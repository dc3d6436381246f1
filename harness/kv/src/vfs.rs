//! A SQLite file layer that sits between the library and the operating
//! system: it counts the file operations, makes one of them fail, stops the
//! world at one of them (a crash), forgets what was never synced (a power
//! failure) and looks for secrets in everything written.
#![allow(dead_code)]
use crate::p11::watch::Windows;
use libsqlite3_sys as ffi;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

const SHIM: usize = 64;
#[repr(C)]
struct File { base: ffi::sqlite3_file, name: *const c_char, kind: Kind }
#[derive(Clone, Copy, PartialEq)]
enum Kind { Main, Journal, Temp }

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize, Hash)]
pub enum Fault {
    /// the process dies before the operation
    Crash,
    /// the process dies half way through a write
    Torn,
    /// the machine dies: writes that were not synced may or may not be there
    Power(u16),
    /// the operation fails once
    Fail,
    /// from here on there is no room to write
    Full,
    /// one read fails
    Read,
}
impl Fault { pub fn dies(self) -> bool { matches!(self, Fault::Crash | Fault::Torn | Fault::Power(_)) } }

enum Pend { Write(u64, Vec<u8>), Trunc(u64) }
struct Track { synced: Vec<u8>, pend: Vec<Pend> }
struct St { dir: PathBuf, on: bool, writes: u64, reads: u64, fault: Option<(Fault, u64)>, fired: bool, dead: bool, full: bool, track: Option<BTreeMap<PathBuf, Track>>,
    log: Option<Vec<String>>, watch: Option<Windows>, leak: Option<String> }
static S: Mutex<St> = Mutex::new(St { dir: PathBuf::new(), on: false, writes: 0, reads: 0, fault: None, fired: false, dead: false, full: false, track: None, log: None, watch: None, leak: None });
static mut REAL: *mut ffi::sqlite3_vfs = std::ptr::null_mut();

fn st() -> std::sync::MutexGuard<'static, St> { S.lock().unwrap_or_else(|e| e.into_inner()) }

/// starts counting operations on the files of a directory, with a fault at the given one
pub fn arm(dir: &Path, fault: Option<(Fault, u64)>) {
    install();
    let mut s = st();
    s.dir = dir.to_path_buf(); s.on = true; s.writes = 0; s.reads = 0; s.fault = fault; s.fired = false; s.dead = false; s.full = false; s.log = Some(vec![]);
    s.track = match fault {
        Some((Fault::Power(_), _)) => Some(std::fs::read_dir(dir).map(|r| r.flatten().filter(|e| e.path().is_file()).map(|e| (e.path(), Track { synced: std::fs::read(e.path()).unwrap_or_default(), pend: vec![] })).collect()).unwrap_or_default()),
        _ => None,
    };
}
/// (writes, reads) since arm
pub fn count() -> (u64, u64) { let s = st(); (s.writes, s.reads) }
pub fn fired() -> bool { st().fired }
pub fn log() -> Vec<String> { st().log.clone().unwrap_or_default() }
/// errors stop, the world goes on (a dead process stays dead until the library is finalized and this is called)
pub fn disarm() { let mut s = st(); s.on = false; s.fault = None; s.dead = false; s.full = false; }
/// what is left after a power failure
pub fn power(seed: u64) {
    let Some(t) = st().track.take() else { return };
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x >> 20 };
    for (path, f) in t {
        if !path.exists() || f.pend.is_empty() { continue; }
        let mut c = f.synced;
        let all = rnd() % 3;
        for p in f.pend {
            let keep = match all { 0 => true, 1 => false, _ => rnd() & 1 == 1 };
            match p {
                Pend::Trunc(n) => if keep { c.resize(n as usize, 0) },
                Pend::Write(off, d) => for (i, sec) in d.chunks(512).enumerate() {
                    if if all == 2 { rnd() % 3 != 0 } else { keep } {
                        let at = off as usize + i * 512;
                        if c.len() < at + sec.len() { c.resize(at + sec.len(), 0); }
                        c[at..at + sec.len()].copy_from_slice(sec);
                    }
                },
            }
        }
        let _ = std::fs::write(&path, c);
    }
}
/// looks for these bytes in everything written from now on
pub fn watch(w: Option<Windows>) { install(); let mut s = st(); s.watch = w; s.leak = None; }
pub fn watch_more(w: Windows) { let mut s = st(); s.watch.get_or_insert_with(Default::default).extend(w); }
pub fn leak() -> Option<String> { st().leak.take() }

fn path(name: *const c_char) -> Option<PathBuf> {
    if name.is_null() { return None; }
    use std::os::unix::ffi::OsStrExt;
    Some(PathBuf::from(std::ffi::OsStr::from_bytes(unsafe { CStr::from_ptr(name) }.to_bytes())))
}

enum Act { Go, Half, Err(c_int) }
/// accounts for one changing operation
fn change(s: &mut St, what: &str, p: &Path, err: c_int, write: bool) -> Act {
    if !s.on || !p.starts_with(&s.dir) { return Act::Go; }
    if s.dead { return Act::Err(err); }
    let n = s.writes;
    s.writes += 1;
    if let Some(l) = &mut s.log { let f = p.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default(); l.push(format!("{what} {f}")); }
    if s.full && write { return Act::Err(ffi::SQLITE_FULL); }
    match s.fault {
        Some((f, at)) if at == n && f != Fault::Read => {
            s.fired = true;
            match f {
                Fault::Crash | Fault::Power(_) => { s.dead = true; Act::Err(err) }
                Fault::Torn => { s.dead = true; if write { Act::Half } else { Act::Err(err) } }
                Fault::Fail => Act::Err(err),
                Fault::Full => { s.full = true; if write { Act::Err(ffi::SQLITE_FULL) } else { Act::Go } }
                Fault::Read => Act::Go,
            }
        }
        _ => Act::Go,
    }
}

unsafe fn real(f: *mut ffi::sqlite3_file) -> *mut ffi::sqlite3_file { unsafe { (f as *mut u8).add(SHIM) as *mut ffi::sqlite3_file } }
unsafe fn m(f: *mut ffi::sqlite3_file) -> &'static ffi::sqlite3_io_methods { unsafe { &*(*real(f)).pMethods } }
unsafe fn info(f: *mut ffi::sqlite3_file) -> (Option<PathBuf>, Kind) { unsafe { let f = f as *mut File; (path((*f).name), (*f).kind) } }

unsafe extern "C" fn close(f: *mut ffi::sqlite3_file) -> c_int { unsafe { let r = (m(f).xClose.unwrap())(real(f)); (*f).pMethods = std::ptr::null(); r } }
unsafe extern "C" fn read(f: *mut ffi::sqlite3_file, b: *mut c_void, n: c_int, o: i64) -> c_int { unsafe {
    if let (Some(p), Kind::Main | Kind::Journal) = info(f) {
        let mut s = st();
        if s.on && p.starts_with(&s.dir) {
            let k = s.reads;
            s.reads += 1;
            if s.fault == Some((Fault::Read, k)) { s.fired = true; return ffi::SQLITE_IOERR_READ; }
        }
    }
    (m(f).xRead.unwrap())(real(f), b, n, o)
} }
unsafe extern "C" fn write(f: *mut ffi::sqlite3_file, b: *const c_void, n: c_int, o: i64) -> c_int { unsafe {
    let mut n = n;
    let (p, kind) = info(f);
    let mut s = st();
    if let Some(w) = &s.watch {
        let d = std::slice::from_raw_parts(b as *const u8, n as usize);
        if let Some(x) = d.windows(8).find(|x| w.contains(*x)) {
            s.leak = Some(format!("{} in {}", crate::p11::hex(x), p.as_ref().and_then(|p| p.file_name()).map(|f| f.to_string_lossy().into_owned()).unwrap_or("a temporary file".into())));
        }
    }
    let mut rc = ffi::SQLITE_OK;
    if let (Some(p), Kind::Main | Kind::Journal) = (&p, kind) {
        match change(&mut s, "write", p, ffi::SQLITE_IOERR_WRITE, true) {
            Act::Go => (),
            Act::Half => { n /= 2; rc = ffi::SQLITE_IOERR_WRITE; }
            Act::Err(e) => return e,
        }
        if let Some(t) = s.track.as_mut().and_then(|t| t.get_mut(p)) { t.pend.push(Pend::Write(o as u64, std::slice::from_raw_parts(b as *const u8, n as usize).to_vec())); }
    }
    let r = (m(f).xWrite.unwrap())(real(f), b, n, o);
    if rc != ffi::SQLITE_OK { rc } else { r }
} }
unsafe extern "C" fn truncate(f: *mut ffi::sqlite3_file, n: i64) -> c_int { unsafe {
    if let (Some(p), Kind::Main | Kind::Journal) = info(f) {
        let mut s = st();
        if let Act::Err(e) = change(&mut s, "truncate", &p, ffi::SQLITE_IOERR_TRUNCATE, false) { return e; }
        if let Some(t) = s.track.as_mut().and_then(|t| t.get_mut(&p)) { t.pend.push(Pend::Trunc(n as u64)); }
    }
    (m(f).xTruncate.unwrap())(real(f), n)
} }
unsafe extern "C" fn sync(f: *mut ffi::sqlite3_file, fl: c_int) -> c_int { unsafe {
    if let (Some(p), Kind::Main | Kind::Journal) = info(f) {
        let mut s = st();
        if let Act::Err(e) = change(&mut s, "sync", &p, ffi::SQLITE_IOERR_FSYNC, false) { return e; }
        if let Some(t) = s.track.as_mut().and_then(|t| t.get_mut(&p)) { t.synced = std::fs::read(&p).unwrap_or_default(); t.pend.clear(); }
        drop(s);
        return ffi::SQLITE_OK; // the scratch files need no real sync
    }
    (m(f).xSync.unwrap())(real(f), fl)
} }
unsafe extern "C" fn size(f: *mut ffi::sqlite3_file, n: *mut i64) -> c_int { unsafe { (m(f).xFileSize.unwrap())(real(f), n) } }
unsafe extern "C" fn lock(f: *mut ffi::sqlite3_file, l: c_int) -> c_int { unsafe { (m(f).xLock.unwrap())(real(f), l) } }
unsafe extern "C" fn unlock(f: *mut ffi::sqlite3_file, l: c_int) -> c_int { unsafe { (m(f).xUnlock.unwrap())(real(f), l) } }
unsafe extern "C" fn reserved(f: *mut ffi::sqlite3_file, r: *mut c_int) -> c_int { unsafe { (m(f).xCheckReservedLock.unwrap())(real(f), r) } }
unsafe extern "C" fn control(f: *mut ffi::sqlite3_file, op: c_int, a: *mut c_void) -> c_int { unsafe { (m(f).xFileControl.unwrap())(real(f), op, a) } }
unsafe extern "C" fn sector(f: *mut ffi::sqlite3_file) -> c_int { unsafe { (m(f).xSectorSize.unwrap())(real(f)) } }
unsafe extern "C" fn chars(f: *mut ffi::sqlite3_file) -> c_int { unsafe { (m(f).xDeviceCharacteristics.unwrap())(real(f)) } }
unsafe extern "C" fn shm_map(f: *mut ffi::sqlite3_file, a: c_int, b: c_int, c: c_int, d: *mut *mut c_void) -> c_int { unsafe { (m(f).xShmMap.unwrap())(real(f), a, b, c, d) } }
unsafe extern "C" fn shm_lock(f: *mut ffi::sqlite3_file, a: c_int, b: c_int, c: c_int) -> c_int { unsafe { (m(f).xShmLock.unwrap())(real(f), a, b, c) } }
unsafe extern "C" fn shm_barrier(f: *mut ffi::sqlite3_file) { unsafe { (m(f).xShmBarrier.unwrap())(real(f)) } }
unsafe extern "C" fn shm_unmap(f: *mut ffi::sqlite3_file, a: c_int) -> c_int { unsafe { (m(f).xShmUnmap.unwrap())(real(f), a) } }

// version 2: no memory mapped access, so that every access is seen
static IO: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2, xClose: Some(close), xRead: Some(read), xWrite: Some(write), xTruncate: Some(truncate), xSync: Some(sync), xFileSize: Some(size), xLock: Some(lock), xUnlock: Some(unlock),
    xCheckReservedLock: Some(reserved), xFileControl: Some(control), xSectorSize: Some(sector), xDeviceCharacteristics: Some(chars), xShmMap: Some(shm_map), xShmLock: Some(shm_lock),
    xShmBarrier: Some(shm_barrier), xShmUnmap: Some(shm_unmap), xFetch: None, xUnfetch: None,
};

unsafe extern "C" fn open(_v: *mut ffi::sqlite3_vfs, name: *const c_char, f: *mut ffi::sqlite3_file, flags: c_int, out: *mut c_int) -> c_int { unsafe {
    let sf = f as *mut File;
    (*sf).base.pMethods = std::ptr::null();
    (*sf).name = name;
    let journal = ffi::SQLITE_OPEN_MAIN_JOURNAL | ffi::SQLITE_OPEN_SUPER_JOURNAL | ffi::SQLITE_OPEN_WAL;
    (*sf).kind = if name.is_null() || flags & (ffi::SQLITE_OPEN_TEMP_DB | ffi::SQLITE_OPEN_TEMP_JOURNAL | ffi::SQLITE_OPEN_SUBJOURNAL | ffi::SQLITE_OPEN_TRANSIENT_DB) != 0 { Kind::Temp } else if flags & journal != 0 { Kind::Journal } else { Kind::Main };
    if let (Some(p), true) = (path(name), (*sf).kind != Kind::Temp) {
        let mut s = st();
        if flags & ffi::SQLITE_OPEN_CREATE != 0 && !p.exists() {
            if let Act::Err(_) = change(&mut s, "open", &p, ffi::SQLITE_CANTOPEN, false) { return ffi::SQLITE_CANTOPEN; }
            if let Some(t) = s.track.as_mut() { t.insert(p, Track { synced: vec![], pend: vec![] }); }
        }
    }
    let rc = ((*REAL).xOpen.unwrap())(REAL, name, real(f), flags, out);
    if !(*real(f)).pMethods.is_null() { (*sf).base.pMethods = &IO; }
    rc
} }
unsafe extern "C" fn delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, d: c_int) -> c_int { unsafe {
    if let Some(p) = path(name) {
        let mut s = st();
        if let Act::Err(e) = change(&mut s, "delete", &p, ffi::SQLITE_IOERR_DELETE, false) { return e; }
        if let Some(t) = s.track.as_mut() { t.remove(&p); }
    }
    ((*REAL).xDelete.unwrap())(REAL, name, d)
} }
unsafe extern "C" fn access(_v: *mut ffi::sqlite3_vfs, n: *const c_char, a: c_int, r: *mut c_int) -> c_int { unsafe { ((*REAL).xAccess.unwrap())(REAL, n, a, r) } }
unsafe extern "C" fn full(_v: *mut ffi::sqlite3_vfs, n: *const c_char, a: c_int, r: *mut c_char) -> c_int { unsafe { ((*REAL).xFullPathname.unwrap())(REAL, n, a, r) } }

/// becomes the default file layer of this process
pub fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        REAL = ffi::sqlite3_vfs_find(std::ptr::null());
        if REAL.is_null() { panic!("no default file layer"); }
        let mut v = *REAL;
        v.iVersion = v.iVersion.min(3);
        v.pNext = std::ptr::null_mut();
        v.zName = c"kv".as_ptr();
        v.szOsFile = SHIM as c_int + (*REAL).szOsFile;
        v.xOpen = Some(open);
        v.xDelete = Some(delete);
        v.xAccess = Some(access);
        v.xFullPathname = Some(full);
        let v = Box::leak(Box::new(v));
        if ffi::sqlite3_vfs_register(v, 1) != ffi::SQLITE_OK { panic!("file layer"); }
    });
}
