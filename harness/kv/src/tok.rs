//! Scratch tokens.
use crate::p11::pkcs11::*;
use crate::p11::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub const SO: &[u8] = b"so-pin-8765";
pub const USER: &[u8] = b"user-pin-1234";
pub const SLOT: u64 = 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Db { Sqlite, Nss }

/// Per worker cache: template databases and one shared initialised module.
pub struct Cache { base: PathBuf, n: u64, tmpl: Vec<(Db, PathBuf)>, shared: Option<Tok> }

/// A configured library instance. Dropping finalizes and removes its files.
pub struct Tok { pub p: P, pub slot: u64, pub dir: PathBuf, pub conf: String, pub db: Db, live: bool,
    /// the User PIN at the moment
    pub pin: std::cell::RefCell<Vec<u8>> }

impl Tok {
    pub fn restart(&self) -> Rv { let r = self.p.finalize(); if r != CKR_OK { return r; } self.p.initialize(Some(&self.conf)) }
    pub fn open(&self, rw: bool) -> u64 {
        let (rv, s) = self.p.open(self.slot, rw);
        if rv != CKR_OK { panic!("open session: {}", rvname(rv)); }
        s
    }
    pub fn user(&self) -> u64 {
        let s = self.open(true);
        let rv = self.p.login(s, CKU_USER, &self.pin.borrow());
        if rv != CKR_OK && rv != CKR_USER_ALREADY_LOGGED_IN { panic!("login: {}", rvname(rv)); }
        s
    }
    pub fn dbfiles(&self) -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(&self.dir).map(|r| r.flatten().map(|e| e.path()).filter(|p| p.is_file() && p.extension().map(|e| e != "conf").unwrap_or(true)).collect()).unwrap_or_default();
        v.sort();
        v
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.live { self.p.finalize(); }
        if self.dir.components().count() > 3 { let _ = std::fs::remove_dir_all(&self.dir); }
    }
}

pub fn dbtype(db: Db) -> &'static str { match db { Db::Sqlite => "sqlite", Db::Nss => "nssdb" } }
pub fn dbargs(db: Db, dir: &Path) -> String {
    match db {
        Db::Sqlite => format!("{}/token.sql", dir.display()),
        Db::Nss => format!("configDir='{}'", dir.display()),
    }
}
pub fn slot_conf(slot: u64, db: Db, dir: &Path) -> String {
    format!("[[slots]]\nslot = {slot}\ndbtype = \"{}\"\ndbargs = \"{}\"\n", dbtype(db), dbargs(db, dir))
}

impl Cache {
    pub fn new(base: PathBuf) -> Cache { Cache { base, n: 0, tmpl: vec![], shared: None } }
    pub fn reset(&mut self) { self.shared = None; unsafe_finalize(); }
    pub fn dir(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.base.join(format!("t{}", self.n));
        std::fs::create_dir_all(&d).expect("dir");
        d
    }
    /// instance over an empty directory, with arbitrary extra configuration text; not initialised
    pub fn raw(&mut self, db: Db, extra: &str, global: &str) -> Tok {
        self.shared = None;
        let dir = self.dir();
        let conf = dir.join("k.conf");
        std::fs::write(&conf, format!("{}{}{}", global, slot_conf(SLOT, db, &dir), extra)).expect("conf");
        Tok { p: P::load(), slot: SLOT, conf: format!("kryoptic_conf={}", conf.display()), dir, db, live: true, pin: std::cell::RefCell::new(USER.to_vec()) }
    }
    fn template(&mut self, db: Db) -> PathBuf {
        if let Some(t) = self.tmpl.iter().find(|t| t.0 == db) { return t.1.clone(); }
        let mut t = self.raw(db, "", "");
        let rv = t.p.initialize(Some(&t.conf));
        if rv != CKR_OK { panic!("template init: {}", rvname(rv)); }
        match db {
            Db::Sqlite => {
                let rv = t.p.init_token(SLOT, SO, "kvtoken");
                if rv != CKR_OK { panic!("template init token: {}", rvname(rv)); }
                let s = t.open(true);
                let rv = t.p.login(s, CKU_SO, SO);
                if rv != CKR_OK { panic!("so login: {}", rvname(rv)); }
                let rv = t.p.init_pin(s, USER);
                if rv != CKR_OK { panic!("init pin: {}", rvname(rv)); }
            }
            Db::Nss => {
                let rv = t.p.init_token(SLOT, SO, "kvtoken");
                if rv != CKR_OK { panic!("template init token nss: {}", rvname(rv)); }
                let s = t.open(true);
                let rv = t.p.login(s, CKU_SO, SO);
                if rv != CKR_OK { panic!("so login: {}", rvname(rv)); }
                let rv = t.p.init_pin(s, USER);
                if rv != CKR_OK { panic!("init pin: {}", rvname(rv)); }
            }
        }
        t.p.finalize();
        t.live = false;
        let _ = std::fs::remove_file(t.dir.join("k.conf"));
        let d = t.dir.clone();
        std::mem::forget(t);
        self.tmpl.push((db, d.clone()));
        d
    }
    /// fresh token with SO and USER PIN set, initialised
    pub fn fresh(&mut self, db: Db) -> Tok { self.fresh_conf(db, "", "") }
    pub fn fresh_conf(&mut self, db: Db, extra: &str, global: &str) -> Tok {
        let src = self.template(db);
        let t = self.raw(db, extra, global);
        for e in std::fs::read_dir(&src).expect("template").flatten() {
            std::fs::copy(e.path(), t.dir.join(e.file_name())).expect("copy");
        }
        let rv = t.p.initialize(Some(&t.conf));
        if rv != CKR_OK { panic!("init: {}", rvname(rv)); }
        t
    }
    /// several initialised tokens in one configuration; drop the first one last
    pub fn several(&mut self, dbs: &[(u64, Db)], global: &str) -> Vec<Tok> {
        let srcs: Vec<PathBuf> = dbs.iter().map(|x| self.template(x.1)).collect();
        self.shared = None;
        let mut text = global.to_string();
        let mut v = vec![];
        let main = self.dir();
        let conf = main.join("k.conf");
        for ((slot, db), src) in dbs.iter().zip(srcs) {
            let dir = if v.is_empty() { main.clone() } else { self.dir() };
            for e in std::fs::read_dir(&src).expect("template").flatten() { std::fs::copy(e.path(), dir.join(e.file_name())).expect("copy"); }
            text += &slot_conf(*slot, *db, &dir);
            v.push(Tok { p: P::load(), slot: *slot, conf: format!("kryoptic_conf={}", conf.display()), dir, db: *db, live: v.is_empty(), pin: std::cell::RefCell::new(USER.to_vec()) });
        }
        std::fs::write(&conf, text).expect("conf");
        let rv = v[0].p.initialize(Some(&v[0].conf));
        if rv != CKR_OK { panic!("init: {}", rvname(rv)); }
        v
    }
    /// shared module with a user logged in on slot; cases must clean up their sessions
    pub fn shared(&mut self) -> (P, u64) {
        if self.shared.is_none() {
            let t = self.fresh(Db::Sqlite);
            t.user(); // keeps the login alive
            self.shared = Some(t);
        }
        let t = self.shared.as_ref().unwrap();
        (t.p, t.slot)
    }
}
fn unsafe_finalize() { P::load().finalize(); }

/// session closed on drop
pub struct SG { pub p: P, pub s: u64 }
impl Drop for SG { fn drop(&mut self) { self.p.close(self.s); } }
pub fn session(cx: &mut crate::run::Cx) -> SG {
    let (p, slot) = cx.tok.shared();
    let (rv, s) = p.open(slot, true);
    if rv != CKR_OK { panic!("open: {}", rvname(rv)); }
    SG { p, s }
}
