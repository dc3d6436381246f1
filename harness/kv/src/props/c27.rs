//! C27: configurations are interpreted exactly, or rejected as a whole.
use super::c26::{base, rule, Rule};
use crate::ops::must;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

// ---------------------------------------------------------------- prepared tokens
const MARKS: usize = 3;
type Files = Vec<(String, Vec<u8>)>;
/// contents of tokens that can be told apart
fn marked(cx: &mut Cx) -> &'static (Vec<Files>, Vec<Files>) {
    static M: OnceLock<(Vec<Files>, Vec<Files>)> = OnceLock::new();
    if M.get().is_none() {
        let read = |t: &Tok| -> Files { t.dbfiles().iter().map(|f| (f.file_name().unwrap().to_string_lossy().to_string(), std::fs::read(f).expect("read"))).collect() };
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..MARKS {
            let t = cx.tok.fresh(Db::Sqlite);
            assert_eq!(t.p.init_token(SLOT, SO, &format!("tok-{i}")), CKR_OK);
            let s = t.open(true);
            assert_eq!(t.p.login(s, CKU_SO, SO), CKR_OK);
            assert_eq!(t.p.init_pin(s, USER), CKR_OK);
            t.p.finalize();
            a.push(read(&t));
            drop(t);
            let t = cx.tok.fresh(Db::Nss);
            let s = t.user();
            must(&t.p, s, &tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_TOKEN => true, CKA_PRIVATE => false, CKA_LABEL => format!("mark-{i}").as_str(), CKA_SUBJECT => vec![0x30u8, 0], CKA_ISSUER => vec![0x30u8, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, i as u8], CKA_VALUE => vec![0x30u8, 3, 2, 1, i as u8] }, "cert");
            must(&t.p, s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => true, CKA_PRIVATE => true, CKA_ID => vec![i as u8], CKA_LABEL => format!("key-{i}").as_str(), CKA_VALUE => vec![i as u8; 16] }, "key");
            t.p.finalize();
            b.push(read(&t));
            drop(t);
        }
        let _ = M.set((a, b));
    }
    M.get().unwrap()
}

// ---------------------------------------------------------------- configurations
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DbG { /// a prepared token
    Sql(u8), /// a file that does not exist yet
    SqlNew(u8), /// no dbargs
    Mem, Nss(u8, NssG), NssNew(u8, NssG) }
/// writing of an NSS configuration string
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NssG { order: u32, styles: Vec<u8>, escapes: bool, case: u16, label: Option<String>, prefix: u8, flags: Vec<u8>, other: Vec<(u8, String)>, tail: bool, scheme: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlotG { num: u32, desc: Option<String>, manu: Option<String>, db: DbG, rule: Rule, dedup: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConfG { slots: Vec<SlotG>, enc: u8, style: u8 }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via { Arg, Env, Xdg, Home, /// the storage itself as argument or variable
    Direct, DirectEnv }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step { conf: ConfG, via: Via, fault: Option<(u8, u8)>, env: u8, /// initialize while initialized
    again: bool, init: bool, mutate: Vec<(u16, u8, u8)> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { steps: Vec<Step>, odd: u8 }

const FLAGS: [&str; 7] = ["readOnly", "noModDB", "noCertDB", "noKeyDB", "forceOpen", "passwordRequired", "optimizeSpace"];
const OTHERS: [&str; 12] = ["manufacturerID", "libraryDescription", "secmod", "updatedir", "updateID", "cryptoTokenDescription", "cryptoSlotDescription", "dbSlotDescription", "FIPSSlotDescription", "FIPSTokenDescription", "updateTokenDescription", "minPWLen"];
const ODD: [&str; 16] = ["d", "with space", "quo'te", "dq\"x", "br{a}c", "pa(r)en", "\u{fc}n\u{ef}code", "per%41cent", "back\\slash", "ha#sh", "a?b=c&d", "co,mma", "an<g>le", "sq[u]are", "two  \\\\ back", "end\\"];
const STYLES: [(&str, &str); 7] = [("", " "), ("'", "'"), ("\"", "\""), ("(", ")"), ("{", "}"), ("[", "]"), ("<", ">")];
const PREFIX: [(&str, &str); 4] = [("", ""), ("p-", "q "), ("a'b", ""), ("", "\u{e9}")];
const DEDUP: [Option<&str>; 4] = [None, Some("TrustOnly"), Some("TrustAndCertificates"), Some("All")];

fn text() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-zA-Z0-9 ]{0,20}", 1 => Just(String::new()), 2 => "[ -~]{0,70}", 1 => "[a-z\\\\'\"(){}<>,= ]{0,12}", 1 => "[\u{e0}-\u{2100}]{1,40}", 1 => "[ -~\n\t]{60,90}"].boxed()
}
fn nss() -> BoxedStrategy<NssG> {
    let label = prop_oneof![1 => Just(None), 2 => text().prop_map(Some)];
    ((any::<u32>(), prop::collection::vec(any::<u8>(), 1..8), prop::bool::weighted(0.3), prop_oneof![Just(0u16), any::<u16>()], label), (0u8..8, prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(any::<u8>(), 1..5)], prop::collection::vec((any::<u8>(), text()), 0..4), any::<bool>(), prop::bool::weighted(0.2)))
        .prop_map(|((order, styles, escapes, case, label), (prefix, flags, other, tail, scheme))| NssG { order, styles, escapes, case, label, prefix, flags, other, tail, scheme }).boxed()
}
fn slot() -> BoxedStrategy<SlotG> {
    let db = prop_oneof![3 => any::<u8>().prop_map(DbG::Sql), 2 => any::<u8>().prop_map(DbG::SqlNew), 1 => Just(DbG::Mem), 5 => (any::<u8>(), nss()).prop_map(|(a, b)| DbG::Nss(a, b)), 2 => (any::<u8>(), nss()).prop_map(|(a, b)| DbG::NssNew(a, b))];
    let num = prop_oneof![4 => 0u32..6, 2 => any::<u32>(), 1 => Just(0xffff_fffe)];
    (num, prop::option::of(text()), prop::option::of(text()), db, prop_oneof![2 => Just(Rule::All), 1 => rule()], 0u8..8).prop_map(|(num, desc, manu, db, rule, dedup)| SlotG { num, desc, manu, db, rule, dedup: dedup % 4 }).boxed()
}
fn conf() -> BoxedStrategy<ConfG> {
    (prop::collection::vec(slot(), 1..5), 0u8..4, any::<u8>()).prop_map(|(slots, enc, style)| {
        let mut c = ConfG { slots, enc, style };
        let mut nums = BTreeSet::new();
        for s in &mut c.slots { if s.num == u32::MAX { s.num = 9; } while !nums.insert(s.num) { s.num = s.num.wrapping_add(1) % 1000; } }
        c
    }).boxed()
}
fn via() -> BoxedStrategy<Via> { prop_oneof![5 => Just(Via::Arg), 2 => Just(Via::Env), 1 => Just(Via::Xdg), 1 => Just(Via::Home), 3 => Just(Via::Direct), 1 => Just(Via::DirectEnv)].boxed() }
fn steps(fault: f64, mutate: bool) -> BoxedStrategy<Case> {
    let m = if mutate { prop::collection::vec(any::<(u16, u8, u8)>(), 1..6).boxed() } else { Just(vec![]).boxed() };
    let step = (conf(), via(), (prop::bool::weighted(fault), any::<u8>(), any::<u8>()), 0u8..6, prop::bool::weighted(0.2), prop::bool::weighted(0.3), m).prop_map(|(conf, via, (f, k, pos), env, again, init, mutate)| Step { conf, via, fault: f.then_some((k, pos)), env, again, init, mutate });
    (prop::collection::vec(step, 1..5), any::<u8>()).prop_map(|(steps, odd)| Case { steps, odd }).boxed()
}
fn cases() -> BoxedStrategy<Case> { steps(0.35, false) }
fn mutants() -> BoxedStrategy<Case> { steps(0.0, true) }

// ---------------------------------------------------------------- writing
/// a TOML string
fn toml(s: &str, style: u8) -> String {
    if style % 3 == 0 && !s.contains('\'') && !s.chars().any(|c| (c as u32) < 32) { return format!("'{s}'"); }
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t",
            c if style % 5 == 1 && i % 2 == 0 => o += &if (c as u32) < 0x10000 { format!("\\u{:04x}", c as u32) } else { format!("\\U{:08x}", c as u32) },
            c => o.push(c),
        }
    }
    o + "\""
}
struct Place { dir: PathBuf, rel: bool, odd: u8 }
impl Place {
    /// the directory of a storage
    fn of(&self, kind: &str, i: u8) -> String {
        let name = if i % 3 == 0 { ODD[self.odd as usize % ODD.len()] } else { "n" };
        if self.rel { format!("{kind}{}", i % 3) } else { format!("{}/{kind}{}/{name}", self.dir.display(), i % 3) }
    }
    fn sql(&self, db: &DbG) -> Option<String> {
        let f = |k: &str, i: &u8| if self.rel { format!("{k}{}.sql", i % 3) } else { format!("{}/token.sql", self.of(k, *i)) };
        match db { DbG::Sql(i) => Some(f("sql", i)), DbG::SqlNew(i) => Some(f("new", i)), _ => None }
    }
    fn nss(&self, db: &DbG) -> Option<String> { match db { DbG::Nss(i, _) => Some(self.of("nss", *i)), DbG::NssNew(i, _) => Some(format!("{}{}", self.of("nnew", *i), if self.rel { "" } else { "/deep/er" })), _ => None } }
    /// what identifies the storage
    fn key(&self, db: &DbG) -> Option<String> { self.sql(db).or_else(|| self.nss(db)) }
}
impl NssG {
    fn flag(&self, f: &str) -> bool { self.flags.iter().any(|i| FLAGS[*i as usize % 7] == f) }
    /// the string, with the fault
    fn write(&self, dir: &str, fault: Option<u8>) -> String {
        let mut ps: Vec<(String, String)> = vec![];
        if fault != Some(15) { ps.push(("configDir".into(), dir.into())); }
        let (c, k) = PREFIX[self.prefix as usize % 4];
        if self.prefix % 4 != 0 { ps.push(("certPrefix".into(), c.into())); ps.push(("keyPrefix".into(), k.into())); }
        if let Some(l) = &self.label { ps.push(("dbTokenDescription".into(), l.clone())); }
        if !self.flags.is_empty() || fault == Some(12) {
            let mut v: Vec<String> = self.flags.iter().map(|i| FLAGS[*i as usize % 7].to_string()).collect();
            if fault == Some(12) { v.insert(self.order as usize % (v.len() + 1), "noSuchFlag".into()); }
            if fault == Some(28) { v.push("readOnly".into()); }
            ps.push(("flags".into(), v.join(",")));
        } else if fault == Some(28) { ps.push(("flags".into(), "readOnly".into())); }
        for (i, t) in &self.other { let n = OTHERS[*i as usize % 12]; ps.push((n.into(), if n == "minPWLen" { (*i / 12).to_string() } else { t.clone() })); }
        match fault { Some(13) => ps.push(("noSuchParameter".into(), "x".into())), Some(17) => ps.push(("minPWLen".into(), "many".into())), _ => () }
        // order and writing
        let mut o = self.order as usize;
        for i in (1..ps.len()).rev() { ps.swap(i, o % (i + 1)); o /= i + 1; }
        let mut out = String::new();
        let n = ps.len();
        for (i, (name, value)) in ps.iter().enumerate() {
            for (j, ch) in name.chars().enumerate() {
                let up = self.case >> ((i * 3 + j) % 16) & 1 == 1 && name != "configDir";
                out.push(if up { if ch.is_ascii_uppercase() { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() } } else { ch });
            }
            out.push('=');
            let mut st = self.styles[i % self.styles.len()] as usize % 7;
            // an empty value at the end must be quoted
            if st == 0 && value.is_empty() && i + 1 == n { st = 1; }
            let (open, close) = STYLES[st];
            out += open;
            let flags = name == "flags";
            for (j, ch) in value.chars().enumerate() {
                let must = ch == '\\' || close.contains(ch) || (st == 0 && j == 0 && STYLES.iter().any(|s| s.0.contains(ch)));
                if must || (self.escapes && j % 3 == 1 && !flags) { out.push('\\'); }
                out.push(if flags && self.case >> (j % 16) & 1 == 1 { ch.to_ascii_uppercase() } else { ch });
            }
            if !(fault == Some(14) && st != 0 && i + 1 == n) { if st != 0 { out += close; } }
            if i + 1 < n || self.tail { out.push(' '); }
        }
        match fault {
            Some(14) => { if self.styles[(n - 1) % self.styles.len()] % 7 == 0 || self.tail { if !self.tail { out.push(' '); } out += "secmod='open"; } }
            Some(29) => { if !self.tail { out.push(' '); } out += if self.order % 2 == 0 { "secmod" } else { "secmod=" }; }
            _ => (),
        }
        out
    }
}
/// the dbargs
fn args(pl: &Place, db: &DbG, fault: Option<u8>) -> Option<String> {
    if let Some(f) = pl.sql(db) { return Some(f); }
    let d = pl.nss(db)?;
    let (DbG::Nss(_, g) | DbG::NssNew(_, g)) = db else { return None };
    Some(format!("{}{}", if g.scheme { "nssdb:" } else { "" }, g.write(&d, fault)))
}
/// the fault that is meant, fitting the slot
fn fault_of(st: &Step) -> Option<(u8, usize)> {
    let (k, pos) = st.fault?;
    let direct = matches!(st.via, Via::Direct | Via::DirectEnv);
    let pos = if direct { 0 } else { pos as usize % st.conf.slots.len() };
    let db = &st.conf.slots[pos].db;
    let sql = matches!(db, DbG::Sql(_) | DbG::SqlNew(_));
    let nss = matches!(db, DbG::Nss(..) | DbG::NssNew(..));
    let mut l: Vec<u8> = vec![];
    if !direct { l.extend([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26]); }
    if sql && !matches!(st.via, Via::DirectEnv) { l.extend([10, 11, 27]); }
    if nss { l.extend([12, 13, 14, 17, 29, 30]); if !direct { l.extend([15, 16]); } if matches!(db, DbG::NssNew(..)) { l.push(28); } }
    if l.is_empty() { return None; }
    Some((l[k as usize % l.len()], pos))
}
fn write(c: &ConfG, pl: &Place, fault: Option<(u8, usize)>) -> Vec<u8> {
    let f = |k: u8| fault.is_some_and(|x| x.0 == k);
    let mut glob = String::new();
    if f(9) { glob += "[ec_point_encoding]\nencoding = \"Raw\"\n"; }
    else if c.enc > 1 { glob += &format!("[ec_point_encoding]\nencoding = {}\n", toml(["Bytes", "Der"][c.enc as usize % 2], c.style)); }
    let mut slots = String::new();
    if f(26) { slots += "[[slot]]\nslot = 1\ndbtype = \"sqlite\"\n"; }
    let inline = c.style % 7 == 0 && !f(22) && !f(26);
    let mut all: Vec<SlotG> = c.slots.clone();
    if f(18) { let mut s = all[fault.unwrap().1].clone(); s.db = match s.db { DbG::Sql(i) => DbG::Sql(i ^ 1), _ => DbG::Sql(0) }; all.push(s); }
    if f(19) { let i = fault.unwrap().1; let mut s = all[i].clone(); if s.db == DbG::Mem { s.db = DbG::Sql(0); all[i].db = DbG::Sql(0); } s.num = (0..99).find(|n| all.iter().all(|s| s.num != *n)).unwrap(); all.push(s); }
    for (i, s) in all.iter().enumerate() {
        let me = |k: u8| fault == Some((k, i));
        let y = c.style as usize + i * 3;
        let y = y as u8;
        let mut ls: Vec<String> = vec![];
        if !me(2) { ls.push(format!("slot = {}", if me(3) { format!("\"{}\"", s.num) } else if me(4) { "-1".into() } else if me(5) { "4294967296".into() } else if y % 4 == 1 { format!("{:#x}", s.num) } else { s.num.to_string() })); }
        if me(25) { ls.push("slot = 3".into()); }
        if !me(1) { ls.push(format!("dbtype = {}", if me(0) { ["\"sqlit\"", "\"SQLITE\"", "\"\"", "\"nss\""][y as usize % 4].to_string() } else { toml(match s.db { DbG::Nss(..) | DbG::NssNew(..) => "nssdb", _ => "sqlite" }, y) })); }
        let a = match fault { Some((10, p)) if p == i => Some(format!("{}/file/below/token.sql", pl.dir.display())), Some((11, p)) if p == i => Some(format!("{}/garbage", pl.dir.display())), Some((27, p)) if p == i => Some(format!("{}", pl.dir.display())), Some((16, p)) if p == i => None, Some((30, p)) if p == i => Some(format!("configDir='{}/bad'", pl.dir.display())), Some((k, p)) if p == i => args(pl, &s.db, Some(k)), _ => args(pl, &s.db, None) };
        if let Some(a) = a { ls.push(format!("dbargs = {}", toml(&a, y))); }
        if me(23) { ls.push("description = 5".into()); } else if let Some(d) = &s.desc { ls.push(format!("description = {}", toml(d, y))); }
        if let Some(d) = &s.manu { ls.push(format!("manufacturer = {}", toml(d, y.wrapping_add(1)))); }
        let r = s.rule.text();
        if me(6) { ls.push(format!("mechanisms = [\"CKM_AES_ECB\", {}]", ["\"CKM_NO_SUCH\"", "\"ckm_sha256\"", "\"SHA256\"", "\"\""][y as usize % 4])); }
        else if me(7) { ls.push("mechanisms = [\"CKM_AES_ECB\", \"DENY\"]".into()); }
        else if me(24) { ls.push("mechanisms = \"CKM_AES_ECB\"".into()); }
        else if !r.is_empty() { ls.push(r.trim().into()); }
        if me(8) { ls.push("objects_dedup = \"Everything\"".into()); } else if let Some(d) = DEDUP[s.dedup as usize] { ls.push(format!("objects_dedup = {}", toml(d, y))); }
        let n = ls.len();
        ls.rotate_left(y as usize % n);
        if me(22) { ls.push("= nonsense [".into()); }
        if inline { slots += &format!("{}{{ {} }}", if i == 0 { "" } else { ", " }, ls.join(", ")); }
        else { slots += &format!("{}[[slots]]\n{}\n", if y % 2 == 0 { "# a comment\n\n" } else { "" }, ls.join(if y % 5 == 0 { " # why not\n" } else { "\n" })); }
    }
    if f(26) { slots = slots.replace("[[slots]]", "[[slot]]"); }
    if inline { slots = format!("slots = [{slots}]\n"); }
    let t = if inline || c.style % 2 == 0 { if inline { slots + &glob } else { glob + &slots } } else { slots + &glob };
    let mut b = if c.style % 11 == 0 { t.replace('\n', "\r\n") } else { t }.into_bytes();
    if f(21) { let n = b.len() / 2; b.insert(n, 0xff); }
    b
}

// ---------------------------------------------------------------- model
#[derive(Clone, Debug)]
struct Want { num: u32, db: DbG, args: Option<String>, desc: Option<String>, manu: Option<String>, rule: Rule, dedup: u8 }
#[derive(Clone, Debug, Default)]
struct Model { slots: Vec<Want>, der: bool }
impl Model {
    /// what merging gives
    fn merge(&self, new: &[Want], der: bool, direct: bool) -> Option<Model> {
        let mut m = self.clone();
        if m.slots.is_empty() { m.der = der; }
        for w in new {
            if direct {
                if m.slots.iter().any(|s| nssdb(&s.db) == nssdb(&w.db) && s.args == w.args) { continue; }
                let n = m.slots.iter().map(|s| s.num as u64 + 1).max().unwrap_or(0);
                if n >= u32::MAX as u64 { return None; }
                m.slots.push(Want { num: n as u32, ..w.clone() });
                continue;
            }
            let mut found = false;
            for s in &m.slots {
                let same = nssdb(&s.db) == nssdb(&w.db) && s.args == w.args;
                if s.num == w.num { if !same { return None; } found = true; }
                else if same && s.args.is_some() { return None; }
            }
            if !found { m.slots.push(w.clone()); }
        }
        Some(m)
    }
}
fn nssdb(d: &DbG) -> bool { matches!(d, DbG::Nss(..) | DbG::NssNew(..)) }
fn setv<V: AsRef<std::ffi::OsStr>>(k: &str, v: V) { unsafe { std::env::set_var(k, v) } }
fn delv(k: &str) { unsafe { std::env::remove_var(k) } }
struct Guard { cwd: PathBuf, vars: Vec<(&'static str, Option<std::ffi::OsString>)> }
const VARS: [&str; 4] = ["KRYOPTIC_CONF", "XDG_CONFIG_HOME", "HOME", "KRYOPTIC_EC_POINT_ENCODING"];
impl Guard {
    fn new(dir: &Path) -> Guard { let g = Guard { cwd: std::env::current_dir().expect("cwd"), vars: VARS.iter().map(|v| (*v, std::env::var_os(v))).collect() }; std::env::set_current_dir(dir).expect("chdir"); g }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.cwd);
        for (v, x) in &self.vars { match x { Some(x) => setv(v, x), None => delv(v) } }
    }
}
fn padded(got: &[u8], want: &str) -> bool {
    let w = want.as_bytes();
    let n = w.len().min(got.len());
    // a character that does not fit may be left out
    let cut = (0..=n).rev().find(|i| want.is_char_boundary(*i)).unwrap_or(0);
    (got[..n] == w[..n] && got[n..].iter().all(|b| *b == b' ')) || (got[..cut] == w[..cut] && got[cut..].iter().all(|b| *b == b' '))
}
fn put(dir: &str, prefix: (&str, &str), f: &Files) {
    std::fs::create_dir_all(dir).expect("dir");
    for (n, b) in f { let n = if n.starts_with("cert9") { format!("{}{n}", prefix.0) } else if n.starts_with("key4") { format!("{}{n}", prefix.1) } else { n.clone() }; let p = format!("{dir}/{n}"); if !Path::new(&p).exists() { std::fs::write(p, b).expect("write"); } }
}
fn size(p: &str) -> u64 { std::fs::metadata(p).map_or(0, |m| m.len()) }
/// the files of an NSS storage
fn files(pl: &Place, db: &DbG) -> Option<(String, String)> {
    let d = pl.nss(db)?;
    let (DbG::Nss(_, g) | DbG::NssNew(_, g)) = db else { return None };
    let (c, k) = PREFIX[g.prefix as usize % 4];
    Some((format!("{d}/{c}cert9.db"), format!("{d}/{k}key4.db")))
}
/// everything the configuration says, against the library; inited: labels of storages initialised by this case
fn check(p: &P, m: &Model, pl: &Place, inited: &mut BTreeMap<String, String>, init: bool, full: &BTreeMap<u64, super::c26::Info>, cx: &mut Cx, what: &str) -> R {
    let (rv, mut l) = p.slots(false);
    let mut w: Vec<u64> = m.slots.iter().map(|s| s.num as u64).collect();
    w.sort();
    l.sort();
    ensure!(rv == CKR_OK && l == w, "slots", "{what}: {} slots {l:?} instead of {w:?}", rvname(rv));
    for s in &m.slots {
        let id = s.num as u64;
        let what = format!("{what}, slot {id} {:?}", s.args);
        let (rv, si) = p.slot_info(id);
        ensure!(rv == CKR_OK, "slot", "{what}: C_GetSlotInfo {}", rvname(rv));
        let d = s.desc.clone().unwrap_or("Kryoptic Slot".into());
        ensure!(padded(&si.slotDescription, &d), "description", "{what}: description {:?} instead of {d:?}", String::from_utf8_lossy(&si.slotDescription));
        let d = s.manu.clone().unwrap_or("Kryoptic Project".into());
        ensure!(padded(&si.manufacturerID, &d), "manufacturer", "{what}: manufacturer {:?} instead of {d:?}", String::from_utf8_lossy(&si.manufacturerID));
        let (rv, mut ti) = p.token_info(id);
        ensure!(rv == CKR_OK, "token", "{what}: C_GetTokenInfo {}", rvname(rv));
        let key = pl.key(&s.db).unwrap_or(format!("mem{id}"));
        let known = inited.get(&key).cloned();
        let is = ti.flags & CKF_TOKEN_INITIALIZED as CK_FLAGS != 0;
        ensure!(is == known.is_some(), "storage", "{what}: the token is {}initialized", if is { "" } else { "not " });
        let mut ready = is;
        if !is && init {
            let label = format!("made-{id}");
            let rv = p.init_token(id, SO, &label);
            ensure!(rv == CKR_OK, "storage", "{what}: C_InitToken {}", rvname(rv));
            {
                if let Some(f) = pl.sql(&s.db) { ensure!(size(&f) > 0, "storage", "{what}: {f} was not made"); }
                if let Some((c, k)) = files(pl, &s.db) { ensure!(size(&c) > 0 && size(&k) > 0, "storage", "{what}: {c} and {k} were not made"); }
                inited.insert(key.clone(), label);
            }
            ti = p.token_info(id).1;
            ready = true;
            cx.hit("token initialized");
        }
        let known = inited.get(&key).cloned().unwrap_or_default();
        if !ready { continue; }
        let (rv, ml) = p.mech_list(id);
        ensure!(rv == CKR_OK, "mechanisms", "{what}: C_GetMechanismList {}", rvname(rv));
        let ml: BTreeSet<u64> = ml.into_iter().collect();
        let wl: BTreeSet<u64> = full.keys().copied().filter(|m| !s.rule.excludes(*m)).collect();
        ensure!(ml == wl, "mechanisms", "{what}: mechanisms under {:?}: more {:x?} less {:x?}", s.rule, ml.difference(&wl).collect::<Vec<_>>(), wl.difference(&ml).collect::<Vec<_>>());
        let (mut nokey, mut nocert, mut ro) = (false, false, false);
        if let DbG::Nss(_, g) | DbG::NssNew(_, g) = &s.db {
            let d = g.label.clone().unwrap_or("Kryoptic Soft Token".into());
            // C_InitToken was given another one
            ensure!(padded(&ti.label, &d) || (!known.is_empty() && padded(&ti.label, &known)), "label", "{what}: label {:?} instead of {d:?}", String::from_utf8_lossy(&ti.label));
            if g.flag("passwordRequired") { ensure!(ti.flags & CKF_LOGIN_REQUIRED as CK_FLAGS != 0, "flags", "{what}: flags {:#x}", ti.flags); }
            (nokey, nocert, ro) = (g.flag("noKeyDB"), g.flag("noCertDB"), g.flag("readOnly"));
        } else { ensure!(padded(&ti.label, &known), "storage", "{what}: the token has the label {:?} instead of {known:?}", String::from_utf8_lossy(&ti.label)); }
        let (rv, h) = p.open(id, true);
        ensure!(rv == CKR_OK, "open", "{what}: {}", rvname(rv));
        // the encoding of points
        let pt = { let mut v = vec![0u8; 32]; v[0] = 9; v };
        let der = [vec![4u8, 32], pt.clone()].concat();
        let (rv, o) = p.create(h, &tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_EC_MONTGOMERY, CKA_TOKEN => false, CKA_PRIVATE => false, CKA_EC_PARAMS => super::c18::mont_oid(false), CKA_EC_POINT => pt.clone() });
        ensure!(rv == CKR_OK, "encoding", "{what}: a public key cannot be created: {}", rvname(rv));
        let g = p.get1(h, o, CKA_EC_POINT);
        ensure!(g == Ok(if m.der { der } else { pt }), "encoding", "{what}: CKA_EC_POINT is {:x?} with encoding {}", g.map(|g| g.len()), if m.der { "Der" } else { "Bytes" });
        p.destroy(h, o);
        if let DbG::Nss(i, _) = &s.db {
            let (_, f) = p.find(h, &tm! { CKA_LABEL => format!("mark-{}", *i as usize % MARKS).as_str() });
            ensure!(f.len() == usize::from(!nocert), "storage", "{what}: {} marks of the certificate database", f.len());
        }
        let marked = matches!(s.db, DbG::Nss(..) | DbG::Sql(_)) && !nokey;
        if marked {
            let rv = p.login(h, CKU_USER, USER);
            ensure!(rv == CKR_OK, "storage", "{what}: the user cannot log in: {}", rvname(rv));
            if let DbG::Nss(i, _) = &s.db {
                let (_, f) = p.find(h, &tm! { CKA_LABEL => format!("key-{}", *i as usize % MARKS).as_str() });
                ensure!(f.len() == 1, "storage", "{what}: {} marks of the key database", f.len());
            }
            let cert = |p: &P| p.create(h, &tm! { CKA_CLASS => CKO_CERTIFICATE, CKA_CERTIFICATE_TYPE => CKC_X_509, CKA_TOKEN => true, CKA_PRIVATE => false, CKA_SUBJECT => vec![0x30u8, 0], CKA_ISSUER => vec![0x30u8, 2, 5, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 77], CKA_VALUE => vec![0x30u8, 3, 2, 1, 7], CKA_LABEL => "twice" });
            let trust = |p: &P| p.create(h, &tm! { CKA_CLASS => CKO_TRUST, CKA_TOKEN => true, CKA_ISSUER => vec![0x30u8, 2, 5, 0], CKA_SERIAL_NUMBER => vec![2u8, 1, 77], CKA_HASH_OF_CERTIFICATE => vec![1u8; 32], CKA_NAME_HASH_ALGORITHM => CKM_SHA256, CKA_TRUST_SERVER_AUTH => CKT_TRUSTED, CKA_LABEL => "twice" });
            let aes = |p: &P| p.create(h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => true, CKA_PRIVATE => true, CKA_VALUE => vec![9u8; 16], CKA_ID => vec![77u8], CKA_LABEL => "twice" });
            if ro {
                let (rv, _) = if s.num % 2 == 0 { cert(p) } else { aes(p) };
                ensure!(rv != CKR_OK, "flags", "{what}: an object was stored in a read only token");
                cx.hit("read only");
            } else if !nocert {
                // what is stored once
                let mut done = vec![];
                for (name, n, f) in [("certificates", if s.dedup >= 2 { 1usize } else { 2 }, &cert as &dyn Fn(&P) -> (Rv, Obj)), ("keys", if s.dedup == 3 { 1 } else { 2 }, &aes), ("trust objects", if s.dedup >= 1 { 1 } else { 0 }, &trust)] {
                    let (r1, a) = f(p);
                    let (r2, b) = f(p);
                    ensure!(r1 == CKR_OK, "dedup", "{what}: {name} cannot be stored: {}", rvname(r1));
                    let ok = match n { 0 => r2 != CKR_OK, 1 => r2 == CKR_OK && a == b, _ => r2 == CKR_OK && a != b };
                    ensure!(ok, "dedup", "{what}: two {name} with objects_dedup {:?}: {} {a} {b}", DEDUP[s.dedup as usize], rvname(r2));
                    let (_, l) = p.find(h, &tm! { CKA_LABEL => "twice" });
                    ensure!(l.len() == n.max(1), "dedup", "{what}: {} {name} with objects_dedup {:?}", l.len(), DEDUP[s.dedup as usize]);
                    for o in l { let rv = p.destroy(h, o); ensure!(rv == CKR_OK, "dedup", "{what}: destroying {name}: {}", rvname(rv)); }
                    done.push(a);
                }
                cx.hit("duplicates tried");
            }
        }
        p.close_all(id);
    }
    Ok(())
}
fn gone(p: &P, what: &str) -> R {
    let rv = p.slots(false).0;
    ensure!(rv == CKR_CRYPTOKI_NOT_INITIALIZED, "uninitialized", "{what}: afterwards C_GetSlotList gives {}", rvname(rv));
    let rv = p.finalize();
    ensure!(rv == CKR_CRYPTOKI_NOT_INITIALIZED, "uninitialized", "{what}: afterwards C_Finalize gives {}", rvname(rv));
    Ok(())
}
fn mutate(b: &mut Vec<u8>, ops: &[(u16, u8, u8)]) {
    // no slashes, so that paths stay below the directory of the case
    let alphabet = b"[]{}=\"'\\#,.\n \tslotdbargsEC0123456789-_ntrueSQLk<(\xff\x01";
    for (pos, op, x) in ops {
        if b.is_empty() { return; }
        let i = *pos as usize % b.len();
        let c = alphabet[*x as usize % alphabet.len()];
        match op % 6 {
            0 => b[i] = c,
            1 => b.insert(i, c),
            2 => { b.remove(i); }
            3 => { let e = (i + *x as usize % 40).min(b.len()); b.drain(i..e); }
            4 => { let e = (i + *x as usize % 40).min(b.len()); let v = b[i..e].to_vec(); for (k, y) in v.into_iter().enumerate() { b.insert(i + k, y); } }
            _ => { if x % 4 == 0 { b.truncate(i); } else { b.swap(i, (i + 1) % (*pos as usize % 7 + 1)); } }
        }
    }
    b.retain(|c| *c != b'/');
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let full = base(cx);
    let marks = marked(cx);
    let dir = cx.tok.dir();
    cx.tok.reset();
    let p = P::load();
    p.finalize();
    let g = Guard::new(&dir);
    let mutated = c.steps.iter().any(|s| !s.mutate.is_empty());
    let pl = Place { dir: dir.clone(), rel: mutated, odd: c.odd };
    let r = steps_run(c, cx, &p, &pl, full, marks, mutated);
    p.finalize();
    drop(g);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn steps_run(c: &Case, cx: &mut Cx, p: &P, pl: &Place, full: &BTreeMap<u64, super::c26::Info>, marks: &(Vec<Files>, Vec<Files>), mutated: bool) -> R {
    let dir = &pl.dir;
    std::fs::write(dir.join("file"), b"x").expect("file");
    std::fs::write(dir.join("garbage"), vec![0x42u8; 5000]).expect("file");
    std::fs::create_dir_all(dir.join("bad")).expect("dir");
    std::fs::write(dir.join("bad/cert9.db"), vec![0x42u8; 5000]).expect("file");
    std::fs::write(dir.join("bad/key4.db"), vec![0x42u8; 5000]).expect("file");
    let mut inited: BTreeMap<String, String> = BTreeMap::new();
    let mut prefixes: BTreeMap<String, u8> = BTreeMap::new();
    let mut model: Option<Model> = None;
    for (n, st) in c.steps.iter().enumerate() {
        let mut st = st.clone();
        let direct = matches!(st.via, Via::Direct | Via::DirectEnv) && !mutated;
        if mutated && direct { st.via = Via::Arg; }
        if matches!(st.via, Via::Direct | Via::DirectEnv) && mutated { st.via = Via::Arg; }
        // what the configuration may say in this case
        let mut used: BTreeSet<String> = BTreeSet::new();
        for s in st.conf.slots.iter_mut() {
            if st.via == Via::DirectEnv && pl.sql(&s.db).is_none() { s.db = DbG::SqlNew(1); }
            if st.via == Via::Direct && s.db == DbG::Mem { s.db = DbG::Sql(0); }
            // two writings of the same NSS storage are not recognised as the same
            if st.again && pl.nss(&s.db).is_some() && model.as_ref().is_some_and(|m| m.slots.iter().any(|w| pl.nss(&w.db) == pl.nss(&s.db) && w.db != s.db)) { s.db = if st.via == Via::Direct { DbG::Sql(0) } else { DbG::Mem }; }
            if pl.key(&s.db).is_some_and(|k| !used.insert(k)) { s.db = DbG::Mem; }
            let key = pl.key(&s.db);
            let isnew = matches!(s.db, DbG::NssNew(..));
            if let DbG::Nss(_, g) | DbG::NssNew(_, g) = &mut s.db {
                // a storage keeps its prefixes, and is initialised with both databases
                g.prefix = *prefixes.entry(key.clone().unwrap()).or_insert(g.prefix % 4);
                if mutated { g.prefix = 0; g.scheme = false; g.other.clear(); g.label = None; }
                if isnew || g.flag("noKeyDB") && g.flag("noCertDB") { g.flags.retain(|i| !matches!(FLAGS[*i as usize % 7], "readOnly" | "noCertDB" | "noKeyDB")); }
                if direct { g.scheme = false; }
            }
        }
        if direct { st.conf.slots.truncate(1); }
        // the prepared storages
        for s in &st.conf.slots {
            match &s.db {
                DbG::Sql(i) => { let f = pl.sql(&s.db).unwrap(); if !pl.rel { std::fs::create_dir_all(Path::new(&f).parent().unwrap()).expect("dir"); } if !Path::new(&f).exists() { std::fs::write(&f, &marks.0[*i as usize % MARKS][0].1).expect("write"); inited.insert(f, format!("tok-{}", *i as usize % MARKS)); } }
                DbG::SqlNew(_) => { let f = pl.sql(&s.db).unwrap(); if !pl.rel { std::fs::create_dir_all(Path::new(&f).parent().unwrap()).expect("dir"); } }
                DbG::Nss(i, g) => { let d = pl.nss(&s.db).unwrap(); if !inited.contains_key(&d) { put(&d, PREFIX[g.prefix as usize % 4], &marks.1[*i as usize % MARKS]); inited.insert(d, String::new()); } }
                _ => (),
            }
        }
        let mut fault = if mutated { None } else { fault_of(&st) };
        // opening read only fails where there are no files yet
        if let Some((28, i)) = fault { if pl.nss(&st.conf.slots[i].db).is_some_and(|d| Path::new(&d).exists()) { fault = None; } }
        if let (Some((27, _)), true) = (fault, direct) { std::fs::create_dir_all(dir.join("dir.sql")).expect("dir"); }
        let again = st.again && model.is_some();
        if !again && model.is_some() {
            let rv = p.finalize();
            ensure!(rv == CKR_OK, "finalize", "{}", rvname(rv));
            inited.retain(|k, _| !k.starts_with("mem"));
            model = None;
        }
        // sources
        for v in VARS { if v != "HOME" { delv(v); } }
        setv("HOME", dir.join("nohome"));
        if st.env > 1 { setv("KRYOPTIC_EC_POINT_ENCODING", ["BYTES", "DER", "der", ""][st.env as usize - 2]); }
        let mut bytes = write(&st.conf, pl, fault);
        if !st.mutate.is_empty() { mutate(&mut bytes, &st.mutate); }
        let decoy = b"[[slots]]\nslot = 77\ndbtype = \"sqlite\"\n".to_vec();
        let place = |path: PathBuf, b: &[u8]| { std::fs::create_dir_all(path.parent().unwrap()).expect("dir"); std::fs::write(path, b).expect("write"); };
        let missing = fault.is_some_and(|f| f.0 == 20);
        let file = dir.join(format!("k{n}.conf"));
        if !missing { place(file.clone(), &bytes); }
        let mut arg: Option<String> = None;
        // sources of lower precedence hold another configuration
        if st.conf.style % 2 == 0 {
            match st.via {
                Via::Arg | Via::Direct => { place(dir.join("decoy.conf"), &decoy); setv("KRYOPTIC_CONF", dir.join("decoy.conf")); }
                Via::Env | Via::DirectEnv => { place(dir.join("xdg/kryoptic/token.conf"), &decoy); setv("XDG_CONFIG_HOME", dir.join("xdg")); }
                Via::Xdg => { place(dir.join("home/.config/kryoptic/token.conf"), &decoy); setv("HOME", dir.join("home")); }
                Via::Home => (),
            }
        }
        let w0 = &st.conf.slots[0];
        let direct_args = if direct {
            match fault {
                Some((10, _)) => format!("{}/file/below/token.sql", dir.display()),
                Some((11, _)) => { std::fs::copy(dir.join("garbage"), dir.join("garbage.sql")).expect("copy"); format!("{}/garbage.sql", dir.display()) }
                Some((27, _)) => format!("{}/dir.sql", dir.display()),
                Some((30, _)) => format!("configDir='{}/bad'", dir.display()),
                f => args(pl, &w0.db, f.map(|f| f.0)).unwrap_or_default(),
            }
        } else { String::new() };
        match st.via {
            Via::Arg => arg = Some(format!("kryoptic_conf={}", file.display())),
            Via::Env => setv("KRYOPTIC_CONF", &file),
            Via::Xdg => { let f = dir.join("xdg/kryoptic/token.conf"); let _ = std::fs::remove_file(&f); if !missing { place(f, &bytes); } setv("XDG_CONFIG_HOME", dir.join("xdg")); }
            Via::Home => { let f = dir.join("home/.config/kryoptic/token.conf"); let _ = std::fs::remove_file(&f); if !missing { place(f, &bytes); } setv("HOME", dir.join("home")); }
            Via::Direct => arg = Some(direct_args.clone()),
            Via::DirectEnv => setv("KRYOPTIC_CONF", &direct_args),
        }
        let new: Vec<Want> = st.conf.slots.iter().map(|s| Want { num: s.num, db: s.db.clone(), args: args(pl, &s.db, None), desc: s.desc.clone().filter(|_| !direct), manu: s.manu.clone().filter(|_| !direct), rule: if direct { Rule::All } else { s.rule.clone() }, dedup: if direct { if nssdb(&s.db) { 3 } else { 0 } } else { s.dedup } }).collect();
        // a further initialization without argument only looks at the variables
        let ignored = again && arg.is_none();
        if ignored { fault = None; }
        let before = model.clone().unwrap_or_default();
        let merged = if ignored { Some(before.clone()) } else { before.merge(&new, st.conf.enc == 3 && !direct, direct) };
        let mut want = if fault.is_some() { None } else { merged };
        if let Some(m) = &mut want { match st.env { 2 => m.der = false, 3 => m.der = true, _ => () } }
        let what = format!("step {n} {:?} {}{}", st.via, if let Some(f) = fault { format!("fault {f:?} ") } else { String::new() }, if direct { direct_args } else { String::from_utf8_lossy(&bytes).to_string() });
        let rv = p.initialize(arg.as_deref());
        if !st.mutate.is_empty() && !ignored {
            // any answer, but a consistent one
            cx.nt();
            if rv != CKR_OK && !again { gone(p, &what)?; cx.hit("mutant refused"); model = None; }
            else {
                let (r, l) = p.slots(false);
                ensure!(r == CKR_OK, "consistent", "{what}: {} and C_GetSlotList gives {}", rvname(rv), rvname(r));
                for s in l { let r = p.slot_info(s).0; let t = p.token_info(s).0; ensure!(r == CKR_OK && t == CKR_OK, "consistent", "{what}: {} {}", rvname(r), rvname(t)); p.mech_list(s); }
                cx.hit("mutant accepted");
                p.finalize();
                model = None;
            }
            // afterwards a good configuration works
            let good = dir.join("good.conf");
            std::fs::write(&good, b"[[slots]]\nslot = 5\ndbtype = \"sqlite\"\ndescription = \"good\"\n").expect("good");
            let rv = p.initialize(Some(&format!("kryoptic_conf={}", good.display())));
            ensure!(rv == CKR_OK && p.slots(false).1 == vec![5], "recovery", "{what}: afterwards a good configuration gives {} {:?}", rvname(rv), p.slots(false).1);
            p.finalize();
            continue;
        }
        match want {
            Some(m) => {
                let ok = if again { CKR_CRYPTOKI_ALREADY_INITIALIZED } else { CKR_OK };
                ensure!(rv == ok, "accepted", "{what}: C_Initialize gives {} instead of {}", rvname(rv), rvname(ok));
                check(p, &m, pl, &mut inited, st.init, full, cx, &what)?;
                // what is held in memory only is not remembered
                model = Some(m);
                cx.hit(&format!("{:?}{}", st.via, if again { " again" } else { "" }));
                cx.nt();
            }
            None => {
                ensure!(rv != CKR_OK, "rejected", "{what}: C_Initialize accepted it");
                if again {
                    ensure!(rv != CKR_CRYPTOKI_ALREADY_INITIALIZED, "rejected", "{what}: C_Initialize accepted it");
                    check(p, &before, pl, &mut inited, false, full, cx, &what)?;
                } else { gone(p, &what)?; }
                cx.hit(&fault.map_or("contradiction".into(), |f| format!("fault {:02}", f.0)));
                cx.nt();
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27", level: "exploration", workers: 8, hang_s: 60,
        rule: "configurations: sequences of initializations with generated configurations (files with 1 to 4 slots in several writings, NSS strings with all quoting styles, escapes, orders and flags, plain database paths; given as argument, by KRYOPTIC_CONF, XDG_CONFIG_HOME or HOME), a third of them with one of 31 faults in any slot, some while initialized; slots, descriptions, mechanisms, storage, encodings and deduplication compared with the model; mutants: damaged configuration files; non-trivial: a configuration was accepted and compared, or rejected",
        assumptions: &["the NSS parameters this token has no use for (manufacturerID, slot descriptions, minPWLen ...) are only required to be accepted", "a character that does not fit whole at the end of a description may be cut", "unknown keys of the file are ignored"],
        groups: vec![gen_("configurations", 1500, 40000, cases, run), gen_("mutants", 1500, 40000, mutants, run)],
    }
}
