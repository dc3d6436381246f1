//! C34: the objects of a SoftHSM token arrive unchanged, or are reported.
use crate::crypt::*;
use crate::objmodel::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ob { spec: Spec, private: bool, lib: u8, odd: Odd }
/// what makes an object one that can not be migrated
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Odd { No, Class(u8), KeyType(u8), Template(u8), NoClass, NoKeyType, PlainDate }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage { Trunc(u16), Flip(u16, u8), Len(u8, u8), Kind(u8, u8), Drop(u8), Short(u8), Tail(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault { No, WrongPin(u8), WrongTarget(u8), Token(Damage), Object(u8, Damage), NoUserPin, NoDir, NoLogin }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, slot: u8, pin: String, seed: u8, salt: u8, objs: Vec<Ob>, many: u16, junk: u8, fault: Fault }

const OK: &[Kind] = &[Kind::Cert, Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
const OKN: &[Kind] = &[Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv];
const KINDS_ANY: &[Kind] = &KINDS;

fn ob(kinds: &'static [Kind], odd: bool) -> BoxedStrategy<Ob> {
    let sp = if odd { spec(kinds, 1, 1.0) } else { useful(kinds, 1.0) };
    (prop_oneof![3 => useful(kinds, 1.0), 2 => sp], any::<bool>(), any::<u8>(), if odd { prop_oneof![6 => Just(Odd::No), 1 => any::<u8>().prop_map(Odd::Class), 1 => any::<u8>().prop_map(Odd::KeyType), 1 => any::<u8>().prop_map(Odd::Template), 1 => Just(Odd::NoClass), 1 => Just(Odd::NoKeyType), 1 => Just(Odd::PlainDate)].boxed() } else { Just(Odd::No).boxed() })
        .prop_map(|(mut spec, private, lib, odd)| { spec.origin = Origin::Create; Ob { spec, private, lib, odd } }).boxed()
}
fn damage() -> BoxedStrategy<Damage> {
    let u = || any::<u8>();
    prop_oneof![3 => any::<u16>().prop_map(Damage::Trunc), 3 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b)), 3 => (u(), u()).prop_map(|(a, b)| Damage::Len(a, b)),
        3 => (u(), 0u8..8).prop_map(|(a, b)| Damage::Kind(a, b)), 1 => u().prop_map(Damage::Drop), 2 => u().prop_map(Damage::Short), 1 => (1u8..20).prop_map(Damage::Tail)].boxed()
}
fn strat(db: Db, odd: bool, fault: BoxedStrategy<Fault>, many: BoxedStrategy<u16>) -> BoxedStrategy<Case> {
    let kinds = match (db, odd) { (Db::Nss, _) => OKN, (_, true) => KINDS_ANY, _ => OK };
    (prop::collection::vec(ob(kinds, odd), 1..7), prop_oneof![Just(0u8), 1u8..250], prop_oneof!["[0-9]{4,8}", "[a-zA-Z0-9é!\" ]{4,40}"], any::<u8>(), any::<u8>(), many, any::<u8>(), fault)
        .prop_map(move |(objs, slot, pin, seed, salt, many, junk, fault)| Case { db, slot, pin, seed, salt, objs, many, junk, fault }).boxed()
}

/// a file in SoftHSM's format, with the places of its fields
#[derive(Clone, Default)]
struct F { b: Vec<u8>, attrs: Vec<(usize, u64, usize)> }
impl F {
    fn new(generation: u64) -> F { F { b: generation.to_be_bytes().to_vec(), attrs: vec![] } }
    fn u(&mut self, v: u64) { self.b.extend(v.to_be_bytes()); }
    fn attr(&mut self, t: u64, kind: u64, v: &[u8]) {
        let at = self.b.len();
        self.u(t);
        self.u(kind);
        match kind {
            1 => self.b.push(if v.iter().any(|b| *b != 0) { 0xff } else { 0 }),
            2 => self.u(u64::from_ne_bytes(v.try_into().unwrap())),
            3 => { self.u(v.len() as u64); self.b.extend_from_slice(v); }
            5 => { self.u(v.len() as u64 / 8); for c in v.chunks(8) { self.u(u64::from_ne_bytes(c.try_into().unwrap())); } }
            _ => { self.u(v.len() as u64); self.b.extend_from_slice(v); }
        }
        self.attrs.push((at, kind, self.b.len()));
    }
    fn damage(&mut self, d: &Damage) -> bool {
        let pick = |i: u8, n: usize| i as usize * n / 256;
        let old = self.b.clone();
        match d {
            Damage::Trunc(n) => { let n = *n as usize * self.b.len() / 65536; self.b.truncate(n); }
            Damage::Flip(n, bit) => { let n = *n as usize * self.b.len() / 65536; self.b[n] ^= 1 << bit; }
            Damage::Len(i, k) => {
                let l: Vec<usize> = self.attrs.iter().filter(|a| a.1 >= 3).map(|a| a.0 + 16).collect();
                if l.is_empty() { return false; }
                let at = l[pick(*i, l.len())];
                let cur = u64::from_be_bytes(self.b[at..at + 8].try_into().unwrap());
                let v = [cur.wrapping_add(1), cur.wrapping_sub(1), u64::MAX, u64::MAX - 7, 1 << 63, 1 << 61, (1 << 61) + 1, 1 << 40, self.b.len() as u64, u64::MAX - at as u64, u64::MAX / 8 + 1, 1][*k as usize % 12];
                self.b[at..at + 8].copy_from_slice(&v.to_be_bytes());
            }
            Damage::Kind(i, k) => {
                if self.attrs.is_empty() { return false; }
                let at = self.attrs[pick(*i, self.attrs.len())].0 + 8;
                self.b[at..at + 8].copy_from_slice(&(*k as u64).to_be_bytes());
            }
            Damage::Drop(i) => { if self.attrs.is_empty() { return false; } let a = self.attrs[pick(*i, self.attrs.len())]; self.b.drain(a.0..a.2); }
            // class, key type and the encrypted key are what the tool itself looks into
            Damage::Short(i) => {
                let l: Vec<_> = self.attrs.iter().filter(|a| matches!(u64::from_be_bytes(self.b[a.0..a.0 + 8].try_into().unwrap()), CKA_CLASS | CKA_KEY_TYPE | CKA_PRIVATE | USERPIN)).cloned().collect();
                if l.is_empty() { return false; }
                let a = l[*i as usize % l.len()];
                let n = [0usize, 0, 1, 3, 7, 8, 15, 16, 23, 24, 25, 39, 40, 41, 55, 56][*i as usize / 16];
                let mut new = self.b[a.0..a.0 + 8].to_vec();
                new.extend(3u64.to_be_bytes());
                new.extend((n as u64).to_be_bytes());
                new.extend(bytes_of(*i, n, b"short"));
                self.b.splice(a.0..a.2, new);
            }
            Damage::Tail(n) => self.b.extend(bytes_of(*n, *n as usize, b"tail")),
        }
        self.b != old
    }
}
const USERPIN: u64 = CKA_VENDOR_DEFINED + 0x5348 + 5;

fn token_object(c: &Case, key: &[u8]) -> F {
    let mut f = F::new(3);
    f.attr(USERPIN - 4, 3, b"SoftHSM Token                   ");
    f.attr(USERPIN - 3, 3, b"657d9947f7ba2120");
    f.attr(USERPIN - 2, 2, &0x42du64.to_ne_bytes());
    let blob = |pin: &[u8], tag: &[u8]| -> Vec<u8> {
        let mut salt = bytes_of(c.seed, 8, tag);
        salt[7] = c.salt;
        let mut k = [&salt, pin].concat();
        for _ in 0..1500 + salt[7] as usize { k = refc::hash::H::Sha256.hash(&k); }
        let iv = bytes_of(c.seed, 16, &[tag, b"iv"].concat());
        let plain = [&[0x52, 0x4a, 0x52], key].concat();
        [salt, iv.clone(), refc::aes::cbc_enc(&k, &iv, &refc::aes::pad(&plain))].concat()
    };
    f.attr(USERPIN - 1, 3, &blob(b"the so pin", b"so"));
    if !matches!(c.fault, Fault::NoUserPin) { f.attr(USERPIN, 3, &blob(c.pin.as_bytes(), b"user")); }
    f
}
/// what the object looks like in SoftHSM, the template that should reach the target, and whether the tool can take it
fn object(c: &Case, i: usize, o: &Ob, key: &[u8]) -> (F, Tmpl, bool) {
    let mut t: Tmpl = o.spec.plan(i).t;
    tset(&mut t, CKA_TOKEN, true);
    tset(&mut t, CKA_PRIVATE, o.private);
    let kind = o.spec.kind;
    let mut takes = !matches!(kind, Kind::Data | Kind::Trust);
    match o.odd {
        Odd::Class(n) => { tset(&mut t, CKA_CLASS, [CKO_DATA, CKO_DOMAIN_PARAMETERS, CKO_HW_FEATURE, CKO_MECHANISM, 0x55, u64::MAX, CKO_VENDOR_DEFINED][n as usize % 7]); takes = false; }
        Odd::KeyType(n) if kind.key() && !kind.public() => { tset(&mut t, CKA_KEY_TYPE, [CKK_DES3, CKK_DSA, CKK_DH, CKK_CHACHA20, 0x7777, u64::MAX][n as usize % 6]); takes = false; }
        Odd::NoClass => { t.retain(|a| a.0 != CKA_CLASS); takes = false; }
        Odd::NoKeyType if kind.key() && !kind.public() => { t.retain(|a| a.0 != CKA_KEY_TYPE); takes = false; }
        _ => (),
    }
    let class = tget(&t, CKA_CLASS).map(|v| v.bytes());
    if class.as_deref().and_then(|b| Some(u64::from_ne_bytes(b.try_into().ok()?))).map(|x| !matches!(x, CKO_CERTIFICATE | CKO_PUBLIC_KEY | CKO_PRIVATE_KEY | CKO_SECRET_KEY)) == Some(true) { takes = false; }
    // values only the library sets, as SoftHSM stores them: they are not taken over
    let never: &[u64] = match kind { Kind::RsaPub | Kind::EcPub => &[CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_TRUSTED, CKA_UNIQUE_ID], k if k.private() => &[CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_UNIQUE_ID], k if k.secret() => &[CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_TRUSTED, CKA_UNIQUE_ID], _ => &[CKA_UNIQUE_ID] };
    let mut file = t.clone();
    t.retain(|a| !never.contains(&a.0) && !a.1.bytes().is_empty());
    if kind.key() {
        for (n, a) in never.iter().enumerate() {
            if file.iter().any(|x| x.0 == *a) { continue; }
            match *a {
                CKA_UNIQUE_ID => (),
                CKA_KEY_GEN_MECHANISM => file.push((*a, V::U([CKM_AES_KEY_GEN, u64::MAX, CKM_RSA_PKCS_KEY_PAIR_GEN][o.lib as usize % 3]))),
                a => file.push((a, V::B(o.lib >> n & 1 == 1))),
            }
        }
    }
    // as SoftHSM does, every attribute has a value, which may be empty
    for a in [CKA_LABEL, CKA_ID, CKA_START_DATE, CKA_END_DATE, CKA_PUBLIC_KEY_INFO] { if !file.iter().any(|x| x.0 == a) { file.push((a, V::X(vec![]))); } }
    let mut recs: Vec<(u64, u64, Vec<u8>)> = file.iter().map(|(a, v)| {
        let b = v.bytes();
        let k = match aty(*a) { Ty::Bool if b.len() == 1 => 1, Ty::Num if b.len() == 8 => 2, Ty::Mechs if b.len() % 8 == 0 => 5, _ => 3 };
        (*a, k, b)
    }).collect();
    if kind.key() {
        if !recs.iter().any(|r| r.0 == CKA_ALLOWED_MECHANISMS) { recs.push((CKA_ALLOWED_MECHANISMS, 5, vec![])); }
        if let Odd::Template(n) = o.odd {
            // an attribute of its own inside: such restrictions can not be represented in the target
            let mut f = F::new(0);
            f.attr(CKA_EXTRACTABLE, 1, &[n & 1]);
            if n & 2 != 0 { f.attr(CKA_LABEL, 3, &bytes_of(n, n as usize / 4, b"inner")); }
            recs.push((if kind.public() { CKA_WRAP_TEMPLATE } else { CKA_UNWRAP_TEMPLATE }, 4, f.b[8..].to_vec()));
            takes = false;
        } else { recs.push((if kind.public() { CKA_WRAP_TEMPLATE } else { CKA_UNWRAP_TEMPLATE }, 4, vec![])); }
    }
    recs.sort_by_key(|r| r.0);
    let mut f = F::new(1 + o.lib as u64);
    for (n, (a, k, v)) in recs.iter().enumerate() {
        let plain = o.odd == Odd::PlainDate && aty(*a) == Ty::Date;
        if o.private && *k == 3 && !v.is_empty() && !plain {
            let iv = bytes_of(c.seed.wrapping_add(n as u8), 16, &[i as u8, 0x77]);
            f.attr(*a, 3, &[iv.clone(), refc::aes::cbc_enc(key, &iv, &refc::aes::pad(v))].concat());
        } else { f.attr(*a, *k, v); }
    }
    (f, t, takes)
}

fn tool() -> (PathBuf, PathBuf) {
    let d = std::env::current_exe().expect("exe");
    let d = d.parent().unwrap();
    let d = if d.ends_with("deps") { d.parent().unwrap() } else { d };
    (d.join("softhsm_migrate"), d.join("libkvmodule.so"))
}
fn run_tool(t: &Tok, slot: Option<u64>, pin: Option<&[u8]>, q: &[u8], dir: &Path) -> R<(i32, String)> {
    let (exe, so) = tool();
    let os = std::ffi::OsStr::from_bytes;
    let err = t.dir.join("tool.err.conf");
    let mut cmd = Command::new(&exe);
    cmd.arg("-m").arg(&so).arg("-i").arg(&t.conf);
    if let Some(p) = pin { cmd.arg("-p").arg(os(p)); }
    if let Some(s) = slot { cmd.arg("-s").arg(s.to_string()); }
    cmd.arg("-q").arg(os(q)).arg(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&err).expect("err")).env_clear().env("PATH", "/usr/bin:/bin").current_dir(&t.dir);
    let st = cmd.status().unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
    let text = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&err);
    let tail: String = text.chars().take(400).collect();
    ensure!(st.signal().is_none(), "tool-crash", "softhsm_migrate dies from signal {:?}: {tail}", st.signal());
    ensure!(!text.contains("panicked at"), "tool-panic", "softhsm_migrate panics (exit {:?}): {tail}", st.code());
    Ok((st.code().unwrap(), tail))
}
/// everything of it that can be seen, secrets by what the key does
fn look(p: &P, s: u64, h: Obj, kind: Kind) -> Vec<(String, Option<Vec<u8>>)> {
    let (_, v) = p.get(s, h, ALL);
    let mut out: Vec<(String, Option<Vec<u8>>)> = ALL.iter().zip(v).filter(|x| *x.0 != CKA_UNIQUE_ID).map(|(a, v)| (format!("attribute {a:#x}"), v)).collect();
    let mut add = |n: &str, r: Result<Vec<u8>, Rv>| { p.cancel(s, CKF_SIGN | CKF_ENCRYPT | CKF_DIGEST); out.push((n.to_string(), match r { Ok(v) => Some(v), Err(e) => Some(rvname(e).into_bytes()) })) };
    if kind.secret() {
        let mut r = p.digest_init(s, &Mech::new(CKM_SHA256));
        if r == CKR_OK { r = p.digest_key(s, h); }
        let (f, d) = p.digest_final(s);
        add("the digest of the key", if r != CKR_OK { Err(r) } else if f != CKR_OK { Err(f) } else { Ok(d) });
        add("a SHA-256 HMAC", p.sig(s, &Mech::new(CKM_SHA256_HMAC), h, b"message"));
        add("an AES CMAC", p.sig(s, &Mech::new(CKM_AES_CMAC), h, b"message"));
        add("an AES block", p.enc(s, &Mech::new(CKM_AES_ECB), h, b"sixteen byte msg"));
    }
    if kind == Kind::RsaPriv { add("an RSA signature", p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), h, b"message")); }
    if kind.private() {
        let mut peer = Mech::new(CKM_ECDH1_DERIVE);
        let (_, pp) = p.get(s, h, &[CKA_EC_PARAMS]);
        let point = match pp[0].as_deref() {
            Some(o) if kind == Kind::EcPriv => refc_point(o),
            Some(o) if kind == Kind::Mont => { let n = if o.ends_with(&[0x6f]) || o.len() > 5 && o.windows(2).any(|w| w == b"48") { 56 } else { 32 }; let mut u = vec![0u8; n]; u[0] = if n == 56 { 5 } else { 9 }; u }
            _ => vec![],
        };
        if !point.is_empty() {
            let (pd, pl) = peer.keep(&point);
            peer.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pd });
            let (rv, k) = p.derive(s, &peer, h, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_TOKEN => false, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_VALUE_LEN => 32u64 });
            add("a shared secret", if rv == CKR_OK { p.get1(s, k, CKA_VALUE) } else { Err(rv) });
            if rv == CKR_OK { p.destroy(s, k); }
        }
    }
    out
}
/// twice the generator of the curve
fn refc_point(oid: &[u8]) -> Vec<u8> {
    let cs = refc::ec::all();
    let c = match oid { o if o.ends_with(&[1, 7]) => &cs[0], o if o.ends_with(&[0x22]) => &cs[1], _ => &cs[2] };
    c.enc(&c.pubkey(&2u8.into()))
}

fn run(c: &Case, cx: &mut Cx) -> R {
    let slot = c.slot as u64;
    // the target may be one of several slots
    let toks = if slot == 0 { let mut v = cx.tok.several(&[(0, c.db)], ""); v.truncate(1); v } else { cx.tok.several(&[(0, Db::Sqlite), (slot, c.db)], "") };
    let t = toks.last().unwrap();
    let p = t.p;
    let conf = &toks[0].conf;
    let builtin: Vec<BTreeSet<Obj>> = toks.iter().map(|t| { let s = t.user(); p.find(s, &[]).1.into_iter().collect() }).collect();
    p.finalize();
    let key = bytes_of(c.seed, 32, b"the token's key");
    let d = toks[0].dir.join("softhsm");
    std::fs::create_dir_all(&d).expect("dir");
    let w = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).expect("write");
    w("generation", &[0, 0, 0, 0, 0, 0, 0, 9]);
    w("token.lock", b"");
    let mut tf = token_object(c, &key);
    let mut judged = true;
    if let Fault::Token(x) = &c.fault { tf.damage(x); judged = false; }
    w("token.object", &tf.b);
    let (mut files, mut hurt) = (0usize, None);
    let mut want = vec![];
    for (i, o) in c.objs.iter().enumerate() {
        let (mut f, tmpl, takes) = object(c, i, o, &key);
        if let Fault::Object(n, x) = &c.fault { if *n as usize * c.objs.len() / 256 == i && f.damage(x) { hurt = Some(i); } }
        let n = format!("{:08x}-0000-7ff4-cd4b-2baa85ed{:04x}", (i as u32 + 1).wrapping_mul(0x9e3779b1), i);
        w(&format!("{n}.lock"), b"");
        w(&format!("{n}.object"), &f.b);
        files += 1;
        want.push((tmpl, takes, o.spec.kind));
    }
    for i in 0..c.many as usize {
        let mut f = F::new(1);
        f.attr(CKA_CLASS, 2, &CKO_DATA.to_ne_bytes());
        f.attr(CKA_TOKEN, 1, &[1]);
        f.attr(CKA_PRIVATE, 1, &[0]);
        w(&format!("data-{i:05}.object"), &f.b);
        files += 1;
    }
    // things that are not objects
    if c.junk & 1 != 0 { std::fs::create_dir_all(d.join("dir.object")).expect("dir"); }
    if c.junk & 2 != 0 { w("notes.txt", b"a note"); }
    if c.junk & 4 != 0 { std::fs::write(d.join(std::ffi::OsStr::from_bytes(b"caf\xe9.txt")), b"a note").expect("write"); }
    let mut q = c.pin.as_bytes().to_vec();
    if let Fault::WrongPin(n) = c.fault { match n % 4 { 0 => { let mut x = c.pin.clone(); x.pop(); q = x.into_bytes(); } 1 => q.push(b'0' + n % 10), 2 => q.insert(0, b'0' + n % 10), _ => q = USER.to_vec() } if q == c.pin.as_bytes() { q.push(b'x'); } }
    let mut target = USER.to_vec();
    if let Fault::WrongTarget(n) = c.fault { if n & 1 == 0 { target.pop(); } else { target = c.pin.as_bytes().to_vec(); } if target == USER { target.push(b'x'); } }
    let sdir = if matches!(c.fault, Fault::NoDir) { d.join("nowhere") } else { d.clone() };
    let arg = if slot == 0 && c.junk & 8 != 0 { None } else { Some(slot) };
    let (code, text) = run_tool(&toks[0], arg, if matches!(c.fault, Fault::NoLogin) { None } else { Some(&target) }, &q, &sdir)?;
    let _ = std::fs::remove_dir_all(&d);
    // now look at the target
    let rv = p.initialize(Some(conf));
    ensure!(rv == CKR_OK, "target-broken", "the target cannot be opened after the migration: {}", rvname(rv));
    let ss: Vec<u64> = toks.iter().map(|t| t.user()).collect();
    for (i, s) in ss.iter().enumerate().take(toks.len() - 1) {
        let n = p.find(*s, &[]).1.len();
        ensure!(n == builtin[i].len(), "wrong-slot", "{} objects arrived in slot {} instead of {slot} (exit {code}: {text})", n - builtin[i].len(), toks[i].slot);
    }
    let s = *ss.last().unwrap();
    let (rv, all) = p.find(s, &[]);
    ensure!(rv == CKR_OK, "find", "{}", rvname(rv));
    let got: Vec<Obj> = all.into_iter().filter(|h| !matches!(p.get_ulong(s, *h, CKA_CLASS), Ok(CKO_MECHANISM) | Ok(CKO_PROFILE))).collect();
    let none = |e: i32, what: &str| -> R {
        ensure!(code == e, "exit-code", "{what}: exit {code} instead of {e}: {text}");
        ensure!(got.is_empty(), "objects-anyway", "{what}: {} objects were created", got.len());
        Ok(())
    };
    match &c.fault {
        Fault::WrongPin(_) => { cx.hit("wrong SoftHSM PIN"); cx.nt(); return none(254, "wrong SoftHSM PIN"); }
        Fault::WrongTarget(_) => { cx.hit("wrong target PIN"); cx.nt(); return none(255, "wrong PIN of the target"); }
        Fault::NoUserPin => { cx.hit("no User PIN"); return none(254, "a SoftHSM token without User PIN"); }
        Fault::NoDir => { cx.hit("no directory"); return none(254, "no such SoftHSM token"); }
        _ => (),
    }
    // nothing is lost silently
    if code >= 254 {
        ensure!(!judged, "exit-code", "exit {code} for a valid SoftHSM token: {text}");
        ensure!(got.is_empty() && code == 254, "objects-anyway", "exit {code}, but {} objects were created: {text}", got.len());
        cx.hit("token object refused");
        return Ok(());
    }
    let failed = files - got.len().min(files);
    ensure!(got.len() <= files && code as usize == failed.min(253), "lost-silently", "{} of {files} objects arrived, exit {code} reports another number of failures: {text}", got.len());
    if !judged { cx.hit("damaged token object without effect"); }
    if !judged || matches!(c.fault, Fault::NoLogin) && c.objs.iter().any(|_| true) {
        if matches!(c.fault, Fault::NoLogin) { ensure!(got.iter().all(|h| p.get_bool(s, *h, CKA_PRIVATE) == Ok(false)), "objects-anyway", "private objects were created without login"); cx.hit("no login"); }
        if matches!(c.fault, Fault::NoLogin) || !judged { return Ok(()); }
    }
    // every object that could be created like this has arrived, and looks like that
    let mut left: Vec<(Obj, Kind, Vec<(String, Option<Vec<u8>>)>)> = vec![];
    let kind_of = |h: Obj| -> Option<Kind> { let cl = p.get_ulong(s, h, CKA_CLASS).ok()?; let kt = p.get_ulong(s, h, CKA_KEY_TYPE).ok(); OK.iter().copied().find(|k| k.class() == cl && (!k.key() || Some(k.ckk()) == kt)) };
    for h in got { if let Some(k) = kind_of(h) { let l = look(&p, s, h, k); left.push((h, k, l)); } else if hurt.is_none() { return viol("unexpected-object", format!("object {h} of class {:?}", p.get_ulong(s, h, CKA_CLASS))); } }
    let mut arrived = 0;
    for (i, (tmpl, takes, kind)) in want.iter().enumerate() {
        if hurt == Some(i) { continue; }
        let (rv, h) = p.create(s, tmpl);
        if rv == CKR_OK && *takes {
            let l = look(&p, s, h, *kind);
            match left.iter().position(|x| x.1 == *kind && x.2 == l) {
                Some(n) => { left.remove(n); arrived += 1; cx.hit(match (c.objs[i].private, kind) { (true, Kind::Cert) => "private certificate", (true, k) if k.public() => "private public key", (false, k) if k.secret() || k.private() => "public secret", _ => "object" }); }
                None => {
                    let near = left.iter().filter(|x| x.1 == *kind).map(|x| x.2.iter().zip(&l).filter(|(a, b)| a != b).map(|(a, b)| format!("{} is {:?}, should be {:?}", a.0, a.1.as_deref().map(hex), b.1.as_deref().map(hex))).collect::<Vec<_>>()).min_by_key(|v| v.len());
                    return viol(if near.is_some() { "object-altered" } else { "object-lost" }, format!("object {i} ({kind:?}, private {}) did not arrive as it is: {:?} (exit {code}: {text})", c.objs[i].private, near));
                }
            }
        } else { cx.hit(if *takes { "object the target refuses" } else { "object of an unsupported kind" }); }
        if rv == CKR_OK { p.destroy(s, h); }
    }
    ensure!(left.len() <= hurt.is_some() as usize, "unexpected-object", "{} more objects than expected arrived: {:?}", left.len(), left.iter().map(|x| x.1).collect::<Vec<_>>());
    if hurt.is_some() { cx.hit(if left.is_empty() { "damaged object refused" } else { "damaged object taken" }); }
    if c.many > 253 { cx.hit("more failures than exit codes"); }
    if arrived > 0 { cx.nt(); }
    p.close_all(slot);
    Ok(())
}
/// the sample token of the repository, made by SoftHSM itself
fn sample(c: &(bool, u8), cx: &mut Cx) -> R {
    let base = Path::new("/repo/testdata/softhsm/tokens");
    let Some(dir) = std::fs::read_dir(base).ok().and_then(|r| r.flatten().map(|e| e.path()).find(|p| p.join("token.object").is_file())) else { cx.hit("no sample token"); return Ok(()); };
    let files = std::fs::read_dir(&dir).expect("dir").flatten().filter(|e| { let n = e.file_name(); let n = n.to_string_lossy(); n.ends_with(".object") && n != "token.object" }).count();
    let t = cx.tok.fresh(Db::Sqlite);
    let p = t.p;
    p.finalize();
    let pin: &[u8] = if c.0 { b"12345678" } else { b"12345679" };
    let (code, text) = run_tool(&t, Some(SLOT), Some(USER), pin, &dir)?;
    let rv = p.initialize(Some(&t.conf));
    ensure!(rv == CKR_OK, "target-broken", "{}", rvname(rv));
    let s = t.user();
    let n = p.find(s, &[]).1.into_iter().filter(|h| !matches!(p.get_ulong(s, *h, CKA_CLASS), Ok(CKO_MECHANISM) | Ok(CKO_PROFILE))).count();
    if !c.0 { ensure!(code == 254 && n == 0, "exit-code", "wrong PIN of the sample token: exit {code}, {n} objects"); return Ok(()); }
    ensure!(code as usize == files - n, "lost-silently", "sample token: {n} of {files} objects arrived, exit {code}: {text}");
    // the pairs of the sample belong together
    let (_, prv) = p.find(s, &tm! { CKA_CLASS => CKO_PRIVATE_KEY, CKA_KEY_TYPE => CKK_RSA });
    let mut pairs = 0;
    for h in prv {
        let Ok(id) = p.get1(s, h, CKA_ID) else { continue };
        let (_, pb) = p.find(s, &tm! { CKA_CLASS => CKO_PUBLIC_KEY, CKA_KEY_TYPE => CKK_RSA, CKA_ID => id });
        let (Some(u), Ok(n)) = (pb.first(), p.get1(s, h, CKA_MODULUS)) else { continue };
        if p.get1(s, *u, CKA_MODULUS).as_ref() != Ok(&n) { continue; }
        if p.get_bool(s, h, CKA_SIGN) != Ok(true) || p.get_bool(s, *u, CKA_VERIFY) != Ok(true) { continue; }
        let mechs = p.get1(s, h, CKA_ALLOWED_MECHANISMS).unwrap_or_default();
        let m = mechs.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).find(|m| matches!(*m, CKM_SHA256_RSA_PKCS | CKM_SHA256_RSA_PKCS_PSS)).unwrap_or(CKM_SHA256_RSA_PKCS);
        let m = if m == CKM_SHA256_RSA_PKCS_PSS { Mech::with(m, CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 }) } else { Mech::new(m) };
        let sig = p.sig(s, &m, h, b"message");
        ensure!(sig.is_ok(), "sample-key", "an RSA key of the sample token (allowed mechanisms {}) does not sign: {}", hex(&mechs), rvname(sig.unwrap_err()));
        let rv = p.ver(s, &m, *u, b"message", &sig.unwrap());
        ensure!(rv == CKR_OK, "sample-key", "the signature of a key of the sample token is not verified by its public key: {}", rvname(rv));
        pairs += 1;
    }
    cx.hitn("pairs of the sample token", pairs);
    cx.nt();
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C34", level: "exploration", workers: 8, hang_s: 120,
        rule: "a case is non-trivial when at least one object arrived and was compared with one created directly, or when a wrong PIN was refused",
        assumptions: &["the SoftHSM directories are written by the harness, after the format of SoftHSM 2 and of the sample token in testdata", "damage inside encrypted values is not authenticated by that format: only crashes, counts and the other objects are judged"],
        groups: vec![
            gen_("migrate", 2500, 60000, || strat(Db::Sqlite, false, Just(Fault::No).boxed(), Just(0).boxed()), run),
            gen_("migrate-nss", 200, 4000, || strat(Db::Nss, false, Just(Fault::No).boxed(), Just(0).boxed()), run),
            gen_("odd", 2000, 60000, || strat(Db::Sqlite, true, Just(Fault::No).boxed(), Just(0).boxed()), run),
            gen_("refused", 800, 20000, || strat(Db::Sqlite, false, prop_oneof![3 => any::<u8>().prop_map(Fault::WrongPin), 2 => any::<u8>().prop_map(Fault::WrongTarget), 1 => Just(Fault::NoUserPin), 1 => Just(Fault::NoDir), 2 => Just(Fault::NoLogin)].boxed(), Just(0).boxed()), run),
            gen_("damaged", 4000, 120000, || strat(Db::Sqlite, false, prop_oneof![1 => damage().prop_map(Fault::Token), 3 => (any::<u8>(), damage()).prop_map(|(a, b)| Fault::Object(a, b))].boxed(), Just(0).boxed()), run),
            gen_("sample", 4, 8, || (prop_oneof![4 => Just(true), 1 => Just(false)], any::<u8>()).boxed(), sample),
            gen_("many", 60, 1500, || strat(Db::Sqlite, false, Just(Fault::No).boxed(), prop_oneof![3 => 250u16..260, 1 => 260u16..700, 1 => Just(512)].boxed()), run),
        ] }
}
