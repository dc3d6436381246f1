//! C10: altered contents of the token database are noticed, never believed.
use crate::crypt::*;
use crate::objmodel::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::props::c15::curves;
use crate::props::c18::mont_oid;
use crate::props::c19::tlv;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::hash::{hmac, H};
use rusqlite::types::Value;
use rusqlite::Connection;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// how stored bytes are altered
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alter { Flip(u16, u8), Byte(u16, u8), Cut(u16), Add(u8, u8), Zero, Empty, Plain(u8), Other(u8), Splice(u8, u16), Der(u8, u8, u16, u8), DerLen(u8, u8), Retype(u8), Drop, Forge(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum After { Label(u8), Copy(u8), Pin, FindAll, Restart, Relogin }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round { alter: Vec<(u8, u8, bool, Alter)>, after: Vec<After>, early: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { db: Db, keys: Vec<(u8, u8)>, rounds: Vec<Round> }

fn alter() -> BoxedStrategy<Alter> {
    let u = any::<u8>;
    let w = any::<u16>;
    prop_oneof![
        5 => (w(), 0u8..8).prop_map(|(p, b)| Alter::Flip(p, b)),
        2 => (w(), u()).prop_map(|(p, b)| Alter::Byte(p, b)),
        2 => w().prop_map(Alter::Cut), 1 => (u(), u()).prop_map(|(n, b)| Alter::Add(n, b)), 1 => Just(Alter::Zero), 1 => Just(Alter::Empty),
        2 => u().prop_map(Alter::Plain), 5 => u().prop_map(Alter::Other), 2 => (u(), w()).prop_map(|(o, p)| Alter::Splice(o, p)),
        5 => (u(), 0u8..10, w(), u()).prop_map(|(n, k, p, b)| Alter::Der(n, k, p, b)), 1 => (u(), u()).prop_map(|(n, l)| Alter::DerLen(n, l)),
        1 => u().prop_map(Alter::Retype), 1 => Just(Alter::Drop), 2 => u().prop_map(Alter::Forge),
    ].boxed()
}
fn after() -> BoxedStrategy<After> {
    prop_oneof![2 => any::<u8>().prop_map(After::Label), 2 => any::<u8>().prop_map(After::Copy), 1 => Just(After::Pin), 2 => Just(After::FindAll), 1 => Just(After::Restart), 1 => Just(After::Relogin)].boxed()
}
fn cases(db: Db) -> BoxedStrategy<Case> {
    let round = (prop::collection::vec((any::<u8>(), any::<u8>(), any::<bool>(), alter()), 1..3), prop::collection::vec(after(), 0..3), prop::bool::weighted(0.2)).prop_map(|(alter, after, early)| Round { alter, after, early });
    (prop::collection::vec((any::<u8>(), any::<u8>()), 2..5), prop::collection::vec(round, 1..5)).prop_map(move |(keys, rounds)| Case { db, keys, rounds }).boxed()
}

const SECRET: [u64; 7] = [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];
/// what NSS tokens sign
const SIGNED: [u64; 6] = [CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_HASH_OF_CERTIFICATE, CKA_NAME_HASH_ALGORITHM, CKA_TRUST_SERVER_AUTH, CKA_TRUST_CODE_SIGNING];
const READ: [u64; 16] = [CKA_LABEL, CKA_CLASS, CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_HASH_OF_CERTIFICATE, CKA_NAME_HASH_ALGORITHM, CKA_TRUST_SERVER_AUTH, CKA_TRUST_CODE_SIGNING, CKA_KEY_TYPE];

fn kinds(db: Db) -> &'static [Kind] {
    match db { Db::Sqlite => &[Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPriv, Kind::EcPriv, Kind::Mont], Db::Nss => &[Kind::RsaPub, Kind::RsaPriv, Kind::Trust, Kind::RsaPub, Kind::Aes, Kind::EcPriv, Kind::Trust] }
}
fn make(p: &P, s: u64, db: Db, n: usize, k: (u8, u8)) -> R {
    let ks = kinds(db);
    let kind = ks[k.0 as usize % ks.len()];
    let sp = Spec { kind, origin: Origin::Create, seed: k.1, token: Some(true), opts: vec![], bad: Bad::No };
    let mut t = sp.plan(900 + n).t;
    tset(&mut t, CKA_LABEL, V::from(&*format!("object {n}")));
    if kind.key() { tset(&mut t, CKA_ID, V::X(vec![n as u8 + 1, 7])); }
    if kind.secret() || kind.private() {
        let open = k.1 & 4 != 0;
        tset(&mut t, CKA_SENSITIVE, V::B(!open)); tset(&mut t, CKA_EXTRACTABLE, V::B(open));
        if kind.secret() { for a in [CKA_ENCRYPT, CKA_DECRYPT] { if kind == Kind::Aes { tset(&mut t, a, V::B(true)); } } }
        if kind == Kind::Aes { tset(&mut t, CKA_WRAP, V::B(true)); }
        if kind != Kind::Mont { tset(&mut t, CKA_SIGN, V::B(true)); }
        tset(&mut t, CKA_DERIVE, V::B(matches!(kind, Kind::EcPriv | Kind::Mont | Kind::Generic)));
        if kind == Kind::RsaPriv { tset(&mut t, CKA_DECRYPT, V::B(true)); }
    }
    if kind == Kind::RsaPub { tset(&mut t, CKA_VERIFY, V::B(true)); tset(&mut t, CKA_ENCRYPT, V::B(true)); }
    let (rv, _) = p.create(s, &t);
    ensure!(rv == CKR_OK, "setup", "creating {kind:?}: {} {t:?}", rvname(rv));
    Ok(())
}

/// all that can be found out about an object: attributes and results of using it
#[derive(Clone, Debug, PartialEq)]
struct Face { attrs: BTreeMap<u64, Result<Vec<u8>, Rv>>, uses: Vec<(&'static str, Result<Vec<u8>, Rv>)> }
fn derived(p: &P, s: u64, m: &Mech, o: u64, n: u64) -> Result<Vec<u8>, Rv> {
    let (rv, d) = p.derive(s, m, o, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE_LEN => n, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true, CKA_TOKEN => false });
    if rv != CKR_OK { return Err(rv); }
    let v = p.get1(s, d, CKA_VALUE);
    p.destroy(s, d);
    v
}
fn peer_mont(x: bool) -> Vec<u8> { let mut v = vec![0u8; if x { 56 } else { 32 }]; v[0] = if x { 5 } else { 9 }; v }
fn ecdh(peer: &[u8]) -> Mech {
    let mut m = Mech::new(CKM_ECDH1_DERIVE);
    let (pp, pl) = m.keep(peer);
    m.set(CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: pl, pPublicData: pp });
    m
}
fn face(p: &P, s: u64, o: u64, kind: Kind) -> Face {
    let attrs = READ.iter().map(|a| (*a, p.get1(s, o, *a))).collect();
    let mut uses = vec![];
    match kind {
        Kind::Aes => {
            uses.push(("encrypt", p.enc(s, &Mech::new(CKM_AES_ECB), o, &[5; 32])));
            uses.push(("decrypt", p.dec(s, &Mech::new(CKM_AES_ECB), o, &[6; 32])));
            let (rv, k) = p.create(s, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => vec![3u8; 16], CKA_PRIVATE => false, CKA_TOKEN => false, CKA_EXTRACTABLE => true, CKA_SENSITIVE => false });
            assert!(rv == CKR_OK);
            let (rv, w) = p.wrap(s, &Mech::new(CKM_AES_KEY_WRAP), o, k);
            uses.push(("wrap", if rv == CKR_OK { Ok(w) } else { Err(rv) }));
            p.destroy(s, k);
        }
        Kind::Generic | Kind::Hmac => {
            uses.push(("sign", p.sig(s, &Mech::new(CKM_SHA256_HMAC), o, b"a message")));
        }
        Kind::RsaPriv => {
            uses.push(("sign", p.sig(s, &Mech::new(CKM_SHA256_RSA_PKCS), o, b"a message")));
            let mut x = vec![1u8; p.get1(s, o, CKA_MODULUS).map_or(128, |m| m.len())];
            x[0] = 0;
            uses.push(("decrypt", p.dec(s, &Mech::new(CKM_RSA_X_509), o, &x)));
        }
        Kind::RsaPub => {
            let mut x = vec![1u8; p.get1(s, o, CKA_MODULUS).map_or(128, |m| m.len())];
            x[0] = 0;
            uses.push(("encrypt", p.enc(s, &Mech::new(CKM_RSA_X_509), o, &x)));
        }
        Kind::EcPriv => {
            let oid = p.get1(s, o, CKA_EC_PARAMS).unwrap_or_default();
            let cv = &curves()[(0..3).find(|c| curves()[*c].oid == oid).unwrap_or(0)];
            uses.push(("derive", derived(p, s, &ecdh(&cv.enc(&cv.pubkey(&refc::rsa::os2ip(&[77])))), o, 16)));
            // not the same each time
            if let Err(e) = p.sig(s, &Mech::new(CKM_ECDSA_SHA256), o, b"m") { uses.push(("sign", Err(e))); } else { uses.push(("sign", Ok(vec![]))); }
        }
        Kind::Mont => uses.push(("derive", derived(p, s, &ecdh(&peer_mont(p.get1(s, o, CKA_EC_PARAMS) == Ok(mont_oid(true)))), o, 16))),
        _ => (),
    }
    Face { attrs, uses }
}

// ------------------------------------------------------------------ the files
struct Db3 { c: Connection, nss: Option<Connection> }
/// where a protected value is stored
#[derive(Clone, Debug, PartialEq)]
struct Spot { table: &'static str, id: i64, attr: u64, sig: bool }
impl Db3 {
    fn open(t: &Tok) -> Db3 {
        match t.db {
            Db::Sqlite => Db3 { c: Connection::open(t.dir.join("token.sql")).unwrap(), nss: None },
            Db::Nss => Db3 { c: Connection::open(t.dir.join("key4.db")).unwrap(), nss: Some(Connection::open(t.dir.join("cert9.db")).unwrap()) },
        }
    }
    fn rows(&self, c: &Connection, sql: &str) -> Vec<(i64, i64, Value)> {
        let mut q = c.prepare(sql).unwrap();
        let r = q.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).unwrap();
        r.map(|x| x.unwrap()).collect()
    }
    /// object id by label
    fn find(&self, db: Db, label: &str) -> (&'static str, i64) {
        let (c, sql): (Vec<(&'static str, &Connection)>, _) = match db {
            Db::Sqlite => (vec![("objects", &self.c)], "select id from objects where attr = 3 and val = ?".to_string()),
            Db::Nss => (vec![("nssPrivate", &self.c), ("nssPublic", self.nss.as_ref().unwrap())], "select id from TAB where a3 = ?".to_string()),
        };
        for (t, c) in c {
            let v = if db == Db::Sqlite { Value::Text(label.into()) } else { Value::Blob(label.as_bytes().to_vec()) };
            if let Ok(id) = c.query_row(&sql.replace("TAB", t), [v], |r| r.get::<_, i64>(0)) { return (t, id); }
        }
        panic!("{label} not found");
    }
    fn conn(&self, s: &Spot) -> &Connection { if s.table == "nssPublic" { self.nss.as_ref().unwrap() } else { &self.c } }
    fn at(&self, s: &Spot) -> (String, Vec<Value>) {
        if s.sig { ("metaData where id = ?".into(), vec![Value::Text(format!("sig_{}_{:08x}_{:08x}", if s.table == "nssPublic" { "cert" } else { "key" }, s.id, s.attr))]) }
        else if s.table == "objects" { ("objects where id = ? and attr = ?".into(), vec![Value::Integer(s.id), Value::Integer(s.attr as i64)]) }
        else { (format!("{} where id = ?", s.table), vec![Value::Integer(s.id)]) }
    }
    fn col(&self, s: &Spot) -> String { if s.sig { "item1".into() } else if s.table == "objects" { "val".into() } else { format!("a{:x}", s.attr) } }
    fn connf(&self, s: &Spot) -> &Connection { if s.sig { &self.c } else { self.conn(s) } }
    fn get(&self, s: &Spot) -> Option<Vec<u8>> {
        let (w, p) = self.at(s);
        self.connf(s).query_row(&format!("select {} from {w}", self.col(s)), rusqlite::params_from_iter(p), |r| r.get::<_, Option<Vec<u8>>>(0)).ok().flatten()
    }
    fn set(&self, s: &Spot, v: Value) {
        let (w, mut p) = self.at(s);
        let (t, w) = w.split_once(" where ").unwrap();
        p.insert(0, v);
        let n = self.connf(s).execute(&format!("update {t} set {} = ? where {w}", self.col(s)), rusqlite::params_from_iter(p)).unwrap();
        assert!(n == 1, "nothing altered");
    }
    fn delete(&self, s: &Spot) {
        if !s.sig && s.table != "objects" { return self.set(s, Value::Null); }
        let (w, p) = self.at(s);
        self.connf(s).execute(&format!("delete from {w}"), rusqlite::params_from_iter(p)).unwrap();
    }
    /// the protected values of an object
    fn spots(&self, db: Db, (table, id): (&'static str, i64)) -> Vec<Spot> {
        let mut v = vec![];
        match db {
            Db::Sqlite => for attr in SECRET { v.push(Spot { table, id, attr, sig: false }); },
            Db::Nss => for attr in SIGNED { for sig in [false, true] { v.push(Spot { table, id, attr, sig }); } },
        }
        v.retain(|s| self.get(s).is_some());
        v
    }
}

// ------------------------------------------------------------------ altering DER
/// (start of the header, start and end of the contents, constructed) of each element
fn walk(b: &[u8], base: usize, out: &mut Vec<(usize, usize, usize)>) {
    let mut i = 0;
    while i + 2 <= b.len() {
        let (mut h, mut n) = (2, b[i + 1] as usize);
        if n & 0x80 != 0 { let c = n & 0x7f; if c > 2 || i + 2 + c > b.len() { return; } n = b[i + 2..i + 2 + c].iter().fold(0, |a, x| a << 8 | *x as usize); h += c; }
        if i + h + n > b.len() { return; }
        out.push((base + i, base + i + h, base + i + h + n));
        if b[i] & 0x20 != 0 { walk(&b[i + h..i + h + n], base + i + h, out); }
        i += h + n;
    }
}
/// the value with the contents of one element replaced, lengths put right
fn redo(b: &[u8], at: usize, new: &[u8]) -> Vec<u8> {
    fn go(b: &[u8], base: usize, at: usize, new: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        let mut els = vec![];
        let mut i = 0;
        walk_flat(b, &mut els);
        for (s, c, e) in els {
            let body = if base + s == at { new.to_vec() } else if b[s] & 0x20 != 0 { go(&b[c..e], base + c, at, new) } else { b[c..e].to_vec() };
            out.extend(tlv(b[s], &body));
            i = e;
        }
        out.extend(&b[i..]);
        out
    }
    go(b, 0, at, new)
}
fn walk_flat(b: &[u8], out: &mut Vec<(usize, usize, usize)>) {
    let mut all = vec![];
    walk(b, 0, &mut all);
    let mut end = 0;
    for x in all { if x.0 >= end { out.push(x); end = x.2; } }
}
/// numbers that would keep the library busy for days
fn slow(b: &[u8]) -> bool { b.len() > 3 || (b.len() == 3 && b[0] > 1) }

fn mutate(old: &[u8], how: &Alter, others: &[Vec<u8>], plain: &[Vec<u8>]) -> Option<Value> {
    let mut v = old.to_vec();
    let n = v.len();
    let pick = |l: &[Vec<u8>], i: u8| if l.is_empty() { None } else { Some(l[i as usize % l.len()].clone()) };
    match how {
        Alter::Flip(p, b) => { if n == 0 { return None; } v[*p as usize % n] ^= 1 << b; }
        Alter::Byte(p, b) => { if n == 0 { return None; } v[*p as usize % n] = *b; }
        Alter::Cut(l) => v.truncate(*l as usize % n.max(1)),
        Alter::Add(k, b) => v.extend(std::iter::repeat_n(*b, 1 + *k as usize % 40)),
        Alter::Zero => v.iter_mut().for_each(|x| *x = 0),
        Alter::Empty => v.clear(),
        Alter::Plain(i) => v = pick(plain, *i)?,
        Alter::Other(i) => v = pick(others, *i)?,
        Alter::Splice(i, p) => { let o = pick(others, *i)?; let at = *p as usize % n.min(o.len()).max(1); v.truncate(at); v.extend(&o[at.min(o.len())..]); }
        Alter::Der(i, k, p, b) => {
            let mut els = vec![];
            walk(&v, 0, &mut els);
            let leaf: Vec<_> = els.into_iter().filter(|e| v[e.0] & 0x20 == 0).collect();
            if leaf.is_empty() { return None; }
            let (s, c, e) = leaf[*i as usize % leaf.len()];
            let mut body = v[c..e].to_vec();
            match k {
                0 => body.clear(),
                1 => { if body.is_empty() { return None; } let l = body.len(); body[*p as usize % l] ^= *b | 1; }
                2 => body.truncate(*p as usize % (body.len() + 1)),
                3 => body.extend(vec![*b; 1 + *p as usize % 20]),
                4 => body = vec![*b],
                5 => body = vec![0; 16],
                6 => { let l = body.len(); if l < 1 { return None; } body[l - 1] = body[l - 1].wrapping_add(1); }
                7 => { let o = leaf[*p as usize % leaf.len()]; body = v[o.1..o.2].to_vec(); }
                8 => body = vec![0],
                _ => body = vec![*b | 0x80, *p as u8],
            }
            if v[s] == 2 && slow(&body) { return None; }
            v = redo(&v, s, &body);
        }
        Alter::DerLen(i, l) => { let mut els = vec![]; walk(&v, 0, &mut els); if els.is_empty() { return None; } let s = els[*i as usize % els.len()].0; v[s + 1] = *l; }
        Alter::Retype(k) => return Some(match k % 5 { 0 => Value::Integer(*k as i64), 1 => Value::Text("text".into()), 2 => Value::Real(1.5), 3 => Value::Null, _ => Value::Text(hex(&v)) }),
        Alter::Drop | Alter::Forge(_) => return None,
    }
    if v == old { None } else { Some(Value::Blob(v)) }
}
/// A signature made by someone who does not know the key, hoping that the
/// length of the key may be chosen.
fn forge(sig: &[u8], len: u8, spot: &Spot, value: &[u8], guess: &[u8]) -> Option<Vec<u8>> {
    let mut els = vec![];
    walk(sig, 0, &mut els);
    // the length of the key and the number of iterations are the only numbers
    let ints: Vec<_> = els.iter().filter(|e| sig[e.0] == 2).collect();
    if ints.len() != 2 { return None; }
    let v = redo(sig, ints[1].0, &[len]);
    let v = redo(&v, ints[0].0, &[1]);
    els.clear();
    walk(&v, 0, &mut els);
    let last = els.last()?;
    let mut m = (spot.id as u32).to_be_bytes().to_vec();
    m.extend((spot.attr as u32).to_be_bytes());
    m.extend(value);
    let mac = hmac(H::Sha256, guess, &m);
    let v = redo(&v, last.0, &mac);
    Some(v)
}

fn save(t: &Tok) -> Vec<(std::path::PathBuf, Vec<u8>)> { t.dbfiles().into_iter().map(|f| { let d = std::fs::read(&f).unwrap(); (f, d) }).collect() }
fn restore(t: &Tok, s: &[(std::path::PathBuf, Vec<u8>)]) {
    for f in t.dbfiles() { std::fs::remove_file(f).unwrap(); }
    for (f, d) in s { std::fs::write(f, d).unwrap(); }
}

fn run(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(c.db);
    let p = t.p;
    let s = t.user();
    for (n, k) in c.keys.iter().enumerate() { make(&p, s, c.db, n, *k)?; }
    let ks = kinds(c.db);
    let kind = |n: usize| ks[c.keys[n].0 as usize % ks.len()];
    let label = |n: usize| format!("object {n}");
    let find = |s: u64, n: usize| -> (Rv, Vec<u64>) { p.find(s, &tm! { CKA_LABEL => &*label(n), CKA_TOKEN => true }) };
    let mut before = vec![];
    for n in 0..c.keys.len() {
        let (_, h) = find(s, n);
        ensure!(h.len() == 1, "setup", "{} objects labelled {}", h.len(), label(n));
        let f = face(&p, s, h[0], kind(n));
        for u in &f.uses { ensure!(u.1.is_ok() || (kind(n) == Kind::Hmac && u.1 == Err(CKR_KEY_SIZE_RANGE)), "setup", "{} with {:?}: {:?}", u.0, kind(n), u.1); }
        before.push(f);
    }
    ensure!(p.finalize() == CKR_OK, "setup", "finalize");
    let intact = save(&t);
    let plain: Vec<Vec<u8>> = c.keys.iter().enumerate().map(|(n, k)| Spec { kind: kind(n), origin: Origin::Create, seed: k.1, token: None, opts: vec![], bad: Bad::No }.value()).filter(|v| !v.is_empty()).collect();
    for r in &c.rounds {
        restore(&t, &intact);
        // with the library up and a session logged in already, or before it starts
        let mut s = 0;
        if r.early { ensure!(p.initialize(Some(&t.conf)) == CKR_OK, "setup", "initialize"); s = t.user(); }
        let mut touched: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
        let mut forged = false;
        // values of another type are no values of the database at all
        let odd = r.alter.iter().any(|a| matches!(a.3, Alter::Retype(_)));
        {
            let d = Db3::open(&t);
            for (o, a, both, how) in &r.alter {
                let n = *o as usize % c.keys.len();
                let at = d.find(c.db, &label(n));
                let spots = d.spots(c.db, at);
                if spots.is_empty() { continue; }
                let sp = &spots[*a as usize % spots.len()];
                let old = d.get(sp).unwrap();
                // the same attribute of other objects
                let rest: Vec<Spot> = (0..c.keys.len()).filter(|m| *m != n).flat_map(|m| { let x = d.find(c.db, &label(m)); d.spots(c.db, x) }).filter(|x| x.sig == sp.sig && x.table == sp.table).collect();
                let others: Vec<Vec<u8>> = rest.iter().filter(|x| x.attr == sp.attr || *both).filter_map(|x| d.get(x)).collect();
                let what = match how {
                    Alter::Drop => { d.delete(sp); true }
                    Alter::Forge(k) if c.db == Db::Nss => {
                        // a value of our choice, under a signature of our own
                        let (val, sig) = (Spot { sig: false, ..sp.clone() }, Spot { sig: true, ..sp.clone() });
                        let mut v = d.get(&val).unwrap();
                        if v.len() > 4 { let l = v.len(); v[l / 2] ^= 1; } else { let l = v.len(); v[l - 1] ^= 1; }
                        let guess: Vec<u8> = match k % 4 { 0 => vec![], 1 => vec![0], 2 => vec![*k], _ => vec![0; 32] };
                        match forge(&d.get(&sig).unwrap(), guess.len() as u8, sp, &v, &guess) { Some(f) => { d.set(&val, Value::Blob(v)); d.set(&sig, Value::Blob(f)); forged = true; true } None => false }
                    }
                    // value and signature together
                    Alter::Other(i) if c.db == Db::Nss && *both => {
                        let from: Vec<&Spot> = rest.iter().filter(|x| x.attr == sp.attr).collect();
                        if from.is_empty() { false } else {
                            let f = from[*i as usize % from.len()];
                            let (mut any, pairs) = (false, [false, true].map(|sig| (Spot { sig, ..f.clone() }, Spot { sig, ..sp.clone() })));
                            for (f, x) in pairs { let v = d.get(&f).unwrap(); if Some(&v) != d.get(&x).as_ref() { any = true; d.set(&x, Value::Blob(v)); } }
                            any
                        }
                    }
                    _ => match mutate(&old, how, &others, &plain) { Some(v) => { d.set(sp, v); true } None => false },
                };
                if what { touched.entry(n).or_default().insert(sp.attr); cx.hit(&format!("{:?} {}", c.db, format!("{how:?}").split('(').next().unwrap())); }
            }
        }
        if touched.is_empty() { if r.early { p.finalize(); } continue; }
        let desc = format!("{:?} {:?}", c.db, r.alter);
        if !r.early {
            ensure!(p.initialize(Some(&t.conf)) == CKR_OK, "bricked", "{desc}: the library does not start any more");
            let w = t.open(true);
            ensure!(p.login(w, CKU_USER, b"not-the-pin") != CKR_OK, "wrong-pin", "{desc}: a wrong PIN is accepted");
            s = w;
            let rv = p.login(s, CKU_USER, USER);
            ensure!(rv == CKR_OK, "collateral", "{desc}: the User cannot log in: {}", rvname(rv));
        }
        // all keys of one byte
        if let (true, Some((n, (_, _, _, Alter::Forge(k))))) = (forged && c.db == Db::Nss, r.alter.last().map(|a| (a.0 as usize % c.keys.len(), a))) {
            let d = Db3::open(&t);
            let at = d.find(c.db, &label(n));
            let spots: Vec<Spot> = d.spots(c.db, at).into_iter().filter(|x| x.sig).collect();
            let (_, h) = find(s, n);
            if let (false, [h], true) = (spots.is_empty(), &h[..], k % 2 == 0) {
                let sp = &spots[*k as usize / 2 % spots.len()];
                let val = Spot { sig: false, ..sp.clone() };
                let keep = [sp.clone(), val.clone()].map(|x| (d.get(&x).unwrap(), x));
                let mut v = d.get(&val).unwrap();
                let l = v.len();
                v[l - 1] ^= 2;
                for g in 0..=255u8 {
                    let Some(f) = forge(&d.get(sp).unwrap(), 1, sp, &v, &[g]) else { break };
                    d.set(&val, Value::Blob(v.clone()));
                    d.set(sp, Value::Blob(f));
                    cx.hit("guessed a key");
                    let got = p.get1(s, *h, sp.attr);
                    ensure!(got.is_err() || got == before[n].attrs[&sp.attr], "forged", "{desc}: attribute {:#x} of {:?} {n} reads {got:x?} instead of {:x?} because of a signature made with a guessed key", sp.attr, kind(n), before[n].attrs[&sp.attr]);
                }
                for (v, x) in keep { d.set(&x, Value::Blob(v)); }
            }
        }
        let mut copies = vec![];
        for a in &r.after {
            match a {
                After::Label(o) => { let n = *o as usize % c.keys.len(); let (_, h) = find(s, n); if let [h] = h[..] { let rv = p.set(s, h, &tm! { CKA_ID => vec![n as u8 + 1, 8] }); cx.hit(&format!("then set: {}", rvname(rv))); } }
                After::Copy(o) => {
                    let n = *o as usize % c.keys.len();
                    let (_, h) = find(s, n);
                    if let [h] = h[..] {
                        let (rv, x) = p.copy(s, h, &tm! { CKA_LABEL => "a copy", CKA_TOKEN => o & 1 == 1 });
                        cx.hit(&format!("then copy: {}", rvname(rv)));
                        if rv == CKR_OK { copies.push((n, x)); }
                    }
                }
                After::Pin => { let rv = p.set_pin(s, USER, b"the-next-pin"); cx.hit(&format!("then pin: {}", rvname(rv))); if rv == CKR_OK { let rv = p.set_pin(s, b"the-next-pin", USER); ensure!(rv == CKR_OK, "collateral", "{desc}: the PIN can be changed once but not twice: {}", rvname(rv)); } }
                After::FindAll => {
                    let (rv, h) = p.find(s, &tm! { CKA_TOKEN => true });
                    for n in 0..c.keys.len() { if !touched.contains_key(&n) { let (_, x) = find(s, n); ensure!(odd || rv == CKR_OK && x.len() == 1 && h.contains(&x[0]), "collateral", "{desc}: object {n} was not touched but the search for everything ({}) does not find it", rvname(rv)); } }
                    for n in touched.keys() { for a in SECRET.iter().chain(&SIGNED) { if let Some(Ok(v)) = before[*n].attrs.get(a) { p.find(s, &vec![(*a, V::X(v.clone()))]); } } }
                }
                After::Restart => { copies.clear(); ensure!(t.restart() == CKR_OK, "bricked", "{desc}: restart"); s = t.user(); }
                After::Relogin => { p.logout(s); ensure!(p.login(s, CKU_USER, USER) == CKR_OK, "collateral", "{desc}: login again"); copies.clear(); }
            }
        }
        let mut bad = 0;
        let mut list: Vec<(usize, u64, bool)> = vec![];
        for n in 0..c.keys.len() {
            let (rv, h) = find(s, n);
            match touched.get(&n) {
                None => ensure!(rv == CKR_OK && h.len() == 1, "collateral", "{desc}: {:?} was not touched, but finding it gives {} and {} objects", label(n), rvname(rv), h.len()),
                Some(_) => if h.is_empty() { bad += 1; continue; },
            }
            for x in h { list.push((n, x, false)); }
        }
        for (n, x) in copies { list.push((n, x, true)); }
        for (n, x, copy) in list {
            let f = face(&p, s, x, kind(n));
            let tampered = touched.get(&n);
            for (a, v) in &f.attrs {
                if copy && *a == CKA_LABEL { continue; }
                let was = &before[n].attrs[a];
                match tampered {
                    None => ensure!(v == was, "collateral", "{desc}: attribute {a:#x} of {:?} {n} ({}), which was not touched, reads {v:x?} instead of {was:x?}", kind(n), if copy { "copy" } else { "itself" }),
                    Some(_) => { if v.is_err() && was.is_ok() { bad += 1; } ensure!(v.is_err() || v == was, if forged { "forged" } else { "believed" }, "{desc}: attribute {a:#x} of {:?} {n} ({}) reads {v:x?} instead of {was:x?}", kind(n), if copy { "copy" } else { "itself" }) }
                }
            }
            for (u, was) in f.uses.iter().zip(&before[n].uses) {
                match tampered {
                    None => ensure!(u == was, "collateral", "{desc}: {} with {:?} {n} ({}), which was not touched, gives {:x?} instead of {:x?}", u.0, kind(n), if copy { "copy" } else { "itself" }, u.1, was.1),
                    Some(_) => { if u.1.is_err() { bad += 1; } ensure!(u.1.is_err() || u == was, if forged { "forged" } else { "believed" }, "{desc}: {} with {:?} {n} ({}) gives {:x?} instead of {:x?}", u.0, kind(n), if copy { "copy" } else { "itself" }, u.1, was.1) }
                }
            }
        }
        cx.hit(if bad > 0 { "noticed" } else { "no difference" });
        if bad > 0 { cx.nt(); }
        p.finalize();
    }
    ensure!(p.initialize(Some(&t.conf)) == CKR_OK, "bricked", "the library does not start any more");
    Ok(())
}

// ------------------------------------------------------------------ the PINs
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PinHow { Alter(Alter), SwapUsers, CopyUser(bool), Counter(i64), Flags(i64), Salt }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase { db: Db, so: bool, how: PinHow, key: (u8, u8) }
fn pcases() -> BoxedStrategy<PCase> {
    let how = prop_oneof![8 => alter().prop_map(PinHow::Alter), 2 => Just(PinHow::SwapUsers), 2 => any::<bool>().prop_map(PinHow::CopyUser), 1 => prop_oneof![Just(-1i64), Just(i64::MAX), Just(u32::MAX as i64), any::<i64>(), 0i64..12].prop_map(PinHow::Counter), 1 => any::<i64>().prop_map(PinHow::Flags), 1 => Just(PinHow::Salt)];
    (prop_oneof![3 => Just(Db::Sqlite), 2 => Just(Db::Nss)], any::<bool>(), how, (any::<u8>(), any::<u8>())).prop_map(|(db, so, how, key)| PCase { db, so, how, key }).boxed()
}
fn pins(c: &PCase, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(c.db);
    let p = t.p;
    let s = t.user();
    make(&p, s, c.db, 0, c.key)?;
    let ks = kinds(c.db);
    let kind = ks[c.key.0 as usize % ks.len()];
    let (_, h) = p.find(s, &tm! { CKA_LABEL => "object 0" });
    let before = face(&p, s, h[0], kind);
    p.finalize();
    let desc = format!("{:?} {:?} {}", c.db, c.how, if c.so { "SO" } else { "USER" });
    let mut same = false;
    {
        let d = Db3::open(&t);
        let (row, col) = match c.db { Db::Sqlite => (format!("meta where name = 'USER DATA' and value = '{}'", if c.so { "SO" } else { "USER" }), "data"), Db::Nss => ("metaData where id = 'password'".to_string(), if matches!(c.how, PinHow::Salt) { "item1" } else { "item2" }) };
        let read = |row: &str| -> Option<Vec<u8>> { d.c.query_row(&format!("select {col} from {row}"), [], |r| r.get(0)).ok() };
        let Some(old) = read(&row) else { panic!("no PIN in the database: {row}") };
        let other = if c.db == Db::Sqlite { read(&format!("meta where name = 'USER DATA' and value = '{}'", if c.so { "USER" } else { "SO" })) } else { None };
        let put = |v: Value| { let (tab, w) = row.split_once(" where ").unwrap(); d.c.execute(&format!("update {tab} set {col} = ? where {w}"), [v]).unwrap(); };
        match &c.how {
            PinHow::Alter(Alter::Drop) => { let (tab, w) = row.split_once(" where ").unwrap(); d.c.execute(&format!("delete from {tab} where {w}"), []).unwrap(); }
            PinHow::Alter(a) => match mutate(&old, a, &other.clone().into_iter().collect::<Vec<_>>(), &[USER.to_vec(), SO.to_vec(), b"password-check".to_vec(), vec![7; 32]]) { Some(v) => put(v), None => same = true },
            PinHow::SwapUsers => match &other { Some(o) => { put(Value::Blob(o.clone())); d.c.execute(&format!("update meta set data = ? where name = 'USER DATA' and value = '{}'", if c.so { "USER" } else { "SO" }), [Value::Blob(old.clone())]).unwrap(); } None => same = true },
            PinHow::CopyUser(_) => match &other { Some(o) => put(Value::Blob(o.clone())), None => same = true },
            PinHow::Counter(n) | PinHow::Flags(n) if c.db == Db::Sqlite => { let name = if matches!(c.how, PinHow::Counter(_)) { "USER COUNTER" } else { "USER FLAGS" }; if d.c.execute("update meta set data = ?, id = ? where name = ? and value = ?", rusqlite::params![n, n, name, if c.so { "SO" } else { "USER" }]).unwrap() == 0 { same = true; } }
            _ => { let mut v = old.clone(); v[0] ^= 1; put(Value::Blob(v)); }
        }
    }
    let gone = matches!(c.how, PinHow::Alter(Alter::Drop | Alter::Retype(_) | Alter::Empty));
    let rv = p.initialize(Some(&t.conf));
    cx.hit(&format!("initialize: {}", rvname(rv)));
    if rv != CKR_OK { cx.nt(); return Ok(()); }
    let (rv, s) = p.open(t.slot, true);
    if rv != CKR_OK { cx.hit(&format!("open: {}", rvname(rv))); cx.nt(); return Ok(()); }
    for (u, name) in [(CKU_USER, "User"), (CKU_SO, "SO")] {
        for wrong in [&b"not-the-pin"[..], b"", if u == CKU_USER { SO } else { USER }, b"password-check", &[7; 32]] {
            let rv = p.login(s, u, wrong);
            // an NSS token without a password has no PIN to check for the SO
            if rv == CKR_OK && c.db == Db::Nss && u == CKU_SO && gone { p.logout(s); continue; }
            ensure!(rv != CKR_OK, "wrong-pin", "{desc}: the {name} is logged in with the PIN {:?}", String::from_utf8_lossy(wrong));
        }
    }
    for (old, who) in [(&b"not-the-pin"[..], "nobody"), (SO, "SO")] { let rv = p.set_pin(s, old, b"some-other-pin"); ensure!(rv != CKR_OK || (c.db == Db::Nss && gone), "wrong-pin", "{desc}: the User PIN can be changed with the PIN of {who}"); }
    let rv = p.login(s, CKU_USER, USER);
    cx.hit(&format!("{} right PIN: {}", if same { "unaltered," } else { "altered," }, rvname(rv)));
    ensure!(!same || rv == CKR_OK || rv == CKR_PIN_LOCKED, "setup", "{desc}: login: {}", rvname(rv));
    if rv == CKR_OK {
        let (_, h) = p.find(s, &tm! { CKA_LABEL => "object 0" });
        ensure!(h.len() == 1, "collateral", "{desc}: the User can log in but the object is gone");
        let f = face(&p, s, h[0], kind);
        for (a, v) in &f.attrs { ensure!(v.is_err() || v == &before.attrs[a], "believed", "{desc}: the User can log in, but attribute {a:#x} of {kind:?} reads {v:x?} instead of {:x?}", before.attrs[a]); }
        for (u, was) in f.uses.iter().zip(&before.uses) { ensure!(u.1.is_err() || u == was, "believed", "{desc}: the User can log in, but {} with {kind:?} gives {:x?} instead of {:x?}", u.0, u.1, was.1); }
    } else if !same { cx.nt(); }
    p.logout(s);
    if c.db == Db::Sqlite && !gone {
        p.close_all(t.slot);
        for wrong in [&b"not-the-pin"[..], USER, b"a-long-wrong-pin"] { let rv = p.init_token(t.slot, wrong, "taken over"); ensure!(rv != CKR_OK, "wrong-pin", "{desc}: the token can be initialised with the SO PIN {:?}", String::from_utf8_lossy(wrong)); }
    }
    Ok(())
}

// ------------------------------------------------------------------ anything at all
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mess { Bytes(u8, u32, Hx), Cut(u8, u32), Grow(u8, Hx), Cell(u16, u16, u8, Hx), DelRow(u16), NewRow(u16, u16), Swap(u16, u16), Gone(u8), Sql(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase { db: Db, keys: Vec<(u8, u8)>, mess: Vec<Mess>, early: bool }
fn mcases() -> BoxedStrategy<MCase> {
    let w = any::<u16>;
    let mess = prop_oneof![
        4 => (any::<u8>(), prop_oneof![any::<u32>(), 0u32..4096], hx(1..24)).prop_map(|(f, p, b)| Mess::Bytes(f, p, b)),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(f, p)| Mess::Cut(f, p)), 1 => (any::<u8>(), hx(0..600)).prop_map(|(f, b)| Mess::Grow(f, b)),
        10 => (w(), w(), any::<u8>(), hx(0..40)).prop_map(|(r, c, k, b)| Mess::Cell(r, c, k, b)),
        2 => w().prop_map(Mess::DelRow), 2 => (w(), w()).prop_map(|(a, b)| Mess::NewRow(a, b)), 3 => (w(), w()).prop_map(|(a, b)| Mess::Swap(a, b)), 1 => any::<u8>().prop_map(Mess::Gone), 1 => any::<u8>().prop_map(Mess::Sql),
    ];
    (prop_oneof![Just(Db::Sqlite), Just(Db::Nss)], prop::collection::vec((any::<u8>(), any::<u8>()), 1..4), prop::collection::vec(mess, 1..4), prop::bool::weighted(0.3)).prop_map(|(db, keys, mess, early)| MCase { db, keys, mess, early }).boxed()
}
/// all rows of all tables of a token: file, table, row
fn all_rows(t: &Tok) -> Vec<(Connection, String, i64)> {
    let mut v = vec![];
    for f in t.dbfiles() {
        let Ok(c) = Connection::open(&f) else { continue };
        let mut tabs: Vec<String> = vec![];
        if let Ok(mut q) = c.prepare("select name from sqlite_master where type = 'table'") { if let Ok(r) = q.query_map([], |r| r.get(0)) { tabs = r.flatten().collect(); } }
        for tab in tabs {
            let mut ids: Vec<i64> = vec![];
            if let Ok(mut q) = c.prepare(&format!("select rowid from {tab}")) { if let Ok(r) = q.query_map([], |r| r.get(0)) { ids = r.flatten().collect(); } }
            for i in ids { if let Ok(c) = Connection::open(&f) { v.push((c, tab.clone(), i)); } }
        }
    }
    v
}
fn cols(c: &Connection, tab: &str) -> Vec<String> {
    let Ok(mut q) = c.prepare(&format!("select name from pragma_table_info('{tab}')")) else { return vec![] };
    let Ok(r) = q.query_map([], |r| r.get(0)) else { return vec![] };
    r.flatten().collect()
}
fn wreck(t: &Tok, m: &Mess) {
    let files = t.dbfiles();
    if files.is_empty() { return; }
    match m {
        Mess::Bytes(f, p, b) => { let f = &files[*f as usize % files.len()]; let mut d = std::fs::read(f).unwrap(); if d.is_empty() { return; } let n = d.len(); for (i, x) in b.iter().enumerate() { d[(*p as usize + i) % n] = *x; } std::fs::write(f, d).unwrap(); }
        Mess::Cut(f, p) => { let f = &files[*f as usize % files.len()]; let mut d = std::fs::read(f).unwrap(); let n = d.len(); d.truncate(*p as usize % n.max(1)); std::fs::write(f, d).unwrap(); }
        Mess::Grow(f, b) => { let f = &files[*f as usize % files.len()]; let mut d = std::fs::read(f).unwrap(); d.extend(&b[..]); std::fs::write(f, d).unwrap(); }
        Mess::Gone(f) => { let _ = std::fs::remove_file(&files[*f as usize % files.len()]); }
        Mess::Cell(r, col, k, b) => {
            let rows = all_rows(t);
            if rows.is_empty() { return; }
            let (c, tab, id) = &rows[*r as usize % rows.len()];
            let cols = cols(c, tab);
            if cols.is_empty() { return; }
            // most columns of the wide NSS tables are empty
            let used: Vec<&String> = cols.iter().filter(|x| c.query_row(&format!("select {x} is not null from {tab} where rowid = ?"), [id], |r| r.get::<_, bool>(0)).unwrap_or(false)).collect();
            let col = if k & 0x80 == 0 && !used.is_empty() { used[*col as usize % used.len()] } else { &cols[*col as usize % cols.len()] };
            let old: Value = c.query_row(&format!("select {col} from {tab} where rowid = ?"), [id], |r| r.get(0)).unwrap_or(Value::Null);
            let big = [0, 1, -1, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN, 9, 10, 0x80000000, 256, 65536];
            let v = match k % 12 {
                0 => Value::Null,
                1 => Value::Integer(big[b.first().copied().unwrap_or(0) as usize % big.len()]),
                2 => Value::Integer(b.iter().fold(0i64, |n, x| n << 8 | *x as i64)),
                3 => Value::Real(-1e300),
                4 => Value::Text(hex(b)),
                5 => Value::Text(String::new()),
                6 => Value::Blob(b.to_vec()),
                7 => Value::Blob(vec![]),
                8 => match old { Value::Blob(mut o) if !o.is_empty() => { let n = o.len(); for (i, x) in b.iter().take(2).enumerate() { o[(b.len() * 7 + i * 31) % n] ^= x | 1; } Value::Blob(o) } Value::Integer(i) => Value::Integer(i ^ (1 << (b.len() % 8))), Value::Text(s) => Value::Text(format!("{s}x")), x => x },
                9 => match old { Value::Blob(mut o) => { o.truncate(o.len() / 2); Value::Blob(o) } Value::Integer(i) => Value::Integer(i + 1), Value::Text(s) => Value::Text(s.chars().take(s.len() / 2).collect()), x => x },
                10 => match old { Value::Blob(mut o) => { o.extend(&b[..]); Value::Blob(o) } Value::Integer(i) => Value::Integer(-i), Value::Text(s) => Value::Blob(s.into_bytes()), x => x },
                _ => Value::Blob([0xa5, 0x00, 0x5a].to_vec()),
            };
            // a number of iterations that takes forever is no crash
            if let Value::Blob(o) = &v { if o.first() == Some(&0x30) { let mut e = vec![]; walk(o, 0, &mut e); if e.iter().any(|e| o[e.0] == 2 && slow(&o[e.1..e.2])) { return; } } }
            let _ = c.execute(&format!("update {tab} set {col} = ? where rowid = ?"), rusqlite::params![v, id]);
        }
        Mess::DelRow(r) => { let rows = all_rows(t); if !rows.is_empty() { let (c, tab, id) = &rows[*r as usize % rows.len()]; let _ = c.execute(&format!("delete from {tab} where rowid = ?"), [id]); } }
        Mess::NewRow(r, k) => {
            let rows = all_rows(t);
            if rows.is_empty() { return; }
            let (c, tab, id) = &rows[*r as usize % rows.len()];
            let cs = cols(c, tab);
            let key = if cs.iter().any(|x| x == "id") { "id" } else { cs.first().map(|x| x.as_str()).unwrap_or("id") };
            let other: Vec<String> = cs.iter().filter(|x| *x != key).cloned().collect();
            let new = match k % 6 { 0 => i32::MAX as i64, 1 => -1, 2 => u32::MAX as i64 + 5, 3 => 0, 4 => 1 << 40, _ => *k as i64 };
            let _ = c.execute(&format!("insert or replace into {tab} ({key}, {}) select ?, {} from {tab} where rowid = ?", other.join(","), other.join(",")), [new, *id]);
        }
        Mess::Swap(a, b) => {
            let rows = all_rows(t);
            let same: Vec<_> = rows.iter().filter(|x| rows.get(*a as usize % rows.len().max(1)).map(|y| y.1 == x.1).unwrap_or(false)).collect();
            if same.len() < 2 { return; }
            let (x, y) = (same[*a as usize % same.len()], same[*b as usize % same.len()]);
            let cs = cols(&x.0, &x.1);
            let Some(col) = cs.get(cs.len() - 1 - (*b as usize % cs.len()).min(1)) else { return };
            let (u, v): (rusqlite::Result<Value>, rusqlite::Result<Value>) = (x.0.query_row(&format!("select {col} from {} where rowid = ?", x.1), [x.2], |r| r.get(0)), x.0.query_row(&format!("select {col} from {} where rowid = ?", x.1), [y.2], |r| r.get(0)));
            if let (Ok(u), Ok(v)) = (u, v) { let _ = x.0.execute(&format!("update {} set {col} = ? where rowid = ?", x.1), rusqlite::params![v, x.2]); let _ = x.0.execute(&format!("update {} set {col} = ? where rowid = ?", x.1), rusqlite::params![u, y.2]); }
        }
        Mess::Sql(k) => {
            let Ok(c) = Connection::open(&files[*k as usize % files.len()]) else { return };
            let sql = match (t.db, k % 6) {
                (Db::Sqlite, 0) => "drop table objects", (Db::Sqlite, 1) => "drop table meta", (Db::Sqlite, 2) => "alter table objects add column extra", (Db::Sqlite, 3) => "update objects set id = 2147483647 where id = (select max(id) from objects)", (Db::Sqlite, 4) => "update meta set data = null", (Db::Sqlite, _) => "create view x as select 1",
                (_, 0) => "drop table metaData", (_, 1) => "drop table nssPrivate", (_, 2) => "alter table nssPrivate add column azz", (_, 3) => "update nssPrivate set id = 4294967295", (_, 4) => "alter table nssPublic add column a123456789012345678901", (_, _) => "alter table nssPublic drop column a3",
            };
            let _ = c.execute_batch(sql);
        }
    }
}
fn mess(c: &MCase, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(c.db);
    let p = t.p;
    let s = t.user();
    let mut known: BTreeSet<Vec<u8>> = BTreeSet::new();
    let ks = kinds(c.db);
    for (n, k) in c.keys.iter().enumerate() {
        make(&p, s, c.db, n, *k)?;
        let sp = Spec { kind: ks[k.0 as usize % ks.len()], origin: Origin::Create, seed: k.1, token: None, opts: vec![], bad: Bad::No };
        for a in sp.material() { known.insert(a.1.bytes()); }
        known.insert(sp.value());
    }
    p.finalize();
    let mut s = 0;
    if c.early { p.initialize(Some(&t.conf)); s = t.open(true); if c.keys.len() & 1 == 1 { p.login(s, CKU_USER, USER); } }
    for m in &c.mess { wreck(&t, m); cx.hit(&format!("{m:?}").split('(').next().unwrap().to_string()); }
    let desc = format!("{:?} {:?}", c.db, c.mess);
    if !c.early {
        let rv = p.initialize(Some(&t.conf));
        cx.hit(&format!("initialize: {}", rvname(rv)));
        if rv != CKR_OK { cx.nt(); p.initialize(Some(&t.conf)); return Ok(()); }
        p.token_info(t.slot);
        let (rv, x) = p.open(t.slot, true);
        cx.hit(&format!("open: {}", rvname(rv)));
        if rv != CKR_OK { cx.nt(); let rv = p.init_token(t.slot, SO, "again"); cx.hit(&format!("C_InitToken of what is left: {}", rvname(rv))); return Ok(()); }
        s = x;
        p.find(s, &vec![]);
    }
    if !c.early {
        // without a password an NSS token has no SO PIN either
        for u in [CKU_USER, CKU_SO] { let rv = p.login(s, u, b"not-the-pin"); ensure!(rv != CKR_OK || (c.db == Db::Nss && u == CKU_SO), "wrong-pin", "{desc}: a wrong PIN is accepted for user {u}"); p.logout(s); }
    }
    let rv = p.login(s, CKU_USER, USER);
    cx.hit(&format!("login: {}", rvname(rv)));
    let (rv, hs) = p.find(s, &tm! { CKA_TOKEN => true });
    cx.hit(&format!("find: {}", rvname(rv)));
    let mut worse = rv != CKR_OK || hs.len() != c.keys.len();
    for h in hs {
        let (rv, v) = p.get(s, h, &ALL);
        worse |= !matches!(rv, CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID);
        // only SQLite tokens protect the secrets against changes
        if c.db == Db::Sqlite {
            let class = ALL.iter().zip(&v).find(|x| *x.0 == CKA_CLASS).and_then(|x| x.1.clone()).unwrap_or_default();
            if matches!(class.first(), Some(3 | 4)) {
                for a in SECRET { if let Ok(v) = p.get1(s, h, a) { ensure!(known.contains(&v), "believed", "{desc}: attribute {a:#x} of object {h} reads {}, which nobody stored", hex(&v)); } }
            }
        }
        for k in [Kind::Aes, Kind::Generic, Kind::RsaPriv, Kind::RsaPub, Kind::EcPriv, Kind::Mont] { face(&p, s, h, k); }
        p.size(s, h);
        p.copy(s, h, &tm! { CKA_TOKEN => true });
        p.copy(s, h, &tm! { CKA_TOKEN => false });
        p.set(s, h, &tm! { CKA_LABEL => "renamed" });
        p.set(s, h, &tm! { CKA_ID => vec![1u8, 2] });
    }
    make(&p, s, c.db, 77, (c.keys[0].0, 99)).ok();
    p.find(s, &tm! { CKA_LABEL => "object 77" });
    p.find(s, &tm! { CKA_VALUE => vec![1u8; 16] });
    p.find(s, &tm! { CKA_MODULUS => vec![1u8; 16] });
    p.set_pin(s, USER, b"the-next-pin");
    let (_, hs) = p.find(s, &tm! { CKA_TOKEN => true });
    for h in hs { p.destroy(s, h); }
    p.logout(s);
    p.login(s, CKU_SO, SO);
    p.init_pin(s, b"a-new-user-pin");
    p.logout(s);
    p.close_all(t.slot);
    let rv = p.init_token(t.slot, SO, "again");
    cx.hit(&format!("C_InitToken: {}", rvname(rv)));
    p.token_info(t.slot);
    if worse { cx.nt(); }
    p.finalize();
    p.initialize(Some(&t.conf));
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C10", level: "exploration", workers: 8, hang_s: 60,
        rule: "at least one stored value was really altered and the alteration made an attribute, a use of a key or a login fail",
        assumptions: &["encrypted attributes of NSS tokens are not authenticated by the NSS format (AES-CBC), so only their integrity-protected attributes are judged there, and these while the User is logged in", "the NSS signature of an attribute covers the object number but not the table, so values are moved within a table only", "values moved between attributes of the same object are not judged", "numbers of PBKDF2 iterations beyond 131071 are not written into the database", "a whole PIN record taken from another token is not judged"],
        groups: vec![gen_("sqlite", 200, 6000, || cases(Db::Sqlite), run), gen_("nss", 60, 1500, || cases(Db::Nss), run), gen_("pins", 250, 6000, pcases, pins), gen_("anything", 300, 9000, mcases, mess)] }
}
