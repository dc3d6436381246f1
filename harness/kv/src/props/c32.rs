//! C32: random output, generated keys, generated IVs and randomized results never repeat.
//! Everything the library makes up goes into one set of 12 byte windows, which
//! may not contain anything twice: within a case, across restarts, forks and
//! threads, and across the cases of a worker.
use super::c18;
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// session, size, repetitions
    Rand(u8, u32, u8),
    /// session, seed
    Seed(u8, Hx),
    /// the same seed as before, in another session
    Reseed(u8),
    Open, Close(u8), Restart,
    /// threads that each ask for this many bytes, with their own sessions or a shared one
    Threads(u8, u16, bool, Option<Hx>),
    /// child processes that ask for random bytes, with or without initializing again
    Fork(u8, u16, bool),
    Key(u8, u8), Pair(u8),
    /// message encryption with a generated IV: mode, generator, fixed bits, messages
    Iv(bool, u8, u8, u8),
    /// the same input again and again: ECDSA, PSS, RSA encryption, OAEP, wrapping keys
    Again(u8, u8),
    /// token objects with the same value
    AtRest(u8),
}
use Op::*;
const FIXED: [u64; 12] = [0, 0, 1, 4, 7, 8, 9, 12, 20, 31, 36, 40];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { nss: bool, ops: Vec<Op> }

fn size() -> BoxedStrategy<u32> {
    prop_oneof![6 => 1u32..16, 4 => 16u32..100, 3 => prop::sample::select(vec![0u32, 8, 12, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096]), 2 => 100u32..3000].boxed()
}
fn op(big: bool) -> BoxedStrategy<Op> {
    let sz = if big { prop_oneof![prop::sample::select(vec![8192u32, 65535, 65536, 65537, 131072, 131073, 100_000]), 3000u32..140_000].boxed() } else { size() };
    prop_oneof![
        9 => (any::<u8>(), sz, if big { Just(1).boxed() } else { prop_oneof![3 => Just(1u8), 2 => 2u8..5, 2 => 12u8..20].boxed() }).prop_map(|(a, b, c)| Rand(a, b, c)),
        3 => (any::<u8>(), prop_oneof![hx(0..64), Just(Hx(vec![0; 32])), Just(Hx(vec![0x55; 64])), hx(100..300)]).prop_map(|(a, b)| Seed(a, b)),
        2 => any::<u8>().prop_map(Reseed),
        1 => Just(Open), 1 => any::<u8>().prop_map(Close), 2 => Just(Restart),
        2 => (2u8..5, prop_oneof![Just(16u16), 1u16..400], any::<bool>(), prop::option::of(Just(Hx(vec![0x33; 48])))).prop_map(|(a, b, c, d)| Threads(a, b, c, d)),
        1 => (1u8..4, prop_oneof![Just(32u16), 12u16..200], any::<bool>()).prop_map(|(a, b, c)| Fork(a, b, c)),
        4 => (0u8..6, any::<u8>()).prop_map(|(a, b)| Key(a, b)), 1 => (0u8..5).prop_map(Pair),
        2 => (any::<bool>(), 0u8..4, any::<u8>(), 1u8..12).prop_map(|(a, b, c, d)| Iv(a, b, c, d)),
        2 => (0u8..5, 2u8..5).prop_map(|(a, b)| Again(a, b)),
        1 => (2u8..5).prop_map(AtRest),
    ].boxed()
}
fn cases(nss: bool, big: bool, n: usize) -> BoxedStrategy<Case> { prop::collection::vec(op(big), 2..n).prop_map(move |ops| Case { nss, ops }).boxed() }

const W: usize = 12;
thread_local! { static EVER: RefCell<HashSet<u128>> = RefCell::new(HashSet::new()); }
#[derive(Default)]
struct Seen { set: HashMap<u128, usize>, what: Vec<String>, small: HashMap<(usize, usize), (u32, u8, bool)>, total: u64 }
fn win(b: &[u8]) -> u128 { let mut x = [0u8; 16]; x[..W].copy_from_slice(&b[..W]); u128::from_le_bytes(x) }
impl Seen {
    /// new random material
    fn add(&mut self, what: String, b: &[u8]) -> R {
        self.what.push(what);
        let me = self.what.len() - 1;
        self.total += b.len() as u64;
        let mut run = 1;
        for i in 1..b.len() { if b[i] == b[i - 1] { run += 1; ensure!(run < 12, "constant", "{}: {run} equal octets in a row at {i} of {}", self.what[me], hex(&b[..b.len().min(64)])); } else { run = 1; } }
        if b.len() < W { return Ok(()); }
        for i in 0..=b.len() - W {
            if let Some(o) = self.set.insert(win(&b[i..]), me) { return viol("repeat", format!("{}: the octets at {i} ({}) were in {} already", self.what[me], hex(&b[i..i + W]), self.what[o])); }
        }
        // over all the cases of this process
        let old = EVER.with(|e| { let mut e = e.borrow_mut(); if e.len() > 2_000_000 { return false; } !e.insert(win(b)) });
        ensure!(!old, "repeat", "{}: {} was seen in an earlier case", self.what[me], hex(&b[..W]));
        Ok(())
    }
    /// no octet of a buffer is left as it was, or always the same
    fn positions(&mut self, b: &[u8]) {
        if b.len() > 100 { return; }
        for (i, x) in b.iter().enumerate() {
            let e = self.small.entry((b.len(), i)).or_insert((0, *x, true));
            e.0 += 1;
            if e.1 != *x { e.2 = false; }
        }
    }
    fn bits(&self, b: &[u8], what: &str) -> R {
        // the number of one bits is within eight standard deviations
        let n = b.len() as f64 * 8.0;
        let ones: u32 = b.iter().map(|x| x.count_ones()).sum();
        ensure!((ones as f64 - n / 2.0).abs() < 8.0 * n.sqrt() / 2.0 + 1.0, "biased", "{what}: {ones} bits of {n} are set");
        Ok(())
    }
}
#[derive(Clone, Copy)]
struct Sh(*const P);
unsafe impl Send for Sh {}
unsafe impl Sync for Sh {}
impl Sh { fn p(&self) -> &P { unsafe { &*self.0 } } }

/// random bytes of a child process
fn child(p: &P, slot: u64, s: Sess, n: usize, conf: Option<&str>) -> Option<Vec<u8>> {
    let mut fd = [0; 2];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 { return None; }
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(20);
            let mut s = s;
            if let Some(c) = conf { p.finalize(); if p.initialize(Some(c)) != CKR_OK { libc::_exit(3); } s = p.open(slot, true).1; }
            let (rv, b) = p.random(s, n);
            if rv != CKR_OK || libc::write(fd[1], b.as_ptr() as *const _, b.len()) != n as isize { libc::_exit(4); }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut b = vec![0u8; n];
        let mut got = 0;
        while got < n { let k = libc::read(fd[0], b[got..].as_mut_ptr() as *mut _, n - got); if k <= 0 { break; } got += k as usize; }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 || got != n { return None; }
        Some(b)
    }
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let t = cx.tok.fresh(if c.nss { Db::Nss } else { Db::Sqlite });
    let p = &t.p;
    let mut ss = vec![t.user(), t.open(false)];
    let mut seen = Seen::default();
    let mut last = Hx(vec![7; 48]);
    let mut values = 0u8;
    for (i, o) in c.ops.iter().enumerate() {
        let s = |x: u8| ss[x as usize % ss.len()];
        let rw = ss[0];
        match o {
            Rand(x, n, k) => for j in 0..*k {
                let n = *n as usize;
                let (rv, b) = p.random(s(*x), n);
                ensure!(rv == CKR_OK, "random", "op {i}: C_GenerateRandom of {n}: {}", rvname(rv));
                ensure!(b.len() == n, "random", "op {i}");
                seen.add(format!("op {i}.{j}: {n} random octets"), &b)?;
                seen.positions(&b);
                if n >= 1000 { seen.bits(&b, "random octets")?; }
                cx.hit("random request");
            },
            Seed(x, d) => { let rv = p.seed(s(*x), &d.0); cx.hit(if rv == CKR_OK { "seed accepted" } else { "seed refused" }); last = d.clone(); }
            Reseed(x) => { let rv = p.seed(s(*x), &last.0); if rv == CKR_OK { cx.hit("same seed again"); } }
            Open => if ss.len() < 6 { ss.push(t.open(true)); },
            Close(x) => if ss.len() > 2 { let j = 1 + *x as usize % (ss.len() - 1); p.close(ss.remove(j)); },
            Restart => { ensure!(t.restart() == CKR_OK, "restart", "op {i}"); ss = vec![t.user(), t.open(false)]; cx.hit("restart"); }
            Threads(k, n, own, seed) => {
                let sh = Sh(p);
                let n = *n as usize;
                let mine: Vec<Sess> = (0..*k).map(|_| if *own { t.open(false) } else { rw }).collect();
                let got: Vec<(Rv, Vec<u8>)> = std::thread::scope(|sc| {
                    let h: Vec<_> = mine.iter().map(|m| { let (m, seed) = (*m, seed.clone()); sc.spawn(move || { let p = sh.p(); if let Some(d) = seed { p.seed(m, &d.0); } let a = p.random(m, n); let b = p.random(m, n); (a.0 | b.0, [a.1, b.1].concat()) }) }).collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (j, (rv, b)) in got.iter().enumerate() { ensure!(*rv == CKR_OK, "thread", "op {i}: {}", rvname(*rv)); seen.add(format!("op {i}: thread {j}"), b)?; }
                if *own { for m in mine { p.close(m); } }
                cx.hitn("threads", *k as u64);
            }
            Fork(k, n, again) => for j in 0..*k {
                match child(p, t.slot, rw, *n as usize, if *again { Some(&t.conf) } else { None }) {
                    Some(b) => { seen.add(format!("op {i}: child process {j}"), &b)?; cx.hit("child process"); }
                    None => return viol("child", format!("op {i}: the child process did not deliver (initialized again: {again})")),
                }
            },
            Key(k, x) => {
                let gen_len = 12 + *x as u64 % 80;
                let (m, mut tm, n) = match k {
                    0 => (CKM_AES_KEY_GEN, tm! { CKA_VALUE_LEN => [16u64, 24, 32][*x as usize % 3] }, [16u64, 24, 32][*x as usize % 3]),
                    1 => (CKM_GENERIC_SECRET_KEY_GEN, tm! { CKA_VALUE_LEN => gen_len }, gen_len),
                    2 => (CKM_HKDF_KEY_GEN, tm! { CKA_VALUE_LEN => gen_len }, gen_len),
                    3 => (CKM_HOTP_KEY_GEN, tm! { CKA_VALUE_LEN => 20u64, CKA_OTP_LENGTH => 6u64 }, 20),
                    4 => { let h = &HT[*x as usize % HT.len()]; (h.keygen, tm! { CKA_VALUE_LEN => h.h.len() as u64 }, h.h.len() as u64) }
                    _ => (CKM_AES_KEY_GEN, tm! { CKA_VALUE_LEN => 32u64, CKA_TOKEN => true, CKA_PRIVATE => false }, 32),
                };
                tset(&mut tm, CKA_SENSITIVE, false);
                tset(&mut tm, CKA_EXTRACTABLE, true);
                let (rv, h) = p.genkey(rw, &Mech::new(m), &tm);
                ensure!(rv == CKR_OK, "generate", "op {i}: {m:#x}: {}", rvname(rv));
                let v = match p.get1(rw, h, CKA_VALUE) { Ok(v) => v, Err(rv) => return viol("value", format!("op {i}: {}", rvname(rv))) };
                ensure!(v.len() as u64 == n, "length", "op {i}: {m:#x}: {} octets for {n}", v.len());
                seen.add(format!("op {i}: key of {m:#x}"), &v)?;
                seen.positions(&v);
                cx.hit("generated key");
            }
            Pair(k) => {
                let (m, pu, what): (u64, Tmpl, &[u64]) = match k {
                    0 => (CKM_EC_KEY_PAIR_GEN, tm! { CKA_EC_PARAMS => test_ec().0.clone() }, &[CKA_VALUE]),
                    1 => (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, tm! { CKA_EC_PARAMS => c18::mont_oid(false) }, &[CKA_VALUE]),
                    2 => (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, tm! { CKA_EC_PARAMS => c18::mont_oid(true) }, &[CKA_VALUE]),
                    3 => { let g = &c18::groups()[0]; (CKM_DH_PKCS_KEY_PAIR_GEN, tm! { CKA_PRIME => g.p.to_bytes_be(), CKA_BASE => vec![2u8] }, &[CKA_VALUE]) }
                    _ => (CKM_RSA_PKCS_KEY_PAIR_GEN, tm! { CKA_MODULUS_BITS => 1024u64, CKA_PUBLIC_EXPONENT => vec![1u8, 0, 1] }, &[CKA_PRIME_1, CKA_PRIME_2]),
                };
                let (rv, u, h) = p.genpair(rw, &Mech::new(m), &pu, &tm! { CKA_SENSITIVE => false, CKA_EXTRACTABLE => true });
                ensure!(rv == CKR_OK, "generate", "op {i}: {m:#x}: {}", rvname(rv));
                for a in what { match p.get1(rw, h, *a) { Ok(v) => seen.add(format!("op {i}: pair of {m:#x}, attribute {a:#x}"), &v)?, Err(rv) => return viol("value", format!("op {i}: {}", rvname(rv))) } }
                p.destroy(rw, u); p.destroy(rw, h);
                cx.hit("generated pair");
            }
            Iv(gcm, g, fx, n) => {
                let mode = if *gcm { Mode::Gcm } else { Mode::Ccm };
                let g = [CKG_GENERATE, CKG_GENERATE_RANDOM, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM][*g as usize];
                let len = if *gcm { [12, 16, 13][*fx as usize % 3] } else { 13 };
                let fixed = if g == CKG_GENERATE_RANDOM { FIXED[*fx as usize % FIXED.len()] } else { 8 * (*fx as u64 % 5) };
                let (_, v) = p.random(rw, 16);
                let k = aes_obj(p, rw, &v);
                ensure!(menc_init(p, rw, &Mech::new(if *gcm { CKM_AES_GCM } else { CKM_AES_CCM }), k) == CKR_OK, "message", "op {i}");
                let mut mp = Mp::new(mode, &vec![0xab; len], fixed, g, 5, if *gcm { 128 } else { 16 }, &[0; 16]);
                let mut ivs = HashSet::new();
                let random = g == CKG_GENERATE_RANDOM;
                let (mut ones, mut zeros) = (vec![0u8; len], vec![0u8; len]);
                let n = if random { 48 } else { *n };
                for j in 0..n {
                    let (rv, _) = mcrypt(p, rw, cx, true, Pol::Exact, &mut mp, b"", b"hello")?;
                    ensure!(rv == CKR_OK, "message", "op {i}.{j}: {mode:?} generator {g} fixed {fixed}: {}", rvname(rv));
                    ensure!(ivs.insert(mp.iv.clone()), "iv repeats", "op {i}.{j}: {mode:?} generator {g} fixed {fixed}: {}", hex(&mp.iv));
                    if random && fixed == 0 { seen.add(format!("op {i}.{j}: random IV"), &mp.iv)?; }
                    for (x, b) in mp.iv.iter().enumerate() { ones[x] |= b; zeros[x] |= !b; }
                    cx.hit("generated IV");
                }
                // every bit that is not fixed takes both values in 48 random IVs
                if random {
                    for b in fixed as usize..8 * len {
                        let m = 0x80u8 >> (b % 8);
                        ensure!(ones[b / 8] & m != 0 && zeros[b / 8] & m != 0, "constant", "op {i}: {mode:?} with {fixed} fixed bits: bit {b} of {n} random IVs of {len} octets is always {}", (ones[b / 8] & m != 0) as u8);
                    }
                    cx.hit("bits of random IVs");
                }
                menc_final(p, rw);
                p.destroy(rw, k);
            }
            Again(k, n) => {
                let e = test_ec();
                for j in 0..*n {
                    let r = match k {
                        0 => { let h = ec_priv(p, rw, &e.0, &e.1); p.sig(rw, &Mech::new(CKM_ECDSA_SHA256), h, b"the message") }
                        1 => { let (h, _) = rsa_objs(p, rw, &crate::rsakeys::KEYS[0]); p.sig(rw, &Mech::with(CKM_SHA256_RSA_PKCS_PSS, CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 }), h, b"the message") }
                        2 => { let (_, h) = rsa_objs(p, rw, &crate::rsakeys::KEYS[0]); p.enc(rw, &Mech::new(CKM_RSA_PKCS), h, b"the message") }
                        3 => { let (_, h) = rsa_objs(p, rw, &crate::rsakeys::KEYS[0]); p.enc(rw, &Mech::with(CKM_RSA_PKCS_OAEP, CK_RSA_PKCS_OAEP_PARAMS { hashAlg: CKM_SHA_1, mgf: CKG_MGF1_SHA1, source: CKZ_DATA_SPECIFIED, pSourceData: std::ptr::null_mut(), ulSourceDataLen: 0 }), h, b"the message") }
                        _ => { let (_, h) = rsa_objs(p, rw, &crate::rsakeys::KEYS[0]); let a = aes_obj(p, rw, &[9; 16]); let (rv, w) = p.wrap(rw, &Mech::new(CKM_RSA_PKCS), h, a); if rv == CKR_OK { Ok(w) } else { Err(rv) } }
                    };
                    match r { Ok(v) => { seen.add(format!("op {i}.{j}: kind {k} of the same input"), &v)?; cx.hit("randomized result"); } Err(rv) => return viol("again", format!("op {i}: kind {k}: {}", rvname(rv))) }
                }
            }
            AtRest(n) => {
                values += 1;
                for j in 0..*n {
                    let rv = p.create(rw, &tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_TOKEN => true, CKA_VALUE => vec![values; 32], CKA_ID => vec![values, j], CKA_LABEL => format!("k{values}.{j}").as_str(), CKA_PRIVATE => true }).0;
                    ensure!(rv == CKR_OK, "create", "op {i}: {}", rvname(rv));
                }
            }
        }
    }
    for ((n, i), (k, x, same)) in &seen.small { ensure!(*k < 12 || !same, "position", "octet {i} of all {k} results of {n} octets is {x:#x}"); }
    if values > 0 {
        p.finalize();
        let mut n = 0;
        for (f, q) in if c.nss { [("key4.db", "SELECT a11 FROM nssPrivate WHERE a11 IS NOT NULL"), ("", "")] } else { [("token.sql", "SELECT val FROM objects WHERE attr = 17"), ("", "")] } {
            if f.is_empty() { continue; }
            let db = rusqlite::Connection::open(t.dir.join(f)).unwrap();
            let mut st = db.prepare(q).unwrap();
            let mut rows = st.query([]).unwrap();
            let mut vals = HashSet::new();
            while let Some(r) = rows.next().unwrap() {
                let v: Vec<u8> = r.get(0).unwrap();
                ensure!(v.len() >= 32, "at rest", "a value of {} octets: {}", v.len(), hex(&v));
                // the ciphertext ends with the last octets in both formats
                ensure!(vals.insert(v[v.len() - 32..].to_vec()), "at rest", "two ciphertexts end with {}", hex(&v[v.len() - 32..]));
                n += 1;
            }
        }
        ensure!(n >= 2, "at rest", "{n} values found");
        cx.hitn("stored ciphertexts", n);
    }
    cx.hitn("random octets", seen.total);
    if seen.set.len() > 50 && c.ops.len() >= 2 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C32", level: "exploration", workers: 8, hang_s: 60,
        rule: "the case has two operations or more and produced more than 50 windows of 12 random octets",
        assumptions: &["two independent random windows of 96 bits do not collide", "a child process after fork may use the library without initializing it again"],
        groups: vec![
            gen_("sqlite", 6000, 60000, || cases(false, false, 12), run),
            gen_("nss", 1200, 12000, || cases(true, false, 10), run),
            gen_("big", 400, 4000, || cases(false, true, 6), run),
        ],
    }
}
