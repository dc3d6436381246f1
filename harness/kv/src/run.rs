//! Case runner: generation (proptest), worker processes, shrinking through
//! sub-process replay, known findings, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Viol { pub sig: String, pub msg: String }
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($m:tt)*) => { if !($c) { return $crate::run::viol($sig, format!($($m)*)); } };
}

pub trait Tree { fn json(&self) -> Value; fn simplify(&mut self) -> bool; fn complicate(&mut self) -> bool; }
pub trait Group {
    fn name(&self) -> &str;
    fn count(&self, thorough: bool) -> u64;
    fn tree(&self, seed: [u8; 32], idx: u64) -> Box<dyn Tree>;
    fn run(&self, j: &Value, cx: &mut Cx) -> R;
}

struct PT<T: ValueTree>(T);
impl<T: ValueTree> Tree for PT<T> where T::Value: Serialize {
    fn json(&self) -> Value { serde_json::to_value(self.0.current()).expect("json") }
    fn simplify(&mut self) -> bool { self.0.simplify() }
    fn complicate(&mut self) -> bool { self.0.complicate() }
}

pub struct Gen<T: std::fmt::Debug> {
    pub name: &'static str, pub quick: u64, pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<T>, pub run: fn(&T, &mut Cx) -> R,
}
impl<T: std::fmt::Debug + Serialize + DeserializeOwned + 'static> Group for Gen<T> {
    fn name(&self) -> &str { self.name }
    fn count(&self, t: bool) -> u64 { if t { self.thorough } else { self.quick } }
    fn tree(&self, seed: [u8; 32], _i: u64) -> Box<dyn Tree> {
        let mut c = Config::default();
        c.failure_persistence = None;
        let mut r = TestRunner::new_with_rng(c, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let t = (self.strat)().new_tree(&mut r).expect("generator");
        Box::new(PT(t))
    }
    fn run(&self, j: &Value, cx: &mut Cx) -> R {
        let v: T = serde_json::from_value(j.clone()).expect("case json");
        (self.run)(&v, cx)
    }
}
pub fn gen_<T: std::fmt::Debug + Serialize + DeserializeOwned + 'static>(
    name: &'static str, quick: u64, thorough: u64, strat: fn() -> BoxedStrategy<T>, run: fn(&T, &mut Cx) -> R,
) -> Box<dyn Group> { Box::new(Gen { name, quick, thorough, strat, run }) }

/// explicit list of cases
pub struct Fixed<T> { pub name: &'static str, pub cases: Vec<T>, pub run: fn(&T, &mut Cx) -> R }
struct FT(Value);
impl Tree for FT {
    fn json(&self) -> Value { self.0.clone() }
    fn simplify(&mut self) -> bool { false }
    fn complicate(&mut self) -> bool { false }
}
impl<T: Serialize + DeserializeOwned + 'static> Group for Fixed<T> {
    fn name(&self) -> &str { self.name }
    fn count(&self, _t: bool) -> u64 { self.cases.len() as u64 }
    fn tree(&self, _s: [u8; 32], i: u64) -> Box<dyn Tree> { Box::new(FT(serde_json::to_value(&self.cases[i as usize % self.cases.len()]).unwrap())) }
    fn run(&self, j: &Value, cx: &mut Cx) -> R {
        let v: T = serde_json::from_value(j.clone()).expect("case json");
        (self.run)(&v, cx)
    }
}
pub fn fixed<T: Serialize + DeserializeOwned + 'static>(name: &'static str, cases: Vec<T>, run: fn(&T, &mut Cx) -> R) -> Box<dyn Group> {
    Box::new(Fixed { name, cases, run })
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub groups: Vec<Box<dyn Group>>,
    pub workers: usize,
    /// seconds after which a stuck case counts as a hang
    pub hang_s: u64,
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub hits: BTreeMap<String, u64>,
    pub known: BTreeMap<String, String>,
    pub known_seen: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub tok: crate::tok::Cache,
}
impl Cx {
    pub fn hit(&mut self, k: &str) { *self.hits.entry(k.to_string()).or_insert(0) += 1; }
    pub fn hitn(&mut self, k: &str, n: u64) { *self.hits.entry(k.to_string()).or_insert(0) += n; }
    pub fn nt(&mut self) { self.nontrivial = true; }
    /// A violation that is tolerated when its signature is a recorded known finding.
    pub fn known(&mut self, sig: &str, msg: impl Into<String>) -> R {
        if self.known.contains_key(sig) { *self.known_seen.entry(sig.to_string()).or_insert(0) += 1; return Ok(()); }
        viol(sig, msg)
    }
    /// a context for another thread
    pub fn light(&self, name: &str) -> Cx {
        Cx { prop: self.prop.clone(), thorough: self.thorough, scratch: self.scratch.clone(), hits: Default::default(), known: self.known.clone(), known_seen: Default::default(), nontrivial: false, tok: crate::tok::Cache::new(self.scratch.join(name)) }
    }
    pub fn is_known(&self, sig: &str) -> bool { self.known.contains_key(sig) }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("KV_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let s = it.next().unwrap_or("").trim_start_matches("sig=");
                let d = it.next().unwrap_or("");
                if p == prop { m.insert(s.to_string(), d.to_string()); }
            }
        }
    }
    m
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^= h >> 32; h = h.wrapping_mul(0xd6e8feb86659fd93); h ^= h >> 32;
    h
}
pub fn seed32(seed: u64, prop: &str, group: &str, idx: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let h = fnv(format!("{seed}/{prop}/{group}/{idx}/{i}").as_bytes());
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn scratch_base() -> PathBuf {
    let p = Path::new("/dev/shm");
    if p.is_dir() && std::fs::create_dir_all(p.join(format!("kvprobe.{}", std::process::id()))).is_ok() {
        let _ = std::fs::remove_dir(p.join(format!("kvprobe.{}", std::process::id())));
        return p.to_path_buf();
    }
    PathBuf::from("/tmp")
}

// ---------------------------------------------------------------- watchdog
static CASE_START: AtomicU64 = AtomicU64::new(0); // ms since epoch of process, 0 = idle
fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
fn others_sleeping() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    let Ok(rd) = std::fs::read_dir("/proc/self/task") else { return false };
    for e in rd.flatten() {
        let tid: u64 = e.file_name().to_string_lossy().parse().unwrap_or(0);
        if tid == me { continue; }
        if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
            let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
            if st != 'S' { return false; }
        }
    }
    true
}
fn watchdog(out: PathBuf, hang_s: u64) {
    std::thread::spawn(move || {
        let mut cur = 0; let mut t0 = Instant::now(); let mut c0 = cpu_ms(); let mut sleep_run = 0u64; let mut cl = cpu_ms();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = CASE_START.load(Ordering::SeqCst);
            if s != cur { cur = s; t0 = Instant::now(); c0 = cpu_ms(); sleep_run = 0; cl = c0; continue; }
            if s == 0 { continue; }
            let c = cpu_ms();
            if others_sleeping() && c - cl <= 20 { sleep_run += 1 } else { sleep_run = 0 }
            cl = c;
            let verdict = if c - c0 > hang_s * 1000 { Some("busy") }
                else if sleep_run * 200 > hang_s * 1000 { Some("blocked") }
                else if t0.elapsed().as_secs() > 400 { Some("slow") } else { None };
            if let Some(v) = verdict {
                let _ = std::fs::write(out.join(format!("hang.{}", std::process::id())), v);
                unsafe { libc::_exit(if v == "slow" { 9 } else { 8 }) };
            }
        }
    });
}
static CASE_NO: AtomicU64 = AtomicU64::new(0);
fn case_begin() { CASE_START.store(CASE_NO.fetch_add(1, Ordering::SeqCst) + 1, Ordering::SeqCst) }
fn case_end() { CASE_START.store(0, Ordering::SeqCst) }

fn run_one(g: &dyn Group, j: &Value, cx: &mut Cx) -> Result<R, String> {
    cx.nontrivial = false;
    crate::p11::GUARD_BROKEN.store(0, Ordering::SeqCst);
    case_begin();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.run(j, cx)));
    case_end();
    match r {
        Ok(Ok(())) => {
            if crate::p11::GUARD_BROKEN.load(Ordering::SeqCst) != 0 {
                return Ok(viol("buffer-overrun", "a call wrote outside the output buffer it was given"));
            }
            Ok(Ok(()))
        }
        Ok(e) => { cx.tok.reset(); Ok(e) }
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(m)
        }
    }
}

fn new_cx(prop: &str, thorough: bool, scratch: PathBuf) -> Cx {
    std::fs::create_dir_all(&scratch).expect("scratch");
    Cx { prop: prop.into(), thorough, scratch: scratch.clone(), hits: Default::default(), known: load_known(prop),
        known_seen: Default::default(), nontrivial: false, tok: crate::tok::Cache::new(scratch) }
}

fn limits() {
    // make absurd allocations fail deterministically; no core files
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

pub fn worker(p: &Prop, thorough: bool, seed: u64, w: u64, nw: u64, out: &Path, scratch: &Path) -> i32 {
    limits();
    let mut cx = new_cx(p.id, thorough, scratch.join(format!("w{w}")));
    watchdog(out.to_path_buf(), p.hang_s);
    let mut evals = 0u64;
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut per: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    let mut fails: Vec<Value> = vec![];
    let only = std::env::var("KV_GROUP").ok();
    let scale: f64 = std::env::var("KV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    'all: for g in &p.groups {
        if let Some(o) = &only { if o != g.name() { continue; } }
        let n0 = g.count(thorough);
        let n = ((n0 as f64 * scale) as u64).max(n0.min(1));
        let mut gs = 0;
        for idx in 0..n {
            if (idx + fnv(g.name().as_bytes())) % nw != w { continue; }
            let j = g.tree(seed32(seed, p.id, g.name(), idx), idx).json();
            let js = j.to_string();
            std::fs::write(out.join(format!("cur.{w}")), json!({"property":p.id,"group":g.name(),"idx":idx,"seed":seed,"case":j}).to_string()).expect("cur");
            let t = Instant::now();
            let r = run_one(g.as_ref(), &j, &mut cx);
            evals += 1;
            let e = per.entry(g.name().to_string()).or_default();
            e.0 += 1; e.2 += t.elapsed().as_secs_f64();
            if cx.nontrivial {
                e.1 += 1;
                seen.insert(fnv(format!("{}{}", g.name(), js).as_bytes()));
                if gs < 1 && js.len() < 4000 { gs += 1; samples.push(json!({"group":g.name(),"case":j})); }
            }
            match r {
                Err(m) => {
                    std::fs::write(out.join(format!("panic.{w}")), format!("{} #{idx}: {m}\ncase: {js}", g.name())).ok();
                    return 7;
                }
                Ok(Err(v)) => {
                    fails.push(json!({"group":g.name(),"idx":idx,"sig":v.sig,"msg":v.msg,"case":j}));
                    if fails.len() >= 2 { break 'all; }
                }
                Ok(Ok(())) => {}
            }
        }
    }
    cx.tok.reset();
    let st = json!({"evals":evals,"seen":seen,"samples":samples,"per":per,"hits":cx.hits,"known":cx.known_seen,"fails":fails});
    std::fs::write(out.join(format!("stats.{w}")), st.to_string()).expect("stats");
    0
}

pub fn replay(p: &Prop, file: &Path, scratch: &Path, quiet: bool) -> i32 {
    limits();
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let g = p.groups.iter().find(|g| g.name() == j["group"].as_str().unwrap()).expect("group");
    let mut cx = new_cx(p.id, false, scratch.join("r"));
    watchdog(scratch.to_path_buf(), p.hang_s);
    let r = run_one(g.as_ref(), &j["case"], &mut cx);
    cx.tok.reset();
    match r {
        Err(m) => { eprintln!("harness panic: {m}"); 7 }
        Ok(Ok(())) => { if !quiet { println!("held"); } 0 }
        Ok(Err(v)) => { println!("{}", json!({"sig":v.sig,"msg":v.msg})); 1 }
    }
}

struct Dirs { scratch: PathBuf }
impl Drop for Dirs { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.scratch); } }

/// run a case in a subprocess. Some((sig,msg)) when it fails
fn sub_replay(p: &Prop, group: &str, case: &Value, scratch: &Path) -> Option<(String, String)> {
    let f = scratch.join("shrink.json");
    std::fs::write(&f, json!({"property":p.id,"group":group,"case":case}).to_string()).ok()?;
    let exe = std::env::current_exe().unwrap();
    let sd = scratch.join("sub");
    let _ = std::fs::remove_dir_all(&sd);
    std::fs::create_dir_all(&sd).ok()?;
    let o = Command::new(exe).args(["replay-sub", p.id, f.to_str().unwrap(), sd.to_str().unwrap()])
        .stdin(Stdio::null()).output().ok()?;
    if let Some(s) = o.status.signal() {
        if s == libc::SIGKILL { return None; }
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Some((crash_sig(s, &e), crash_msg(s, &e)));
    }
    match o.status.code() {
        Some(1) => {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            let v: Value = s.lines().last().and_then(|l| serde_json::from_str(l).ok()).unwrap_or(json!({}));
            Some((v["sig"].as_str().unwrap_or("?").into(), v["msg"].as_str().unwrap_or("?").into()))
        }
        Some(8) => Some(("hang".into(), "the case does not terminate".into())),
        _ => None,
    }
}
fn crash_sig(s: i32, e: &str) -> String {
    // the place of the panic identifies it better than the signal
    for l in e.lines() {
        if let Some(i) = l.find("panicked at ") {
            let loc = &l[i + 12..];
            if loc.contains("core/src/panicking") || loc.contains("library/core") && l.contains("cannot unwind") { continue; }
            let loc = loc.split(':').next().unwrap_or("").rsplit("/repo/").next().unwrap_or("");
            return format!("crash:{loc}");
        }
    }
    format!("crash:signal{s}")
}
fn crash_msg(s: i32, e: &str) -> String {
    let t: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).take(4).collect();
    format!("the library killed the process with signal {s}: {}", t.join(" | "))
}

pub fn check(p: &Prop, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let base = scratch_base().join(format!("kv.{}.{}", p.id, std::process::id()));
    std::fs::create_dir_all(&base).expect("scratch dir");
    let d = Dirs { scratch: base.clone() };
    let nw = p.workers as u64;
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..nw {
        let err = std::fs::File::create(base.join(format!("err.{w}"))).unwrap();
        let o = std::fs::File::create(base.join(format!("out.{w}"))).unwrap();
        let c = Command::new(&exe)
            .args(["worker", p.id, tier, &seed.to_string(), &w.to_string(), &nw.to_string(), base.to_str().unwrap(), base.to_str().unwrap()])
            .stdin(Stdio::null()).stdout(o).stderr(err).spawn().expect("spawn");
        kids.push((w, c));
    }
    let mut errors: Vec<String> = vec![];
    // (group, idx, sig, msg, case)
    let mut fails: Vec<(String, u64, String, String, Value)> = vec![];
    let known = load_known(p.id);
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut hits, mut seen, mut samples) = (0u64, BTreeMap::<String, u64>::new(), BTreeSet::<u64>::new(), Vec::<Value>::new());
    let mut per: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    for (w, mut c) in kids {
        let st = c.wait().expect("wait");
        let err = std::fs::read(base.join(format!("err.{w}"))).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
        let cur: Value = std::fs::read_to_string(base.join(format!("cur.{w}"))).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
        let mut curfail = |sig: String, msg: String| {
            if let (Some(g), Some(i)) = (cur["group"].as_str(), cur["idx"].as_u64()) {
                fails.push((g.to_string(), i, sig, msg, cur["case"].clone())); true
            } else { false }
        };
        if let Some(s) = st.signal() {
            if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
                errors.push(format!("worker {w} was killed by signal {s}"));
            } else if !curfail(crash_sig(s, &err), crash_msg(s, &err)) {
                errors.push(format!("worker {w} died outside a case: signal {s} {err}"));
            }
            continue;
        }
        match st.code() {
            Some(0) => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(base.join(format!("stats.{w}"))).expect("stats")).expect("stats json");
                evals += v["evals"].as_u64().unwrap();
                for (k, n) in v["hits"].as_object().unwrap() { *hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
                for (k, n) in v["known"].as_object().unwrap() { *known_seen.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
                for s in v["seen"].as_array().unwrap() { seen.insert(s.as_u64().unwrap()); }
                for s in v["samples"].as_array().unwrap() { samples.push(s.clone()); }
                for (k, n) in v["per"].as_object().unwrap() {
                    let e = per.entry(k.clone()).or_default();
                    e.0 += n[0].as_u64().unwrap(); e.1 += n[1].as_u64().unwrap(); e.2 += n[2].as_f64().unwrap();
                }
                for f in v["fails"].as_array().unwrap() {
                    fails.push((f["group"].as_str().unwrap().into(), f["idx"].as_u64().unwrap(), f["sig"].as_str().unwrap().into(), f["msg"].as_str().unwrap().into(), f["case"].clone()));
                }
            }
            Some(7) => errors.push(format!("harness panic in worker {w}: {}\n{}", std::fs::read_to_string(base.join(format!("panic.{w}"))).unwrap_or_default(), err.lines().take(5).collect::<Vec<_>>().join("\n"))),
            Some(8) => { if !curfail("hang".into(), "the case does not terminate".into()) { errors.push("hang".into()) } }
            c => errors.push(format!("worker {w} ended with {c:?}: {}", { let l: Vec<&str> = err.lines().collect(); let i = l.iter().position(|x| x.contains("panicked at")).unwrap_or(l.len().saturating_sub(5)); l[i..].iter().take(4).copied().collect::<Vec<_>>().join(" | ") })),
        }
    }
    // one sample per group
    let mut sm: BTreeMap<String, Value> = BTreeMap::new();
    for s in samples { sm.entry(s["group"].as_str().unwrap().to_string()).or_insert(s); }
    let order = |g: &str| p.groups.iter().position(|x| x.name() == g).unwrap_or(99);
    fails.sort_by_key(|f| (order(&f.0), f.1));
    let groups: BTreeMap<String, Value> = per.iter().map(|(k, v)| (k.clone(), json!({"cases":v.0,"nontrivial":v.1,"cpu_s":(v.2*100.0).round()/100.0}))).collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": seen.len(), "rule": p.rule,
            "samples": sm.values().take(6).collect::<Vec<_>>(), "groups": groups, "events": hits,
            "known_findings_seen": known_seen,
        },
        "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0, "violations": fails.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if std::env::var("KV_GROUP").is_err() {
        std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    for (k, desc) in &known {
        if known_seen.contains_key(k) { println!("KNOWN-FINDING: property={} {} [{}]", p.id, desc, k); }
    }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s", p.id, tier, evals, seen.len(), t0.elapsed().as_secs_f64());
    if std::env::var("KV_VERBOSE").is_ok() { println!("{}", serde_json::to_string_pretty(&ev["coverage"]["groups"]).unwrap()); println!("{}", serde_json::to_string_pretty(&ev["coverage"]["events"]).unwrap()); }
    if !fails.is_empty() {
        // distinct signatures, shrink the first
        let (g, idx, sig, msg, case) = fails[0].clone();
        println!("failed: group={g} case#{idx} {sig}: {msg}");
        for f in fails.iter().skip(1).take(6) { println!("also: group={} case#{} {}: {}", f.0, f.1, f.2, f.3); }
        let (case, msg, sig) = shrink(p, &g, idx, seed, case, msg, sig, &base);
        let rd = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let rf = rd.join(format!("{}-{:08x}.json", p.id, fnv(format!("{g}{case}").as_bytes()) as u32));
        std::fs::write(&rf, serde_json::to_string_pretty(&json!({"property":p.id,"group":g,"seed":seed,"idx":idx,"sig":sig,"msg":msg,"case":case})).unwrap()).expect("replay file");
        println!("minimal: {sig}: {msg}");
        println!("case: {}", { let s = case.to_string(); if s.len() > 3000 { format!("{}…", s.chars().take(3000).collect::<String>()) } else { s } });
        println!("VIOLATION property={} replay={}", p.id, rf.display());
        std::io::stdout().flush().ok();
        drop(d);
        return 1;
    }
    drop(d);
    if !errors.is_empty() {
        for e in errors { eprintln!("ERROR {e}"); println!("ERROR {}", e.lines().next().unwrap_or("")); }
        return 2;
    }
    0
}

fn shrink(p: &Prop, g: &str, idx: u64, seed: u64, case: Value, msg: String, sig: String, scratch: &Path) -> (Value, String, String) {
    let Some(grp) = p.groups.iter().find(|x| x.name() == g) else { return (case, msg, sig) };
    let t0 = Instant::now();
    match sub_replay(p, g, &case, scratch) {
        None => { println!("note: did not fail again when replayed alone"); return (case, msg, sig); }
        Some(_) => {}
    }
    let mut tree = grp.tree(seed32(seed, p.id, g, idx), idx);
    let (mut best, mut bm, mut bs) = (case, msg, sig);
    let mut n = 0;
    if !tree.simplify() { return (best, bm, bs); }
    loop {
        n += 1;
        if t0.elapsed().as_secs() > 40 || n > 400 { break; }
        let j = tree.json();
        let more = match sub_replay(p, g, &j, scratch) {
            Some((s, m)) => { best = j; bm = m; bs = s; tree.simplify() }
            None => tree.complicate(),
        };
        if !more { break; }
    }
    println!("shrunk with {n} replays");
    (best, bm, bs)
}
