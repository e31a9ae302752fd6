//! Case generation, parallel execution, shrinking, replay and evidence.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::sys;

/// Why a check did not pass.
#[derive(Debug)]
pub enum Fail {
    /// The property does not hold on this case.
    Broken(String),
    /// The harness could not run the case.
    Env(String),
}
impl From<String> for Fail { fn from(s: String) -> Fail { Fail::Broken(s) } }
impl From<&str> for Fail { fn from(s: &str) -> Fail { Fail::Broken(s.to_string()) } }
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::runner::Fail::Broken(format!($($a)*))); } } }

/// What one case showed.
#[derive(Default)]
pub struct Obs { pub labels: Vec<&'static str>, pub nontrivial: bool }
impl Obs {
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l); } }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn nontrivial_if(&mut self, c: bool) { self.nontrivial |= c; }
}

pub struct Leg<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub shrink_secs: u64,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Res,
}

pub struct LegStats {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub env_error: Option<String>,
    pub wall: f64,
}
pub struct Failure { pub index: u64, pub message: String, pub case: Value }

pub trait LegDyn: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn run(&self, seed: u64, n: u64, slots: &Slots, leg_ix: usize, deadline: Option<Instant>) -> LegStats;
    fn replay(&self, case: &Value) -> Res;
    fn case_json(&self, seed: u64, index: u64) -> Value;
    fn run_index(&self, seed: u64, index: u64) -> Res;
}

/// Shared memory telling the supervisor which case each worker is on.
pub struct Slots { ptr: *mut u64 }
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
pub const NSLOT: usize = 64;
impl Slots {
    pub fn open(path: Option<&str>) -> Slots {
        let len = NSLOT * 32;
        unsafe {
            let fd = match path {
                Some(p) => {
                    let c = std::ffi::CString::new(p).unwrap();
                    let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
                    libc::ftruncate(fd, len as i64);
                    fd
                }
                None => -1,
            };
            let flags = if fd < 0 { libc::MAP_SHARED | libc::MAP_ANONYMOUS } else { libc::MAP_SHARED };
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, flags, fd, 0);
            assert!(p != libc::MAP_FAILED);
            Slots { ptr: p as *mut u64 }
        }
    }
    /// (active+leg, index, cpu clock id, cpu ns at start)
    fn at(&self, i: usize, f: usize) -> &AtomicU64 { unsafe { AtomicU64::from_ptr(self.ptr.add(i * 4 + f)) } }
    pub fn begin(&self, i: usize, leg: usize, index: u64, clk: libc::clockid_t) {
        self.at(i, 1).store(index, Ordering::SeqCst);
        self.at(i, 2).store(clk as u32 as u64, Ordering::SeqCst);
        self.at(i, 3).store(sys::thread_cpu_ns(clk), Ordering::SeqCst);
        self.at(i, 0).store(leg as u64 + 1, Ordering::SeqCst);
    }
    pub fn end(&self, i: usize) { self.at(i, 0).store(0, Ordering::SeqCst); }
    pub fn active(&self) -> Vec<(usize, u64, libc::clockid_t, u64)> {
        (0..NSLOT).filter_map(|i| {
            let a = self.at(i, 0).load(Ordering::SeqCst);
            if a == 0 { return None; }
            Some((a as usize - 1, self.at(i, 1).load(Ordering::SeqCst),
                self.at(i, 2).load(Ordering::SeqCst) as u32 as libc::clockid_t, self.at(i, 3).load(Ordering::SeqCst)))
        }).collect()
    }
}

thread_local! { static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) }; }
/// Panics on threads that are not running a case (server workers started by a case).
pub static FOREIGN_PANICS: AtomicU64 = AtomicU64::new(0);
thread_local! { static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !IN_CASE.with(|c| c.get()) { FOREIGN_PANICS.fetch_add(1, Ordering::SeqCst); if std::env::var("VH_VERBOSE").is_ok() { eprintln!("panic at {loc}: {m}"); } }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
    }));
}
pub fn panic_text(p: Box<dyn Any + Send>) -> String {
    PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| {
        p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
    })
}
/// Run a piece of code under test, turning a panic into an error text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("crashed: {}", panic_text(p)));
    IN_CASE.with(|c| c.set(was));
    r
}

struct HashWriter(std::collections::hash_map::DefaultHasher);
impl Write for HashWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn case_hash<C: Serialize>(c: &C) -> u64 {
    let mut w = HashWriter(std::collections::hash_map::DefaultHasher::new());
    let _ = serde_json::to_writer(&mut w, c);
    w.0.finish()
}
pub fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> Leg<C> {
    fn tree(&self, strat: &BoxedStrategy<C>, seed: u64, index: u64) -> Box<dyn ValueTree<Value = C>> {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&fnv(self.name).to_le_bytes());
        s[16..24].copy_from_slice(&index.to_le_bytes());
        let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() };
        let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
        strat.new_tree(&mut r).expect("generator")
    }
    fn eval(&self, c: &C, obs: &mut Obs) -> Res {
        let was = IN_CASE.with(|x| x.replace(true));
        let r = match catch_unwind(AssertUnwindSafe(|| (self.check)(c, obs))) {
            Ok(r) => r,
            Err(p) => Err(Fail::Broken(format!("crashed: {}", panic_text(p)))),
        };
        IN_CASE.with(|x| x.set(was));
        sys::clear_fake_time();
        r
    }
    fn shrink(&self, mut tree: Box<dyn ValueTree<Value = C>>, first: String) -> (C, String) {
        let end = Instant::now() + Duration::from_secs(self.shrink_secs);
        let (mut best, mut msg) = (tree.current(), first);
        let mut steps = 0;
        if self.shrink_secs == 0 || !tree.simplify() { return (best, msg); }
        loop {
            steps += 1;
            if steps > 5000 || Instant::now() > end { break; }
            let c = tree.current();
            match self.eval(&c, &mut Obs::default()) {
                Err(Fail::Broken(m)) => { best = c; msg = m; if !tree.simplify() { break; } }
                _ => { if !tree.complicate() { break; } }
            }
        }
        (best, msg)
    }
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> LegDyn for Leg<C> {
    fn name(&self) -> &'static str { self.name }
    fn rule(&self) -> &'static str { self.rule }
    fn cases(&self, thorough: bool) -> u64 { if thorough { self.thorough } else { self.quick } }
    fn run(&self, seed: u64, n: u64, slots: &Slots, leg_ix: usize, deadline: Option<Instant>) -> LegStats {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        struct Acc { hashes: HashSet<u64>, labels: BTreeMap<&'static str, u64>, samples: Vec<(u64, Value)>, fails: Vec<(u64, String)>, env: Option<String> }
        let acc = Mutex::new(Acc { hashes: HashSet::new(), labels: BTreeMap::new(), samples: vec![], fails: vec![], env: None });
        std::thread::scope(|sc| {
            for w in 0..self.threads {
                let (next, stop, done, acc) = (&next, &stop, &done, &acc);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    let strat = (self.strat)();
                    let clk = sys::my_cpu_clock();
                    let mut hashes = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples = vec![];
                    loop {
                        if stop.load(Ordering::Relaxed) { break; }
                        if let Some(d) = deadline { if Instant::now() > d { break; } }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n { break; }
                        slots.begin(w, leg_ix, i, clk);
                        let c = self.tree(&strat, seed, i).current();
                        let mut obs = Obs::default();
                        let r = self.eval(&c, &mut obs);
                        slots.end(w);
                        done.fetch_add(1, Ordering::Relaxed);
                        for l in &obs.labels { *labels.entry(l).or_default() += 1; }
                        if obs.nontrivial {
                            hashes.insert(case_hash(&c));
                            if samples.len() < 2 {
                                let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                                if v.to_string().len() < 1500 { samples.push((i, v)); }
                            }
                        }
                        match r {
                            Ok(()) => {}
                            Err(Fail::Broken(m)) => { acc.lock().unwrap().fails.push((i, m)); stop.store(true, Ordering::Relaxed); }
                            Err(Fail::Env(m)) => { acc.lock().unwrap().env = Some(m); stop.store(true, Ordering::Relaxed); }
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.hashes.extend(hashes);
                    for (l, k) in labels { *a.labels.entry(l).or_default() += k; }
                    a.samples.extend(samples);
                }).unwrap();
            }
        });
        let mut a = acc.into_inner().unwrap();
        a.samples.sort_by_key(|s| s.0);
        a.samples.truncate(3);
        a.fails.sort();
        let failure = a.fails.first().cloned().map(|(i, m)| {
            let tree = self.tree(&(self.strat)(), seed, i);
            let (c, message) = self.shrink(tree, m);
            Failure { index: i, message, case: serde_json::to_value(&c).unwrap() }
        });
        LegStats { evaluations: done.load(Ordering::Relaxed), distinct_nontrivial: a.hashes.len() as u64, labels: a.labels,
            samples: a.samples.into_iter().map(|s| s.1).collect(), failure, env_error: a.env, wall: t0.elapsed().as_secs_f64() }
    }
    fn replay(&self, case: &Value) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| Fail::Env(format!("bad replay file: {e}")))?;
        self.eval(&c, &mut Obs::default())
    }
    fn case_json(&self, seed: u64, index: u64) -> Value {
        serde_json::to_value(self.tree(&(self.strat)(), seed, index).current()).unwrap()
    }
    fn run_index(&self, seed: u64, index: u64) -> Res {
        let c = self.tree(&(self.strat)(), seed, index).current();
        self.eval(&c, &mut Obs::default())
    }
}

pub struct Prop { pub id: &'static str, pub level: &'static str, pub assumptions: &'static [&'static str], pub legs: Vec<Box<dyn LegDyn>> }

pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())) }

/// CPU seconds one case may use before it counts as not terminating.
const CASE_CPU_S: u64 = 40;

/// The worker process: runs all legs, writes its result to `out`.
pub fn child(p: &Prop, seed: u64, thorough: bool, slots_path: &str, out: &str) -> i32 {
    let slots = std::sync::Arc::new(Slots::open(Some(slots_path)));
    let s2 = slots.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for (leg, ix, clk, start) in s2.active() {
            let now = sys::thread_cpu_ns(clk);
            if now > start && now - start > CASE_CPU_S * 1_000_000_000 {
                eprintln!("leg {leg} case {ix} used more than {CASE_CPU_S} s of cpu");
                unsafe { libc::_exit(77) }
            }
        }
    });
    let only = std::env::var("VH_LEG").ok();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // The quick tier ends long before this, but a slow machine must not keep it from ending.
    let deadline = Some(std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500u64 } else { 480 }));
    let mut legs = vec![];
    let mut failure = Value::Null;
    let mut env = Value::Null;
    let nlegs = p.legs.len() as u64;
    for (i, leg) in p.legs.iter().enumerate() {
        if let Some(o) = &only { if o != leg.name() { continue; } }
        let n = (leg.cases(thorough) as f64 * scale).ceil() as u64;
        let dl = deadline.map(|d| Instant::now() + Duration::from_secs(d / nlegs));
        let s = leg.run(seed, n, &slots, i, dl);
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("{}", format!("{} {}: {} cases, {} nontrivial, {:.1}s {:?}", p.id, leg.name(), s.evaluations, s.distinct_nontrivial, s.wall, s.labels));
        }
        legs.push(json!({"leg": leg.name(), "rule": leg.rule(), "evaluations": s.evaluations, "distinct_nontrivial": s.distinct_nontrivial,
            "labels": s.labels, "samples": s.samples, "wall_s": s.wall}));
        if let Some(f) = s.failure {
            failure = json!({"property": p.id, "leg": leg.name(), "seed": seed, "index": f.index, "message": f.message, "case": f.case});
            break;
        }
        if let Some(e) = s.env_error { env = json!(format!("{}: {e}", leg.name())); break; }
    }
    std::fs::write(out, json!({"legs": legs, "failure": failure, "env": env}).to_string()).unwrap();
    0
}

fn write_replay(id: &str, v: &Value) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", fnv(&v.to_string())));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
    path.display().to_string()
}

/// The supervisor: runs the worker, interprets its end, writes evidence.
pub fn supervise(p: &Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let work = root().join("target").join(format!("run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let slots_path = work.join("slots").display().to_string();
    let out_path = work.join("result.json");
    let exe = std::env::current_exe().unwrap();
    let tier = if thorough { "thorough" } else { "quick" };
    let status = std::process::Command::new(&exe)
        .args(["child", p.id, tier, &seed.to_string(), &slots_path, &out_path.display().to_string()])
        .status().expect("start worker");
    let mut legs = vec![];
    let mut violation: Option<Value> = None;
    let mut error: Option<String> = None;
    if status.code() == Some(0) {
        let r: Value = serde_json::from_str(&std::fs::read_to_string(&out_path).unwrap_or_default()).unwrap_or(Value::Null);
        legs = r["legs"].as_array().cloned().unwrap_or_default();
        if !r["failure"].is_null() { violation = Some(r["failure"].clone()); }
        if let Some(e) = r["env"].as_str() { error = Some(e.to_string()); }
        if r.is_null() { error = Some("worker left no result".into()); }
    } else {
        // The worker died or a case did not terminate: find the case by running each one that
        // was in flight alone, under a cpu limit.
        let slots = Slots::open(Some(&slots_path));
        error = Some(format!("worker ended abnormally: {status}"));
        for (leg, ix, _, _) in slots.active() {
            let Some(l) = p.legs.get(leg) else { continue };
            let st = std::process::Command::new(&exe).args(["index", p.id, l.name(), &seed.to_string(), &ix.to_string()]).status();
            use std::os::unix::process::ExitStatusExt;
            let why = match st {
                Ok(st) if st.code() == Some(1) => Some("fails when run alone".to_string()),
                Ok(st) => match st.signal() {
                    Some(libc::SIGXCPU) => Some("does not terminate (used up its cpu limit when run alone)".to_string()),
                    Some(s) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL =>
                        Some(format!("kills the process with signal {s} when run alone")),
                    _ => None,
                },
                Err(_) => None,
            };
            if let Some(w) = why {
                violation = Some(json!({"property": p.id, "leg": l.name(), "seed": seed, "index": ix, "message": w, "case": l.case_json(seed, ix)}));
                error = None;
                break;
            }
        }
    }
    let evals: u64 = legs.iter().map(|l| l["evaluations"].as_u64().unwrap_or(0)).sum();
    let nontriv: u64 = legs.iter().map(|l| l["distinct_nontrivial"].as_u64().unwrap_or(0)).sum();
    let samples: Vec<Value> = legs.iter().flat_map(|l| {
        let name = l["leg"].clone();
        l["samples"].as_array().cloned().unwrap_or_default().into_iter().take(2).map(move |s| json!({"leg": name, "case": s}))
    }).collect();
    let rule = p.legs.iter().map(|l| format!("[{}] {}", l.name(), l.rule())).collect::<Vec<_>>().join(" ");
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": rule, "samples": samples,
            "legs": legs.iter().map(|l| { let mut l = l.clone(); l.as_object_mut().unwrap().remove("samples"); l }).collect::<Vec<_>>(),
            "exhaustive": false},
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&work);
    if let Some(v) = violation {
        let path = write_replay(p.id, &v);
        sys::out(&format!("{} {}: {}", p.id, v["leg"].as_str().unwrap_or(""), v["message"].as_str().unwrap_or("").chars().take(3000).collect::<String>()));
        sys::out(&format!("VIOLATION property={} replay={}", p.id, path));
        return 1;
    }
    if let Some(e) = error { sys::out(&format!("ERROR property={} {}", p.id, e)); return 2; }
    sys::out(&format!("OK property={} tier={} cases={} nontrivial={} wall={:.1}s", p.id, tier, evals, nontriv, t0.elapsed().as_secs_f64()));
    0
}
