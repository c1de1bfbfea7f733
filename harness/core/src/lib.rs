//! Shared runtime for the monitors: case scheduling, deterministic randomness,
//! violation reporting, evidence.
//!
//! A *check* is a list of *stages*; a stage runs a number of *cases*, each a
//! closure over a [`Case`] (its own RNG and counters) that drives the real
//! code and lets an oracle watch it. `Err` (or a panic, or a crash of the
//! process, or a case that never ends) is a violation.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use rand;
pub use rand::prelude::*;
pub use rand_chacha::ChaCha8Rng as Rng8;
use serde_json::{json, Map, Value};

pub type R<T = ()> = Result<T, String>;

/// `check!(cond, "message {}", x)` returns an `Err` from the enclosing oracle.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: observed {:?}, specified {:?}", format!($($t)*), a, b));
        }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub struct Case {
    pub rng: Rng8,
    pub stage: &'static str,
    pub index: usize,
    counters: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    evals: u64,
    samples: Vec<String>,
    trace: Vec<String>,
    pub tier_thorough: bool,
}

impl Case {
    /// A case of no stage, for workloads that are the same in every run.
    pub fn detached(seed: u64, index: usize) -> Case {
        Case {
            rng: Rng8::seed_from_u64(hash64(&(seed, "detached", index))),
            stage: "detached",
            index,
            counters: BTreeMap::new(),
            distinct: vec![],
            evals: 0,
            samples: vec![],
            trace: vec![],
            tier_thorough: false,
        }
    }
    /// Count `n` observed events of kind `k`.
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    /// One oracle evaluation.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// Record a non-trivial observation by what distinguishes it.
    pub fn distinct<T: Hash>(&mut self, t: T) {
        if self.distinct.len() < 200_000 {
            self.distinct.push(hash64(&t));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// Append to the case's event log, which goes into the replay file.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.len() < 4000 {
            self.trace.push(f());
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            self.rng.gen_range(0..n)
        }
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
struct Violation {
    stage: String,
    index: usize,
    msg: String,
    trace: Vec<String>,
}

struct Worker {
    started: AtomicU64, // ms since start + 1; 0: idle
    stage: AtomicUsize,
    index: AtomicUsize,
}

pub struct Check {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    rule: String,
    level: String,
    start: Instant,
    deadline: Duration,
    only: Option<(String, usize)>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    stages: Vec<Value>,
    violations: Vec<Violation>,
    known_hits: BTreeMap<String, String>,
    assumptions: Vec<String>,
    notes: Vec<String>,
    extra: Map<String, Value>,
    known: Vec<(String, String, String)>,
    stage_names: &'static Mutex<Vec<String>>,
    threads: usize,
    inconclusive: Vec<String>,
    min_events: Vec<(String, u64)>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

static WORKERS: Mutex<Vec<&'static Worker>> = Mutex::new(Vec::new());
static STAGES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HANG_MS: AtomicU64 = AtomicU64::new(150_000);
static DONE: AtomicBool = AtomicBool::new(false);

fn progress_path(prop: &str) -> PathBuf {
    verif_dir().join("replays").join(format!(".progress-{prop}-{}", std::process::id()))
}

/// Runs `f` for property `prop` in a supervised child process, and never
/// returns. `f` drives the stages.
pub fn main_with(table: &[(&str, fn(&mut Check))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some((_, f)) = table.iter().find(|(p, _)| *p == prop) else {
        eprintln!("usage: {} <property> [--only STAGE:INDEX] ; properties: {:?}", args[0], table.iter().map(|t| t.0).collect::<Vec<_>>());
        std::process::exit(2);
    };
    if std::env::var("VH_CHILD").is_err() {
        supervise(&prop, &args);
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    let mut i = 2;
    while i < args.len() {
        if args[i] == "--only" {
            let (s, n) = args[i + 1].rsplit_once(':').expect("STAGE:INDEX");
            only = Some((s.to_string(), n.parse().unwrap()));
            i += 1;
        } else if args[i] == "--replay" {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
            seed = v["seed"].as_u64().unwrap();
            only = Some((v["stage"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap() as usize));
            i += 1;
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if std::env::var("VH_BT").is_ok() {
            eprintln!("PANIC {msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg} @ {loc}")));
    }));
    let _ = std::fs::create_dir_all(verif_dir().join("replays"));
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let known = load_known(&prop);
    let thorough = tier == "thorough";
    let deadline = std::env::var("VH_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
    let mut c = Check {
        prop: prop.clone(),
        thorough,
        tier,
        seed,
        rule: String::new(),
        level: "exploration".into(),
        start: Instant::now(),
        deadline: Duration::from_secs(deadline),
        only,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        stages: vec![],
        violations: vec![],
        known_hits: BTreeMap::new(),
        assumptions: vec![],
        notes: vec![],
        extra: Map::new(),
        known,
        stage_names: &STAGES,
        threads: std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        inconclusive: vec![],
        min_events: vec![],
    };
    let prop2 = prop.clone();
    let t0 = c.start;
    std::thread::spawn(move || watchdog(prop2, t0, seed));
    let body = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    if body.is_err() {
        let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        // Not under a case: the harness itself failed.
        eprintln!("harness error: {m}");
        c.inconclusive.push(format!("harness error: {m}"));
    }
    DONE.store(true, Ordering::SeqCst);
    c.finish();
}

fn watchdog(prop: String, t0: Instant, seed: u64) {
    while !DONE.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_millis(250));
        let now = t0.elapsed().as_millis() as u64 + 1;
        let ws = WORKERS.lock().unwrap().clone();
        for w in ws {
            let s = w.started.load(Ordering::SeqCst);
            if s != 0 && now > s + HANG_MS.load(Ordering::SeqCst) {
                let stage = STAGES.lock().unwrap()[w.stage.load(Ordering::SeqCst)].clone();
                let index = w.index.load(Ordering::SeqCst);
                let path = write_replay(&prop, seed, &stage, index, "case does not terminate", &[]);
                println!("case {stage}:{index} still running after {} s", (now - s) / 1000);
                println!("VIOLATION property={prop} replay={}", path.display());
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    }
}

fn write_replay(prop: &str, seed: u64, stage: &str, index: usize, msg: &str, trace: &[String]) -> PathBuf {
    let p = verif_dir().join("replays").join(format!("{prop}-{seed}-{}-{index}.json", stage.replace(|c: char| !c.is_alphanumeric(), "_")));
    let v = json!({"property": prop, "seed": seed, "stage": stage, "index": index, "what": msg, "log": trace,
        "how": "in /verif: VERIF_SEED=<seed> ./run.sh <property> --only <stage>:<index>"});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn is_known(known: &[(String, String, String)], msg: &str) -> bool {
    known.iter().any(|(s, _, _)| !s.is_empty() && msg.contains(&format!("[{s}]")))
}
fn load_known(prop: &str) -> Vec<(String, String, String)> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| {
                    (
                        e["signature"].as_str().unwrap_or("").to_string(),
                        e["what"].as_str().unwrap_or("").to_string(),
                        e["property"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn supervise(prop: &str, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let _ = std::fs::create_dir_all(verif_dir().join("replays"));
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("VH_CHILD", "1")
        .spawn()
        .expect("spawn child");
    let pid = child.id();
    let st = child.wait().expect("wait");
    let prog = verif_dir().join("replays").join(format!(".progress-{prop}-{pid}"));
    let progress = std::fs::read_to_string(&prog).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        println!("INCONCLUSIVE property={prop}: ended by signal {sig}");
        std::process::exit(2);
    }
    let (stage, index) = progress.rsplit_once(' ').unwrap_or(("?", "0"));
    let (stage, index) = (stage.to_string(), index.trim().parse().unwrap_or(0));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let path = write_replay(prop, seed, &stage, index, &format!("the process died with signal {sig}"), &[]);
    println!("the process died with signal {sig} (last started case {stage}:{index})");
    println!("VIOLATION property={prop} replay={}", path.display());
    std::process::exit(1);
}

impl Check {
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn level(&mut self, s: &str) {
        self.level = s.to_string();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    pub fn extra(&mut self, k: &str, v: Value) {
        self.extra.insert(k.to_string(), v);
    }
    /// The check is vacuous (no answer) unless at least `n` events of kind `k` were seen.
    pub fn require(&mut self, k: &str, n: u64) {
        self.min_events.push((k.to_string(), n));
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn hang_limit(&self, secs: u64) {
        HANG_MS.store(secs * 1000, Ordering::SeqCst);
    }
    pub fn threads(&mut self, n: usize) {
        self.threads = n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Run `n` cases of `stage`.
    pub fn stage<F>(&mut self, stage: &'static str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let stage_idx = {
            let mut s = self.stage_names.lock().unwrap();
            s.push(stage.to_string());
            s.len() - 1
        };
        let range: Vec<usize> = match &self.only {
            Some((s, i)) if s == stage => vec![*i],
            Some(_) => return,
            None => (0..n).collect(),
        };
        if self.violations.len() >= 3 {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let out: Mutex<Vec<(Case, R)>> = Mutex::new(vec![]);
        let nt = self.threads.min(range.len()).max(1);
        let verbose = self.only.is_some();
        let (seed, start, deadline, prop, thorough) = (self.seed, self.start, self.deadline, self.prop.clone(), self.thorough);
        let timed_out = AtomicBool::new(false);
        let known = &self.known;
        let worker = |_k: usize| {
            let w: &'static Worker = Box::leak(Box::new(Worker {
                started: AtomicU64::new(0),
                stage: AtomicUsize::new(stage_idx),
                index: AtomicUsize::new(0),
            }));
            WORKERS.lock().unwrap().push(w);
            let mut agg: Option<Case> = None;
            let prog = progress_path(&prop);
            let mut last_prog = Instant::now() - Duration::from_secs(10);
            loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= range.len() || stop.load(Ordering::SeqCst) {
                    break;
                }
                if start.elapsed() > deadline {
                    timed_out.store(true, Ordering::SeqCst);
                    break;
                }
                let index = range[k];
                w.index.store(index, Ordering::SeqCst);
                w.started.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                if last_prog.elapsed() > Duration::from_millis(20) {
                    last_prog = Instant::now();
                    let _ = std::fs::write(&prog, format!("{stage} {index}"));
                }
                let mut case = Case {
                    rng: Rng8::seed_from_u64(hash64(&(seed, stage, index))),
                    stage,
                    index,
                    counters: BTreeMap::new(),
                    distinct: vec![],
                    evals: 0,
                    samples: vec![],
                    trace: vec![],
                    tier_thorough: thorough,
                };
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut case))).unwrap_or_else(|_| {
                    Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
                });
                w.started.store(0, Ordering::SeqCst);
                if verbose {
                    for l in &case.trace {
                        println!("  {l}");
                    }
                    println!("case {stage}:{index}: {r:?}");
                }
                if let (Err(m), true) = (&r, std::env::var_os("VH_SURVEY").is_some()) {
                    println!("SURVEY {stage}:{index} {}", m.chars().take(700).collect::<String>().replace('\n', " "));
                    continue;
                }
                if let Err(m) = &r {
                    if !is_known(known, m) {
                        stop.store(true, Ordering::SeqCst);
                    }
                    out.lock().unwrap().push((case, r));
                } else {
                    match &mut agg {
                        None => agg = Some(case),
                        Some(a) => {
                            for (k, v) in case.counters {
                                *a.counters.entry(k).or_insert(0) += v;
                            }
                            a.distinct.extend(case.distinct);
                            a.evals += case.evals;
                            if a.samples.len() < 2 {
                                a.samples.extend(case.samples);
                            }
                        }
                    }
                }
            }
            if let Some(a) = agg {
                out.lock().unwrap().push((a, Ok(())));
            }
            WORKERS.lock().unwrap().retain(|x| !std::ptr::eq(*x, w));
        };
        std::thread::scope(|s| {
            for k in 0..nt {
                let wk = &worker;
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || wk(k)).unwrap();
            }
        });
        let ran = next.load(Ordering::SeqCst).min(range.len());
        let mut ev = 0;
        for (case, r) in out.into_inner().unwrap() {
            ev += case.evals;
            for (k, v) in case.counters {
                *self.counters.entry(k).or_insert(0) += v;
            }
            self.distinct.extend(case.distinct);
            for s in case.samples {
                if self.samples.iter().filter(|x| x.starts_with(stage)).count() < 2 && self.samples.len() < 14 {
                    self.samples.push(format!("{stage}: {s}"));
                }
            }
            if let Err(msg) = r {
                if let Some((sig, _, _)) = self.known.iter().find(|(s, _, _)| !s.is_empty() && msg.contains(&format!("[{s}]"))) {
                    self.known_hits.insert(sig.clone(), msg);
                } else {
                    self.violations.push(Violation { stage: stage.to_string(), index: case.index, msg, trace: case.trace });
                }
            }
        }
        self.evals += ev;
        if timed_out.load(Ordering::SeqCst) {
            self.notes.push(format!("stage {stage}: stopped at the time limit after {ran} of {} cases", range.len()));
        }
        self.stages.push(json!({"stage": stage, "cases": ran, "evaluations": ev, "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}));
        eprintln!("[{}] stage {stage}: {ran} cases, {ev} evaluations, {:.1}s{}", self.prop, t0.elapsed().as_secs_f64(),
            if self.violations.is_empty() { "" } else { "  (violation)" });
    }

    /// Replays a recorded defect: `f` returns `Err` while the defect is still there.
    pub fn known_finding<F: Fn() -> R>(&mut self, sig: &str, f: F) {
        if self.only.is_some() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()));
        if let Err(m) = r {
            if self.known.iter().any(|(s, _, _)| s == sig) {
                self.known_hits.insert(sig.to_string(), m);
            } else {
                self.violations.push(Violation { stage: "known".into(), index: 0, msg: m, trace: vec![] });
            }
        }
    }

    fn finish(mut self) -> ! {
        let _ = std::fs::remove_file(progress_path(&self.prop));
        let wall = self.start.elapsed().as_secs_f64();
        for (k, n) in &self.min_events {
            let got = self.counters.get(k).copied().unwrap_or(0);
            if self.only.is_none() && got < *n && self.violations.is_empty() {
                self.inconclusive.push(format!("only {got} events of kind '{k}' were observed, {n} needed"));
            }
        }
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("observed_events".into(), json!(self.counters));
        cov.insert("stages".into(), json!(self.stages));
        if !self.notes.is_empty() {
            cov.insert("notes".into(), json!(self.notes));
        }
        if !self.inconclusive.is_empty() {
            cov.insert("inconclusive".into(), json!(self.inconclusive));
        }
        cov.extend(std::mem::take(&mut self.extra));
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0, "violations": self.violations.len(),
        });
        if self.only.is_none() {
            let p = verif_dir().join("evidence").join(format!("{}.json", self.prop));
            std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for (sig, what, _) in &self.known {
            if self.known_hits.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
            }
        }
        println!(
            "property={} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
            self.prop, self.tier, self.seed, self.evals, self.distinct.len(), wall
        );
        let mut code = 0;
        if !self.violations.is_empty() {
            for v in self.violations.iter().take(3) {
                let path = write_replay(&self.prop, self.seed, &v.stage, v.index, &v.msg, &v.trace);
                println!("{}:{}: {}", v.stage, v.index, v.msg.chars().take(1500).collect::<String>());
                println!("VIOLATION property={} replay={}", self.prop, path.display());
            }
            code = 1;
        } else if !self.inconclusive.is_empty() {
            for i in &self.inconclusive {
                println!("INCONCLUSIVE property={}: {i}", self.prop);
            }
            code = 2;
        }
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
}
