//! Reporting: violations, evidence, parallel drivers.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub const MAX_VIOL: usize = 5;

pub struct Rep {
    pub id: String,
    pub tier: Tier,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    viol: Mutex<Vec<String>>,
    nviol: AtomicUsize,
    known: Vec<(String, String)>,
    known_hit: Mutex<std::collections::BTreeMap<String, (u64, String)>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
    stop: AtomicBool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".into() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_PANIC").is_some() { eprintln!("panic {m} at {l}"); }
        if m.starts_with("unsafe precondition") || m.contains("cannot unwind") {
            // this one ends the process: leave the description for the supervising process
            let id = std::env::args().nth(1).unwrap_or_default();
            let _ = std::fs::create_dir_all(root().join("out"));
            let (w, item): (Vec<String>, u64) = SLOT.with(|s| (s.words.iter().map(|w| format!("{:016x}", w.load(Relaxed))).collect(), s.item.load(Relaxed)));
            let bt = std::backtrace::Backtrace::force_capture();
            let _ = std::fs::write(root().join("out").join(format!("{id}-crash.txt")), format!("{m} at {l}\nwork item {item}, input words {w:?}\n{bt}\n"));
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// Watchdog: a call into the code under test that does not come back for this long is a hang.
const HANG_S: u64 = 40;
static TICK: AtomicU64 = AtomicU64::new(1);
#[derive(Default)]
pub struct Slot { since: AtomicU64, item: AtomicU64, words: [AtomicU64; 4] }
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: &'static Slot = { let s: &'static Slot = Box::leak(Box::default()); SLOTS.lock().unwrap().push(s); s };
}
/// Stores a description of the current input for the watchdog's report.
#[inline]
pub fn describe_input(w: [u64; 4]) { SLOT.with(|s| for (a, b) in s.words.iter().zip(w) { a.store(b, Relaxed) }) }
pub fn start_watchdog(id: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let t = TICK.fetch_add(1, Relaxed) + 1;
        for s in SLOTS.lock().unwrap().iter() {
            let b = s.since.load(Relaxed);
            if b != 0 && t > b + HANG_S {
                let p = root().join("out").join(format!("{id}-hang.txt"));
                let _ = std::fs::create_dir_all(root().join("out"));
                let w: Vec<String> = s.words.iter().map(|w| format!("{:016x}", w.load(Relaxed))).collect();
                let m = format!("a single call into the code under test has not returned for {HANG_S} s (work item {}, input words {w:?})", s.item.load(Relaxed));
                let _ = std::fs::write(&p, &m);
                println!("{m}\nVIOLATION property={id} replay={}", p.display());
                std::process::exit(1);
            }
        }
    });
}

/// Runs f, mapping a panic to its message.
#[inline]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    SLOT.with(|s| s.since.store(TICK.load(Relaxed), Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()));
    SLOT.with(|s| s.since.store(0, Relaxed));
    r
}

impl Rep {
    pub fn new(id: &str, tier: Tier) -> Self {
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
            for l in s.lines() {
                // KNOWN property=<id> key=<key> <text>
                if let Some(rest) = l.strip_prefix(&format!("known: property={id} key=")) {
                    let (k, t) = rest.split_once(' ').unwrap_or((rest, ""));
                    known.push((k.to_string(), t.to_string()));
                }
            }
        }
        Rep { id: id.into(), tier, t0: Instant::now(), states: 0.into(), transitions: 0.into(), traces: 0.into(),
            viol: Mutex::new(vec![]), nviol: 0.into(), known, known_hit: Mutex::new(Default::default()),
            samples: Mutex::new(vec![]), notes: Mutex::new(vec![]), bounds: Mutex::new(vec![]),
            stop: AtomicBool::new(false) }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn add(&self, states: u64, trans: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(trans, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 { let s = s(); if !v.contains(&s) { v.push(s) } }
    }
    pub fn note(&self, s: impl Into<String>) { self.notes.lock().unwrap().push(s.into()) }
    pub fn bound(&self, s: impl Into<String>) { self.bounds.lock().unwrap().push(s.into()) }
    /// Reports a violation.
    pub fn violation(&self, text: String) { self.violation_keyed("", text) }
    /// `key` identifies the failing site/input for the known-findings file.
    pub fn violation_keyed(&self, key: &str, text: String) {
        if !key.is_empty() {
            if let Some((k, t)) = self.known.iter().find(|(k, _)| k == key) {
                let mut h = self.known_hit.lock().unwrap();
                h.entry(k.clone()).or_insert_with(|| (0, t.clone())).0 += 1;
                return;
            }
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < MAX_VIOL {
            self.viol.lock().unwrap().push(if key.is_empty() { text } else { format!("key={key}\n{text}") });
        }
        if n + 1 >= MAX_VIOL { self.stop.store(true, Relaxed) }
    }
    pub fn viols(&self) -> usize { self.nviol.load(Relaxed) }

    pub fn finish(self) -> i32 {
        let out = root().join("out");
        let wall = self.t0.elapsed().as_secs_f64();
        let viol = self.viol.into_inner().unwrap();
        let n = self.nviol.load(Relaxed);
        let notes = self.notes.into_inner().unwrap();
        let bounds = self.bounds.into_inner().unwrap();
        let known: Vec<_> = self.known_hit.into_inner().unwrap().into_iter().collect();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let (s, t, tr) = (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let mut assumptions: Vec<serde_json::Value> = vec![
            "the reference model in mc/src is the intended behaviour".into(),
            "behaviour outside the enumerated bounds is not explored".into()];
        for b in &notes { assumptions.push(b.clone().into()) }
        let ev = serde_json::json!({
            "property": self.id, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": s, "transitions": t, "traces_validated_against_impl": tr,
                "samples": self.samples.into_inner().unwrap(),
                "bounds": bounds,
                "exhaustive": n == 0 && !self.stop.load(Relaxed),
                "known_findings_hit": known.iter().map(|(k, (c, _))| format!("{k} x{c}")).collect::<Vec<_>>(),
            },
            "assumptions": assumptions,
            "wall_s": wall, "violations": n,
        });
        let _ = std::fs::create_dir_all(root().join("evidence"));
        std::fs::write(root().join("evidence").join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        for (k, (_, text)) in &known {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, text, k);
        }
        println!("{}: states={} transitions={} traces={} violations={} {:.1}s", self.id, s, t, tr, n, wall);
        if n > 0 {
            let _ = std::fs::create_dir_all(&out);
            for (i, v) in viol.iter().enumerate() {
                let p = out.join(format!("{}-{}.txt", self.id, i));
                let _ = std::fs::write(&p, v);
                println!("--- {}\n{}", p.display(), v);
                println!("VIOLATION property={} replay={}", self.id, p.display());
            }
            return 1;
        }
        if s == 0 || tr == 0 { eprintln!("{}: nothing was explored", self.id); return 2; }
        0
    }
}

pub fn root() -> std::path::PathBuf {
    std::env::var_os("MC_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn nthreads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) }

/// Distributes items 0..n over the cores; `init` makes per-thread state.
/// A panic that escapes `f` is reported as a violation for that item.
pub fn par<S>(rep: &Rep, n: usize, init: impl Fn() -> S + Sync, f: impl Fn(&mut S, usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..nthreads() {
            sc.spawn(|| {
                let mut s = init();
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || rep.stopped() { break }
                    SLOT.with(|s| s.item.store(i as u64, Relaxed));
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut s, i))).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()));
                    if let Err(m) = r {
                        rep.violation(format!("panic while exploring item {i}: {m}"));
                        s = init();
                    }
                }
            });
        }
    });
}
