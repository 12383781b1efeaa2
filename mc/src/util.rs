//! Common machinery: reporting, evidence, known findings, work distribution, scratch directories.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub known: Vec<(String, String)>,
    counters: Mutex<BTreeMap<String, u64>>,
    pub evaluations: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, String)>>,
    findings: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<Vec<String>>,
    incomplete: Mutex<Vec<String>>,
    pub stop: AtomicBool,
}

pub const MAX_VIOLATIONS: usize = 5;

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Ctx {
        let verif = PathBuf::from(std::env::var_os("PFPMC_VERIF").unwrap_or("/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let base = if Path::new("/dev/shm").is_dir() && std::fs::write(format!("/dev/shm/pfpmc-test-{}", std::process::id()), "x").is_ok() {
            let _ = std::fs::remove_file(format!("/dev/shm/pfpmc-test-{}", std::process::id()));
            "/dev/shm"
        } else {
            "/tmp"
        };
        let scratch = PathBuf::from(format!("{}/pfpmc-{}-{}", base, id, std::process::id()));
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(verif.join("known_findings.jsonl")) {
            for line in text.lines().filter(|l| !l.trim().is_empty()) {
                if line.starts_with("fixed:") {
                    continue;
                }
                let v: Value = serde_json::from_str(line).expect("known_findings.jsonl");
                if v["property"] == id {
                    known.push((
                        v["key"].as_str().expect("key").to_string(),
                        v["what"].as_str().expect("what").to_string(),
                    ));
                }
            }
        }
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { 1500 } else { 420 }),
            verif,
            scratch,
            known,
            counters: Default::default(),
            evaluations: Default::default(),
            states: Default::default(),
            transitions: Default::default(),
            traces: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
            violations: Default::default(),
            findings: Default::default(),
            notes: Default::default(),
            incomplete: Default::default(),
            stop: AtomicBool::new(false),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn eval(&self, n: u64) {
        self.evaluations.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_default() += n;
    }
    pub fn outcome(&self, name: &str) {
        let mut o = self.outcomes.lock().unwrap();
        if let Some(v) = o.get_mut(name) {
            *v += 1;
        } else if o.len() < 400 {
            o.insert(name.chars().take(80).collect(), 1);
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut samples = self.samples.lock().unwrap();
        if samples.len() < 12 {
            let mut t = s();
            if t.len() > 600 {
                let mut cut = 600;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
            }
            samples.push(t);
        }
    }
    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }
    /// Something was cut off by time: recorded in the evidence, never silent.
    pub fn incomplete(&self, s: &str) {
        self.incomplete.lock().unwrap().push(s.to_string());
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    /// Reports that the property is broken. `key` identifies the failing input, site or history.
    pub fn violation(&self, key: &str, details: String) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == key) {
            *self.findings.lock().unwrap().entry(k.clone()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            eprintln!("violation [{}]: {}", key, details);
            v.push((key.to_string(), details));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }
    pub fn has_violations(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// Runs `f` for all indices on all cores.
    pub fn par<F: Fn(usize) + Sync>(&self, n: usize, f: F) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(n.max(1));
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || self.stopped() {
                            break;
                        }
                        if self.out_of_time() {
                            self.incomplete(&format!("time budget used up at item {} of {}", i, n));
                            break;
                        }
                        f(i);
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish(self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let violations = self.violations.into_inner().unwrap();
        let findings = self.findings.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut incomplete = self.incomplete.into_inner().unwrap();
        incomplete.dedup();
        incomplete.truncate(10);
        let mut coverage = json!({
            "samples": self.samples.into_inner().unwrap(),
            "outcomes": self.outcomes.into_inner().unwrap(),
            "counters": self.counters.into_inner().unwrap(),
            "rule": rule,
            "exhaustive": incomplete.is_empty() && violations.is_empty(),
            "notes": self.notes.into_inner().unwrap(),
        });
        if !incomplete.is_empty() {
            coverage["not_completed"] = json!(incomplete);
        }
        let evals = self.evaluations.load(Ordering::SeqCst);
        let states = self.states.load(Ordering::SeqCst);
        match level {
            "model_checking" => {
                coverage["states"] = json!(states);
                coverage["transitions"] = json!(self.transitions.load(Ordering::SeqCst));
                coverage["traces_validated_against_impl"] = json!(self.traces.load(Ordering::SeqCst));
                if evals > 0 {
                    coverage["evaluations"] = json!(evals);
                }
            }
            _ => {
                coverage["evaluations"] = json!(evals);
                coverage["distinct_nontrivial"] = json!(states);
            }
        }
        let evidence = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": violations.len(),
            "known_findings_seen": findings,
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        )
        .expect("evidence file");
        let _ = std::fs::remove_dir_all(&self.scratch);
        for (key, what) in &self.known {
            if findings.contains_key(key) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            } else {
                println!("note: known finding not met in this run: {}", what);
            }
        }
        let replays = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&replays);
        for (n, (key, details)) in violations.iter().enumerate() {
            let path = replays.join(format!("{}-{}.txt", self.id, n));
            let _ = std::fs::write(&path, format!("property {}\nkey {}\n\n{}\n", self.id, key, details));
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        println!(
            "{}: {} evaluations, {} states, {} transitions, {:.1} s, {} violations",
            self.id,
            evals,
            states,
            self.transitions.load(Ordering::SeqCst),
            wall,
            violations.len()
        );
        if violations.is_empty() {
            0
        } else {
            1
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs code of the program under test, a panic is returned as an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn set<T: Ord + Clone>(v: &[T]) -> BTreeSet<T> {
    v.iter().cloned().collect()
}
