//! Exploration driver: parallel enumeration, counting, violations, evidence.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const SHARDS: usize = 64;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    shards: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    extra_states: AtomicU64,
    violations: Mutex<Vec<String>>,
    nviol: AtomicU64,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    params: Mutex<BTreeMap<String, String>>,
    counts: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    truncated: AtomicBool,
    harness_error: Mutex<Option<String>>,
    /// (item serial, start ms) per worker; 0 = idle
    busy: Vec<AtomicU64>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Whether a panic location belongs to this harness (and not to the code under test).
fn harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/mc/src/")
}

/// Err(Ok(..)) = the code under test panicked, Err(Err(..)) = the harness did.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let text = format!("panic at {loc}: {msg}");
            Err(if harness_loc(&loc) { Err(text) } else { Ok(text) })
        }
    }
}

/// Runs code under test; a panic in it becomes an Err message. Harness panics propagate.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match guard(f) {
        Ok(r) => Ok(r),
        Err(Ok(p)) => Err(format!("{what}: {p}")),
        Err(Err(p)) => panic!("{p}"),
    }
}

pub fn hash(h: &impl Hash) -> u64 {
    let mut d = DefaultHasher::new();
    h.hash(&mut d);
    d.finish()
}

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Ctx {
        let known = std::fs::read_to_string(root().join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, r) = l.split_once(' ')?;
                if p != id {
                    return None;
                }
                let r = r.strip_prefix("key=")?;
                let (k, what) = r.split_once(' ')?;
                Some((k.to_owned(), what.to_owned()))
            })
            .collect();
        Ctx {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            shards: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            extra_states: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            params: Mutex::new(BTreeMap::new()),
            counts: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            truncated: AtomicBool::new(false),
            harness_error: Mutex::new(None),
            busy: (0..WORKERS * 2).map(|_| AtomicU64::new(0)).collect(),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn state(&self, h: &impl Hash) -> bool {
        let x = hash(h);
        self.shards[(x >> 58) as usize].lock().unwrap().insert(x)
    }
    /// States counted without being stored (an enumeration which cannot repeat).
    pub fn states_add(&self, n: u64) {
        self.extra_states.fetch_add(n, Relaxed);
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn param(&self, k: &str, v: impl ToString) {
        self.params.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            let mut t = f();
            if t.len() > 300 {
                let mut n = 300;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
            }
            s.push(t);
        }
    }
    /// Says that not everything within the bounds was explored.
    pub fn truncate(&self) {
        self.truncated.store(true, Relaxed);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn fail(&self, msg: String) {
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 || (v.len() < 200_000 && std::env::var("MC_ALL").is_ok()) {
            v.push(msg);
        }
        if self.nviol.load(Relaxed) >= 20 && std::env::var("MC_ALL").is_err() {
            self.stop.store(true, Relaxed);
        }
    }
    /// A mismatch which has an identity: a known finding if it is listed, otherwise a violation.
    pub fn fail_keyed(&self, key: &str, msg: String) {
        if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(k.clone(), what.clone());
        } else {
            self.fail(format!("[key={key}] {msg}"));
        }
    }
    pub fn check(&self, desc: impl FnOnce() -> String, r: Result<(), String>) {
        if let Err(e) = r {
            self.fail(format!("{}\n  case: {}", e, desc()));
        }
    }
    fn harness(&self, e: String) {
        *self.harness_error.lock().unwrap() = Some(e);
        self.stop.store(true, Relaxed);
    }

    /// Runs `f` on every index below n, on all workers.
    pub fn par(&self, n: usize, desc: impl Fn(usize) -> String + Sync, f: impl Fn(usize) -> Result<(), String> + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (WORKERS * 64)).clamp(1, 256);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (next, desc, f) = (&next, &desc, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || self.stopped() {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            self.busy[w].store(self.start.elapsed().as_secs() + 1, Relaxed);
                            match guard(|| f(i)) {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => self.fail(format!("{e}\n  case: {}", desc(i))),
                                Err(Ok(p)) => self.fail(format!("{p}\n  case: {}", desc(i))),
                                Err(Err(p)) => {
                                    self.harness(format!("{p}\n  case: {}", guard(|| desc(i)).unwrap_or_default()));
                                    break;
                                }
                            }
                        }
                        self.busy[w].store(0, Relaxed);
                    })
                    .unwrap();
            }
        });
    }

    pub fn watchdog(self: &std::sync::Arc<Self>) {
        let c = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = c.start.elapsed().as_secs() + 1;
            for b in &c.busy {
                let t = b.load(Relaxed);
                if t != 0 && now - t > 240 {
                    c.fail("one execution has not ended after 240 s".into());
                    let code = c.finish();
                    std::process::exit(code);
                }
            }
        });
    }

    /// Writes the evidence and prints the verdict. Returns the exit status.
    pub fn finish(&self) -> i32 {
        if let Some(e) = self.harness_error.lock().unwrap().as_ref() {
            if self.nviol.load(Relaxed) == 0 {
                println!("ERROR in the harness: {e}");
                return 2;
            }
        }
        let n = self.nviol.load(Relaxed);
        let states: u64 = self.shards.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>() + self.extra_states.load(Relaxed);
        let traces = self.traces.load(Relaxed);
        let trans = self.transitions.load(Relaxed).max(1);
        for (k, what) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k);
        }
        let mut replay = None;
        if n > 0 {
            let p = root().join("evidence").join(format!("{}.replay.txt", self.id));
            let vs = self.violations.lock().unwrap();
            let _ = std::fs::create_dir_all(root().join("evidence"));
            let _ = std::fs::write(&p, format!("property {}\n{} violations, the first {}:\n\n{}\n", self.id, n, vs.len(), vs.join("\n\n")));
            for v in vs.iter().take(3) {
                println!("{v}");
            }
            replay = Some(p);
        }
        let known: Vec<String> = self.known_hit.lock().unwrap().keys().cloned().collect();
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": trans,
                "traces_validated_against_impl": traces,
                "samples": *self.samples.lock().unwrap(),
                "exhaustive": !self.truncated.load(Relaxed),
                "bounds": *self.params.lock().unwrap(),
                "counts": *self.counts.lock().unwrap(),
                "known_findings_seen": known,
            },
            "wall_s": self.elapsed(),
            "violations": n,
        });
        write_evidence(&self.id, &ev);
        println!(
            "{} {}: states={} transitions={} executions={} violations={} {:.1}s {:?}",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            states,
            trans,
            traces,
            n,
            self.elapsed(),
            self.counts.lock().unwrap()
        );
        if let Some(p) = replay {
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        if traces == 0 {
            println!("ERROR: nothing was explored");
            return 2;
        }
        0
    }
}

pub fn write_evidence(id: &str, ev: &serde_json::Value) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap());
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().take(400).map(|x| format!("{x:02x}")).collect()
}

/// Names the case being run, for the report of a crash.
pub fn note(id: &str, what: &str) {
    let _ = std::fs::write(root().join("evidence").join(format!("{id}.current.txt")), what);
}
