//! Counters, violations, known findings, evidence files, exit status.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const VERIF: &str = "/verif";

/// How many violations are collected before enumeration may stop (VC_CAP: for development).
fn cap() -> u64 {
    static C: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *C.get_or_init(|| std::env::var("VC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(20))
}

#[derive(Default)]
struct Inner {
    violations: Vec<(String, Value)>,
    known: BTreeMap<String, u64>,
    samples: Vec<Value>,
    notes: Map<String, Value>,
    assumptions: Vec<String>,
}

pub struct Report {
    pub id: String,
    pub tier: String,
    start: Instant,
    known_keys: Vec<(String, String)>,
    inner: Mutex<Inner>,
    /// distinct inputs / programs / object states enumerated
    pub states: AtomicU64,
    /// operations of the real code executed
    pub transitions: AtomicU64,
    /// executions of the real code whose result was compared with the reference model
    pub validated: AtomicU64,
    nviol: AtomicU64,
}

impl Report {
    pub fn new(id: &str) -> Report {
        let tier = std::env::args()
            .nth(2)
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let mut known_keys = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{VERIF}/known-findings.json")) {
            let v: Value = serde_json::from_str(&s).expect("known-findings.json is not JSON");
            for f in v["findings"].as_array().unwrap() {
                if f["property"] == id {
                    known_keys.push((
                        f["key"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        Report {
            id: id.into(),
            tier,
            start: Instant::now(),
            known_keys,
            inner: Mutex::default(),
            states: 0.into(),
            transitions: 0.into(),
            validated: 0.into(),
            nviol: 0.into(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn valid(&self, n: u64) {
        self.validated.fetch_add(n, Ordering::Relaxed);
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.inner.lock().unwrap().notes.insert(k.into(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 5 {
            let v = v();
            i.samples.push(v);
        }
    }
    /// Report a failure; `key` identifies the specific input (compared with known-findings.json).
    pub fn fail(&self, key: &str, what: &str, replay: Value) {
        if self.known_keys.iter().any(|k| k.0 == key) {
            *self.inner.lock().unwrap().known.entry(key.into()).or_default() += 1;
            return;
        }
        let n = self.nviol.fetch_add(1, Ordering::Relaxed);
        if std::env::var("VC_DUMP").is_ok() {
            eprintln!("DUMP [{key}] {}", what.replace('\n', " // "));
        }
        if n < cap() {
            let mut i = self.inner.lock().unwrap();
            i.violations.push((format!("[{key}] {what}"), replay));
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known_keys.iter().any(|k| k.0 == key)
    }
    pub fn failed(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) > 0
    }
    /// Enough violations were collected; enumeration may stop.
    pub fn saturated(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= cap()
    }
    pub fn finish(self) -> ! {
        let i = self.inner.into_inner().unwrap();
        let nv = self.nviol.load(Ordering::Relaxed);
        let mut cov = json!({
            "states": self.states.load(Ordering::Relaxed),
            "transitions": self.transitions.load(Ordering::Relaxed),
            "traces_validated_against_impl": self.validated.load(Ordering::Relaxed),
            "samples": i.samples,
            "exhaustive": nv == 0,
        });
        for (k, v) in i.notes {
            cov[k] = v;
        }
        cov["known_findings_seen"] = json!(i.known);
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == "thorough" { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            "level": "model_checking",
            "coverage": cov,
            "assumptions": i.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nv,
        });
        let dir = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or(format!("{VERIF}/evidence"));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            format!("{dir}/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .unwrap();
        for (k, what) in &self.known_keys {
            if let Some(n) = i.known.get(k) {
                println!("KNOWN-FINDING: property={} {what} (key {k}; {n} cases)", self.id);
            }
        }
        println!(
            "{}: states={} transitions={} validated={} violations={nv} wall={:.1}s",
            self.id,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.validated.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        if nv > 0 {
            let rd = format!("{VERIF}/replay");
            std::fs::create_dir_all(&rd).unwrap();
            for (n, (what, replay)) in i.violations.iter().enumerate() {
                let path = format!("{rd}/{}-{n}.json", self.id);
                let body = json!({"property": self.id, "what": what, "case": replay});
                std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                if n < 4 {
                    println!("  {}", what.chars().take(1500).collect::<String>());
                }
                if n < 4 {
                    println!("VIOLATION property={} replay={path}", self.id);
                }
            }
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}

/// Run `f(i)` for all i in 0..n on all cores (static interleaving; no ordering dependence).
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let chunk = (n / 512).clamp(1, 256);
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(16);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..threads {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            f(i);
                        }
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("a worker thread of the check panicked");
                std::process::exit(101);
            }
        }
    });
}
