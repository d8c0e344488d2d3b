use std::{
    collections::HashSet,
    hash::{Hash, Hasher},
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::{Duration, Instant},
};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub rule: String,
    pub exhaustive: Vec<String>,
    out: String,
    cur: std::fs::File,
    started: Arc<AtomicU64>,
    t0: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fail: Option<(String, String)>,
    /// seconds after which no further case is tried (0: no limit)
    budget: u64,
    over: bool,
}

/// seconds a single case may take
const CASE_LIMIT: u64 = 20;

impl Cx {
    pub fn new(prop: &str, thorough: bool, seed: u64, out: &str) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let cur_path = format!("{out}.cur");
        let cur = std::fs::File::create(&cur_path).unwrap();
        let started = Arc::new(AtomicU64::new(0));
        let t0 = Instant::now();
        {
            // a case that does not end is a violation
            let started = started.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let s = started.load(Ordering::SeqCst);
                if s != 0 && t0.elapsed().as_secs() + 1 > s + CASE_LIMIT {
                    eprintln!("a case did not end within {CASE_LIMIT} s");
                    std::process::exit(99);
                }
            });
        }
        Cx {
            prop: prop.into(),
            thorough,
            rng: Rng::new(seed),
            rule: String::new(),
            exhaustive: vec![],
            out: out.into(),
            cur,
            started,
            t0,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fail: None,
            budget: std::env::var("HARNESS_BUDGET").ok().and_then(|b| b.parse().ok()).unwrap_or(0),
            over: false,
        }
    }

    pub fn failed(&self) -> bool {
        self.fail.is_some() || self.over
    }

    /// quick or thorough number of random cases
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    /// Runs one case.  `desc` writes the input out; `f` reports what is wrong.
    pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.budget != 0 && !self.over && self.t0.elapsed().as_secs() >= self.budget {
            self.over = true;
            self.exhaustive.push(format!("ended after its budget of {} s; what is listed after this was not run in full", self.budget));
        }
        if self.failed() {
            return false;
        }
        let d = desc();
        let b = d.as_bytes();
        let _ = self.cur.write_at(&(b.len() as u64).to_le_bytes(), 0);
        let _ = self.cur.write_at(b, 8);
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            d.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.distinct.len() % 997 == 0)) {
                self.samples.push(d.clone());
            }
        }
        self.started.store(self.t0.elapsed().as_secs() + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.started.store(0, Ordering::SeqCst);
        match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.fail = Some((d, e));
                false
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_default();
                self.fail = Some((d, format!("panicked: {m}")));
                false
            }
        }
    }

    pub fn replace_failure(&mut self, d: String, e: String) {
        self.fail = Some((d, e));
    }
    pub fn failure(&self) -> Option<&(String, String)> {
        self.fail.as_ref()
    }

    pub fn finish(self) -> bool {
        let v = serde_json::json!({
            "property": self.prop,
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "exhaustive_parts": self.exhaustive,
            "samples": self.samples.iter().map(|s| s.chars().take(400).collect::<String>()).collect::<Vec<_>>(),
            "seconds": self.t0.elapsed().as_secs_f64(),
            "violation": self.fail.as_ref().map(|(d, e)| serde_json::json!({"input": d, "observed": e})),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        let _ = std::fs::remove_file(format!("{}.cur", self.out));
        self.fail.is_some()
    }
}
