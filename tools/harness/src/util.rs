use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub end: Instant,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<String>,
    pub known: Vec<String>,
    pub work: String,
    pub min_cases: u64,
    pub trace: Option<String>,
    pub known_keys: Vec<String>,
}
pub static CASE_START: AtomicU64 = AtomicU64::new(0);
pub static CASE_LIMIT_MS: AtomicU64 = AtomicU64::new(30_000);
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
// a case that runs far beyond its normal microseconds is reported as non-terminating
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(250));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now_ms() > s + CASE_LIMIT_MS.load(Ordering::SeqCst) {
            println!("HANG");
            std::process::exit(3);
        }
    });
}

impl Ctx {
    pub fn new(seed: u64, millis: u64, work: &str) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            rng: Rng::new(seed),
            end: Instant::now() + Duration::from_millis(millis),
            cases: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fail: None,
            known: vec![],
            work: work.into(),
            min_cases: 30,
            trace: std::env::var("HARNESS_TRACE").ok(),
            known_keys: std::env::var("KNOWN_KEYS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        }
    }
    pub fn go(&self) -> bool {
        self.fail.is_none() && (Instant::now() < self.end || self.cases < self.min_cases)
    }
    // one case: key identifies it, nontrivial says whether it counts, f returns Err(description) on a violation
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: impl Fn() -> String, nontrivial: bool, f: F) {
        self.cases += 1;
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, desc());
        }
        CASE_START.store(now_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, Ordering::SeqCst);
        if nontrivial {
            let d = desc();
            let mut h = DefaultHasher::new();
            d.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 && self.cases % 7 == 3 {
                self.samples.push(d);
            }
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                // "[KF:key] text": a finding recorded in known-findings.txt
                if let Some(r) = e.strip_prefix("[KF:") {
                    let (k, t) = r.split_once("] ").unwrap();
                    if self.known_keys.iter().any(|x| x == k) {
                        let line = format!("{}", t);
                        if !self.known.contains(&line) {
                            self.known.push(line);
                        }
                        return;
                    }
                }
                let d = desc();
                if self.fail.is_none() {
                    self.fail = Some(format!("input: {}\n{}", d, e));
                }
            }
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
                if self.fail.is_none() {
                    self.fail = Some(format!("input: {}\nthe code panicked: {}", desc(), m));
                }
            }
        }
    }
    pub fn report(&self) {
        println!("CASES {}", self.cases);
        println!("DISTINCT {}", self.distinct.len());
        for s in &self.samples {
            println!("SAMPLE {}", s.replace('\n', " "));
        }
        for k in &self.known {
            println!("KNOWN {}", k);
        }
        if let Some(f) = &self.fail {
            println!("FAIL-BEGIN\n{}\nFAIL-END", f);
        }
    }
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
