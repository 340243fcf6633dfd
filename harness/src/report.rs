//! Result file of a run: counts, failures (each a self-contained case), samples.
use serde_json::{json, Map, Value};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Panics of the code under test are data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
fn panic_text(e: &Box<dyn Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    format!("panic: {}", s)
}

pub const MAX_FAILURES: usize = 40;

#[derive(Default)]
pub struct Report {
    pub evaluations: AtomicU64,
    pub failures: Mutex<Vec<Value>>,
    pub failed: AtomicU64,
    pub samples: Mutex<Vec<Value>>,
    pub counters: Mutex<Map<String, Value>>,
    pub trace: Mutex<Vec<Value>>,
}

impl Report {
    pub fn eval(&self) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
    }
    pub fn fail(&self, what: &str, detail: String, case: Value) {
        self.failed.fetch_add(1, Ordering::Relaxed);
        let mut f = self.failures.lock().unwrap();
        if f.len() < MAX_FAILURES {
            f.push(json!({"what": what, "detail": detail, "case": case}));
        }
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 3 {
            s.push(v());
        }
    }
    pub fn count(&self, key: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let old = c.get(key).and_then(|v| v.as_u64()).unwrap_or(0);
        c.insert(key.to_string(), json!(old + n));
    }
    pub fn write(&self, path: &str) {
        let v = json!({
            "evaluations": self.evaluations.load(Ordering::Relaxed),
            "failed": self.failed.load(Ordering::Relaxed),
            "failures": *self.failures.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "counters": *self.counters.lock().unwrap(),
            "trace": *self.trace.lock().unwrap(),
        });
        std::fs::write(path, v.to_string()).expect("write result");
    }
}

/// Runs f(i) for i in 0..n on all cores. A case that takes longer than `limit`
/// seconds is reported as a failure and ends the run.
pub fn parallel(n: usize, out: &str, rep: &Report, limit: u64, f: impl Fn(usize) + Sync) {
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = AtomicUsize::new(0);
    let started: Vec<Mutex<Option<(usize, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (next, started, f) = (&next, &started, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            *started[k].lock().unwrap() = None;
                            break;
                        }
                        *started[k].lock().unwrap() = Some((i, Instant::now()));
                        f(i);
                    })
                    .unwrap()
            })
            .collect();
        let (started, done) = (&started, &done);
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for t in started {
                    if let Some((i, at)) = *t.lock().unwrap() {
                        if at.elapsed() > Duration::from_secs(limit) {
                            rep.fail("hang", format!("no answer within {} s", limit), json!({"index": i}));
                            rep.write(out);
                            std::process::exit(0);
                        }
                    }
                }
            }
        });
        let mut bad = false;
        for h in hs {
            bad |= h.join().is_err();
        }
        done.store(true, Ordering::Relaxed);
        if bad {
            eprintln!("harness thread panicked");
            std::process::exit(3);
        }
    });
}

pub fn read_json(path: &str) -> Value {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    serde_json::from_str(&s).unwrap_or_else(|e| panic!("{}: {}", path, e))
}

/// all cases of a file (an array, or an object with one case) or of every json file of a directory
pub fn read_cases(path: &str) -> Vec<Value> {
    let p = std::path::Path::new(path);
    let mut files = vec![];
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            let f = e.unwrap().path();
            if f.extension().map(|x| x == "json").unwrap_or(false) {
                files.push(f);
            }
        }
        files.sort();
    } else {
        files.push(p.to_path_buf());
    }
    let mut out = vec![];
    for f in files {
        match read_json(f.to_str().unwrap()) {
            Value::Array(a) => out.extend(a),
            v => out.push(v),
        }
    }
    out
}

/// xorshift generator for choices that carry no expectation
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n as u64) as usize
    }
}
