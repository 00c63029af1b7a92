//! Small helpers shared by all drivers.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::fs::File;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Bytes as a JSON array of numbers.
pub fn jb(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|&x| json!(x)).collect())
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap_or_else(|| panic!("not bytes: {}", v)).iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("not a string: {}", v))
}

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("not an int: {}", v))
}

pub fn boolean(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("not a bool: {}", v))
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("not an array: {}", v))
}

/// Sorted copy of a JSON array, to compare sets.
pub fn sorted(v: &Value) -> Value {
    let mut a = arr(v).clone();
    a.sort_by_key(|x| x.to_string());
    Value::Array(a)
}

pub fn for_each_line<F: FnMut(Value)>(path: &str, mut f: F) {
    let file = File::open(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    for line in BufReader::new(file).lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        f(serde_json::from_str(&line).unwrap_or_else(|e| panic!("bad line {}: {}", line, e)));
    }
}

/// Replay all vectors. A panic that isn't expected by the driver is a mismatch,
/// and so is a vector that never ends.
pub fn replay_all<F: FnMut(&mut Report, &Value)>(vectors: &str, report: &str, mut f: F) {
    let mut rep = Report::new();
    let current = std::env::var("RFH_CURRENT").ok();
    let watch = Arc::new(Mutex::new((0u64, Value::Null)));
    {
        let watch = watch.clone();
        let report = report.to_string();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let w = watch.lock().unwrap();
                if w.0 != last {
                    last = w.0;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(40) && last > 0 {
                    let mut rep = Report::new();
                    rep.replayed = last;
                    rep.fail("hang", &w.1, &json!("an end"), &json!("none within 40 seconds"));
                    rep.write(&report);
                    std::process::exit(0);
                }
            }
        });
    }
    for_each_line(vectors, |v| {
        if let Some(ref c) = current {
            std::fs::write(c, v.to_string()).unwrap();
        }
        {
            let mut w = watch.lock().unwrap();
            w.0 += 1;
            w.1 = v.clone();
        }
        rep.sample(&v);
        let result = guarded(|| f(&mut rep, &v));
        if let Err(e) = result {
            rep.fail("panic", &v, &json!("no panic"), &json!(e));
        }
    });
    rep.write(report);
}

pub struct Out(BufWriter<File>);

static TICKS: AtomicUsize = AtomicUsize::new(0);

/// End the process with code 3 if nothing is recorded for a long time.
pub fn watch_recording() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICKS.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(60) {
                std::process::exit(3);
            }
        }
    });
}

impl Out {
    pub fn new(path: &str) -> Out {
        Out(BufWriter::new(File::create(path).unwrap_or_else(|e| panic!("{}: {}", path, e))))
    }
    pub fn line(&mut self, v: &Value) {
        TICKS.fetch_add(1, Ordering::SeqCst);
        writeln!(self.0, "{}", v).unwrap();
    }
}

/// Result of replaying behaviours of the specification.
pub struct Report {
    pub replayed: u64,
    pub compared: u64,
    pub mismatches: Vec<Value>,
    pub mismatch_count: u64,
    pub samples: Vec<Value>,
    pub known: Vec<Value>,
}

impl Report {
    pub fn new() -> Report {
        Report { replayed: 0, compared: 0, mismatches: vec![], mismatch_count: 0, samples: vec![], known: vec![] }
    }
    /// Compare one observation with the expectation.
    pub fn check(&mut self, field: &str, vector: &Value, expected: &Value, observed: &Value) -> bool {
        self.compared += 1;
        if expected != observed {
            self.fail(field, vector, expected, observed);
            false
        } else {
            true
        }
    }
    pub fn fail(&mut self, field: &str, vector: &Value, expected: &Value, observed: &Value) {
        self.mismatch_count += 1;
        let same = self.mismatches.iter().filter(|m| m["field"] == field).count();
        if same < 20 {
            self.mismatches.push(json!({"field": field, "vector": vector, "expected": expected, "observed": observed}));
        }
    }
    pub fn sample(&mut self, vector: &Value) {
        self.replayed += 1;
        if self.samples.len() < 2 || (self.replayed % 4999 == 0 && self.samples.len() < 4) {
            self.samples.push(vector.clone());
        }
    }
    pub fn write(&self, path: &str) {
        let mut o = Out::new(path);
        o.line(&json!({
            "replayed": self.replayed,
            "compared": self.compared,
            "mismatch_count": self.mismatch_count,
            "mismatches": self.mismatches,
            "samples": self.samples,
            "known": self.known,
        }));
    }
}

/// Run code under test; a panic is an observation and not an error.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        }
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
