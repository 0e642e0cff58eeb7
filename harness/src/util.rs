//! Random numbers, verdicts, panic capture, evidence counters.
use json::{object, JsonValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// xoshiro256** seeded by splitmix64
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut x = 0x1234_5678_9abc_def0u64;
        for p in parts {
            x ^= *p;
            let y = splitmix(&mut x);
            x = x.rotate_left(17) ^ y;
        }
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Self { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (((self.next() >> 11) as u128 * n as u128) >> 53) as usize
        }
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn gauss(&mut self) -> f64 {
        let u = self.f().max(1e-300);
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
}

/// An observed violation of a property. `sig` identifies the kind of failure (known findings are matched on it).
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::util::Violation { sig: ($sig).to_string(), msg: format!($($a)*) });
        }
    };
}

/// Turn an unexpected library error into a violation
pub trait OrViol<T> {
    fn or_viol(self, what: &str) -> Res<T>;
}
impl<T, E: std::fmt::Debug> OrViol<T> for Result<T, E> {
    fn or_viol(self, what: &str) -> Res<T> {
        self.map_err(|e| Violation {
            sig: format!("unexpected-error:{}", what),
            msg: format!("{}: unexpected error {:?}", what, e),
        })
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static IN_LIB: RefCell<u32> = RefCell::new(0);
}
// panics on threads owned by the library's thread pools
static OTHER_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut g) = OTHER_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}

pub struct Panicked {
    pub loc: String,
    pub msg: String,
}

/// Run library code; a panic inside is returned.
pub fn try_lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    IN_LIB.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| {
        let (loc, msg) = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| OTHER_PANIC.lock().ok().and_then(|mut g| g.take()))
            .unwrap_or_default();
        Panicked { loc, msg }
    })
}

/// Run library code that must not panic for this input.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    try_lib(f).map_err(|p| Violation {
        sig: format!("panic:{}", what),
        msg: format!("{} panicked at {}: {}", what, p.loc, p.msg),
    })
}

pub enum CaseEnd {
    Ok,
    Violated(Violation),
    HarnessError(String),
}

/// Run a whole case. Panics that come from the library's own source (outside of a `lib` call) count as violations,
/// any other panic is an error of the harness.
pub fn guard_case(f: impl FnOnce() -> Res) -> CaseEnd {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(v)) => CaseEnd::Violated(v),
        Err(_) => {
            IN_LIB.with(|c| *c.borrow_mut() = 0);
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if !loc.starts_with("src/") {
                CaseEnd::Violated(Violation {
                    sig: "panic:library".into(),
                    msg: format!("library panicked at {}: {}", loc, msg),
                })
            } else {
                CaseEnd::HarnessError(format!("harness panicked at {}: {}", loc, msg))
            }
        }
    }
}

/// What the monitors observed; merged over all cases and written to the evidence file.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub mins: BTreeMap<String, f64>,
    pub distinct: BTreeMap<String, BTreeSet<u64>>,
}

impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxes.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    pub fn min(&mut self, k: &str, v: f64) {
        let e = self.mins.entry(k.to_string()).or_insert(f64::INFINITY);
        if v < *e {
            *e = v;
        }
    }
    pub fn state(&mut self, k: &str, h: u64) {
        self.distinct.entry(k.to_string()).or_default().insert(h);
    }
    pub fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            self.max(&k, v);
        }
        for (k, v) in o.mins {
            self.min(&k, v);
        }
        for (k, v) in o.distinct {
            self.distinct.entry(k).or_default().extend(v);
        }
    }
    pub fn to_json(&self) -> JsonValue {
        let mut j = object! {};
        for (k, v) in &self.counts {
            j[k.as_str()] = (*v).into();
        }
        for (k, v) in &self.maxes {
            if v.is_finite() {
                j[format!("max_{}", k).as_str()] = (*v).into();
            }
        }
        for (k, v) in &self.mins {
            if v.is_finite() {
                j[format!("min_{}", k).as_str()] = (*v).into();
            }
        }
        for (k, v) in &self.distinct {
            j[format!("distinct_{}", k).as_str()] = v.len().into();
        }
        j
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// CPU time used by the whole process, in seconds
pub fn cpu_time() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 13 {
        (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
    } else {
        0.0
    }
}
