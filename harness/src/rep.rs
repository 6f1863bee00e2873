//! Case runner, verdicts and what was observed.

use crate::ev::M;
use crate::num::Num;
use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Tolerance factor on the error bounds: the reference itself has (f64) rounding, and an
/// implementation may spend a few more roundings than the formula suggests.
pub const SLACK: f64 = 8.0;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub struct Viol {
    pub label: String,
    pub what: String,
}

pub struct Rep {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub config: String,
    only: Option<String>,
    trace: Option<String>,
    evals: u64,
    cases: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    samples: BTreeMap<String, String>,
    viol: Vec<Viol>,
    known: BTreeMap<String, u64>,
    n_viol: u64,
    harness_errors: Vec<String>,
    max_ratio: f64,
    rule: String,
    t0: std::time::Instant,
    budget_s: f64,
    /// Runs only one in so many cases (for the interpreter and the sanitizers).
    sample: u64,
    /// Reduces every amount (for the interpreter).
    pub tiny: bool,
    n_skipped: u64,
    /// Part k of n of the cases.
    part: (u64, u64),
    /// Multiplies rounds in the quick tier.
    boost: usize,
}

pub struct Case {
    pub rng: Rng,
    hash: u64,
    nontrivial: bool,
    pub evals: u64,
    max_ratio: f64,
    counters: Vec<(String, u64)>,
    sample: Option<String>,
    known: Vec<String>,
    /// What the reference expects of the last step: state, its bound, covariance, its bound.
    pub want: Option<[Vec<f64>; 4]>,
}

pub type Chk = Result<(), String>;

impl Case {
    /// Input data that makes this case distinct.
    pub fn input<T: Num>(&mut self, v: &[T]) {
        for x in v {
            self.hash = fnv(self.hash, &x.bits().to_le_bytes());
        }
    }
    pub fn tag(&mut self, s: &str) {
        self.hash = fnv(self.hash, s.as_bytes());
    }
    /// Marks the case as one that exercised the property (inputs that could refute it).
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn count(&mut self, what: &str, n: u64) {
        self.counters.push((what.to_string(), n));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            let mut s = s();
            if s.len() > 400 {
                s.truncate((0..=400).rev().find(|k| s.is_char_boundary(*k)).unwrap());
                s.push('…');
            }
            self.sample = Some(s);
        }
    }
    pub fn known(&mut self, id: &str) {
        self.known.push(id.to_string());
    }
    /// Values against the reference, within its error bound.
    pub fn near<T: Num>(&mut self, what: &str, got: &[T], want: &M) -> Chk {
        self.near_tol(what, got, want, 0.0)
    }
    pub fn near_tol<T: Num>(&mut self, what: &str, got: &[T], want: &M, extra: f64) -> Chk {
        self.evals += 1;
        if got.len() < want.v.len() {
            return Err(format!("{what}: {} elements, expected {}", got.len(), want.v.len()));
        }
        for i in 0..want.v.len() {
            let g = got[i].f();
            let tol = SLACK * want.e[i] + extra;
            if !tol.is_finite() {
                // the reference itself has left the range of numbers
                self.count("elements without a finite bound, not judged", 1);
                continue;
            }
            let d = (g - want.v[i]).abs();
            if !(d <= tol) {
                return Err(format!(
                    "{what}: element ({},{}) is {:e}, expected {:e} ± {:e}",
                    i / want.c.max(1),
                    i % want.c.max(1),
                    g,
                    want.v[i],
                    tol
                ));
            }
            if tol > 0.0 {
                self.max_ratio = self.max_ratio.max(d / tol);
            }
        }
        Ok(())
    }
    pub fn ratio(&mut self, r: f64) {
        self.max_ratio = self.max_ratio.max(r);
    }
    /// Bit for bit (NaN equal to NaN).
    pub fn exact<T: Num>(&mut self, what: &str, got: &[T], want: &[T]) -> Chk {
        self.evals += 1;
        if got.len() != want.len() {
            return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
        }
        for i in 0..got.len() {
            if got[i].bits() != want[i].bits() && !(got[i].f().is_nan() && want[i].f().is_nan()) {
                return Err(format!("{what}: element {i} is {:?}, expected {:?}", got[i], want[i]));
            }
        }
        Ok(())
    }
    /// What the operation on two numbers yields: equal bits, except that a NaN is a NaN.
    pub fn outcome<T: Num>(&mut self, what: &str, got: &[T], want: &[T]) -> Chk {
        self.equal(what, got, want)?;
        for i in 0..got.len() {
            if !want[i].f().is_nan() && got[i].bits() != want[i].bits() {
                return Err(format!("{what}: element {i} is {:?}, expected {:?}", got[i], want[i]));
            }
        }
        Ok(())
    }
    /// Equal values; the sign of zero does not matter.
    pub fn equal<T: Num>(&mut self, what: &str, got: &[T], want: &[T]) -> Chk {
        self.evals += 1;
        if got.len() != want.len() {
            return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
        }
        for i in 0..got.len() {
            let (g, w) = (got[i].f(), want[i].f());
            if !(g == w || (g.is_nan() && w.is_nan())) {
                return Err(format!("{what}: element {i} is {:?}, expected {:?}", got[i], want[i]));
            }
        }
        Ok(())
    }
    pub fn that(&mut self, ok: bool, what: impl FnOnce() -> String) -> Chk {
        self.evals += 1;
        if ok {
            Ok(())
        } else {
            Err(what())
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// Runs `f`; a panic becomes Err((message, location)).
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, (String, String)> {
    *LAST_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC
            .lock()
            .unwrap()
            .take()
            .unwrap_or(("unknown panic".into(), "?".into()))),
    }
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

impl Rep {
    pub fn new(prop: &str, rule: &str) -> Rep {
        if env("KF_WARMUP").is_some() {
            std::process::exit(0);
        }
        std::panic::set_hook(Box::new(|i| {
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = i.location().map(|l| l.to_string()).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() {
                *g = Some((msg, loc));
            }
        }));
        Rep {
            prop: prop.into(),
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            config: env("KF_CONFIG").unwrap_or("main".into()),
            only: env("KF_REPLAY"),
            trace: env("KF_TRACE"),
            evals: 0,
            cases: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: BTreeMap::new(),
            viol: vec![],
            known: BTreeMap::new(),
            n_viol: 0,
            harness_errors: vec![],
            max_ratio: 0.0,
            rule: rule.into(),
            t0: std::time::Instant::now(),
            budget_s: env("KF_BUDGET_S").and_then(|s| s.parse().ok()).unwrap_or(1e9),
            sample: env("KF_SAMPLE").and_then(|s| s.parse().ok()).unwrap_or(1),
            tiny: env("KF_TINY").is_some(),
            n_skipped: 0,
            boost: env("KF_BOOST").and_then(|s| s.parse().ok()).unwrap_or(1),
            part: env("KF_PART")
                .and_then(|s| s.split_once('/').map(|(k, n)| (k.parse().unwrap_or(0), n.parse().unwrap_or(1))))
                .unwrap_or((0, 1)),
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget_s
    }
    /// `quick` or `thorough` amount.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.tiny {
            quick.div_ceil(25)
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// A number of rounds: as `n`, times what the check can afford.
    pub fn r(&self, quick: usize, thorough: usize) -> usize {
        self.n(quick, thorough) * if self.tiny || self.thorough { 1 } else { self.boost }
    }
    pub fn case(&mut self, label: &str, f: impl FnOnce(&mut Case) -> Chk) {
        if let Some(o) = &self.only {
            if o != label {
                return;
            }
        }
        if self.n_viol >= 200 {
            return;
        }
        if self.only.is_none() && self.part.1 > 1 && fnv(3, label.as_bytes()) % self.part.1 != self.part.0 {
            return;
        }
        if self.only.is_none() && self.sample > 1 {
            let h = fnv(fnv(7, &self.seed.to_le_bytes()), label.as_bytes());
            if (h >> 17) % self.sample != 0 {
                return;
            }
            if self.out_of_time() {
                self.n_skipped += 1;
                return;
            }
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, label);
        }
        let mut c = Case {
            rng: Rng::new(self.seed, label),
            hash: fnv(0, label.split('#').next().unwrap().as_bytes()),
            nontrivial: false,
            evals: 0,
            max_ratio: 0.0,
            counters: vec![],
            sample: None,
            known: vec![],
            want: None,
        };
        self.cases += 1;
        let r = guarded(|| f(&mut c));
        self.evals += c.evals;
        for (k, n) in c.counters {
            *self.counters.entry(k).or_default() += n;
        }
        for k in c.known {
            *self.known.entry(k).or_default() += 1;
        }
        self.max_ratio = self.max_ratio.max(c.max_ratio);
        match r {
            Ok(Ok(())) => {
                if c.nontrivial {
                    self.distinct.insert(c.hash);
                }
                if let Some(s) = c.sample {
                    // keep one sample per label family
                    let fam = label.split(['/', '#']).take(2).collect::<Vec<_>>().join("/");
                    if self.samples.len() < 12 {
                        self.samples.entry(fam).or_insert(format!("{label}: {s}"));
                    }
                }
            }
            Ok(Err(what)) => self.violation(label, what),
            Err((msg, loc)) => {
                // A panic raised by the monitor's own code is an error of the check; one raised
                // inside the library (or a dependency it called) on valid input is a finding.
                if loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/src") {
                    self.harness_errors.push(format!("{label}: {msg} at {loc}"));
                } else {
                    self.violation(label, format!("panic: {msg} at {loc}"));
                }
            }
        }
    }
    pub fn violation(&mut self, label: &str, what: String) {
        self.n_viol += 1;
        if self.viol.len() < 20 {
            self.viol.push(Viol { label: label.into(), what });
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn harness_error(&mut self, s: String) {
        self.harness_errors.push(s);
    }
    /// Writes the partial evidence; the exit code says whether the run completed, not the verdict.
    pub fn finish(mut self) -> ! {
        if self.n_skipped > 0 {
            self.count("sampled cases skipped for lack of time", self.n_skipped);
        }
        let list = |v: Vec<String>| v.join(",");
        let j = format!(
            "{{\"property\":\"{}\",\"seed\":{},\"config\":\"{}\",\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"max_error_over_tolerance\":{},\"wall_s\":{:.3},\"counters\":{{{}}},\"known\":{{{}}},\"samples\":[{}],\"n_violations\":{},\"violations\":[{}],\"harness_errors\":[{}]}}\n",
            self.prop,
            self.seed,
            esc(&self.config),
            self.cases,
            self.evals,
            self.distinct.len(),
            esc(&self.rule),
            if self.max_ratio.is_finite() { self.max_ratio } else { -1.0 },
            self.t0.elapsed().as_secs_f64(),
            list(self.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect()),
            list(self.known.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect()),
            list(self.samples.values().map(|s| format!("\"{}\"", esc(s))).collect()),
            self.n_viol,
            list(self
                .viol
                .iter()
                .map(|v| format!("{{\"label\":\"{}\",\"what\":\"{}\"}}", esc(&v.label), esc(&v.what)))
                .collect()),
            list(self.harness_errors.iter().take(10).map(|s| format!("\"{}\"", esc(s))).collect()),
        );
        match env("KF_OUT") {
            Some(p) => std::fs::write(p, j).expect("write KF_OUT"),
            None => print!("{j}"),
        }
        std::process::exit(0)
    }
}
