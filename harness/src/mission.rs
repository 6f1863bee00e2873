//! Steps of a mission: perform one on a rig and judge it against the reference model, starting
//! from the state that was actually observed before the step (so errors never accumulate).

use crate::ev::*;
use crate::gen;
use crate::num::*;
use crate::oracle;
use crate::rep::Case;
use crate::rig::{Rig, Slot};
use crate::rng::Rng;

/// A model function for extended filters, evaluated in the number type under test.
#[derive(Clone, Debug)]
pub struct Model<T> {
    pub kind: &'static str,
    c: Vec<T>,
    d: Vec<T>,
    i: Vec<usize>,
    j: Vec<usize>,
    k: Vec<usize>,
}

pub const MODELS: &[&str] = &["affine", "quadratic", "constant", "identity", "permute", "zero", "partial", "branch"];

impl<T: Num> Model<T> {
    pub fn new(rng: &mut Rng, kind: &'static str, from: usize, to: usize) -> Self {
        Model {
            kind,
            c: gen::general::<T>(rng, "reals", to, 1),
            d: gen::general::<T>(rng, "reals", to, 1),
            i: (0..to).map(|_| rng.below(from)).collect(),
            j: (0..to).map(|_| rng.below(from)).collect(),
            k: (0..to).map(|_| rng.below(from)).collect(),
        }
    }
    pub fn any(rng: &mut Rng, from: usize, to: usize) -> Self {
        let k = *rng.pick(MODELS);
        Self::new(rng, k, from, to)
    }
    /// Now and then a function that goes off the rails: what it writes is the state all the same.
    pub fn wild(rng: &mut Rng, from: usize, to: usize) -> Self {
        let mut m = Self::new(rng, "constant", from, to);
        let k = rng.below(4);
        for o in 0..to {
            if k == 0 || rng.chance(1, 2) {
                m.c[o] = match rng.below(10) {
                    0 | 1 => T::poison(0),
                    2 => T::of(-0.0),
                    3 => T::zero(),
                    // steps so small or states so large that their squares are not representable
                    4 if !T::FIXED => T::of(if T::U > 1e-12 { 1e-28 } else { 1e-200 }),
                    5 if !T::FIXED => T::of(if T::U > 1e-12 { -1e28 } else { -1e200 }),
                    _ => T::poison(rng.below(6)),
                };
            }
        }
        m.kind = "wild";
        m
    }
    pub fn eval(&self, x: &[T]) -> Vec<T> {
        (0..self.c.len())
            .map(|o| match self.kind {
                "affine" => self.c[o] + self.d[o] * x[self.i[o]],
                "quadratic" => {
                    let (p, q) = (x[self.j[o]], x[self.k[o]]);
                    // squares only of tame values (fixed point would overflow)
                    if p.f().abs() < 8.0 && q.f().abs() < 8.0 {
                        self.c[o] + p * q
                    } else {
                        self.c[o] - self.d[o]
                    }
                }
                "constant" | "wild" => self.c[o],
                "identity" | "partial" => x[o % x.len()],
                "permute" => x[(o * 7 + 3) % x.len()],
                "zero" => T::zero(),
                "branch" => {
                    if x[self.i[o]] > T::zero() {
                        self.c[o]
                    } else {
                        -self.d[o]
                    }
                }
                _ => unreachable!(),
            })
            .collect()
    }
}

/// What a model function saw and produced.
pub struct Seen<T> {
    pub calls: usize,
    pub args: Vec<T>,
    pub out: Vec<T>,
    pub lens: (usize, usize),
}

pub fn spy<'a, T: Num>(m: &'a Model<T>, s: &'a mut Seen<T>) -> impl FnMut(&[T], &mut [T]) + 'a {
    move |x, o| {
        s.calls += 1;
        s.args = x.to_vec();
        s.lens = (x.len(), o.len());
        let v = m.eval(x);
        let n = v.len().min(o.len());
        o[..n].copy_from_slice(&v[..n]);
        s.out = v;
    }
}
pub fn seen<T>() -> Seen<T> {
    Seen { calls: 0, args: vec![], out: vec![], lens: (0, 0) }
}

#[derive(Clone, Debug)]
pub enum Op<T> {
    Predict,
    Tuned(T),
    Control,
    Correct,
    PredictNl(Model<T>),
    TunedNl(T, Model<T>),
    CorrectNl(Model<T>),
}

impl<T> Op<T> {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Predict => "predict",
            Op::Tuned(_) => "predict_tuned",
            Op::Control => "control",
            Op::Correct => "correct",
            Op::PredictNl(_) => "predict_nonlinear",
            Op::TunedNl(..) => "predict_tuned_nonlinear",
            Op::CorrectNl(_) => "correct_nonlinear",
        }
    }
}

/// Performs the step without judging it.
pub fn apply<T: Num>(r: &mut dyn Rig<T>, op: &Op<T>) {
    let mut s = seen::<T>();
    match op {
        Op::Predict => r.predict(),
        Op::Tuned(l) => r.predict_tuned(*l),
        Op::Control => r.control(),
        Op::Correct => r.correct(),
        Op::PredictNl(m) => r.predict_nl(&mut spy(m, &mut s)),
        Op::TunedNl(l, m) => r.predict_tuned_nl(*l, &mut spy(m, &mut s)),
        Op::CorrectNl(m) => r.correct_nl(&mut spy(m, &mut s)),
    }
}

fn mat<T: Num>(r: &dyn Rig<T>, s: Slot) -> M {
    let (n, u, m) = r.dims();
    let (a, b) = crate::rig::shape(s, n, u, m);
    M::of(a, b, &r.get(s))
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Judged {
    Checked,
    /// The reference makes no claim here (ill-conditioned or out of range); step not performed.
    NoClaim,
}

/// Performs the step and compares state and covariance with the reference.
pub fn checked<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Result<Judged, String> {
    step_ar(c, r, op, Ar::of::<T>(), true)
}

/// Performs the step (unless it leaves the range in which anything is claimed) without judging it.
pub fn unjudged<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Result<Judged, String> {
    step_ar(c, r, op, Ar::of::<T>(), false)
}

pub fn checked_ar<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>, ar: Ar) -> Result<Judged, String> {
    step_ar(c, r, op, ar, true)
}

pub fn step_ar<T: Num>(
    c: &mut Case,
    r: &mut dyn Rig<T>,
    op: &Op<T>,
    ar: Ar,
    judge: bool,
) -> Result<Judged, String> {
    use Slot::*;
    let lim = T::LIM;
    let (x, p) = (mat(r, X), mat(r, P));
    let x0 = r.get(X);
    let p0 = r.get(P);
    let name = op.name();
    let fits = |m: &M| m.max_v() <= lim;
    // Range guard for fixed point, where overflow is outside the claim.
    let guard_cov = |a: &M, p: &M, f: f64| -> bool {
        if lim > 1e30 {
            return true;
        }
        let ap = a.abs().mul(&p.abs(), ar);
        let apa = ap.mul(&a.abs().t(), ar);
        fits(&ap) && apa.max_v() <= lim && apa.max_v() * f.abs().max(1.0) <= lim
    };
    let mut s = seen::<T>();
    let (want_x, want_p): (Result<M, Vec<T>>, M) = match op {
        Op::Predict | Op::Tuned(_) => {
            let l = if let Op::Tuned(l) = op { Some(l.f()) } else { None };
            let (a, q) = (mat(r, A), mat(r, Q));
            let f = l.map(|l| 1.0 / (l * l)).unwrap_or(1.0);
            if !guard_cov(&a, &p, f) || (lim < 1e30 && a.abs().mul(&x.abs(), ar).max_v() > lim) {
                return Ok(Judged::NoClaim);
            }
            let w = oracle::predict(&a, &x, &p, &q, l, ar);
            apply(r, op);
            (Ok(w.x), w.p)
        }
        Op::Control => {
            let (b, u, qc) = (mat(r, B), mat(r, U), mat(r, QC));
            if !guard_cov(&b, &qc, 1.0) {
                return Ok(Judged::NoClaim);
            }
            let w = oracle::control(&b, &u, &qc, &x, &p, ar);
            apply(r, op);
            (Ok(w.x), w.p)
        }
        Op::Correct => {
            let (h, z, rr) = (mat(r, H), mat(r, Z), mat(r, R));
            let y = oracle::innovation(&z, &h, &x, ar);
            match oracle::update(&x, &p, &h, &rr, &y, ar, lim) {
                None => return Ok(Judged::NoClaim),
                Some(w) => {
                    apply(r, op);
                    (Ok(w.x), w.p)
                }
            }
        }
        Op::PredictNl(m) | Op::TunedNl(_, m) => {
            let l = if let Op::TunedNl(l, _) = op { Some(l.f()) } else { None };
            let (a, q) = (mat(r, A), mat(r, Q));
            let f = l.map(|l| 1.0 / (l * l)).unwrap_or(1.0);
            if !guard_cov(&a, &p, f) {
                return Ok(Judged::NoClaim);
            }
            let wp = oracle::predict_p(&a, &p, &q, l, ar);
            match op {
                Op::TunedNl(l, _) => r.predict_tuned_nl(*l, &mut spy(m, &mut s)),
                _ => r.predict_nl(&mut spy(m, &mut s)),
            }
            (Err(m.eval(&x0)), wp)
        }
        Op::CorrectNl(m) => {
            let (h, z, rr) = (mat(r, H), mat(r, Z), mat(r, R));
            let hx = m.eval(&x0);
            let y = z.sub(&M::of(hx.len(), 1, &hx), ar);
            match oracle::update(&x, &p, &h, &rr, &y, ar, lim) {
                None => return Ok(Judged::NoClaim),
                Some(w) => {
                    r.correct_nl(&mut spy(m, &mut s));
                    (Ok(w.x), w.p)
                }
            }
        }
    };
    c.want = Some(match &want_x {
        Ok(w) => [w.v.clone(), w.e.clone(), want_p.v.clone(), want_p.e.clone()],
        Err(w) => [to_f(w), vec![0.0; w.len()], want_p.v.clone(), want_p.e.clone()],
    });
    if !judge {
        c.count(&format!("{name} steps in between"), 1);
        return Ok(Judged::Checked);
    }
    if matches!(op, Op::PredictNl(_) | Op::TunedNl(..) | Op::CorrectNl(_)) {
        c.that(s.calls == 1, || format!("{name}: model function called {} times", s.calls))?;
        c.exact(&format!("{name}: argument of the model function"), &s.args, &x0)?;
        c.count("model function calls observed", 1);
    }
    let (x1, p1) = (r.get(X), r.get(P));
    match want_x {
        Ok(w) => c.near(&format!("{name}: state"), &x1, &w)?,
        Err(w) => c.exact(&format!("{name}: state"), &x1, &w)?,
    }
    c.near(&format!("{name}: covariance"), &p1, &want_p)?;
    c.count(&format!("{name} steps judged"), 1);
    c.nontrivial(!same_val(&x0, &x1) || !same_val(&p0, &p1));
    Ok(Judged::Checked)
}

pub fn tame<T: Num>(r: &dyn Rig<T>) -> bool {
    let lim = if T::FIXED { T::CAP * 2.0 } else { 1e6 };
    r.get(Slot::X)
        .iter()
        .chain(r.get(Slot::P).iter())
        .all(|v| v.f().abs() < lim)
}

/// The content of another operand of the same shape, or what the model predicts for this one.
fn related<T: Num>(rng: &mut Rng, r: &dyn Rig<T>, s: Slot) -> Option<(&'static str, Vec<T>)> {
    use Slot::*;
    let (n, u, m) = r.dims();
    let me = crate::rig::shape(s, n, u, m);
    // noises only from noises: an estimate covariance is symmetric and semidefinite up to rounding only
    let from: &[Slot] = match s {
        P | Q | QC => &[Q, QC, R],
        R => &[R],
        X | U | Z => &[X, U, Z],
        _ => &[A, B, H, P],
    };
    if s == Z && r.has(H) && rng.chance(1, 2) {
        // a measurement without surprise
        let (h, x) = (r.get(H), r.get(X));
        let z: Vec<f64> = (0..m)
            .map(|i| (0..n).map(|k| h[i * n + k].f() * x[k].f()).sum::<f64>())
            .collect();
        if z.iter().all(|v| v.abs() < if T::FIXED { T::CAP * 4.0 } else { 1e8 }) {
            return Some(("predicted", to_t(&z)));
        }
    }
    let o = *rng.pick(from);
    if o == s || !r.has(o) || crate::rig::shape(o, n, u, m) != me {
        return None;
    }
    let v = r.get(o);
    // the state may be wild after a hostile model function
    v.iter().all(|x| x.finite() && (!T::FIXED || x.f().abs() <= T::CAP)).then_some(("same", v))
}

/// Fills one slot with a random member of the classes that suit it; returns the class.
pub fn fill<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, s: Slot) -> &'static str {
    use Slot::*;
    let (n, u, m) = r.dims();
    let (a, b) = crate::rig::shape(s, n, u, m);
    if a * b == 0 {
        return "empty";
    }
    // Operands are not always unrelated: now and then one repeats another.
    if c.rng.chance(1, 14) {
        if let Some((class, v)) = related(&mut c.rng, r, s) {
            r.put(s, &v);
            c.input(&v);
            return class;
        }
    }
    let (class, v) = match s {
        P | Q | QC => {
            let k = *c.rng.pick(gen::COV_CLASSES);
            (k, gen::cov::<T>(&mut c.rng, k, a))
        }
        R => {
            let k = *c.rng.pick(gen::COV_CLASSES);
            (k, gen::cov_pd::<T>(&mut c.rng, k, a))
        }
        X | U | Z => ("vector", gen::vector::<T>(&mut c.rng, a)),
        _ => {
            let k = *c.rng.pick(gen::GEN_CLASSES);
            (k, gen::general::<T>(&mut c.rng, k, a, b))
        }
    };
    r.put(s, &v);
    c.input(&v);
    class
}

pub fn fill_as<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, s: Slot, class: &'static str) {
    use Slot::*;
    let (n, u, m) = r.dims();
    let (a, b) = crate::rig::shape(s, n, u, m);
    let v = match s {
        P | Q | QC => gen::cov::<T>(&mut c.rng, class, a),
        R => gen::cov_pd::<T>(&mut c.rng, class, a),
        _ => gen::general::<T>(&mut c.rng, class, a, b),
    };
    r.put(s, &v);
    c.input(&v);
}

/// Factors λ for the tuned prediction that keep 1/λ² representable.
pub fn lambda<T: Num>(rng: &mut Rng) -> T {
    let v = match rng.below(10) {
        0 => 1.0,
        1 => -1.0,
        2 => 0.5,
        3 => 2.0,
        4 => 1.0 + rng.unit() * 0.05,
        5 => 1.0 - rng.unit() * 0.05,
        6 => -(0.5 + rng.unit()),
        7 => 0.25 + rng.unit() * 0.7,
        8 => 1.0 + rng.unit() * 6.0,
        _ => {
            if T::FIXED {
                4.0
            } else {
                (if rng.chance(1, 4) { -1.0 } else { 1.0 })
                    * (2f64).powi({
                        let k = if rng.chance(2, 3) { 12 } else if T::U > 1e-12 { 18 } else { 250 };
                        rng.int(-k, k) as i32
                    })
                    * (1.0 + rng.unit())
            }
        }
    };
    T::of(v)
}
