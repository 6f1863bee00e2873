//! C25: filter steps never allocate, and never panic, abort or hang, whatever floating-point
//! values they are given.
//!
//! A counting global allocator observes every step (and the construction of filters from
//! caller-supplied memory); a watchdog thread turns a step that does not return into an abort.
#![allow(non_snake_case, non_upper_case_globals, unused_mut, static_mut_refs)]
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mats::*;
use kfmon::mission::*;
use kfmon::rig::{Make, Rig, Slot, ALL};
use kfmon::*;
use minikalman::buffers::types::*;
use minikalman::extended::{ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::matrix::*;
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn hit() {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hit();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit();
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// While one of these exists a step is under way (the number is odd).
struct Armed;
impl Armed {
    fn new() -> Self {
        PROGRESS.store((PROGRESS.load(Relaxed) + 1) | 1, Relaxed);
        Armed
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        PROGRESS.fetch_add(1, Relaxed);
    }
}

/// Runs `f` and counts the calls to the allocator in it.
fn counted<X>(f: impl FnOnce() -> X) -> (X, u64) {
    let before = CALLS.with(|c| c.get());
    let x = f();
    (x, CALLS.with(|c| c.get()) - before)
}
fn none(c: &mut Case, calls: u64, what: impl FnOnce() -> String) -> Chk {
    c.that(calls == 0, || format!("{}: {calls} calls to the allocator", what()))
}

/// No step of the library takes more than microseconds; a minute without one ending is a hang.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let now = PROGRESS.load(Relaxed);
            // armed only while a step is under way
            if now % 2 == 1 && now == last.0 {
                last.1 += 1;
                if last.1 >= 45 {
                    eprintln!("a step has not returned for 90 seconds");
                    std::process::abort();
                }
            } else {
                last = (now, 0);
            }
        }
    });
}

/// A model function that needs no memory of its own.
#[derive(Clone, Copy)]
struct Lean<T> {
    kind: usize,
    a: T,
    b: T,
}
impl<T: Num> Lean<T> {
    fn any(rng: &mut Rng) -> Self {
        Lean { kind: rng.below(4), a: T::of(rng.sym()), b: T::of(rng.sym()) }
    }
    fn still() -> Self {
        Lean { kind: 0, a: T::zero(), b: T::zero() }
    }
    fn eval(&self, x: &[T], o: &mut [T]) {
        for k in 0..o.len() {
            let v = x[k % x.len()];
            o[k] = match self.kind {
                0 => v,
                1 => self.a,
                2 => self.a + self.b * v,
                _ => {
                    if v > T::zero() {
                        self.b
                    } else {
                        self.a
                    }
                }
            };
        }
    }
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

/// One step; counts what reached the allocator. Constructing the filter is part of it (slices).
fn step<T: Num>(r: &mut dyn Rig<T>, kind: &str, l: T, m: Lean<T>) -> u64 {
    let armed = Armed::new();
    let before = CALLS.with(|c| c.get());
    match kind {
        "predict" => r.predict(),
        "tuned" => r.predict_tuned(l),
        "control" => r.control(),
        "correct" => r.correct(),
        "predict_nl" => r.predict_nl(&mut |x, o| m.eval(x, o)),
        "tuned_nl" => r.predict_tuned_nl(l, &mut |x, o| m.eval(x, o)),
        _ => r.correct_nl(&mut |x, o| m.eval(x, o)),
    }
    let calls = CALLS.with(|c| c.get()) - before;
    drop(armed);
    calls
}

/// Long ordinary missions, every step counted.
fn missions<T: Sets>(rep: &mut Rep, makes: &[Make<T>]) {
    let (rounds, steps) = (rep.r(2, 12), rep.n(300, 4000));
    missions_of(rep, makes, rounds, steps);
    if !rep.tiny {
        missions_of(rep, &T::wide(), rounds, 12);
    }
}

fn missions_of<T: Num>(rep: &mut Rep, makes: &[Make<T>], rounds: usize, steps: usize) {
    for (w, n, u, m, mk) in makes {
        for round in 0..rounds {
            rep.case(&format!("allocator/{}/{w}/n{n}u{u}m{m}/mission#{round}", T::NAME), |c| {
                let mut r = mk();
                let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*r, k)).collect();
                fill_all(c, &mut *r);
                settle(c, &mut *r);
                for k in 0..steps {
                    if !tame(&*r) || k % 25 == 24 {
                        fill_all(c, &mut *r);
                        settle(c, &mut *r);
                    }
                    let kind = *c.rng.pick(&kinds);
                    // decides whether the step stays in range (fixed point overflow panics)
                    let before = (r.get(Slot::X), r.get(Slot::P));
                    let op = make_op::<T>(&mut c.rng, kind, r.dims());
                    let armed = Armed::new();
                    let out = T::FIXED && unjudged(c, &mut *r, &op).map_err(|e| format!("step {k}: {e}"))? == Judged::NoClaim;
                    drop(armed);
                    if out {
                        settle(c, &mut *r);
                        fill_all(c, &mut *r);
                        continue;
                    }
                    if T::FIXED {
                        r.put(Slot::X, &before.0);
                        r.put(Slot::P, &before.1);
                    }
                    let lean = Lean::any(&mut c.rng);
                    let l = if let Op::Tuned(l) | Op::TunedNl(l, _) = op { l } else { T::one() };
                    // the innovation of an extended update must stay in range as well
                    let x = guarded(|| step(&mut *r, kind, l, lean));
                    match x {
                        Ok(calls) => none(c, calls, || format!("step {k}, {kind}"))?,
                        Err(e) if T::FIXED => {
                            // outside the range of the number type after all
                            c.count("fixed-point steps out of range", 1);
                            let _ = e;
                            settle(c, &mut *r);
                            fill_all(c, &mut *r);
                            continue;
                        }
                        Err((msg, loc)) => return c.that(false, || format!("step {k}, {kind}: panic: {msg} at {loc}")),
                    }
                    c.count("steps counted by the allocator", 1);
                    c.nontrivial(true);
                }
                Ok(())
            });
        }
    }
}

/// Every kind of step, more often than 16 bits can count, on one object.
fn marathons<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let total = rep.n(70_000, 400_000);
    for (w, n, u, m, mk) in makes {
        if rep.tiny || *n > 2 || *m > 2 || *u > 2 || w.contains("slice") {
            continue;
        }
        rep.case(&format!("allocator/{}/{w}/n{n}u{u}m{m}/marathon", T::NAME), |c| {
            let mut r = mk();
            let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*r, k)).collect();
            let id = |a: usize, b: usize, v: f64| (0..a * b).map(|i| if i / b == i % b { T::of(v) } else { T::zero() }).collect::<Vec<T>>();
            // nothing grows without bound, whatever the number type
            for (s, a, b, v) in [
                (Slot::A, *n, *n, 1.0),
                (Slot::P, *n, *n, 1.0),
                (Slot::Q, *n, *n, 0.0),
                (Slot::H, *m, *n, 1.0),
                (Slot::R, *m, *m, 1.0),
                (Slot::B, *n, *u, 1.0),
                (Slot::QC, *u, *u, 0.0),
            ] {
                if r.has(s) {
                    r.put(s, &id(a, b, v));
                }
            }
            for k in 0..total {
                for kind in &kinds {
                    match guarded(|| step(&mut *r, kind, T::one(), Lean::still())) {
                        Ok(calls) => none(c, calls, || format!("{kind} number {k}"))?,
                        Err((msg, loc)) => return c.that(false, || format!("{kind} number {k}: panic: {msg} at {loc}")),
                    }
                }
            }
            c.tag(&format!("{w}{n}{u}{m}"));
            c.count("steps of marathons", (total * kinds.len()) as u64);
            c.nontrivial(!kinds.is_empty());
            Ok(())
        });
    }
}

fn specials<T: Num>() -> Vec<T> {
    let (tiny, max, eps) = if T::NAME == "f32" { (1e-45, f32::MAX as f64, f32::EPSILON as f64) } else { (5e-324, f64::MAX, f64::EPSILON) };
    [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, max, -max, tiny, -tiny, 0.0, -0.0, 1.0, -1.0, eps, max.sqrt(), -tiny.sqrt(), 1e-30, 2.5]
        .into_iter()
        .map(T::of)
        .collect()
}

/// Values no filter expects; every step must return, and still not allocate.
fn hostile<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let (rounds, history) = (rep.r(6, 120), rep.n(6, 40));
    let sp = specials::<T>();
    let judge = |c: &mut Case, r: &mut dyn Rig<T>, kind: &str, l: T, what: &str| -> Chk {
        let lean = Lean { kind: c.rng.below(4), a: *c.rng.pick(&sp), b: *c.rng.pick(&sp) };
        let before: Vec<String> = if c.evals < 2 { vec![format!("{:?}", r.get(Slot::P))] } else { vec![] };
        match guarded(|| step(r, kind, l, lean)) {
            Ok(calls) => none(c, calls, || format!("{what}, {kind}"))?,
            Err((msg, loc)) => return c.that(false, || format!("{what}, {kind} with λ {l:?}: panic: {msg} at {loc}")),
        }
        c.count("steps survived on hostile values", 1);
        c.nontrivial(true);
        if let Some(b) = before.first() {
            c.sample(|| format!("{what}: {kind}, P was {b}, is {:?}", r.get(Slot::P)));
        }
        Ok(())
    };
    for (w, n, u, m, mk) in makes {
        let base = format!("hostile/{}/{w}/n{n}u{u}m{m}", T::NAME);
        let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*mk(), k)).collect();
        // one role at a time holds one value throughout, the others are ordinary
        for s in ALL {
            if !mk().has(s) || mk().len(s) == 0 {
                continue;
            }
            rep.case(&format!("{base}/{s:?}"), |c| {
                for v in &sp {
                    for kind in &kinds {
                        let mut r = mk();
                        fill_all(c, &mut *r);
                        r.put(s, &vec![*v; r.len(s)]);
                        let l = lambda::<T>(&mut c.rng);
                        for _ in 0..2 {
                            judge(c, &mut *r, kind, l, &format!("{s:?} all {v:?}"))?;
                        }
                    }
                }
                Ok(())
            });
        }
        // every λ
        rep.case(&format!("{base}/lambda"), |c| {
            for v in &sp {
                for kind in kinds.iter().filter(|k| k.starts_with("tuned")) {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    for _ in 0..3 {
                        judge(c, &mut *r, kind, *v, "λ")?;
                    }
                }
            }
            c.tag(w);
            Ok(())
        });
        // indefinite and singular covariances
        rep.case(&format!("{base}/indefinite"), |c| {
            for shape in 0..6 {
                for kind in &kinds {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    for s in [Slot::P, Slot::Q, Slot::R, Slot::QC] {
                        if !r.has(s) {
                            continue;
                        }
                        let k = (r.len(s) as f64).sqrt() as usize;
                        let v: Vec<T> = (0..k * k)
                            .map(|i| {
                                let (a, b) = (i / k, i % k);
                                T::of(match shape {
                                    0 => 0.0,
                                    1 => -((a == b) as u8 as f64),
                                    2 => 1.0,
                                    3 => (a as f64) - (b as f64),
                                    4 => if a == b { if a % 2 == 0 { 1.0 } else { -1.0 } } else { 0.5 },
                                    _ => -1e30,
                                })
                            })
                            .collect();
                        r.put(s, &v);
                    }
                    for _ in 0..3 {
                        judge(c, &mut *r, kind, T::one(), &format!("covariances of shape {shape}"))?;
                    }
                }
            }
            c.tag(w);
            Ok(())
        });
        // sprinkled everywhere (also in the working memory), and whole histories of it
        for round in 0..rounds {
            rep.case(&format!("{base}/sprinkled#{round}"), |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                let odds = [1, 3, 10][round % 3];
                for k in 0..history {
                    for s in ALL {
                        if !r.has(s) || c.rng.chance(1, 2) {
                            continue;
                        }
                        let mut v = r.get(s);
                        for e in v.iter_mut() {
                            if c.rng.chance(1, odds) {
                                *e = *c.rng.pick(&sp);
                            }
                        }
                        r.put(s, &v);
                        c.input(&v);
                    }
                    let kind = *c.rng.pick(&kinds);
                    let l = if c.rng.chance(1, 2) { *c.rng.pick(&sp) } else { T::one() };
                    judge(c, &mut *r, kind, l, &format!("history step {k}"))?;
                }
                Ok(())
            });
        }
        // random bit patterns
        for round in 0..rounds {
            rep.case(&format!("{base}/bits#{round}"), |c| {
                let mut r = mk();
                for k in 0..history {
                    for s in ALL {
                        if !r.has(s) {
                            continue;
                        }
                        let v: Vec<T> = (0..r.len(s))
                            .map(|_| {
                                let b = c.rng.next();
                                T::of(if T::NAME == "f32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) })
                            })
                            .collect();
                        r.put(s, &v);
                        c.input(&v);
                    }
                    let kind = *c.rng.pick(&kinds);
                    let b = c.rng.next();
                    let l = T::of(if T::NAME == "f32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) });
                    judge(c, &mut *r, kind, l, &format!("random bits, step {k}"))?;
                }
                Ok(())
            });
        }
    }
}

/// Filters over arrays and over macro-made buffers: construction, accessors and all steps.
macro_rules! stack_filters {
    ($rep:ident, $t:ty, $n:literal, $u:literal, $m:literal) => {
        $rep.case(&format!("allocator/{}/stack filters/n{}u{}m{}", <$t as Num>::NAME, $n, $u, $m), |c| {
            c.nontrivial(true);
            c.tag(&format!("{} {} {}", $n, $u, $m));
            let z = <$t as Num>::of(0.0);
            let one = <$t as Num>::of(1.0);
            let half = <$t as Num>::of(0.5);
            let diag = |k: usize, v: $t| move |i: usize| if i / k == i % k { v } else { <$t as Num>::of(0.0) };
            let ((x, p), calls) = counted(|| {
                let (mut a, mut q) = ([z; $n * $n], [z; $n * $n]);
                for i in 0..$n * $n {
                    a[i] = diag($n, half)(i);
                    q[i] = diag($n, one)(i);
                }
                let mut r = [z; $m * $m];
                for i in 0..$m * $m {
                    r[i] = diag($m, one)(i);
                }
                let mut f = RegularKalmanBuilder::new::<$n, $t>(
                    StateTransitionMatrixMutBuffer::from(a),
                    StateVectorBuffer::from([one; $n]),
                    EstimateCovarianceMatrixBuffer::from(q),
                    DirectProcessNoiseCovarianceMatrixMutBuffer::from(q),
                    PredictedStateEstimateVectorBuffer::from([z; $n]),
                    TemporaryStateMatrixBuffer::from([z; $n * $n]),
                );
                let mut k = ControlBuilder::new::<$n, $u, $t>(
                    ControlMatrixMutBuffer::from([half; $n * $u]),
                    ControlVectorBuffer::from([one; $u]),
                    ControlProcessNoiseCovarianceMatrixMutBuffer::from([z; $u * $u]),
                    TemporaryBQMatrixBuffer::from([z; $n * $u]),
                );
                let mut o = RegularObservationBuilder::new::<$n, $m, $t>(
                    ObservationMatrixMutBuffer::from([half; $m * $n]),
                    MeasurementVectorBuffer::from([one; $m]),
                    MeasurementNoiseCovarianceMatrixBuffer::from(r),
                    InnovationVectorBuffer::from([z; $m]),
                    InnovationCovarianceMatrixBuffer::from([z; $m * $m]),
                    KalmanGainMatrixBuffer::from([z; $n * $m]),
                    TemporaryResidualCovarianceInvertedMatrixBuffer::from([z; $m * $m]),
                    TemporaryHPMatrixBuffer::from([z; $m * $n]),
                    TemporaryPHTMatrixBuffer::from([z; $n * $m]),
                    TemporaryKHPMatrixBuffer::from([z; $n * $n]),
                );
                for round in 0..4 {
                    f.state_transition_mut().apply(|m| m.set(0, 0, half));
                    f.predict();
                    k.control_vector_mut().apply(|v| v.set_row(0, half));
                    k.control_matrix_mut().apply(|v| v.set(0, 0, half));
                    f.control(&mut k);
                    o.measurement_vector_mut().apply(|v| v.set_row(0, one));
                    o.measurement_noise_covariance_mut().apply(|v| v.set(0, 0, one));
                    o.observation_matrix_mut().apply(|v| v.set(0, 0, one));
                    f.correct(&mut o);
                    if round % 2 == 1 {
                        f.predict_tuned(one);
                    }
                    let _ = (f.states(), k.controls(), o.measurements());
                    f.state_vector_mut().apply(|v| v.set_row(0, half));
                }
                let mut e = ExtendedKalmanBuilder::new::<$n, $t>(
                    StateTransitionMatrixMutBuffer::from(a),
                    StateVectorBuffer::from([one; $n]),
                    EstimateCovarianceMatrixBuffer::from(q),
                    DirectProcessNoiseCovarianceMatrixMutBuffer::from(q),
                    PredictedStateEstimateVectorBuffer::from([z; $n]),
                    TemporaryStateMatrixBuffer::from([z; $n * $n]),
                );
                let mut eo = ExtendedObservationBuilder::new::<$n, $m, $t>(
                    ObservationMatrixMutBuffer::from([half; $m * $n]),
                    MeasurementVectorBuffer::from([one; $m]),
                    MeasurementNoiseCovarianceMatrixBuffer::from(r),
                    InnovationVectorBuffer::from([z; $m]),
                    InnovationCovarianceMatrixBuffer::from([z; $m * $m]),
                    KalmanGainMatrixBuffer::from([z; $n * $m]),
                    TemporaryResidualCovarianceInvertedMatrixBuffer::from([z; $m * $m]),
                    TemporaryHPMatrixBuffer::from([z; $m * $n]),
                    TemporaryPHTMatrixBuffer::from([z; $n * $m]),
                    TemporaryKHPMatrixBuffer::from([z; $n * $n]),
                );
                for round in 0..4 {
                    e.predict_nonlinear(|x, nx| x.copy(nx));
                    e.state_transition_jacobian_mut().apply(|m| m.set(0, 0, half));
                    e.correct_nonlinear(&mut eo, |x, hx| hx.set_row(0, x.get_row(0)));
                    eo.observation_jacobian_matrix_mut().apply(|m| m.set(0, 0, one));
                    if round % 2 == 1 {
                        e.predict_tuned_nonlinear(one, |x, nx| x.copy(nx));
                    }
                }
                (f.state_vector().get_row(0).f() + e.state_vector().get_row(0).f(), f.estimate_covariance().get(0, 0).f() + e.estimate_covariance().get(0, 0).f())
            });
            c.sample(|| format!("states and covariances add up to {x} and {p}"));
            c.count("filters built on the stack", 2);
            none(c, calls, || "filters over arrays".into())?;
            let (x, calls) = counted(|| {
                minikalman::impl_buffer_x!(mut g_x, $n, $t, z);
                minikalman::impl_buffer_A!(mut g_A, $n, $t, z);
                minikalman::impl_buffer_P!(mut g_P, $n, $t, z);
                minikalman::impl_buffer_Q_direct!(mut g_Q, $n, $t, z);
                minikalman::impl_buffer_u!(mut g_u, $u, $t, one);
                minikalman::impl_buffer_B!(mut g_B, $n, $u, $t, half);
                minikalman::impl_buffer_Q_control!(mut g_QC, $u, $t, z);
                minikalman::impl_buffer_z!(mut g_z, $m, $t, one);
                minikalman::impl_buffer_H!(mut g_H, $m, $n, $t, half);
                minikalman::impl_buffer_R!(mut g_R, $m, $t, z);
                minikalman::impl_buffer_y!(mut g_y, $m, $t, z);
                minikalman::impl_buffer_S!(mut g_S, $m, $t, z);
                minikalman::impl_buffer_K!(mut g_K, $n, $m, $t, z);
                minikalman::impl_buffer_temp_x!(mut t_x, $n, $t, z);
                minikalman::impl_buffer_temp_P!(mut t_P, $n, $t, z);
                minikalman::impl_buffer_temp_BQ!(mut t_BQ, $n, $u, $t, z);
                minikalman::impl_buffer_temp_S_inv!(mut t_SI, $m, $t, z);
                minikalman::impl_buffer_temp_HP!(mut t_HP, $m, $n, $t, z);
                minikalman::impl_buffer_temp_PHt!(mut t_PHT, $n, $m, $t, z);
                minikalman::impl_buffer_temp_KHP!(mut t_KHP, $n, $t, z);
                g_A.make_identity();
                g_P.make_scalar(one);
                g_Q.make_scalar(one);
                g_R.make_identity();
                let mut f = RegularKalmanBuilder::new::<$n, $t>(g_A, g_x, g_P, g_Q, t_x, t_P);
                let mut k = ControlBuilder::new::<$n, $u, $t>(g_B, g_u, g_QC, t_BQ);
                let mut o = RegularObservationBuilder::new::<$n, $m, $t>(g_H, g_z, g_R, g_y, g_S, g_K, t_SI, t_HP, t_PHT, t_KHP);
                for _ in 0..4 {
                    f.predict();
                    f.control(&mut k);
                    f.correct(&mut o);
                }
                f.state_vector().get_row(0).f()
            });
            let _ = x;
            c.count("filters built on the stack", 1);
            none(c, calls, || "a filter over macro-made buffers".into())
        });
    };
}

/// The operations steps are made of.
fn operations<T: MatSets>(rep: &mut Rep) {
    for p in T::prods() {
        rep.case(&format!("allocator/{}/products/{}x{}x{}", T::NAME, p.r, p.k, p.u), |c| {
            let (a, b) = (gen::general::<T>(&mut c.rng, "ints", p.r, p.k), gen::general::<T>(&mut c.rng, "ints", p.k, p.u));
            c.input(&a);
            let mut o = vec![T::zero(); p.r * p.u];
            let mut aux = vec![T::zero(); p.k];
            let ((), n) = counted(|| {
                (p.mult)(&a, &b, &mut o);
                (p.mult_buffered)(&a, &b, &mut aux, &mut o);
                (p.mult_transb)(&a, &b, &mut o);
                (p.multadd_transb)(&a, &b, &mut o);
                (p.multscale_transb)(&a, &b, T::one(), &mut o);
            });
            c.count("operations counted by the allocator", 5);
            c.nontrivial(true);
            none(c, n, || "products".into())
        });
    }
    for e in T::elems() {
        rep.case(&format!("allocator/{}/elements/{}x{}", T::NAME, e.r, e.c), |c| {
            let (mut a, x) = (gen::general::<T>(&mut c.rng, "ints", e.r, e.c), gen::general::<T>(&mut c.rng, "ints", e.c, 1));
            c.input(&a);
            let mut o = a.clone();
            let mut o2 = a.clone();
            let mut y = vec![T::zero(); e.r];
            let ws = [Write::SetAll(T::one()), Write::Clear, Write::SetZero, Write::Set(0, 0, T::one()), Write::SetAt(0, 0, T::one()), Write::Apply(0, 0, T::one()), Write::Index(0, T::one())];
            let ((), n) = counted(|| {
                (e.mult_rowvector)(&a, &x, &mut y);
                (e.multadd_rowvector)(&a, &x, &mut y);
                (e.sub)(&a, &o, &mut o2);
                (e.add_inplace_a)(&a, &mut o);
                (e.add_inplace_b)(&a, &mut o);
                (e.sub_inplace_a)(&a, &mut o);
                (e.sub_inplace_b)(&a, &mut o);
                (e.copy)(&a, &mut o);
                (e.copy_to)(&a, &mut o);
                (e.copy_from)(&mut a, &mut o);
                for w in &ws {
                    (e.write)(&mut o, w);
                }
            });
            c.count("operations counted by the allocator", 17);
            c.nontrivial(true);
            none(c, n, || "element-wise operations".into())
        });
    }
    for s in T::squares() {
        rep.case(&format!("allocator/{}/squares/{}", T::NAME, s.n), |c| {
            let k = s.n;
            let mut a: Vec<T> = (0..k * k).map(|i| if i / k == i % k { T::one() } else { T::zero() }).collect();
            let mut o = a.clone();
            c.tag(&k.to_string());
            let (ok, n) = counted(|| {
                let ok = (s.chol)(&mut a);
                (s.inv)(&a, &mut o);
                (s.make_identity)(&mut o);
                (s.make_scalar)(&mut o, T::one());
                (s.make_comatrix)(&mut o, T::one(), T::zero());
                (s.set_diagonal)(&mut o, T::one());
                (s.set_symmetric)(&mut o, 0, k - 1, T::one());
                // and one that fails
                o[0] = -T::one();
                let _ = (s.chol)(&mut o);
                ok
            });
            let _ = ok;
            c.count("operations counted by the allocator", 8);
            c.nontrivial(true);
            none(c, n, || "square matrices".into())
        });
    }
}

/// Sees to it that the instrument works: what is documented to allocate is seen to allocate.
#[cfg(feature = "alloc")]
fn instrument(rep: &mut Rep) {
    let (b, n) = counted(|| minikalman::matrix::MatrixData::new::<3, 3, f64>(0.0));
    drop(b);
    if n == 0 {
        rep.harness_error("the counting allocator has seen nothing".into());
    }
}
#[cfg(not(feature = "alloc"))]
fn instrument(rep: &mut Rep) {
    let (b, n) = counted(|| vec![1u8; 100]);
    drop(b);
    if n == 0 {
        rep.harness_error("the counting allocator has seen nothing".into());
    }
}

fn makes<T: Sets>() -> Vec<Make<T>> {
    let mut v = T::slices();
    #[cfg(feature = "alloc")]
    {
        v.extend(T::owned());
        v.extend(T::owned_ext());
    }
    v
}

fn main() {
    let mut rep = Rep::new(
        "C25",
        "A case is one filter through a mission with every step's allocator calls counted, one filter fed non-finite, \
         extreme or indefinite values through every step, or one matrix operation set; non-trivial when steps were \
         performed; distinct by inputs.",
    );
    let rep = &mut rep;
    watchdog();
    instrument(rep);
    missions::<f64>(rep, &makes());
    missions::<f32>(rep, &makes());
    #[cfg(feature = "fixed")]
    {
        missions::<fixed::types::I16F16>(rep, &makes());
        missions::<fixed::types::I32F32>(rep, &makes());
    }
    marathons::<f64>(rep, &makes());
    marathons::<f32>(rep, &makes());
    #[cfg(feature = "fixed")]
    {
        marathons::<fixed::types::I16F16>(rep, &makes());
        marathons::<fixed::types::I32F32>(rep, &makes());
    }
    hostile::<f64>(rep, &makes());
    hostile::<f32>(rep, &makes());
    operations::<f64>(rep);
    operations::<f32>(rep);
    stack_filters!(rep, f64, 1, 1, 1);
    stack_filters!(rep, f64, 3, 2, 1);
    stack_filters!(rep, f64, 4, 1, 5);
    stack_filters!(rep, f32, 2, 3, 2);
    stack_filters!(rep, f32, 9, 2, 3);
    #[cfg(feature = "fixed")]
    {
        stack_filters!(rep, fixed::types::I16F16, 3, 1, 2);
        stack_filters!(rep, fixed::types::I32F32, 2, 2, 3);
    }
    let rep = std::mem::replace(rep, Rep::new("C25", ""));
    rep.finish()
}
