//! C08: covariances stay symmetric and positive semidefinite; a measurement only ever reduces
//! uncertainty, a prediction or control never drops it below its process noise.
//! Judged by eigenvalues alone, not by comparing with the Kalman equations.
use kfmon::drive::{can, fill_all, make_op_tame, settle};
use kfmon::mission::*;
use kfmon::num::to_t;
use kfmon::rep::SLACK;
use kfmon::rig::{self, Make, Rig, Slot, Slot::*};
use kfmon::*;
use kfcore::ev::eig_sym;

fn mat<T: Num>(r: &dyn Rig<T>, s: Slot) -> M {
    let (n, u, m) = r.dims();
    let (a, b) = rig::shape(s, n, u, m);
    M::of(a, b, &r.get(s))
}
fn frob(v: &[f64]) -> f64 {
    // scaled, as squares of very small or large numbers leave the range
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
fn asym(p: &M) -> f64 {
    let mut w = 0.0f64;
    for i in 0..p.r {
        for j in 0..i {
            w = w.max((p.at(i, j) - p.at(j, i)).abs());
        }
    }
    w
}
fn lmin(p: &M) -> f64 {
    eig_sym(p).into_iter().fold(f64::INFINITY, f64::min)
}
fn diff(a: &M, b: &M) -> M {
    M::new(a.r, a.c, a.v.iter().zip(&b.v).map(|(x, y)| x - y).collect())
}

/// Writes back the nearest valid covariance; returns it.
fn repair<T: Num>(r: &mut dyn Rig<T>) -> M {
    let mut p = mat(r, P).symmetrized();
    let l = lmin(&p);
    if l < 0.0 {
        for i in 0..p.r {
            p.v[i * p.c + i] += 1.01 * -l + T::DELTA;
        }
    }
    let q: Vec<T> = to_t(&p.v);
    r.put(P, &q);
    mat(r, P)
}

/// Tolerance of one step: what rounding may do to the covariance, from the reference bounds.
fn tolerance<T: Num>(r: &dyn Rig<T>, op: &Op<T>) -> Option<f64> {
    let ar = Ar::of::<T>();
    let p = mat(r, P);
    let n = p.r as f64;
    let in_err = 4.0 * n * (T::U + 1.2e-16) * frob(&p.v) + 4.0 * n * if T::FIXED { T::DELTA } else { 0.0 };
    match op {
        Op::Predict | Op::Tuned(_) | Op::PredictNl(_) | Op::TunedNl(..) => {
            let l = match op {
                Op::Tuned(l) | Op::TunedNl(l, _) => Some(l.f()),
                _ => None,
            };
            let a = mat(r, A);
            let w = oracle::predict_p(&a, &p, &mat(r, Q), l, ar);
            let f = l.map(|l| 1.0 / (l * l)).unwrap_or(1.0);
            Some(SLACK * frob(&w.e) + frob(&a.v).powi(2) * f * in_err)
        }
        Op::Control => {
            let w = oracle::control(&mat(r, B), &mat(r, U), &mat(r, QC), &mat(r, X), &p, ar);
            let b = frob(&mat(r, B).v);
            let qn = 4.0 * n * (T::U + 1.2e-16) * frob(&mat(r, QC).v) + T::DELTA;
            Some(SLACK * frob(&w.p.e) + in_err + b * b * qn)
        }
        Op::Correct | Op::CorrectNl(_) => {
            let h = mat(r, H);
            let y = M::zero(h.r, 1);
            let w = oracle::update(&mat(r, X), &p, &h, &mat(r, R), &y, ar, T::LIM)?;
            let mut ikh = w.k.mul(&h, ar);
            for i in 0..ikh.r {
                ikh.v[i * ikh.c + i] -= 1.0;
            }
            let g = 1.0 + frob(&ikh.v).powi(2);
            Some(SLACK * frob(&w.p.e) + g * in_err)
        }
    }
}

/// One step from a valid covariance.
fn strict<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Result<bool, String> {
    let p0 = repair(r);
    let Some(tol) = tolerance(r, op) else { return Ok(false) };
    let name = op.name();
    let floor = match op {
        Op::Control => {
            let (b, q) = (mat(r, B), mat(r, QC));
            let ar = Ar { u: 0.0, d: 0.0, fr: 0.0 };
            b.mul(&q, ar).mul(&b.t(), ar)
        }
        Op::Correct | Op::CorrectNl(_) => M::zero(p0.r, p0.r),
        _ => mat(r, Q),
    };
    if unjudged(c, r, op)? == Judged::NoClaim {
        return Ok(false);
    }
    let p1 = mat(r, P);
    let finite = r.get(X).iter().chain(r.get(P).iter()).all(|v| v.finite());
    c.that(finite, || format!("{name}: state or covariance is not finite"))?;
    let a = asym(&p1);
    c.that(a <= 2.0 * tol, || format!("{name}: covariance is asymmetric by {a:e} (rounding explains {tol:e})"))?;
    let l = lmin(&diff(&p1, &floor));
    c.that(l >= -tol, || {
        format!("{name}: covariance minus what the process noise alone contributes has eigenvalue {l:e} (rounding explains {tol:e})")
    })?;
    c.ratio((-l / tol).max(0.0));
    match op {
        Op::Correct | Op::CorrectNl(_) => {
            let l = lmin(&diff(&p0, &p1));
            c.that(l >= -tol, || {
                format!("{name}: measuring increased the variance in some direction by {:e} (rounding explains {tol:e})", -l)
            })?;
            c.ratio((-l / tol).max(0.0));
            c.count("updates judged", 1);
            c.nontrivial(diff(&p0, &p1).max_v() > 4.0 * tol);
        }
        Op::Control => {
            let l = lmin(&diff(&p1, &p0));
            c.that(l >= -tol, || format!("{name}: control reduced the variance in some direction by {:e}", -l))?;
            c.count("controls judged", 1);
            c.nontrivial(diff(&p0, &p1).max_v() > 4.0 * tol);
        }
        _ => {
            c.count("predictions judged", 1);
            c.nontrivial(diff(&p0, &p1).max_v() > 4.0 * tol);
        }
    }
    Ok(true)
}

fn kinds<T: Num>(r: &dyn Rig<T>) -> Vec<&'static str> {
    ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"]
        .into_iter()
        .filter(|k| can(r, k))
        .collect()
}

fn long<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, steps: usize) -> Chk {
    let (n, _, m) = r.dims();
    fill_all(c, r);
    settle(c, r);
    for s in [Q, R] {
        fill_as(c, r, s, "diag");
    }
    fill_as(c, r, H, "reals");
    if r.has(QC) {
        fill_as(c, r, QC, "diag");
        fill_as(c, r, B, "reals");
    }
    let ks = kinds(r);
    let rel = match T::NAME {
        "f64" => 1e-9,
        "f32" => 1e-3,
        "I32F32" => 1e-5,
        _ => 0.1,
    };
    let mut scale = 1.0f64;
    for k in 0..steps {
        if c.rng.chance(1, 12) {
            let a = gen::stable::<T>(&mut c.rng, n);
            r.put(A, &a);
        }
        if c.rng.chance(1, 20) {
            fill_as(c, r, H, "reals");
        }
        let kind = if c.rng.chance(1, 2) { "correct" } else { *c.rng.pick(&ks) };
        let kind = if can(r, kind) { kind } else { "correct_nl" };
        let kind = if kind == "control" && c.rng.chance(2, 3) { ks[0] } else { kind };
        let mut op = make_op_tame::<T>(&mut c.rng, kind, (n, 0, m));
        if let Op::Tuned(l) | Op::TunedNl(l, _) = &mut op {
            *l = T::of(1.0);
        }
        if c.rng.chance(1, 3) {
            fill(c, r, Z);
        }
        if unjudged(c, r, &op)? == Judged::NoClaim {
            break;
        }
        let p = mat(r, P);
        scale = scale.max(p.max_v());
        let (a, tol) = (asym(&p), rel * scale * n as f64);
        let finite = r.get(X).iter().chain(r.get(P).iter()).all(|v| v.finite());
        c.that(finite, || format!("step {k}: state or covariance is not finite"))?;
        c.that(a <= tol, || format!("step {k} ({}): covariance has become asymmetric by {a:e}", op.name()))?;
        c.ratio(a / tol);
        if n <= 8 || k % 16 == 0 {
            let l = lmin(&p);
            c.that(l >= -tol, || format!("step {k} ({}): covariance has eigenvalue {l:e}", op.name()))?;
            c.ratio((-l / tol).max(0.0));
        }
        c.count("long-mission states judged", 1);
        c.nontrivial(true);
        if r.get(X).iter().any(|v| v.f().abs() > if T::FIXED { T::CAP * 4.0 } else { 1e9 }) {
            fill(c, r, X);
        }
        if T::FIXED && p.max_v() > T::CAP * 2.0 {
            fill_as(c, r, P, "identity");
        }
    }
    Ok(())
}

fn run<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let (short, lsteps, rounds) = (rep.r(20, 300), rep.n(300, 5000), rep.r(2, 10));
    for (w, n, u, m, mk) in makes {
        if *n > 20 || *m > 16 {
            continue;
        }
        let base = format!("{}/{w}/n{n}u{u}m{m}", T::NAME);
        for kind in kinds(&*mk()) {
            for round in 0..short {
                rep.case(&format!("{base}/{kind}#{round}"), |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    c.sample(|| format!("P={:?}", r.get(P)));
                    for _ in 0..3 {
                        let op = make_op_tame::<T>(&mut c.rng, kind, r.dims());
                        if !strict(c, &mut *r, &op)? || !tame(&*r) {
                            break;
                        }
                    }
                    Ok(())
                });
            }
        }
        for round in 0..rounds {
            rep.case(&format!("{base}/mission#{round}"), |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                settle(c, &mut *r);
                let ks = kinds(&*r);
                for k in 0..lsteps / 4 {
                    if !tame(&*r) {
                        settle(c, &mut *r);
                    }
                    if c.rng.chance(1, 4) {
                        let s = *c.rng.pick(&[Q, H, R, X]);
                        fill(c, &mut *r, s);
                    }
                    let kind = *c.rng.pick(&ks);
                    let op = make_op_tame::<T>(&mut c.rng, kind, r.dims());
                    if !strict(c, &mut *r, &op).map_err(|e| format!("step {k}: {e}"))? {
                        settle(c, &mut *r);
                    }
                }
                Ok(())
            });
            rep.case(&format!("{base}/long#{round}"), |c| long(c, &mut *mk(), lsteps));
        }
    }
}

fn all<T: Sets>(rep: &mut Rep) {
    run::<T>(rep, &T::slices());
    #[cfg(feature = "alloc")]
    {
        run::<T>(rep, &T::owned());
        run::<T>(rep, &T::owned_ext());
    }
}

fn main() {
    let mut rep = Rep::new(
        "C08",
        "A case is one generated covariance with two or three steps, or one mission; non-trivial when a step moved the \
         covariance by more than rounding explains; distinct by all inputs.",
    );
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
