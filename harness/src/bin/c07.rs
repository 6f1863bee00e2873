//! C07: an extended filter whose model functions are linear maps follows the linear filter.
//! Two filters, the same data, the same mission; compared after every step.
use kfmon::drive::{fill_all, settle};
use kfmon::mission::*;
use kfmon::num::{to_f, to_t};
use kfmon::rig::{Make, Rig, Slot, Slot::*};
use kfmon::*;

/// The product as a user would write it in a model function.
fn product<T: Num>(a: &[T], x: &[T], o: &mut [T]) {
    let n = x.len();
    for i in 0..o.len() {
        let mut s = T::zero();
        for k in 0..n {
            s += a[i * n + k] * x[k];
        }
        o[i] = s;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Predict,
    Tuned,
    Correct,
}

fn mat<T: Num>(r: &dyn Rig<T>, s: Slot) -> M {
    let (n, u, m) = r.dims();
    let (a, b) = rig::shape(s, n, u, m);
    M::of(a, b, &r.get(s))
}

/// Error bound of one step from the given state (either filter may use all of it), or None when
/// nothing is claimed for this step.
fn bound<T: Num>(r: &dyn Rig<T>, k: Kind, l: T) -> Option<(M, M)> {
    let ar = Ar::of::<T>();
    let (x, p, a, q) = (mat(r, X), mat(r, P), mat(r, A), mat(r, Q));
    let lim = T::LIM;
    match k {
        Kind::Predict | Kind::Tuned => {
            let l = (k == Kind::Tuned).then(|| l.f());
            let w = oracle::predict(&a, &x, &p, &q, l, ar);
            let big = a.abs().mul(&p.abs(), ar).mul(&a.abs().t(), ar).max_v();
            let f = l.map(|l| 1.0 / (l * l)).unwrap_or(1.0).max(1.0);
            if T::FIXED && (big * f > lim || a.abs().mul(&x.abs(), ar).max_v() > lim) {
                return None;
            }
            Some((w.x, w.p))
        }
        Kind::Correct => {
            let (h, z, rr) = (mat(r, H), mat(r, Z), mat(r, R));
            let y = oracle::innovation(&z, &h, &x, ar);
            let w = oracle::update(&x, &p, &h, &rr, &y, ar, lim)?;
            Some((w.x, w.p))
        }
    }
}

fn both<T: Num>(lin: &mut dyn Rig<T>, ext: &mut dyn Rig<T>, k: Kind, l: T) {
    let a = ext.get(A);
    let h = ext.get(H);
    match k {
        Kind::Predict => {
            lin.predict();
            ext.predict_nl(&mut |x, o| product(&a, x, o));
        }
        Kind::Tuned => {
            lin.predict_tuned(l);
            ext.predict_tuned_nl(l, &mut |x, o| product(&a, x, o));
        }
        Kind::Correct => {
            lin.correct();
            ext.correct_nl(&mut |x, o| product(&h, x, o));
        }
    }
}

fn pick(rng: &mut Rng) -> Kind {
    *rng.pick(&[Kind::Predict, Kind::Predict, Kind::Tuned, Kind::Correct, Kind::Correct])
}

const SHARED: [Slot; 7] = [A, X, P, Q, H, Z, R];

/// Every step from the same state: agreement within the rounding of one step.
fn stepwise<T: Num>(c: &mut Case, lin: &mut dyn Rig<T>, ext: &mut dyn Rig<T>, steps: usize) -> Chk {
    fill_all(c, lin);
    if steps > 4 {
        settle(c, lin);
    }
    for k in 0..steps {
        if k > 0 && c.rng.chance(1, 3) {
            let s = *c.rng.pick(&SHARED);
            if s != A || !T::FIXED {
                fill(c, lin, s);
            }
        }
        if !tame(lin) {
            settle(c, lin);
        }
        for s in SHARED {
            ext.put(s, &lin.get(s));
        }
        let kind = pick(&mut c.rng);
        let l = lambda::<T>(&mut c.rng);
        let Some((bx, bp)) = bound(lin, kind, l) else {
            c.count("steps outside the claim, not performed", 1);
            settle(c, lin);
            fill(c, lin, R);
            continue;
        };
        let (x0, p0) = (lin.get(X), lin.get(P));
        both(lin, ext, kind, l);
        let close = |c: &mut Case, what: &str, a: &[T], b: &[T], e: &M| -> Chk {
            let mut w = M::of(e.r, e.c, a);
            w.e.iter_mut().zip(&e.e).for_each(|(o, e)| *o = 2.0 * e);
            c.near(&format!("step {k}: extended versus linear {what}"), b, &w)
        };
        close(c, "state", &lin.get(X), &ext.get(X), &bx)?;
        close(c, "covariance", &lin.get(P), &ext.get(P), &bp)?;
        c.count("steps compared from equal states", 1);
        c.nontrivial(!same_val(&x0, &lin.get(X)) || !same_val(&p0, &lin.get(P)));
    }
    Ok(())
}

/// Free-running: both filters are only given parameters and measurements, never each other's
/// state. How far rounding builds up is told by a second linear filter whose state and
/// covariance are disturbed in the last places after every step.
fn free<T: Num>(c: &mut Case, lin: &mut dyn Rig<T>, shadow: &mut dyn Rig<T>, ext: &mut dyn Rig<T>, steps: usize) -> Chk {
    let (n, _, m) = lin.dims();
    settle(c, lin);
    fill_as(c, lin, P, "dense");
    let tol = if T::NAME == "f32" { 2e-3 } else { 1e-7 };
    for s in [Q, R] {
        fill_as(c, lin, s, "diag");
    }
    fill_as(c, lin, H, "reals");
    for s in SHARED {
        ext.put(s, &lin.get(s));
        shadow.put(s, &lin.get(s));
    }
    let mut drift = [0.0f64; 2];
    for k in 0..steps {
        if c.rng.chance(1, 8) {
            let a = gen::stable::<T>(&mut c.rng, n);
            lin.put(A, &a);
            ext.put(A, &a);
            shadow.put(A, &a);
        }
        if c.rng.chance(1, 10) {
            fill_as(c, lin, H, "reals");
            ext.put(H, &lin.get(H));
            shadow.put(H, &lin.get(H));
        }
        let z: Vec<T> = to_t(&(0..m).map(|_| c.rng.sym() * 4.0).collect::<Vec<_>>());
        lin.put(Z, &z);
        ext.put(Z, &z);
        shadow.put(Z, &z);
        let kind = pick(&mut c.rng);
        let l = T::of(0.97 + 0.2 * c.rng.unit());
        both(lin, ext, kind, l);
        match kind {
            Kind::Predict => shadow.predict(),
            Kind::Tuned => shadow.predict_tuned(l),
            Kind::Correct => shadow.correct(),
        }
        for (q, s) in [X, P].into_iter().enumerate() {
            let (a, b) = (to_f(&lin.get(s)), to_f(&shadow.get(s)));
            drift[q] = a.iter().zip(&b).fold(drift[q], |d, (p, q)| d.max((p - q).abs()));
            let moved: Vec<f64> = b.iter().map(|v| v * (1.0 + 8.0 * T::U * c.rng.sym())).collect();
            shadow.put(s, &to_t(&moved));
        }
        for (i, s) in [X, P].into_iter().enumerate() {
            let (a, b) = (to_f(&lin.get(s)), to_f(&ext.get(s)));
            let limit = tol * a.iter().fold(1.0f64, |m, v| m.max(v.abs())) + 50.0 * drift[i];
            for (p, q) in a.iter().zip(&b) {
                c.that((p - q).abs() <= limit, || {
                    format!("step {k}: free-running extended filter has {s:?} {b:?}, linear one {a:?}")
                })?;
                c.ratio((p - q).abs() / limit);
            }
        }
        c.count("free-running steps compared", 1);
        c.nontrivial(true);
        if !tame(lin) {
            break;
        }
    }
    Ok(())
}

/// Filters of extraordinary size, a few steps each.
fn wide<T: Sets>(rep: &mut Rep) {
    if rep.tiny {
        return;
    }
    let makes = T::wide();
    let rounds = rep.n(5, 15);
    for (wl, n, u, m, ml) in &makes {
        for (we, n2, u2, m2, me) in &makes {
            if n != n2 || m != m2 || u != u2 || !ml().linear() || !me().nonlinear() {
                continue;
            }
            for round in 0..rounds {
                rep.case(&format!("{}/{wl}-{we}/n{n}u{u}m{m}/wide#{round}", T::NAME), |c| stepwise(c, &mut *ml(), &mut *me(), 3));
            }
        }
    }
}

fn run<T: Num>(rep: &mut Rep, lin: &[Make<T>], ext: &[Make<T>]) {
    let (short, long, rounds) = (rep.r(40, 400), rep.n(300, 3000), rep.r(2, 12));
    for (wl, n, u, m, ml) in lin {
        for (we, n2, _, m2, me) in ext {
            if n != n2 || m != m2 {
                continue;
            }
            let base = format!("{}/{wl}-{we}/n{n}u{u}m{m}", T::NAME);
            for round in 0..short {
                rep.case(&format!("{base}/short#{round}"), |c| stepwise(c, &mut *ml(), &mut *me(), 3));
            }
            for round in 0..rounds {
                rep.case(&format!("{base}/mission#{round}"), |c| stepwise(c, &mut *ml(), &mut *me(), long));
                if !T::FIXED && !cfg!(feature = "micromath") {
                    rep.case(&format!("{base}/free#{round}"), |c| free(c, &mut *ml(), &mut *ml(), &mut *me(), long));
                }
            }
        }
    }
}

fn all<T: Sets>(rep: &mut Rep) {
    run::<T>(rep, &T::slices(), &T::slices());
    wide::<T>(rep);
    #[cfg(feature = "alloc")]
    {
        run::<T>(rep, &T::owned(), &T::owned_ext());
        run::<T>(rep, &T::slices(), &T::owned_ext());
    }
}

fn main() {
    let mut rep = Rep::new(
        "C07",
        "A case is one pair of filters (linear, extended) run through one generated mission; non-trivial when a step \
         changed state or covariance; distinct by all inputs.",
    );
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
