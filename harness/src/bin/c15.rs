//! C15: Cholesky decomposition: the factor, and the verdict on matrices that have none.
use kfmon::ev::eig_sym;
use kfmon::mats::*;
use kfmon::*;

fn l_dl<T: Num>(n: usize, l: &[T], d: &[f64]) -> Vec<f64> {
    let f = |i: usize, k: usize| l[i * n + k].f();
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..=j).map(|k| f(i, k) * d[k] * f(j, k)).sum();
            let s = T::of(s).f();
            v[i * n + j] = s;
            v[j * n + i] = s;
        }
    }
    v
}

/// Smallest eigenvalue after scaling the diagonal to one; None when a diagonal entry is not
/// positive (then the matrix is not positive definite, whatever the rest).
fn margin(m: &M) -> Option<f64> {
    let n = m.r;
    if (0..n).any(|i| !(m.at(i, i) > 0.0)) {
        return None;
    }
    let mut e = m.clone();
    for i in 0..n {
        for j in 0..n {
            e.v[i * n + j] = m.at(i, j) / (m.at(i, i).sqrt() * m.at(j, j).sqrt());
        }
    }
    eig_sym(&e).into_iter().min_by(f64::total_cmp)
}

/// Fixed point: a pivot close to zero makes the next column overflow, which is documented to panic.
fn narrow(m: &M) -> bool {
    let n = m.r;
    let mut a = m.v.clone();
    for k in 0..n {
        let p = a[k * n + k];
        if p != 0.0 && p.abs() < 0.02 {
            return true;
        }
        if p <= 0.0 {
            return false;
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i * n + j] -= a[i * n + k] * a[k * n + j] / p;
            }
        }
    }
    false
}

enum Verdict {
    Definite,
    Not,
    Unclear,
}

fn verdict<T: Num>(m: &M) -> Verdict {
    let n = m.r as f64;
    if T::FIXED && narrow(m) {
        return Verdict::Unclear;
    }
    let Some(g) = margin(m) else { return Verdict::Not };
    let tol = if T::FIXED {
        let dmin = (0..m.r).map(|i| m.at(i, i)).fold(f64::MAX, f64::min);
        let amax = m.max_v();
        // every pivot carries up to n quanta, amplified by the size of the entries
        64.0 * T::DELTA * (n + 1.0) * (1.0 + amax).powf(1.5) / dmin.min(1.0)
    } else {
        64.0 * (n + 1.0) * (n + 1.0) * T::U
    };
    if g > tol {
        Verdict::Definite
    } else if g < -tol {
        Verdict::Not
    } else {
        Verdict::Unclear
    }
}

fn residual<T: Num>(c: &mut Case, n: usize, l: &[T], m: &M) -> Chk {
    c.that((0..n).all(|i| l[i * n + i].f() > 0.0), || format!("a diagonal element of the factor is not positive: {l:?}"))?;
    for i in 0..n {
        for j in i + 1..n {
            c.that(l[i * n + j].f() == 0.0, || {
                format!("element ({i},{j}) above the diagonal is {:?}, not zero", l[i * n + j])
            })?;
        }
    }
    let lm = M::of(n, n, l);
    let (lmax, amax) = (lm.max_v(), m.max_v());
    let p = n as f64;
    for i in 0..n {
        for j in 0..n {
            let s: f64 = (0..n).map(|k| lm.at(i, k) * lm.at(j, k)).sum();
            let tol = if T::FIXED {
                8.0 * T::DELTA * (p + 1.0) * (1.0 + amax) * (1.0 + lmax)
            } else {
                16.0 * (p + 1.0) * T::U * (m.at(i, i) * m.at(j, j)).sqrt()
            };
            let d = (s - m.at(i, j)).abs();
            c.ratio(d / tol.max(1e-300));
            if !(d <= tol) {
                return Err(format!("L·Lᵀ is {s:e} at ({i},{j}), expected {:e} ± {tol:e}", m.at(i, j)));
            }
        }
    }
    c.evals += (n * n) as u64;
    Ok(())
}

fn judge<T: Num>(c: &mut Case, s: &Sq<T>, v: &[f64]) -> Chk {
    let n = s.n;
    let t: Vec<T> = to_t(v);
    let m = M::of(n, n, &t);
    c.input(&t);
    c.sample(|| format!("{t:?}"));
    match verdict::<T>(&m) {
        Verdict::Unclear => {
            c.count("too close to call, not judged", 1);
            Ok(())
        }
        Verdict::Not => {
            let mut l = t.clone();
            let ok = (s.chol)(&mut l);
            c.count("non-definite matrices judged", 1);
            c.nontrivial(true);
            c.that(!ok, || format!("decomposition of a matrix that is not positive definite reports success: {t:?}"))
        }
        Verdict::Definite => {
            let mut l = t.clone();
            let ok = (s.chol)(&mut l);
            c.that(ok, || format!("decomposition of a positive definite matrix reports failure: {t:?}"))?;
            residual(c, n, &l, &m)?;
            c.count("factors judged", 1);
            c.nontrivial(n > 1 || t[0].f() != 1.0);
            Ok(())
        }
    }
}

/// Sizes too large for the spectrum: definite by construction, or with one pivot spoiled.
fn big<T: MatSets>(rep: &mut Rep) {
    for s in T::big().squares {
        let n = s.n;
        for class in ["diag", "band", "arrow", "identity"] {
            for round in 0..rep.n(2, 6) {
                rep.case(&format!("{}/{n}/big-{class}#{round}", T::NAME), |c| {
                    let l = gen::lower::<T>(&mut c.rng, n, if class == "arrow" { "band" } else { class });
                    let mut d = vec![1.0; n];
                    if round % 2 == 1 {
                        let k = if c.rng.chance(1, 2) { n - 1 } else { c.rng.below(n) };
                        d[k] = -*c.rng.pick(&[1.0, 0.5]);
                    }
                    let mut v = l_dl::<T>(n, &l, &d);
                    if class == "arrow" {
                        // couples the last with every other one, weakly enough
                        for k in 0..n - 1 {
                            let x = c.rng.sym() * 0.05 / (n as f64).sqrt();
                            v[k * n + n - 1] += x;
                            v[(n - 1) * n + k] += x;
                        }
                        if round % 2 == 1 {
                            v[n * n - 1] = -1.0;
                        }
                    }
                    let mut t: Vec<T> = to_t(&v);
                    let m = M::of(n, n, &t);
                    c.input(&t);
                    c.nontrivial(true);
                    let ok = (s.chol)(&mut t);
                    if round % 2 == 1 {
                        c.count("non-definite matrices judged", 1);
                        return c.that(!ok, || format!("decomposition of a {n}×{n} matrix that is not positive definite reports success"));
                    }
                    c.that(ok, || format!("decomposition of a positive definite {n}×{n} matrix reports failure"))?;
                    c.count("factors judged", 1);
                    residual(c, n, &t, &m)
                });
            }
        }
    }
}

fn all<T: MatSets>(rep: &mut Rep) {
    big::<T>(rep);
    let rounds = rep.r(12, 250);
    for s in T::squares() {
        let n = s.n;
        let few = if n > 16 { rounds / 4 } else { rounds };
        for class in gen::LOWER_CLASSES {
            for round in 0..few {
                rep.case(&format!("{}/{n}/definite-{class}#{round}", T::NAME), |c| {
                    let l = gen::lower::<T>(&mut c.rng, n, class);
                    let mut v = l_dl::<T>(n, &l, &vec![1.0; n]);
                    if !T::FIXED && c.rng.chance(1, 3) {
                        // definiteness does not depend on the scale
                        let k = if T::NAME == "f32" { 30 } else { 200 };
                        let f = (2f64).powi(c.rng.int(-k, k) as i32);
                        v.iter_mut().for_each(|x| *x *= f);
                    }
                    judge(c, &s, &v)
                });
                rep.case(&format!("{}/{n}/indefinite-{class}#{round}", T::NAME), |c| {
                    let l = gen::lower::<T>(&mut c.rng, n, class);
                    let mut d = vec![1.0; n];
                    // often the last pivot, the one an early exit misses
                    let k = if c.rng.chance(1, 2) { n - 1 } else { c.rng.below(n) };
                    d[k] = -*c.rng.pick(&[1.0, 0.5, 0.25, 0.0625]);
                    let mut v = l_dl::<T>(n, &l, &d);
                    if !T::FIXED && c.rng.chance(1, 3) {
                        let k = if T::NAME == "f32" { 30 } else { 200 };
                        let f = (2f64).powi(c.rng.int(-k, k) as i32);
                        v.iter_mut().for_each(|x| *x *= f);
                    }
                    judge(c, &s, &v)
                });
                rep.case(&format!("{}/{n}/degenerate-{class}#{round}", T::NAME), |c| {
                    let l = gen::lower::<T>(&mut c.rng, n, class);
                    let mut v = l_dl::<T>(n, &l, &vec![1.0; n]);
                    let k = c.rng.below(n);
                    match c.rng.below(4) {
                        0 => v.iter_mut().for_each(|x| *x = 0.0),
                        1 => v.iter_mut().for_each(|x| *x = -*x),
                        2 => v[k * n + k] = 0.0,
                        _ => {
                            for i in 0..n {
                                v[i * n + k] = 0.0;
                                v[k * n + i] = 0.0;
                            }
                        }
                    }
                    judge(c, &s, &v)
                });
            }
        }
        for class in gen::COV_CLASSES {
            for round in 0..few {
                rep.case(&format!("{}/{n}/covariance-{class}#{round}", T::NAME), |c| {
                    let v = to_f(&gen::cov_pd::<T>(&mut c.rng, class, n));
                    judge(c, &s, &v)
                });
            }
        }
        if !T::FIXED {
            for round in 0..few * 4 {
                rep.case(&format!("{}/{n}/nan#{round}", T::NAME), |c| {
                    let l = gen::lower::<T>(&mut c.rng, n, "dense");
                    let mut v = l_dl::<T>(n, &l, &vec![1.0; n]);
                    let mut hit = String::new();
                    for _ in 0..1 + c.rng.below(2) {
                        let (i, j) = match c.rng.below(4) {
                            0 => (n - 1, n - 1),
                            1 => (0, 0),
                            2 => (n - 1, n.saturating_sub(2)),
                            _ => (c.rng.below(n), c.rng.below(n)),
                        };
                        v[i * n + j] = f64::NAN;
                        v[j * n + i] = f64::NAN;
                        hit += &format!("({i},{j}) ");
                    }
                    let mut t: Vec<T> = to_t(&v);
                    c.input(&t);
                    let ok = (s.chol)(&mut t);
                    c.count("matrices with NaN judged", 1);
                    c.nontrivial(true);
                    c.that(!ok, || format!("{n}×{n} matrix with NaN at {hit}: decomposition reports success"))
                });
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C15",
        "A case is one symmetric matrix, classified beforehand as clearly definite, clearly not definite or too close to \
         call by its spectrum; non-trivial when it was judged; distinct by its bits.",
    );
    every_type!(all, &mut rep);
    rep.finish()
}
