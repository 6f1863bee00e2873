//! C16: the inverse from the Cholesky factor, with a componentwise error bound.
use kfmon::mats::*;
use kfmon::*;

/// Inverse of a lower triangular matrix in f64 by forward substitution, row by row.
fn tri_inv(l: &M) -> M {
    let n = l.r;
    let mut o = M::zero(n, n);
    for j in 0..n {
        for i in j..n {
            let mut s = if i == j { 1.0 } else { 0.0 };
            for k in j..i {
                s -= l.at(i, k) * o.at(k, j);
            }
            o.v[i * n + j] = s / l.at(i, i);
        }
    }
    o
}

fn expected<T: Num>(n: usize, l: &[T]) -> Option<M> {
    let ar = Ar { u: 0.0, d: 0.0, fr: 0.0 };
    let fr = Ar::of::<T>().fr;
    let lm = M::of(n, n, l);
    let li = tri_inv(&lm);
    let lit = li.t();
    let mut x = lit.mul(&li, ar);
    x.e.iter_mut().for_each(|e| *e = 0.0);
    let (al, ali, alit, ax) = (lm.abs(), li.abs(), lit.abs(), x.abs());
    let p = n as f64 + 1.0;
    if T::FIXED {
        let (lmax, limax, xmax) = (lm.max_v(), li.max_v(), x.max_v());
        let sums = al.mul(&ali, ar).max_v().max(al.t().mul(&ax, ar).max_v());
        if lmax.max(limax).max(xmax).max(sums) > T::LIM / 8.0 {
            return None;
        }
        let d = T::DELTA;
        let r1 = d * (p + lmax * lmax * limax + lmax);
        let e1 = li.norm_inf() * r1;
        let r2 = d * (p + lmax * lmax * xmax + lmax);
        let e2 = lit.norm_inf() * (r2 + e1);
        if e2 > 0.25 * (1.0 + xmax) {
            return None;
        }
        x.e.iter_mut().for_each(|e| *e = e2);
    } else {
        let um = T::U.max(1.2e-16) + fr;
        let a = alit.mul(&al.t(), ar).mul(&ax, ar);
        let b = alit.mul(&ali, ar).mul(&al, ar).mul(&ali, ar);
        let c = alit.mul(&ali, ar);
        // What products and quotients that underflow lose, element by element: a row of the
        // first system loses d per product, d times the pivot in the final product and d times
        // its square in the reciprocal of the pivot; the second system likewise.
        let d = T::DELTA;
        let lost = |w: &M, i: usize, j: usize| {
            let q = l[i * n + i].f();
            d * (p + q + q * q * w.at(i, j))
        };
        let mut r1 = M::zero(n, n);
        for i in 0..n {
            for j in 0..=i {
                r1.v[i * n + j] = lost(&ali, i, j);
            }
        }
        let mut r2 = ali.mul(&r1, ar);
        for i in 0..n {
            for j in 0..n {
                r2.v[i * n + j] += lost(&ax, i, j);
            }
        }
        // (either triangle may have been copied from the other)
        let e2 = alit.mul(&r2, ar);
        // nothing is claimed if anything on the way leaves the range of the type
        let top = if T::NAME == "f32" { 3e37 } else { 1e307 };
        let way = al.mul(&ali, ar).max_v().max(al.t().mul(&ax, ar).max_v()).max(ali.max_v()).max(ax.max_v()).max(al.max_v());
        if !(way < top) {
            return None;
        }
        for i in 0..x.v.len() {
            x.e[i] = p * um * (a.v[i] + b.v[i] + c.v[i]) + 2.0 * e2.v[i].max(e2.at(i % n, i / n));
            if !x.e[i].is_finite() {
                return None;
            }
        }
    }
    Some(x)
}

fn judge<T: Num>(c: &mut Case, s: &Sq<T>, l: &[T]) -> Chk {
    let n = s.n;
    c.input(l);
    c.sample(|| format!("L={l:?}"));
    let Some(want) = expected::<T>(n, l) else {
        c.count("out of range, not judged", 1);
        return Ok(());
    };
    let k = c.rng.below(6);
    let mut inv: Vec<T> = (0..n * n).map(|i| T::poison(k + i)).collect();
    let before = l.to_vec();
    (s.inv)(l, &mut inv);
    c.near("inverse", &inv, &want)?;
    c.exact("factor", l, &before)?;
    // another previous content of the target
    let mut inv2 = vec![T::default(); n * n];
    (s.inv)(l, &mut inv2);
    c.exact("inverse into a cleared and a used target", &inv2, &inv)?;
    c.count("inverses judged", 1);
    c.nontrivial(inv.iter().any(|v| v.f() != 0.0) && (n > 1 || l[0].f() != 1.0));
    Ok(())
}

fn all<T: MatSets>(rep: &mut Rep) {
    let rounds = rep.r(24, 500);
    for s in T::big().squares {
        for class in ["diag", "band", "arrow", "scaled"] {
            for round in 0..rep.n(1, 4) {
                rep.case(&format!("{}/{}/big-{class}#{round}", T::NAME, s.n), |c| {
                    let l = gen::lower::<T>(&mut c.rng, s.n, class);
                    judge(c, &s, &l)
                });
            }
        }
    }
    for s in T::squares() {
        let n = s.n;
        let few = if n > 16 { rounds / 4 } else { rounds };
        for class in gen::LOWER_CLASSES {
            for round in 0..few {
                rep.case(&format!("{}/{n}/{class}#{round}", T::NAME), |c| {
                    let mut l = gen::lower::<T>(&mut c.rng, n, class);
                    if !T::FIXED && c.rng.chance(1, 2) {
                        let far = if T::NAME == "f32" { 65 } else { 500 };
                        let near = if T::NAME == "f32" { 12 } else { 90 };
                        let k = if c.rng.chance(1, 2) { near } else { far };
                        let f = (2f64).powi(c.rng.int(-k, k) as i32);
                        // all of it, or one row
                        let row = c.rng.below(2 * n);
                        for (i, x) in l.iter_mut().enumerate() {
                            if row >= n || i / n == row {
                                *x = T::of(x.f() * f);
                            }
                        }
                    }
                    judge(c, &s, &l)
                });
            }
        }
        // factors as the library itself produces them
        for class in gen::COV_CLASSES {
            for round in 0..few / 4 {
                rep.case(&format!("{}/{n}/cov-{class}#{round}", T::NAME), |c| {
                    let mut l = gen::cov_pd::<T>(&mut c.rng, class, n);
                    if !(s.chol)(&mut l) {
                        return Ok(());
                    }
                    // C15 judges the factor; here any lower triangular matrix will do
                    for i in 0..n {
                        if !(l[i * n + i].f() > 0.0) {
                            return Ok(());
                        }
                        for j in i + 1..n {
                            l[i * n + j] = T::zero();
                        }
                    }
                    judge(c, &s, &l)
                });
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C16",
        "A case is one lower triangular factor of one size and number type, inverted into poisoned and cleared targets; \
         non-trivial when the result was judged and is not trivially one; distinct by the factor's bits.",
    );
    every_type!(all, &mut rep);
    rep.finish()
}
