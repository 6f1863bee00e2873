//! C09: the recursive estimate against the batch (information form, weighted least squares)
//! solution of the whole mission, and independence of order and grouping of measurements.
//! The reference never uses the Kalman equations.
use kfmon::num::{to_f, to_t};
use kfmon::rig::{Make, Rig, Slot::*};
use kfmon::*;

const EX: Ar = Ar { u: 0.0, d: 0.0, fr: 0.0 };

fn of<T: Num>(r: &dyn Rig<T>, s: rig::Slot) -> M {
    let (n, u, m) = r.dims();
    let (a, b) = rig::shape(s, n, u, m);
    M::of(a, b, &r.get(s))
}
fn inv(m: &M) -> M {
    let mut i = m.inv_plain().expect("invertible");
    i.e.iter_mut().for_each(|e| *e = 0.0);
    i
}
fn add_block(j: &mut M, bi: usize, bj: usize, b: &M) {
    for r in 0..b.r {
        for c in 0..b.c {
            let k = (bi + r) * j.c + bj + c;
            j.v[k] += b.v[r * b.c + c];
        }
    }
}
fn block(j: &M, bi: usize, r: usize, bj: usize, c: usize) -> M {
    let mut o = M::zero(r, c);
    for i in 0..r {
        for k in 0..c {
            o.v[i * c + k] = j.at(bi + i, bj + k);
        }
    }
    o
}
fn plus(a: &M, b: &M) -> M {
    M::new(a.r, a.c, a.v.iter().zip(&b.v).map(|(x, y)| x + y).collect())
}
fn minus(a: &M, b: &M) -> M {
    M::new(a.r, a.c, a.v.iter().zip(&b.v).map(|(x, y)| x - y).collect())
}

/// Well-conditioned random data.
fn spd<T: Num>(rng: &mut Rng, n: usize, lo: f64) -> Vec<T> {
    let g: Vec<f64> = (0..n * n).map(|_| rng.sym() * 0.7).collect();
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..n).map(|k| g[i * n + k] * g[j * n + k]).sum::<f64>() + if i == j { lo } else { 0.0 };
            let s = T::of(s).f();
            v[i * n + j] = s;
            v[j * n + i] = s;
        }
    }
    to_t(&v)
}
fn reals<T: Num>(rng: &mut Rng, k: usize, a: f64) -> Vec<T> {
    to_t(&(0..k).map(|_| rng.sym() * a).collect::<Vec<_>>())
}

fn tol<T: Num>() -> f64 {
    if T::NAME == "f32" {
        2e-3
    } else {
        1e-10
    }
}

fn agree<T: Num>(c: &mut Case, what: &str, r: &dyn Rig<T>, x: &M, p: &M) -> Chk {
    for (s, w) in [(X, x), (P, p)] {
        let g = to_f(&r.get(s));
        let scale = w.max_v().max(1.0);
        for i in 0..w.v.len() {
            let d = (g[i] - w.v[i]).abs();
            c.that(d <= tol::<T>() * scale, || {
                format!("{what}: filter has {s:?}={g:?}, batch solution {:?}", w.v)
            })?;
            c.ratio(d / (tol::<T>() * scale));
        }
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy)]
enum Ev {
    Predict,
    Control,
    Correct,
}

fn events(rng: &mut Rng, len: usize, control: bool) -> Vec<Ev> {
    let mut v = vec![];
    for k in 0..len {
        match rng.below(6) {
            0 | 1 => v.push(Ev::Predict),
            2 if control && k > 0 => v.push(Ev::Control),
            _ => v.push(Ev::Correct),
        }
    }
    v
}

/// No process noise: everything is a regression on the initial state.
fn regression<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, len: usize) -> Chk {
    let (n, u, m) = r.dims();
    let lin = r.linear();
    let x0 = reals::<T>(&mut c.rng, n, 3.0);
    let p0 = spd::<T>(&mut c.rng, n, 0.5);
    c.input(&x0);
    c.input(&p0);
    r.put(X, &x0);
    r.put(P, &p0);
    r.put(Q, &vec![T::zero(); n * n]);
    let mut j = inv(&M::of(n, n, &p0));
    let mut b = j.mul(&M::of(n, 1, &x0), EX);
    let mut phi = M::eye(n);
    let mut off = M::zero(n, 1);
    let mut used = 0;
    for e in events(&mut c.rng, len, lin && u > 0) {
        match e {
            Ev::Predict => {
                let a = gen::stable::<T>(&mut c.rng, n);
                r.put(A, &a);
                let am = M::of(n, n, &a);
                phi = am.mul(&phi, EX);
                off = am.mul(&off, EX);
                if lin {
                    r.predict();
                } else {
                    r.predict_nl(&mut |x, o| product(&a, x, o));
                }
            }
            Ev::Control => {
                let (bm, uv) = (reals::<T>(&mut c.rng, n * u, 1.0), reals::<T>(&mut c.rng, u, 2.0));
                r.put(B, &bm);
                r.put(U, &uv);
                r.put(QC, &vec![T::zero(); u * u]);
                off = plus(&off, &M::of(n, u, &bm).mul(&M::of(u, 1, &uv), EX));
                r.control();
            }
            Ev::Correct => {
                let (h, z) = (reals::<T>(&mut c.rng, m * n, 1.0), reals::<T>(&mut c.rng, m, 4.0));
                let rr = spd::<T>(&mut c.rng, m, 0.5);
                r.put(H, &h);
                r.put(Z, &z);
                r.put(R, &rr);
                let hp = M::of(m, n, &h).mul(&phi, EX);
                let w = hp.t().mul(&inv(&M::of(m, m, &rr)), EX);
                j = plus(&j, &w.mul(&hp, EX));
                let res = minus(&M::of(m, 1, &z), &M::of(m, n, &h).mul(&off, EX));
                b = plus(&b, &w.mul(&res, EX));
                if lin {
                    r.correct();
                } else {
                    r.correct_nl(&mut |x, o| product(&h, x, o));
                }
                used += 1;
            }
        }
    }
    let ji = inv(&j);
    let x = plus(&phi.mul(&ji.mul(&b, EX), EX), &off);
    let p = phi.mul(&ji, EX).mul(&phi.t(), EX);
    agree(c, &format!("regression over {len} steps"), r, &x, &p)?;
    c.count("measurements regressed", used);
    c.nontrivial(used > 0);
    c.sample(|| format!("{len} steps, {used} measurements, x={:?}", x.v));
    Ok(())
}

fn product<T: Num>(a: &[T], x: &[T], o: &mut [T]) {
    let n = x.len();
    for i in 0..o.len() {
        let mut s = T::zero();
        for k in 0..n {
            s += a[i * n + k] * x[k];
        }
        o[i] = s;
    }
}

/// With process noise: weighted least squares over the whole state history.
fn smoothing<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, stages: usize) -> Chk {
    let (n, u, m) = r.dims();
    let lin = r.linear();
    let x0 = reals::<T>(&mut c.rng, n, 3.0);
    let p0 = spd::<T>(&mut c.rng, n, 0.5);
    c.input(&x0);
    c.input(&p0);
    r.put(X, &x0);
    r.put(P, &p0);
    let dim = n * (stages + 1);
    let mut j = M::zero(dim, dim);
    let mut b = M::zero(dim, 1);
    let j0 = inv(&M::of(n, n, &p0));
    add_block(&mut j, 0, 0, &j0);
    add_block(&mut b, 0, 0, &j0.mul(&M::of(n, 1, &x0), EX));
    let mut used = 0;
    for k in 0..stages {
        // transition k -> k+1, with a control or without
        let a = gen::stable::<T>(&mut c.rng, n);
        let q = spd::<T>(&mut c.rng, n, 0.3);
        r.put(A, &a);
        r.put(Q, &q);
        if lin {
            r.predict();
        } else {
            r.predict_nl(&mut |x, o| product(&a, x, o));
        }
        let mut qt = M::of(n, n, &q);
        let mut off = M::zero(n, 1);
        if lin && u > 0 && c.rng.chance(1, 2) {
            let (bm, uv) = (reals::<T>(&mut c.rng, n * u, 1.0), reals::<T>(&mut c.rng, u, 2.0));
            let qc = spd::<T>(&mut c.rng, u, 0.3);
            r.put(B, &bm);
            r.put(U, &uv);
            r.put(QC, &qc);
            r.control();
            let bm = M::of(n, u, &bm);
            off = bm.mul(&M::of(u, 1, &uv), EX);
            qt = plus(&qt, &bm.mul(&M::of(u, u, &qc), EX).mul(&bm.t(), EX));
        }
        let (i0, i1) = (k * n, (k + 1) * n);
        let am = M::of(n, n, &a);
        let qi = inv(&qt);
        let aq = am.t().mul(&qi, EX);
        let neg = |m: &M| M::new(m.r, m.c, m.v.iter().map(|v| -v).collect());
        add_block(&mut j, i0, i0, &aq.mul(&am, EX));
        add_block(&mut j, i0, i1, &neg(&aq));
        add_block(&mut j, i1, i0, &neg(&aq.t()));
        add_block(&mut j, i1, i1, &qi);
        add_block(&mut b, i0, 0, &neg(&aq.mul(&off, EX)));
        add_block(&mut b, i1, 0, &qi.mul(&off, EX));
        for _ in 0..c.rng.below(3) {
            let (h, z) = (reals::<T>(&mut c.rng, m * n, 1.0), reals::<T>(&mut c.rng, m, 4.0));
            let rr = spd::<T>(&mut c.rng, m, 0.5);
            r.put(H, &h);
            r.put(Z, &z);
            r.put(R, &rr);
            if lin {
                r.correct();
            } else {
                r.correct_nl(&mut |x, o| product(&h, x, o));
            }
            let hm = M::of(m, n, &h);
            let w = hm.t().mul(&inv(&M::of(m, m, &rr)), EX);
            add_block(&mut j, i1, i1, &w.mul(&hm, EX));
            add_block(&mut b, i1, 0, &w.mul(&M::of(m, 1, &z), EX));
            used += 1;
        }
    }
    let cov = inv(&j);
    let last = stages * n;
    let x = block(&cov.mul(&b, EX), last, n, 0, 1);
    let p = block(&cov, last, n, last, n);
    agree(c, &format!("history of {stages} stages"), r, &x, &p)?;
    c.count("measurements in state histories", used);
    c.nontrivial(used > 0);
    Ok(())
}

fn batch<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let rounds = rep.r(160, 2400);
    for (w, n, u, m, mk) in makes {
        if *n > 9 || *m > 10 {
            continue;
        }
        let base = format!("{}/{w}/n{n}u{u}m{m}", T::NAME);
        for round in 0..rounds {
            let len = [3, 6, 12, 25][round % 4];
            rep.case(&format!("{base}/regression#{round}"), |c| regression(c, &mut *mk(), len));
            let stages = (1 + round % 6).min(36 / *n);
            rep.case(&format!("{base}/history#{round}"), |c| smoothing(c, &mut *mk(), stages));
        }
    }
}

/// Independent measurements: stacked in one update, or one after the other in any order, in any
/// partition for which a filter shape exists.
fn grouping<T: Num>(rep: &mut Rep, makes: &[Make<T>], ext: bool) {
    let rounds = rep.r(80, 1200);
    for (w, n, u, m, mk) in makes {
        if *m < 2 || *m > 10 {
            continue;
        }
        let parts: Vec<&Make<T>> = makes.iter().filter(|o| o.1 == *n && o.3 < *m).collect();
        if !parts.iter().any(|o| o.3 == 1) {
            continue;
        }
        for round in 0..rounds {
            rep.case(&format!("{}/{w}/n{n}u{u}m{m}/grouping{}#{round}", T::NAME, ext as u8), |c| {
                let (n, m) = (*n, *m);
                let x0 = reals::<T>(&mut c.rng, n, 3.0);
                let p0 = spd::<T>(&mut c.rng, n, 0.5);
                let h = reals::<T>(&mut c.rng, m * n, 1.0);
                let z = reals::<T>(&mut c.rng, m, 4.0);
                // a random partition of the measurements into consecutive groups of a random order
                let mut order: Vec<usize> = (0..m).collect();
                c.rng.shuffle(&mut order);
                let mut groups: Vec<Vec<usize>> = vec![];
                let mut k = 0;
                while k < m {
                    let fit: Vec<usize> = parts.iter().map(|o| o.3).filter(|s| *s <= m - k).collect();
                    let g = *c.rng.pick(&fit);
                    groups.push(order[k..k + g].to_vec());
                    k += g;
                }
                // correlated noise inside a group, none between groups
                let mut rr = M::zero(m, m);
                for g in &groups {
                    let b = M::of(g.len(), g.len(), &spd::<T>(&mut c.rng, g.len(), 0.5));
                    for (i, gi) in g.iter().enumerate() {
                        for (j, gj) in g.iter().enumerate() {
                            rr.v[gi * m + gj] = b.at(i, j);
                        }
                    }
                }
                for v in [&x0, &p0, &h, &z] {
                    c.input(v);
                }
                let update = |r: &mut dyn Rig<T>, rows: &[usize], x: &[T], p: &[T]| {
                    let hs: Vec<T> = rows.iter().flat_map(|i| h[i * n..(i + 1) * n].to_vec()).collect();
                    let zs: Vec<T> = rows.iter().map(|i| z[*i]).collect();
                    let rs: Vec<f64> = rows.iter().flat_map(|i| rows.iter().map(|j| rr.at(*i, *j)).collect::<Vec<_>>()).collect();
                    r.put(X, x);
                    r.put(P, p);
                    r.put(H, &hs);
                    r.put(Z, &zs);
                    r.put(R, &to_t::<T>(&rs));
                    if ext || !r.linear() {
                        r.correct_nl(&mut |x, o| product(&hs, x, o));
                    } else {
                        r.correct();
                    }
                };
                let mut whole = mk();
                update(&mut *whole, &(0..m).collect::<Vec<_>>(), &x0, &p0);
                let (mut x, mut p) = (x0.clone(), p0.clone());
                c.rng.shuffle(&mut groups);
                for g in &groups {
                    let part = parts.iter().find(|o| o.3 == g.len()).unwrap();
                    let mut r = (part.4)();
                    update(&mut *r, g, &x, &p);
                    x = r.get(X);
                    p = r.get(P);
                }
                agree(c, &format!("groups {groups:?} against all at once"), &*whole, &M::of(n, 1, &x), &M::of(n, n, &p))?;
                c.count("partitions compared", 1);
                c.nontrivial(true);
                Ok(())
            });
        }
    }
}

/// One filter object from the builder served by several measurement objects.
#[cfg(feature = "alloc")]
mod several {
    use super::*;
    use minikalman::prelude::*;
    use minikalman::regular::builder::KalmanFilterBuilder;

    pub fn run<const N: usize, const M1: usize, const M2: usize, const MS: usize, T: Num>(rep: &mut Rep) {
        assert_eq!(M1 + M2, MS);
        for round in 0..rep.r(200, 4000) {
            rep.case(&format!("{}/several/n{N}m{M1}+{M2}#{round}", T::NAME), |c| {
                let b = KalmanFilterBuilder::<N, T>::default();
                let (mut f, mut g) = (b.build(), b.build());
                let mut o1 = b.observations().build::<M1>();
                let mut o2 = b.observations().build::<M2>();
                let mut os = b.observations().build::<MS>();
                let x0 = reals::<T>(&mut c.rng, N, 3.0);
                let p0 = spd::<T>(&mut c.rng, N, 0.5);
                c.input(&x0);
                c.input(&p0);
                for k in [&mut f, &mut g] {
                    k.state_vector_mut().as_mut_slice().copy_from_slice(&x0);
                    k.estimate_covariance_mut().as_mut_slice().copy_from_slice(&p0);
                }
                for k in 0..6 {
                    let a = gen::stable::<T>(&mut c.rng, N);
                    let q = spd::<T>(&mut c.rng, N, 0.2);
                    for k in [&mut f, &mut g] {
                        k.state_transition_mut().as_mut_slice().copy_from_slice(&a);
                        k.direct_process_noise_mut().as_mut_slice().copy_from_slice(&q);
                        k.predict();
                    }
                    let h = reals::<T>(&mut c.rng, MS * N, 1.0);
                    let z = reals::<T>(&mut c.rng, MS, 4.0);
                    let (r1, r2) = (spd::<T>(&mut c.rng, M1, 0.5), spd::<T>(&mut c.rng, M2, 0.5));
                    o1.observation_matrix_mut().as_mut_slice().copy_from_slice(&h[..M1 * N]);
                    o2.observation_matrix_mut().as_mut_slice().copy_from_slice(&h[M1 * N..]);
                    os.observation_matrix_mut().as_mut_slice().copy_from_slice(&h);
                    o1.measurement_vector_mut().as_mut_slice().copy_from_slice(&z[..M1]);
                    o2.measurement_vector_mut().as_mut_slice().copy_from_slice(&z[M1..]);
                    os.measurement_vector_mut().as_mut_slice().copy_from_slice(&z);
                    o1.measurement_noise_covariance_mut().as_mut_slice().copy_from_slice(&r1);
                    o2.measurement_noise_covariance_mut().as_mut_slice().copy_from_slice(&r2);
                    let rs = os.measurement_noise_covariance_mut().as_mut_slice();
                    for i in 0..MS {
                        for j in 0..MS {
                            rs[i * MS + j] = if i < M1 && j < M1 {
                                r1[i * M1 + j]
                            } else if i >= M1 && j >= M1 {
                                r2[(i - M1) * M2 + j - M1]
                            } else {
                                T::zero()
                            };
                        }
                    }
                    if c.rng.chance(1, 2) {
                        f.correct(&mut o1);
                        f.correct(&mut o2);
                    } else {
                        f.correct(&mut o2);
                        f.correct(&mut o1);
                    }
                    g.correct(&mut os);
                    for (s, t, what) in [
                        (f.state_vector().as_slice(), g.state_vector().as_slice(), "state"),
                        (f.estimate_covariance().as_slice(), g.estimate_covariance().as_slice(), "covariance"),
                    ] {
                        for i in 0..s.len() {
                            let d = (s[i].f() - t[i].f()).abs();
                            c.that(d <= tol::<T>() * t[i].f().abs().max(1.0), || {
                                format!("step {k}: {what} one by one {s:?}, stacked {t:?}")
                            })?;
                        }
                    }
                    c.count("one-by-one against stacked", 1);
                    c.nontrivial(true);
                }
                Ok(())
            });
        }
    }
}

fn all<T: Sets>(rep: &mut Rep) {
    batch::<T>(rep, &T::slices());
    grouping::<T>(rep, &T::slices(), false);
    grouping::<T>(rep, &T::slices(), true);
    #[cfg(feature = "alloc")]
    {
        batch::<T>(rep, &T::owned());
        batch::<T>(rep, &T::owned_ext());
        several::run::<1, 1, 1, 2, T>(rep);
        several::run::<2, 1, 2, 3, T>(rep);
        several::run::<3, 2, 2, 4, T>(rep);
        several::run::<4, 3, 1, 4, T>(rep);
        several::run::<3, 1, 5, 6, T>(rep);
        several::run::<5, 2, 5, 7, T>(rep);
    }
}

fn main() {
    let mut rep = Rep::new(
        "C09",
        "A case is one generated mission compared with its batch solution, or one partition of a set of measurements \
         compared with the stacked update; non-trivial when at least one measurement was used; distinct by initial data.",
    );
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    rep.finish()
}
