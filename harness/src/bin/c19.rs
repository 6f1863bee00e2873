//! C19: too small buffers are refused when the checks are on, exact and oversized ones are
//! accepted and describe themselves correctly; with the checks off nothing outside a too small
//! buffer is touched and whatever needs the missing elements panics.
use kfmon::drive::{fill_all, make_op, settle};
use kfmon::mats::*;
use kfmon::mission::*;
use kfmon::rig::{Rig, SliceRig, Slot, Slot::*, ALL};
use kfmon::*;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
#[allow(unused_imports)]
use minikalman::prelude::*;

/// Whether undersized buffers must be refused on creation.
const CHECKED: bool = cfg!(all(debug_assertions, not(feature = "no_assert")));

/// What a freshly made buffer says about itself.
struct Said<T> {
    rows: usize,
    cols: usize,
    len: usize,
    own_len: usize,
    buffer_len: usize,
    empty: bool,
    own_empty: bool,
    valid: bool,
    slice: Vec<T>,
}

fn judge<T: Num>(c: &mut Case, how: &str, v: &[T], r: usize, k: usize, got: Result<Said<T>, (String, String)>) -> Chk {
    let need = r * k;
    match got {
        Err((m, l)) => {
            if v.len() >= need {
                return c.that(false, || format!("{how}: {} elements for {r}x{k} were refused: {m} at {l}", v.len()));
            }
            c.count("undersized buffers refused", 1);
            c.that(true, String::new)
        }
        Ok(s) => {
            if v.len() < need {
                c.that(!CHECKED, || format!("{how}: {} elements were accepted for {r}x{k}", v.len()))?;
                c.count("undersized buffers accepted with the checks off", 1);
            } else {
                c.count(if v.len() == need { "exact buffers accepted" } else { "oversized buffers accepted" }, 1);
            }
            c.that(s.rows == r && s.cols == k, || format!("{how}: reports {}x{} instead of {r}x{k}", s.rows, s.cols))?;
            c.that(s.len == need && s.own_len == need, || format!("{how}: reports length {} / {} instead of {need}", s.len, s.own_len))?;
            c.that(s.buffer_len == v.len(), || format!("{how}: reports buffer length {} instead of {}", s.buffer_len, v.len()))?;
            c.that(s.empty == (need == 0) && s.own_empty == (need == 0), || format!("{how}: emptiness reported as {} / {}", s.empty, s.own_empty))?;
            c.that(s.valid == (v.len() >= need), || format!("{how}: {} elements for {r}x{k} reported as valid: {}", v.len(), s.valid))?;
            c.exact(&format!("{how}: contents"), &s.slice, v)
        }
    }
}

macro_rules! say {
    ($b:expr, $r:tt, $c:tt, $t:ty) => {{
        let b = $b;
        Said::<$t> {
            rows: b.rows(),
            cols: b.cols(),
            len: RowMajorSequentialData::<$r, $c, $t>::len(&b),
            own_len: b.len(),
            buffer_len: b.buffer_len(),
            empty: RowMajorSequentialData::<$r, $c, $t>::is_empty(&b),
            own_empty: b.is_empty(),
            valid: RowMajorSequentialData::<$r, $c, $t>::is_valid(&b) && b.is_valid(),
            slice: b.as_slice().to_vec(),
        }
    }};
}

fn data<T: Num>(n: usize, salt: usize) -> Vec<T> {
    (0..n).map(|i| T::of(((i * 7 + salt * 3) % 23) as f64 * 0.5 - 4.0)).collect()
}

/// Every length of slice, and arrays one short, exact, and larger.
macro_rules! create {
    ($rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt, $kind:ident) => {
        for n in 0..$r * $c + 5 {
            $rep.case(&format!("{}/create/{}/{}x{}/{n}", <$t as Num>::NAME, stringify!($ty), $r, $c), |c| {
                let v = data::<$t>(n, $r + 5 * $c);
                c.input(&v);
                c.nontrivial(true);
                c.sample(|| format!("{n} elements for {}x{}", $r, $c));
                let mut w = v.clone();
                let got = guarded(|| say!($ty::<$($g)*, $t, _>::from(w.as_mut_slice()), $r, $c, $t));
                judge(c, "from a mutable slice", &v, $r, $c, got)?;
                create!(@ro $kind, c, v, $t; $ty [$($g)*], $r, $c);
                Ok(())
            });
        }
        create!(@arrays $kind, $rep, $t; $ty [$($g)*], $r, $c);
        #[cfg(feature = "alloc")]
        for n in 0..$r * $c + 1 {
            $rep.case(&format!("{}/create/{}/{}x{}/boxed{n}", <$t as Num>::NAME, stringify!($ty), $r, $c), |c| {
                let v = data::<$t>(n, $r + 3 * $c);
                c.input(&v);
                c.nontrivial(true);
                let w = v.clone();
                let got = guarded(|| say!($ty::<$($g)*, $t, _>::new(MatrixDataBoxed::<$r, $c, $t>::new(w)), $r, $c, $t));
                judge(c, "boxed", &v, $r, $c, got)
            });
        }
    };
    (@ro immutable, $cs:ident, $v:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {
        let got = guarded(|| say!($ty::<$($g)*, $t, _>::from($v.as_slice()), $r, $c, $t));
        judge($cs, "from a slice", &$v, $r, $c, got)?;
    };
    (@ro $k:ident, $cs:ident, $v:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {};
    (@arrays vector, $rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, { $r * $c });
        create!(@marray $rep, $t; $ty [$($g)*], $r, $c, { $r * $c - 1 });
    };
    (@arrays $k:ident, $rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, 0);
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, { $r * $c - 1 });
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, { $r * $c });
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, { $r * $c + 1 });
        create!(@array $rep, $t; $ty [$($g)*], $r, $c, { $r * $c + 9 });
        create!(@marray $rep, $t; $ty [$($g)*], $r, $c, { $r * $c - 1 });
    };
    (@array $rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt, $n:tt) => {
        $rep.case(&format!("{}/create/{}/{}x{}/array{}", <$t as Num>::NAME, stringify!($ty), $r, $c, $n), |c| {
            let v: [$t; $n] = data::<$t>($n, $r + $c).try_into().unwrap();
            c.input(&v);
            c.nontrivial(true);
            let got = guarded(|| say!($ty::<$($g)*, $t, _>::from(v), $r, $c, $t));
            judge(c, "from an array", &v, $r, $c, got)
        });
    };
    (@marray $rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt, $n:tt) => {
        $rep.case(&format!("{}/create/{}/{}x{}/matrix array{}", <$t as Num>::NAME, stringify!($ty), $r, $c, $n), |c| {
            let v: [$t; $n] = data::<$t>($n, $r + $c).try_into().unwrap();
            c.input(&v);
            c.nontrivial(true);
            let got = guarded(|| say!($ty::<$($g)*, $t, _>::new(MatrixDataArray::<$r, $c, $n, $t>::new(v)), $r, $c, $t));
            judge(c, "from a matrix of an array", &v, $r, $c, got)
        });
    };
}

macro_rules! roles {
    ($rep:ident, $t:ty, $n:tt, $u:tt, $m:tt) => {{
        create!($rep, $t; StateTransitionMatrixMutBuffer [$n], $n, $n, mutable);
        create!($rep, $t; StateTransitionMatrixBuffer [$n], $n, $n, immutable);
        create!($rep, $t; StateVectorBuffer [$n], $n, 1, vector);
        create!($rep, $t; EstimateCovarianceMatrixBuffer [$n], $n, $n, mutable);
        create!($rep, $t; DirectProcessNoiseCovarianceMatrixMutBuffer [$n], $n, $n, mutable);
        create!($rep, $t; DirectProcessNoiseCovarianceMatrixBuffer [$n], $n, $n, immutable);
        create!($rep, $t; PredictedStateEstimateVectorBuffer [$n], $n, 1, vector);
        create!($rep, $t; TemporaryStateMatrixBuffer [$n], $n, $n, mutable);
        create!($rep, $t; ControlMatrixMutBuffer [$n, $u], $n, $u, mutable);
        create!($rep, $t; ControlMatrixBuffer [$n, $u], $n, $u, immutable);
        create!($rep, $t; ControlVectorBuffer [$u], $u, 1, vector);
        create!($rep, $t; ControlProcessNoiseCovarianceMatrixMutBuffer [$u], $u, $u, mutable);
        create!($rep, $t; ControlProcessNoiseCovarianceMatrixBuffer [$u], $u, $u, immutable);
        create!($rep, $t; TemporaryBQMatrixBuffer [$n, $u], $n, $u, mutable);
        create!($rep, $t; ObservationMatrixMutBuffer [$m, $n], $m, $n, mutable);
        create!($rep, $t; ObservationMatrixBuffer [$m, $n], $m, $n, immutable);
        create!($rep, $t; MeasurementVectorBuffer [$m], $m, 1, vector);
        create!($rep, $t; MeasurementNoiseCovarianceMatrixBuffer [$m], $m, $m, mutable);
        create!($rep, $t; InnovationVectorBuffer [$m], $m, 1, vector);
        create!($rep, $t; InnovationCovarianceMatrixBuffer [$m], $m, $m, mutable);
        create!($rep, $t; KalmanGainMatrixBuffer [$n, $m], $n, $m, mutable);
        create!($rep, $t; TemporaryResidualCovarianceInvertedMatrixBuffer [$m], $m, $m, mutable);
        create!($rep, $t; TemporaryHPMatrixBuffer [$m, $n], $m, $n, mutable);
        create!($rep, $t; TemporaryPHTMatrixBuffer [$n, $m], $n, $m, mutable);
        create!($rep, $t; TemporaryKHPMatrixBuffer [$n], $n, $n, mutable);
    }};
}

// -- steps and operations on buffers that are too small ---------------------------------------

/// A vector of `len` elements whose allocation continues with recognisable values.
fn short<T: Num>(v: &[T], len: usize) -> Vec<T> {
    short_in(v, len, 0)
}
/// The same among other neighbours.
fn short_in<T: Num>(v: &[T], len: usize, salt: usize) -> Vec<T> {
    let mut w = Vec::with_capacity(v.len() + 16);
    w.extend_from_slice(&v[..len]);
    for i in len..v.len() + 16 {
        w.push(guard::<T>(i + salt));
    }
    w.truncate(len);
    w
}
fn guard<T: Num>(i: usize) -> T {
    // ordinary numbers, so that reading them goes unnoticed by the arithmetic
    T::of(1.0 + (i % 7) as f64 * 0.125)
}
/// The elements behind the end (initialised above) are still what they were.
fn untouched<T: Num>(w: &Vec<T>, full: usize) -> bool {
    untouched_in(w, full, 0)
}
fn untouched_in<T: Num>(w: &Vec<T>, full: usize, salt: usize) -> bool {
    let spare = unsafe { std::slice::from_raw_parts(w.as_ptr().add(w.len()), full + 16 - w.len()) };
    spare.iter().enumerate().all(|(i, g)| g.bits() == guard::<T>(w.len() + i + salt).bits())
}

/// (state and parameters the step cannot do without, working memory it may use)
fn needs(kind: &str) -> (&'static [Slot], &'static [Slot]) {
    match kind {
        "predict" | "tuned" => (&[A, X, P, Q], &[PX, TP]),
        "control" => (&[X, P, B, U, QC], &[BQ, TP, PX]),
        "correct" => (&[X, P, H, Z, R], &[Y, S, K, SI, HP, PHT, KHP, PX, TP]),
        "predict_nl" | "tuned_nl" => (&[A, X, P, Q], &[PX, TP]),
        "correct_nl" => (&[X, P, H, Z, R], &[Y, S, K, SI, HP, PHT, KHP, PX, TP]),
        _ => unreachable!(),
    }
}

fn steps<const NN: usize, const NU: usize, const NM: usize, T: Num>(rep: &mut Rep) {
    for kind in ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"] {
        for s in ALL {
            let full = SliceRig::<NN, NU, NM, T>::new().len(s);
            let mut lens = vec![full - 1, 0, full / 2, full.saturating_sub(2), full - 1];
            lens.dedup();
            for (round, len) in lens.into_iter().enumerate() {
                rep.case(&format!("{}/step/n{NN}u{NU}m{NM}/{kind}/{s:?}#{round}", T::NAME), |c| {
                    let mut r = SliceRig::<NN, NU, NM, T>::new();
                    fill_all(c, &mut r);
                    settle(c, &mut r);
                    // every element matters
                    for q in [A, H, B] {
                        for x in r.d[q as usize].iter_mut() {
                            *x = T::of(sign(&mut c.rng) * (0.25 + 0.25 * c.rng.unit()));
                        }
                    }
                    for q in [X, U, Z] {
                        for x in r.d[q as usize].iter_mut() {
                            *x = T::of(0.5 + 0.25 * c.rng.unit());
                        }
                    }
                    for (q, n) in [(P, NN), (Q, NN), (QC, NU), (R, NM)] {
                        for i in 0..n {
                            for j in 0..n {
                                r.d[q as usize][i * n + j] = T::of(if i == j { 1.0 } else { 0.0625 });
                            }
                        }
                    }
                    for q in [A, H, B, X, U, Z] {
                        let v = r.get(q);
                        c.input(&v);
                    }
                    c.tag(&format!("{len}"));
                    let op = make_op::<T>(&mut c.rng, kind, (NN, NU, NM));
                    let mut want = SliceRig::<NN, NU, NM, T>::new();
                    for q in ALL {
                        want.put(q, &r.get(q));
                    }
                    apply(&mut want, &op);
                    r.d[s as usize] = short(&r.d[s as usize].clone(), len);
                    for q in ALL {
                        if q != s {
                            let v = r.d[q as usize].clone();
                            r.d[q as usize] = short(&v, v.len());
                        }
                    }
                    let mut twin = SliceRig::<NN, NU, NM, T>::new();
                    for q in ALL {
                        let v = r.d[q as usize].clone();
                        twin.d[q as usize] = short_in(&v, v.len(), 3);
                    }
                    let got = guarded(|| apply(&mut r, &op));
                    for q in ALL {
                        let n = want.len(q);
                        c.that(untouched(&r.d[q as usize], n), || {
                            format!("{kind} with {len} of {full} elements for {s:?}: memory behind {q:?} changed")
                        })?;
                    }
                    let (must, may) = needs(kind);
                    let relevant = must.contains(&s) || may.contains(&s);
                    match got {
                        Err((m, _)) => {
                            // creating the whole filter refuses any short buffer when the checks are on
                            c.that(CHECKED || relevant, || format!("{kind} panics although it does not need {s:?}: {m}"))?;
                            c.count("short buffers that panicked", 1);
                        }
                        Ok(()) => {
                            if relevant {
                                // a step may stop at the end of the buffer, but nothing may come from behind it
                                let again = guarded(|| apply(&mut twin, &op));
                                c.that(again.is_ok(), || format!("{kind} with {len} of {full} elements for {s:?}: depends on the neighbourhood"))?;
                                for q in [X, P] {
                                    c.exact(&format!("{kind} with a short {s:?} elsewhere in memory: {q:?}"), &twin.d[q as usize], &r.d[q as usize])?;
                                }
                                c.count("short buffers that were used as far as they go", 1);
                            }
                            for q in [X, P] {
                                if q != s && !relevant {
                                    c.exact(&format!("{kind} with a short {s:?}: {q:?}"), &r.d[q as usize], &want.get(q))?;
                                }
                            }
                            if !relevant {
                                c.count("short buffers that were not needed", 1);
                            }
                        }
                    }
                    c.nontrivial(true);
                    c.sample(|| format!("{len} of {full} elements for {s:?}"));
                    Ok(())
                });
            }
        }
    }
}

fn sign(r: &mut Rng) -> f64 {
    if r.chance(1, 2) {
        1.0
    } else {
        -1.0
    }
}

/// One operation with one operand too small: touches nothing else and uses nothing else.
/// Addressing a missing element panics; what goes over whole matrices may also stop at the end.
fn lacking<T: Num>(c: &mut Case, what: &str, ops: &[Vec<T>], f: &dyn Fn(&mut [Vec<T>])) -> Chk {
    let addresses = what.contains("element");
    for k in 0..ops.len() {
        let full = ops[k].len();
        let mut lens = vec![full - 1, full / 2, 0];
        lens.dedup();
        for len in lens {
            let make = |salt| -> Vec<Vec<T>> {
                ops.iter().enumerate().map(|(i, v)| short_in(v, if i == k { len } else { v.len() }, salt)).collect()
            };
            c.count("operations with a short operand", 1);
            let mut w = make(0);
            let got = guarded(|| f(&mut w));
            for (i, v) in w.iter().enumerate() {
                c.that(untouched(v, ops[i].len()), || format!("{what} with {len} of {full} elements in operand {k}: memory behind operand {i} changed"))?;
            }
            if got.is_err() {
                c.count("operations refused by a panic", 1);
                continue;
            }
            c.that(!addresses, || format!("{what} went through with only {len} of {full} elements in operand {k}"))?;
            let mut twin = make(3);
            let again = guarded(|| f(&mut twin));
            c.that(again.is_ok(), || format!("{what} with {len} of {full} elements in operand {k}: depends on the neighbourhood"))?;
            for (i, (p, q)) in w.iter().zip(&twin).enumerate() {
                c.exact(&format!("{what} with {len} of {full} elements in operand {k}, elsewhere in memory: operand {i}"), q, p)?;
            }
            c.count("operations that stopped at the end", 1);
        }
    }
    Ok(())
}

fn ops<T: MatSets>(rep: &mut Rep) {
    let full = |c: &mut Case, n: usize| -> Vec<T> { (0..n).map(|_| T::of(sign(&mut c.rng) * (0.5 + 0.5 * c.rng.unit()))).collect() };
    for p in T::prods().into_iter().filter(|p| p.r * p.k * p.u < 2000) {
        rep.case(&format!("{}/ops/{}x{}x{}", T::NAME, p.r, p.k, p.u), |c| {
            let (a, b, t) = (full(c, p.r * p.k), full(c, p.k * p.u), full(c, p.r * p.u));
            c.input(&a);
            c.nontrivial(true);
            let v = [a, b, t];
            lacking(c, "mult", &v, &|w| { let (x, y) = w.split_at_mut(2); (p.mult)(&x[0], &x[1], &mut y[0]) })?;
            lacking(c, "mult_buffered", &v, &|w| {
                let (x, y) = w.split_at_mut(2);
                let mut aux = vec![T::of(0.0); p.k];
                (p.mult_buffered)(&x[0], &x[1], &mut aux, &mut y[0])
            })?;
            lacking(c, "mult_transb", &v, &|w| { let (x, y) = w.split_at_mut(2); (p.mult_transb)(&x[0], &x[1], &mut y[0]) })?;
            lacking(c, "multadd_transb", &v, &|w| { let (x, y) = w.split_at_mut(2); (p.multadd_transb)(&x[0], &x[1], &mut y[0]) })?;
            lacking(c, "multscale_transb", &v, &|w| { let (x, y) = w.split_at_mut(2); (p.multscale_transb)(&x[0], &x[1], T::of(2.0), &mut y[0]) })
        });
    }
    for e in T::elems() {
        rep.case(&format!("{}/ops/{}x{}", T::NAME, e.r, e.c), |c| {
            let (a, b, t) = (full(c, e.r * e.c), full(c, e.r * e.c), full(c, e.r * e.c));
            let (x, y) = (full(c, e.c), full(c, e.r));
            c.input(&a);
            c.nontrivial(true);
            let v = [a.clone(), x, y];
            lacking(c, "mult_rowvector", &v, &|w| { let (x, y) = w.split_at_mut(2); (e.mult_rowvector)(&x[0], &x[1], &mut y[0]) })?;
            lacking(c, "multadd_rowvector", &v, &|w| { let (x, y) = w.split_at_mut(2); (e.multadd_rowvector)(&x[0], &x[1], &mut y[0]) })?;
            let v = [a, b, t];
            lacking(c, "sub", &v, &|w| { let (x, y) = w.split_at_mut(2); (e.sub)(&x[0], &x[1], &mut y[0]) })?;
            let v = [v[0].clone(), v[1].clone()];
            for (what, f) in [("add_inplace_a", e.add_inplace_a), ("add_inplace_b", e.add_inplace_b), ("sub_inplace_a", e.sub_inplace_a),
                ("sub_inplace_b", e.sub_inplace_b), ("copy", e.copy), ("copy_to", e.copy_to)] {
                lacking(c, what, &v, &|w| { let (x, y) = w.split_at_mut(1); f(&x[0], &mut y[0]) })?;
            }
            lacking(c, "copy_from", &v, &|w| { let (x, y) = w.split_at_mut(1); (e.copy_from)(&mut x[0], &mut y[0]) })?;
            let v = [v[0].clone()];
            lacking(c, "set of a missing element", &v, &|w| (e.write)(&mut w[0], &Write::Set(e.r - 1, e.c - 1, T::of(1.0))))?;
            lacking(c, "set_at of a missing element", &v, &|w| (e.write)(&mut w[0], &Write::SetAt(e.r - 1, e.c - 1, T::of(1.0))))?;
            lacking(c, "index of a missing element", &v, &|w| (e.write)(&mut w[0], &Write::Index(e.r * e.c - 1, T::of(1.0))))?;
            lacking(c, "reading all elements", &v, &|w| {
                (e.read)(&w[0]);
            })
        });
    }
    for s in T::squares() {
        rep.case(&format!("{}/ops/square{}", T::NAME, s.n), |c| {
            let n = s.n;
            let a: Vec<T> = (0..n * n).map(|i| T::of(if i / n == i % n { 1.0 } else { 0.0 })).collect();
            let t = full(c, n * n);
            c.input(&t);
            c.nontrivial(true);
            lacking(c, "cholesky_decompose_lower", &[a.clone()], &|w| { (s.chol)(&mut w[0]); })?;
            lacking(c, "invert_l_cholesky", &[a, t], &|w| { let (x, y) = w.split_at_mut(1); (s.inv)(&x[0], &mut y[0]) })
        });
    }
}

fn main() {
    let mut rep = Rep::new(
        "C19",
        "A case is one buffer role, shape and number of elements offered, or one step or operation with one buffer cut short; \
         all are non-trivial; distinct by role, shape, data and length.",
    );
    all(&mut rep);
    rep.finish()
}

fn all(rep: &mut Rep) {
    roles!(rep, f64, 3, 2, 4);
    #[cfg(not(feature = "lite"))]
    {
        roles!(rep, f64, 1, 1, 1);
        roles!(rep, f32, 2, 5, 1);
        roles!(rep, f32, 6, 1, 3);
        #[cfg(feature = "fixed")]
        roles!(rep, fixed::types::I16F16, 2, 3, 2);
    }
    steps::<3, 2, 4, f64>(rep);
    steps::<2, 3, 1, f32>(rep);
    #[cfg(not(feature = "lite"))]
    {
        steps::<1, 1, 1, f64>(rep);
        steps::<5, 2, 3, f64>(rep);
        steps::<8, 3, 8, f64>(rep);
        steps::<3, 4, 6, f32>(rep);
    }
    every_type!(ops, rep);
}
