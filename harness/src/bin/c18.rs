//! C18: storage kinds are interchangeable, wrappers see the memory they wrap, and memory beyond
//! the matrix is neither read nor written.
#![allow(unused_mut)]
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mats::*;
use kfmon::mission::*;
use kfmon::rig::{shape, NlFn, Rig, SliceRig, Slot, ALL};
use kfmon::*;
use minikalman::buffers::types::*;
use minikalman::extended::{ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};
use std::ops::{Index, IndexMut};

/// A storage of the user's own: the matrix sits in the middle of something bigger.
struct UserMat<const R: usize, const C: usize, T> {
    before: Vec<T>,
    d: Vec<T>,
}
impl<const R: usize, const C: usize, T: Num> UserMat<R, C, T> {
    fn new(v: &[T]) -> Self {
        let mut d = vec![T::poison(1), T::poison(2)];
        let before = d.clone();
        d.extend_from_slice(v);
        UserMat { before, d }
    }
    fn intact(&self) -> bool {
        same(&self.before, &self.d[..2])
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for UserMat<R, C, T> {
    fn as_slice(&self) -> &[T] {
        &self.d[2..]
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for UserMat<R, C, T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        &mut self.d[2..]
    }
}
impl<const R: usize, const C: usize, T> Index<usize> for UserMat<R, C, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.d[2 + i]
    }
}
impl<const R: usize, const C: usize, T> IndexMut<usize> for UserMat<R, C, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.d[2 + i]
    }
}
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for UserMat<R, C, T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for UserMat<R, C, T> {}

fn arr<T: Copy + std::fmt::Debug, const N: usize>(v: &[T]) -> [T; N] {
    v.try_into().unwrap()
}

// -- A: every operation with every storage kind of every operand ------------------------------

/// `$b` once for every read-only storage kind, `$m` bound to the matrix and `$k` to its name.
macro_rules! each_ro {
    ($r:tt, $c:tt, $t:ty, $v:expr; $m:ident, $k:ident => $b:expr) => {{
        { let $k = "ref"; let $m = MatrixData::new_ref::<$r, $c, $t>(&$v); $b }
        { let $k = "mut"; let mut d = $v.clone(); let $m = MatrixData::new_mut::<$r, $c, $t>(&mut d); $b }
        { let $k = "array"; let $m = MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v)); $b }
        { let $k = "array from"; let $m = MatrixDataArray::<$r, $c, { $r * $c }, $t>::from(arr(&$v)); $b }
        #[cfg(feature = "alloc")]
        { let $k = "boxed"; let $m = MatrixData::new_boxed::<$r, $c, $t, _>($v.clone()); $b }
        { let $k = "wrapped ref"; let $m = MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_ref::<$r, $c, $t>(&$v)); $b }
        { let $k = "wrapped array"; let $m = MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v))); $b }
        { let $k = "mutably wrapped"; let mut d = $v.clone(); let $m = MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_mut::<$r, $c, $t>(&mut d)); $b }
        { let $k = "twice wrapped"; let $m = MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v)))); $b }
        { let $k = "user's own"; let $m = UserMat::<$r, $c, $t>::new(&$v); $b }
        { let $k = "buffer"; let mut d = $v.clone(); let $m = ControlMatrixMutBuffer::<$r, $c, $t, _>::from(d.as_mut_slice()); $b }
        { let $k = "immutable buffer"; let $m = ObservationMatrixBuffer::<$r, $c, $t, _>::from($v.as_slice()); $b }
    }};
}
/// `$b` once for every mutable storage kind; afterwards `$z` with the contents as seen from
/// outside (the caller's memory, or what the storage hands back).
macro_rules! each_rw {
    ($r:tt, $c:tt, $t:ty, $v:expr; $m:ident, $k:ident => $b:expr; $out:ident => $z:expr) => {{
        { let $k = "mut"; let mut d = $v.clone(); { let mut $m = MatrixData::new_mut::<$r, $c, $t>(&mut d); $b } let $out: &[$t] = &d; $z }
        { let $k = "array"; let mut $m = MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v)); $b; let d = $m.into_inner(); let $out: &[$t] = &d; $z }
        #[cfg(feature = "alloc")]
        { let $k = "boxed"; let mut $m = MatrixData::new_boxed::<$r, $c, $t, _>($v.clone()); $b; let d = $m.into_inner(); let $out: &[$t] = &d; $z }
        { let $k = "mutably wrapped"; let mut d = $v.clone(); { let mut $m = MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_mut::<$r, $c, $t>(&mut d)); $b } let $out: &[$t] = &d; $z }
        { let $k = "twice wrapped"; let mut $m = MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v)))); $b; let d = $m.into_inner().into_inner().into_inner(); let $out: &[$t] = &d; $z }
        { let $k = "user's own"; let mut $m = UserMat::<$r, $c, $t>::new(&$v); $b; if !$m.intact() { return Err(format!("{}: memory before the user's matrix changed", $k)); } let $out: &[$t] = $m.as_slice(); $z }
        { let $k = "buffer"; let mut d = $v.clone(); { let mut $m = ControlMatrixMutBuffer::<$r, $c, $t, _>::from(d.as_mut_slice()); $b } let $out: &[$t] = &d; $z }
    }};
}

/// One product-like operation: results for each kind of each operand against slices.
macro_rules! op3 {
    ($c:ident, $t:ty, $name:literal; ($ar:tt, $ac:tt, $av:expr), ($br:tt, $bc:tt, $bv:expr), ($cr:tt, $cc:tt, $cv:expr); $a:ident, $b:ident, $o:ident => $e:expr) => {{
        let want = {
            let mut d = $cv.clone();
            {
                let $a = MatrixData::new_ref::<$ar, $ac, $t>(&$av);
                let $b = MatrixData::new_ref::<$br, $bc, $t>(&$bv);
                let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d);
                $e;
            }
            d
        };
        each_ro!($ar, $ac, $t, $av; $a, k => {
            let mut d = $cv.clone();
            {
                let $b = MatrixData::new_ref::<$br, $bc, $t>(&$bv);
                let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d);
                $e;
            }
            $c.exact(&format!("{} with its left operand {k}", $name), &d, &want)?;
            $c.exact(&format!("{}: left operand ({k}) afterwards", $name), $a.as_slice(), &$av)?;
        });
        each_ro!($br, $bc, $t, $bv; $b, k => {
            let mut d = $cv.clone();
            {
                let $a = MatrixData::new_ref::<$ar, $ac, $t>(&$av);
                let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d);
                $e;
            }
            $c.exact(&format!("{} with its right operand {k}", $name), &d, &want)?;
            $c.exact(&format!("{}: right operand ({k}) afterwards", $name), $b.as_slice(), &$bv)?;
        });
        each_rw!($cr, $cc, $t, $cv; $o, k => {
            let $a = MatrixData::new_ref::<$ar, $ac, $t>(&$av);
            let $b = MatrixData::new_ref::<$br, $bc, $t>(&$bv);
            $e;
            $c.exact(&format!("{} into {k}, read through the matrix", $name), &$o.as_slice()[..$cr * $cc], &want)?;
        }; out => $c.exact(&format!("{} into {k}", $name), out, &want)?);
        $c.count("operations compared across storage kinds", 1);
    }};
}
/// Operations with one read-only operand and one target.
macro_rules! op2 {
    ($c:ident, $t:ty, $name:literal; ($ar:tt, $ac:tt, $av:expr), ($cr:tt, $cc:tt, $cv:expr); $a:ident, $o:ident => $e:expr) => {{
        let want = {
            let mut d = $cv.clone();
            {
                let $a = MatrixData::new_ref::<$ar, $ac, $t>(&$av);
                let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d);
                $e;
            }
            d
        };
        each_ro!($ar, $ac, $t, $av; $a, k => {
            let mut d = $cv.clone();
            {
                let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d);
                $e;
            }
            $c.exact(&format!("{} with its operand {k}", $name), &d, &want)?;
            $c.exact(&format!("{}: operand ({k}) afterwards", $name), $a.as_slice(), &$av)?;
        });
        each_rw!($cr, $cc, $t, $cv; $o, k => {
            let $a = MatrixData::new_ref::<$ar, $ac, $t>(&$av);
            $e;
        }; out => $c.exact(&format!("{} into {k}", $name), out, &want)?);
        $c.count("operations compared across storage kinds", 1);
    }};
}
/// Operations on one target alone; `$e` yields something comparable.
macro_rules! op1 {
    ($c:ident, $t:ty, $name:literal; ($cr:tt, $cc:tt, $cv:expr); $o:ident => $e:expr) => {{
        let (want, answer) = {
            let mut d = $cv.clone();
            let x = { let mut $o = MatrixData::new_mut::<$cr, $cc, $t>(&mut d); $e };
            (d, x)
        };
        each_rw!($cr, $cc, $t, $cv; $o, k => {
            let x = $e;
            $c.that(x == answer, || format!("{} on {k} answers {x:?} instead of {answer:?}", $name))?;
        }; out => $c.exact(&format!("{} on {k}", $name), out, &want)?);
        $c.count("operations compared across storage kinds", 1);
    }};
}

macro_rules! shape_case {
    ($rep:ident, $t:ty, $r:tt, $k:tt, $u:tt) => {
        for round in 0..$rep.r(30, 300) {
            $rep.case(&format!("{}/kinds/{}x{}x{}#{round}", <$t as Num>::NAME, $r, $k, $u), |c| {
                let class = *c.rng.pick(gen::GEN_CLASSES);
                let a = gen::general::<$t>(&mut c.rng, class, $r, $k);
                let b = gen::general::<$t>(&mut c.rng, class, $k, $u);
                let bt = gen::general::<$t>(&mut c.rng, class, $u, $k);
                let t = gen::general::<$t>(&mut c.rng, "reals", $r, $u);
                let x = gen::vector::<$t>(&mut c.rng, $k);
                let y = gen::vector::<$t>(&mut c.rng, $r);
                let e = gen::general::<$t>(&mut c.rng, class, $r, $k);
                let f = gen::general::<$t>(&mut c.rng, "reals", $r, $k);
                for v in [&a, &b, &bt, &t, &x, &y, &e, &f] {
                    c.input(v);
                }
                c.sample(|| format!("a={a:?} b={b:?}"));
                c.nontrivial(a.iter().any(|v| v.f() != 0.0) && b.iter().any(|v| v.f() != 0.0));
                op3!(c, $t, "mult"; ($r, $k, a), ($k, $u, b), ($r, $u, t); p, q, o => p.mult(&q, &mut o));
                op3!(c, $t, "mult_buffered"; ($r, $k, a), ($k, $u, b), ($r, $u, t); p, q, o => {
                    let mut aux = [<$t as Default>::default(); $k];
                    p.mult_buffered(&q, &mut o, &mut aux)
                });
                op3!(c, $t, "mult_transb"; ($r, $k, a), ($u, $k, bt), ($r, $u, t); p, q, o => p.mult_transb(&q, &mut o));
                op3!(c, $t, "multadd_transb"; ($r, $k, a), ($u, $k, bt), ($r, $u, t); p, q, o => p.multadd_transb(&q, &mut o));
                op3!(c, $t, "multscale_transb"; ($r, $k, a), ($u, $k, bt), ($r, $u, t); p, q, o => p.multscale_transb(&q, <$t as Num>::of(0.75), &mut o));
                op3!(c, $t, "mult_rowvector"; ($r, $k, a), ($k, 1, x), ($r, 1, y); p, q, o => p.mult_rowvector(&q, &mut o));
                op3!(c, $t, "multadd_rowvector"; ($r, $k, a), ($k, 1, x), ($r, 1, y); p, q, o => p.multadd_rowvector(&q, &mut o));
                op3!(c, $t, "sub"; ($r, $k, a), ($r, $k, e), ($r, $k, f); p, q, o => p.sub(&q, &mut o));
                op2!(c, $t, "add_inplace_a"; ($r, $k, a), ($r, $k, e); p, o => o.add_inplace_a(&p));
                op2!(c, $t, "add_inplace_b"; ($r, $k, a), ($r, $k, e); p, o => p.add_inplace_b(&mut o));
                op2!(c, $t, "sub_inplace_a"; ($r, $k, a), ($r, $k, e); p, o => o.sub_inplace_a(&p));
                op2!(c, $t, "sub_inplace_b"; ($r, $k, a), ($r, $k, e); p, o => p.sub_inplace_b(&mut o));
                op2!(c, $t, "copy_to"; ($r, $k, a), ($r, $k, e); p, o => p.copy_to(&mut o));
                op1!(c, $t, "set"; ($r, $k, a); o => o.set($r - 1, $k - 1, <$t as Num>::of(1.5)));
                op1!(c, $t, "set_at"; ($r, $k, a); o => o.set_at($r - 1, 0, <$t as Num>::of(1.5)));
                op1!(c, $t, "set_all"; ($r, $k, a); o => o.set_all(<$t as Num>::of(2.5)));
                op1!(c, $t, "clear"; ($r, $k, a); o => o.clear());
                op1!(c, $t, "index"; ($r, $k, a); o => { o[$r * $k - 1] = <$t as Num>::of(-1.25); o[0].bits() });
                op1!(c, $t, "get"; ($r, $k, a); o => (o.get($r - 1, 0).bits(), o.get_at(0, $k - 1).bits()));
                op1!(c, $t, "row and column copies"; ($r, $k, a); o => {
                    let mut row = [<$t as Default>::default(); $k];
                    let mut col = [<$t as Default>::default(); $r];
                    o.get_row_copy($r - 1, &mut row);
                    o.get_column_copy($k - 1, &mut col);
                    (kfmon::num::bits_of(&row), kfmon::num::bits_of(&col))
                });
                op1!(c, $t, "dimensions"; ($r, $k, a); o => (o.rows(), o.cols(), RowMajorSequentialData::<$r, $k, $t>::len(&o), o.buffer_len(), RowMajorSequentialData::<$r, $k, $t>::is_empty(&o), RowMajorSequentialData::<$r, $k, $t>::is_valid(&o)));
                Ok(())
            });
        }
    };
}
macro_rules! square_case {
    ($rep:ident, $t:ty, $n:tt) => {
        for round in 0..$rep.r(16, 200) {
            $rep.case(&format!("{}/kinds/square{}#{round}", <$t as Num>::NAME, $n), |c| {
                let class = *c.rng.pick(gen::COV_CLASSES);
                let a = gen::cov_pd::<$t>(&mut c.rng, class, $n);
                let l = gen::lower::<$t>(&mut c.rng, $n, "dense");
                let t = gen::general::<$t>(&mut c.rng, "reals", $n, $n);
                for v in [&a, &l, &t] {
                    c.input(v);
                }
                c.sample(|| format!("a={a:?} l={l:?}"));
                c.nontrivial(true);
                op1!(c, $t, "cholesky_decompose_lower"; ($n, $n, a); o => o.cholesky_decompose_lower());
                op2!(c, $t, "invert_l_cholesky"; ($n, $n, l), ($n, $n, t); p, o => p.invert_l_cholesky(&mut o));
                op1!(c, $t, "make_identity"; ($n, $n, t); o => o.make_identity());
                op1!(c, $t, "make_scalar"; ($n, $n, t); o => o.make_scalar(<$t as Num>::of(2.5)));
                op1!(c, $t, "make_comatrix"; ($n, $n, t); o => o.make_comatrix(<$t as Num>::of(2.5), <$t as Num>::of(-0.5)));
                op1!(c, $t, "set_diagonal_to_scalar"; ($n, $n, t); o => o.set_diagonal_to_scalar(<$t as Num>::of(0.25)));
                op1!(c, $t, "set_symmetric"; ($n, $n, t); o => o.set_symmetric($n - 1, 0, <$t as Num>::of(3.5)));
                Ok(())
            });
        }
    };
}

// -- B: surplus memory ------------------------------------------------------------------------

fn grown<T: Num>(v: &[T], extra: usize, k: usize) -> Vec<T> {
    let mut g = v.to_vec();
    g.extend((0..extra).map(|i| T::poison(k + i)));
    g
}

/// Runs an operation once with exact and once with oversized buffers.
fn surplus<T: Num>(c: &mut Case, what: &str, ins: &[Vec<T>], out: &[T], extra: &[usize], f: &mut dyn FnMut(&mut [Vec<T>], &mut [T]) -> u64) -> Chk {
    let mut i0: Vec<Vec<T>> = ins.to_vec();
    let mut o0 = out.to_vec();
    let r0 = f(&mut i0, &mut o0);
    let k = c.rng.below(6);
    let mut i1: Vec<Vec<T>> = ins.iter().enumerate().map(|(j, v)| grown(v, extra[j + 1], k + j)).collect();
    let before = i1.clone();
    let mut o1 = grown(out, extra[0], k + 7);
    let guard = o1[out.len()..].to_vec();
    let r1 = f(&mut i1, &mut o1);
    c.that(r0 == r1, || format!("{what}: a different answer ({r1}) with oversized buffers ({r0} with exact ones)"))?;
    c.exact(&format!("{what}: result with oversized buffers"), &o1[..out.len()], &o0)?;
    for (j, g) in o1[out.len()..].iter().enumerate() {
        c.that(g.bits() == guard[j].bits(), || format!("{what}: surplus element {j} of the target changed from {:?} to {g:?}", guard[j]))?;
    }
    for (v, w) in i1.iter().zip(&before) {
        c.that(v.iter().zip(w).all(|(p, q)| p.bits() == q.bits()), || format!("{what}: an operand or its surplus changed"))?;
    }
    c.count("operations with surplus memory", 1);
    Ok(())
}

fn surplus_cases<T: MatSets>(rep: &mut Rep) {
    let extra = |c: &mut Case| -> [usize; 3] {
        let big = c.rng.below(3) == 0;
        let mut p = || 1 + c.rng.below(if big { 40 } else { 4 });
        let mut e = [p(), p(), p()];
        // also one buffer at a time
        match c.rng.below(4) {
            0 => e[1..].fill(0),
            1 => e[0] = 0,
            _ => (),
        }
        e
    };
    let rounds = rep.r(8, 80);
    for p in T::prods() {
        for round in 0..rounds {
            rep.case(&format!("{}/surplus/{}x{}x{}#{round}", T::NAME, p.r, p.k, p.u), |c| {
                let class = *c.rng.pick(gen::GEN_CLASSES);
                let a = gen::general::<T>(&mut c.rng, class, p.r, p.k);
                let b = gen::general::<T>(&mut c.rng, "reals", p.k, p.u);
                let t = gen::general::<T>(&mut c.rng, "reals", p.r, p.u);
                for v in [&a, &b, &t] {
                    c.input(v);
                }
                c.sample(|| format!("a={a:?} b={b:?}"));
                c.nontrivial(true);
                let ins = [a, b];
                let e = extra(c);
                surplus(c, "mult", &ins, &t, &e, &mut |i, o| { (p.mult)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "mult_buffered", &ins, &t, &e, &mut |i, o| {
                    let mut aux = vec![T::poison(3); p.k];
                    (p.mult_buffered)(&i[0], &i[1], &mut aux, o);
                    0
                })?;
                let e = extra(c);
                surplus(c, "mult_transb", &ins, &t, &e, &mut |i, o| { (p.mult_transb)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "multadd_transb", &ins, &t, &e, &mut |i, o| { (p.multadd_transb)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "multscale_transb", &ins, &t, &e, &mut |i, o| { (p.multscale_transb)(&i[0], &i[1], T::of(-1.5), o); 0 })
            });
        }
    }
    for m in T::elems() {
        for round in 0..rounds {
            rep.case(&format!("{}/surplus/{}x{}#{round}", T::NAME, m.r, m.c), |c| {
                let class = *c.rng.pick(gen::GEN_CLASSES);
                let a = gen::general::<T>(&mut c.rng, class, m.r, m.c);
                let b = gen::general::<T>(&mut c.rng, "reals", m.r, m.c);
                let t = gen::general::<T>(&mut c.rng, "reals", m.r, m.c);
                let x = gen::vector::<T>(&mut c.rng, m.c);
                let y = gen::vector::<T>(&mut c.rng, m.r);
                for v in [&a, &b, &t, &x, &y] {
                    c.input(v);
                }
                c.sample(|| format!("a={a:?} x={x:?}"));
                c.nontrivial(true);
                let (two, one, vec) = ([a.clone(), b], [a.clone()], [a, x]);
                let e = extra(c);
                surplus(c, "mult_rowvector", &vec, &y, &e, &mut |i, o| { (m.mult_rowvector)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "multadd_rowvector", &vec, &y, &e, &mut |i, o| { (m.multadd_rowvector)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "sub", &two, &t, &e, &mut |i, o| { (m.sub)(&i[0], &i[1], o); 0 })?;
                let e = extra(c);
                surplus(c, "add_inplace_a", &one, &t, &e, &mut |i, o| { (m.add_inplace_a)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "add_inplace_b", &one, &t, &e, &mut |i, o| { (m.add_inplace_b)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "sub_inplace_a", &one, &t, &e, &mut |i, o| { (m.sub_inplace_a)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "sub_inplace_b", &one, &t, &e, &mut |i, o| { (m.sub_inplace_b)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "copy", &one, &t, &e, &mut |i, o| { (m.copy)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "copy_to", &one, &t, &e, &mut |i, o| { (m.copy_to)(&i[0], o); 0 })?;
                let e = extra(c);
                surplus(c, "copy_from", &one, &t, &e, &mut |i, o| { (m.copy_from)(&mut i[0], o); 0 })
            });
        }
    }
    for s in T::squares() {
        for class in gen::COV_CLASSES {
            for round in 0..rep.r(2, 20) {
                rep.case(&format!("{}/surplus/square{}/{class}#{round}", T::NAME, s.n), |c| {
                    // any symmetric matrix: success and failure must not depend on the surplus either
                    let mut a = gen::cov_pd::<T>(&mut c.rng, class, s.n);
                    if c.rng.chance(1, 3) {
                        let k = c.rng.below(s.n);
                        a[k * s.n + k] = T::of(-0.5);
                    }
                    let lc = *c.rng.pick(gen::LOWER_CLASSES);
                    let l = gen::lower::<T>(&mut c.rng, s.n, lc);
                    let t = gen::general::<T>(&mut c.rng, "reals", s.n, s.n);
                    for v in [&a, &l, &t] {
                        c.input(v);
                    }
                    c.sample(|| format!("a={a:?} l={l:?}"));
                    c.nontrivial(true);
                    let e = extra(c);
                    surplus(c, "cholesky_decompose_lower", &[], &a, &e, &mut |_, o| (s.chol)(o) as u64)?;
                    let e = extra(c);
                    surplus(c, "invert_l_cholesky", &[l], &t, &e, &mut |i, o| { (s.inv)(&i[0], o); 0 })
                });
            }
        }
    }
}

/// Filters over padded buffers in lockstep with filters over exact ones.
fn padded<const NN: usize, const NU: usize, const NM: usize, T: Num>(rep: &mut Rep) {
    for round in 0..rep.r(20, 200) {
        for pad in [1usize, 3, 17] {
            rep.case(&format!("{}/padded/n{NN}u{NU}m{NM}/{pad}#{round}", T::NAME), |c| {
                let mut e = SliceRig::<NN, NU, NM, T>::new();
                let mut r = SliceRig::<NN, NU, NM, T>::padded(pad);
                lockstep(c, &mut e, &mut r, 12, &mut |c, r| {
                    let k = c.rng.below(6);
                    for s in ALL {
                        let n = r.len(s);
                        for (i, g) in r.d[s as usize][n..].iter_mut().enumerate() {
                            *g = T::poison(k + i + s as usize);
                        }
                    }
                    r.d.iter().map(|v| kfmon::num::bits_of(v)).collect::<Vec<_>>()
                }, &mut |c, r, before, op| {
                    for s in ALL {
                        let n = r.len(s);
                        for i in n..r.d[s as usize].len() {
                            c.that(r.d[s as usize][i].bits() == before[s as usize][i], || {
                                format!("{op}: element {i} beyond the {n} elements of {s:?} changed to {:?}", r.d[s as usize][i])
                            })?;
                        }
                    }
                    c.count("steps on oversized buffers", 1);
                    Ok(())
                })
            });
        }
    }
}

type Snap = Vec<Vec<u64>>;
fn lockstep<T: Num, X: Rig<T>>(
    c: &mut Case,
    e: &mut dyn Rig<T>,
    r: &mut X,
    steps: usize,
    pre: &mut dyn FnMut(&mut Case, &mut X) -> Snap,
    post: &mut dyn FnMut(&mut Case, &mut X, &Snap, &str) -> Chk,
) -> Chk {
    let (_, u, _) = e.dims();
    let mut kinds: Vec<&str> = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"]
        .into_iter()
        .filter(|k| can(&*e, k) && can(r, k))
        .collect();
    if u == 0 {
        kinds.retain(|k| *k != "control");
    }
    fill_all(c, e);
    settle(c, e);
    c.sample(|| format!("x={:?} P={:?}", e.get(Slot::X), e.get(Slot::P)));
    for s in ALL {
        if r.has(s) {
            r.put(s, &e.get(s));
        }
    }
    for _ in 0..steps {
        if c.rng.chance(1, 3) {
            let s = *c.rng.pick(&[Slot::A, Slot::Q, Slot::U, Slot::Z, Slot::R, Slot::H, Slot::QC, Slot::B]);
            let (n, _, _) = e.dims();
            if s == Slot::A {
                let a = gen::stable::<T>(&mut c.rng, n);
                e.put(s, &a);
                c.input(&a);
            } else {
                fill(c, e, s);
            }
            r.put(s, &e.get(s));
        }
        let kind = *c.rng.pick(&kinds);
        let op = make_op::<T>(&mut c.rng, kind, e.dims());
        let (x0, p0) = (e.get(Slot::X), e.get(Slot::P));
        if unjudged(c, e, &op)? == Judged::NoClaim {
            continue;
        }
        let snap = pre(c, r);
        apply(r, &op);
        c.exact(&format!("{}: state", op.name()), &r.get(Slot::X), &e.get(Slot::X))?;
        c.exact(&format!("{}: covariance", op.name()), &r.get(Slot::P), &e.get(Slot::P))?;
        post(c, r, &snap, op.name())?;
        c.nontrivial(!same_val(&x0, &e.get(Slot::X)) || !same_val(&p0, &e.get(Slot::P)));
        if !tame(&*e) {
            settle(c, e);
            for s in [Slot::A, Slot::X, Slot::P] {
                r.put(s, &e.get(s));
            }
        }
    }
    Ok(())
}

// -- C: whole filters on other storages -------------------------------------------------------

type D<T> = Vec<Vec<T>>;
/// A filter that is wired anew for every step by a function.
struct FnRig<T: Num> {
    d: D<T>,
    dims: (usize, usize, usize),
    lin: fn(&mut D<T>, u8, Option<T>),
    nl: fn(&mut D<T>, u8, Option<T>, NlFn<T>),
}
impl<T: Num> Rig<T> for FnRig<T> {
    fn name(&self) -> &'static str {
        "other storage"
    }
    fn dims(&self) -> (usize, usize, usize) {
        self.dims
    }
    fn get(&self, s: Slot) -> Vec<T> {
        self.d[s as usize].clone()
    }
    fn put(&mut self, s: Slot, v: &[T]) {
        self.d[s as usize] = v.to_vec();
    }
    fn has(&self, _: Slot) -> bool {
        true
    }
    fn linear(&self) -> bool {
        true
    }
    fn nonlinear(&self) -> bool {
        true
    }
    fn predict(&mut self) {
        (self.lin)(&mut self.d, 0, None)
    }
    fn predict_tuned(&mut self, l: T) {
        (self.lin)(&mut self.d, 0, Some(l))
    }
    fn control(&mut self) {
        (self.lin)(&mut self.d, 1, None)
    }
    fn correct(&mut self) {
        (self.lin)(&mut self.d, 2, None)
    }
    fn predict_nl(&mut self, f: NlFn<T>) {
        (self.nl)(&mut self.d, 0, None, f)
    }
    fn predict_tuned_nl(&mut self, l: T, f: NlFn<T>) {
        (self.nl)(&mut self.d, 0, Some(l), f)
    }
    fn correct_nl(&mut self, f: NlFn<T>) {
        (self.nl)(&mut self.d, 2, None, f)
    }
}

const SURPLUS: f64 = 12345.0;

/// What belongs to the matrix, after making sure that nothing happened to the rest.
fn trimmed<T: Num>(v: &[T], n: usize) -> Vec<T> {
    for (i, e) in v[n..].iter().enumerate() {
        assert!(e.f() == if i == 1 { -SURPLUS } else { SURPLUS }, "surplus element {i} behind {n} changed to {e:?}");
    }
    v[..n].to_vec()
}

/// A storage over (or with a copy of) one vector.
macro_rules! st {
    (mutb; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_mut::<$r, $c, $t>(&mut $v[..]) };
    (refb; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_ref::<$r, $c, $t>(&$v[..]) };
    (array; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_array::<$r, $c, { $r * $c }, $t>(arr(&$v[..])) };
    (boxed; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixDataBoxed::<$r, $c, $t>::new($v.clone()) };
    // with the library's checks off, a box may be larger than its matrix
    (boxmore; $r:tt, $c:tt, $t:ty, $v:expr) => {{
        let mut w = $v[..$r * $c].to_vec();
        w.extend([<$t as Num>::of(SURPLUS), <$t as Num>::of(-SURPLUS), <$t as Num>::of(SURPLUS)]);
        MatrixDataBoxed::<$r, $c, $t>::new(w)
    }};
    (rmut; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_mut_from::<$r, $c, $t, _>(st!(mutb; $r, $c, $t, $v)) };
    (rarr; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_mut_from::<$r, $c, $t, _>(st!(array; $r, $c, $t, $v)) };
    (rref; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_from::<$r, $c, $t, _>(st!(refb; $r, $c, $t, $v)) };
    (rroarr; $r:tt, $c:tt, $t:ty, $v:expr) => { MatrixData::new_from::<$r, $c, $t, _>(st!(array; $r, $c, $t, $v)) };
    (user; $r:tt, $c:tt, $t:ty, $v:expr) => { UserMat::<$r, $c, $t>::new(&$v[..]) };
}

macro_rules! fn_rig {
    // $p: storage of parameters with an immutable form, $w: storage of everything else
    ($t:ty, $n:tt, $u:tt, $m:tt, $A:ident, $Q:ident, $B:ident, $QC:ident, $H:ident; $p:ident, $w:ident) => {{
        fn lin(d: &mut D<$t>, what: u8, l: Option<$t>) {
            let (x2, p2);
            {
                let [a, x, p, q, px, tp, b, u, qc, bq, h, z, r, y, s, k, si, hp, pht, khp]: [&mut Vec<$t>; 20] =
                    d.iter_mut().collect::<Vec<_>>().try_into().unwrap();
                let mut f = RegularKalmanBuilder::new::<$n, $t>(
                    $A::new(st!($p; $n, $n, $t, a)),
                    StateVectorBuffer::new(st!($w; $n, 1, $t, x)),
                    EstimateCovarianceMatrixBuffer::new(st!($w; $n, $n, $t, p)),
                    $Q::new(st!($p; $n, $n, $t, q)),
                    PredictedStateEstimateVectorBuffer::new(st!($w; $n, 1, $t, px)),
                    TemporaryStateMatrixBuffer::new(st!($w; $n, $n, $t, tp)),
                );
                match (what, l) {
                    (0, None) => f.predict(),
                    (0, Some(l)) => f.predict_tuned(l),
                    (1, _) => {
                        let mut o = ControlBuilder::new::<$n, $u, $t>(
                            $B::new(st!($p; $n, $u, $t, b)),
                            ControlVectorBuffer::new(st!($w; $u, 1, $t, u)),
                            $QC::new(st!($p; $u, $u, $t, qc)),
                            TemporaryBQMatrixBuffer::new(st!($w; $n, $u, $t, bq)),
                        );
                        f.control(&mut o)
                    }
                    _ => {
                        let mut o = RegularObservationBuilder::new::<$n, $m, $t>(
                            $H::new(st!($p; $m, $n, $t, h)),
                            MeasurementVectorBuffer::new(st!($w; $m, 1, $t, z)),
                            MeasurementNoiseCovarianceMatrixBuffer::new(st!($w; $m, $m, $t, r)),
                            InnovationVectorBuffer::new(st!($w; $m, 1, $t, y)),
                            InnovationCovarianceMatrixBuffer::new(st!($w; $m, $m, $t, s)),
                            KalmanGainMatrixBuffer::new(st!($w; $n, $m, $t, k)),
                            TemporaryResidualCovarianceInvertedMatrixBuffer::new(st!($w; $m, $m, $t, si)),
                            TemporaryHPMatrixBuffer::new(st!($w; $m, $n, $t, hp)),
                            TemporaryPHTMatrixBuffer::new(st!($w; $n, $m, $t, pht)),
                            TemporaryKHPMatrixBuffer::new(st!($w; $n, $n, $t, khp)),
                        );
                        f.correct(&mut o)
                    }
                }
                x2 = trimmed(f.state_vector().as_slice(), $n);
                p2 = trimmed(f.estimate_covariance().as_slice(), $n * $n);
            }
            d[Slot::X as usize] = x2;
            d[Slot::P as usize] = p2;
        }
        fn nl(d: &mut D<$t>, what: u8, l: Option<$t>, g: NlFn<$t>) {
            let (x2, p2);
            {
                let [a, x, p, q, px, tp, _b, _u, _qc, _bq, h, z, r, y, s, k, si, hp, pht, khp]: [&mut Vec<$t>; 20] =
                    d.iter_mut().collect::<Vec<_>>().try_into().unwrap();
                let mut f = ExtendedKalmanBuilder::new::<$n, $t>(
                    $A::new(st!($p; $n, $n, $t, a)),
                    StateVectorBuffer::new(st!($w; $n, 1, $t, x)),
                    EstimateCovarianceMatrixBuffer::new(st!($w; $n, $n, $t, p)),
                    $Q::new(st!($p; $n, $n, $t, q)),
                    PredictedStateEstimateVectorBuffer::new(st!($w; $n, 1, $t, px)),
                    TemporaryStateMatrixBuffer::new(st!($w; $n, $n, $t, tp)),
                );
                match (what, l) {
                    (0, None) => f.predict_nonlinear(|x, o| g(&x.as_slice()[..$n], &mut o.as_mut_slice()[..$n])),
                    (0, Some(l)) => f.predict_tuned_nonlinear(l, |x, o| g(&x.as_slice()[..$n], &mut o.as_mut_slice()[..$n])),
                    _ => {
                        let mut o = ExtendedObservationBuilder::new::<$n, $m, $t>(
                            $H::new(st!($p; $m, $n, $t, h)),
                            MeasurementVectorBuffer::new(st!($w; $m, 1, $t, z)),
                            MeasurementNoiseCovarianceMatrixBuffer::new(st!($w; $m, $m, $t, r)),
                            InnovationVectorBuffer::new(st!($w; $m, 1, $t, y)),
                            InnovationCovarianceMatrixBuffer::new(st!($w; $m, $m, $t, s)),
                            KalmanGainMatrixBuffer::new(st!($w; $n, $m, $t, k)),
                            TemporaryResidualCovarianceInvertedMatrixBuffer::new(st!($w; $m, $m, $t, si)),
                            TemporaryHPMatrixBuffer::new(st!($w; $m, $n, $t, hp)),
                            TemporaryPHTMatrixBuffer::new(st!($w; $n, $m, $t, pht)),
                            TemporaryKHPMatrixBuffer::new(st!($w; $n, $n, $t, khp)),
                        );
                        f.correct_nonlinear(&mut o, |x, o| g(&x.as_slice()[..$n], &mut o.as_mut_slice()[..$m]))
                    }
                }
                x2 = trimmed(f.state_vector().as_slice(), $n);
                p2 = trimmed(f.estimate_covariance().as_slice(), $n * $n);
            }
            d[Slot::X as usize] = x2;
            d[Slot::P as usize] = p2;
        }
        let d = ALL
            .iter()
            .map(|s| {
                let (r, c) = shape(*s, $n, $u, $m);
                vec![<$t as Default>::default(); r * c]
            })
            .collect();
        FnRig::<$t> { d, dims: ($n, $u, $m), lin, nl }
    }};
}
macro_rules! filters {
    ($rep:ident, $t:ty, $n:tt, $u:tt, $m:tt) => {{
        let mut v: Vec<(&str, fn() -> FnRig<$t>)> = vec![];
        macro_rules! mutable {
            ($name:literal, $p:ident, $w:ident) => {
                v.push(($name, || fn_rig!($t, $n, $u, $m, StateTransitionMatrixMutBuffer, DirectProcessNoiseCovarianceMatrixMutBuffer,
                    ControlMatrixMutBuffer, ControlProcessNoiseCovarianceMatrixMutBuffer, ObservationMatrixMutBuffer; $p, $w)));
            };
        }
        macro_rules! immutable {
            ($name:literal, $p:ident, $w:ident) => {
                v.push(($name, || fn_rig!($t, $n, $u, $m, StateTransitionMatrixBuffer, DirectProcessNoiseCovarianceMatrixBuffer,
                    ControlMatrixBuffer, ControlProcessNoiseCovarianceMatrixBuffer, ObservationMatrixBuffer; $p, $w)));
            };
        }
        mutable!("arrays", array, array);
        #[cfg(feature = "alloc")]
        mutable!("boxed", boxed, boxed);
        #[cfg(all(feature = "alloc", feature = "no_assert"))]
        {
            mutable!("boxed with surplus", boxmore, boxmore);
            immutable!("immutable boxed with surplus", boxmore, boxmore);
        }
        mutable!("wrapped slices", rmut, rmut);
        mutable!("wrapped arrays", rarr, rarr);
        mutable!("user's own", user, user);
        mutable!("arrays and slices", array, mutb);
        immutable!("immutable slices", refb, mutb);
        immutable!("immutable wrapped slices", rref, rmut);
        immutable!("immutable arrays", array, array);
        immutable!("immutable wrapped arrays", rroarr, array);
        for (name, mk) in v {
            for round in 0..$rep.r(30, 300) {
                $rep.case(&format!("{}/filter/{name}/n{}u{}m{}#{round}", <$t as Num>::NAME, $n, $u, $m), |c| {
                    let mut e = SliceRig::<$n, $u, $m, $t>::new();
                    let mut r = mk();
                    lockstep(c, &mut e, &mut r, 14, &mut |_, _| vec![], &mut |c, _, _, _| {
                        c.count("steps on other storages", 1);
                        Ok(())
                    })
                });
            }
        }
    }};
}

// -- D: wrappers see the memory they wrap -----------------------------------------------------

/// Every way into a buffer leads to the same elements.
macro_rules! same_memory {
    ($rep:ident, $t:ty, $name:literal, $r:tt, $c:tt, $mk:expr, $ty:ident $(, $mutable:tt)?) => {
        $rep.case(&format!("{}/memory/{}/{}", <$t as Num>::NAME, stringify!($ty), $name), |c| {
            let v: Vec<$t> = (0..$r * $c).map(|i| <$t as Num>::of(i as f64 * 0.5 - 1.25)).collect();
            c.input(&v);
            c.tag($name);
            c.nontrivial(true);
            c.sample(|| format!("{v:?}"));
            #[allow(unused_mut)]
            let mut b = $mk(Box::leak(Box::new(v.clone())));
            c.exact("as_slice", b.as_slice(), &v)?;
            let p = b.as_slice().as_ptr();
            c.that(p == b.as_matrix().as_slice().as_ptr(), || "as_matrix shows other memory than as_slice".into())?;
            c.that(p == (&b[0]) as *const $t, || "the index shows other memory than as_slice".into())?;
            c.exact("as_matrix", b.as_matrix().as_slice(), &v)?;
            for i in 0..$r * $c {
                c.that(b[i].bits() == v[i].bits() && b.as_matrix()[i].bits() == v[i].bits()
                    && b.get_at(i / $c, i % $c).bits() == v[i].bits() && b.get(i / $c, i % $c).bits() == v[i].bits()
                    && b.as_matrix().get(i / $c, i % $c).bits() == v[i].bits(),
                    || format!("element {i} differs between the ways to read it"))?;
            }
            #[allow(unused_mut)]
            let mut want = v.clone();
            $( same_memory!(@write $mutable, c, b, want, $t, $r, $c); )?
            let inner = b.into_inner();
            c.exact("into_inner", same_memory!(@inner $name, inner), &want)?;
            c.count("buffers entered from every side", 1);
            Ok(())
        });
    };
    (@inner $name:literal, $i:ident) => { Inner::flat(&$i) };
    (@write $mutable:tt, $cs:ident, $b:ident, $want:ident, $t:ty, $r:tt, $c:tt) => {
        for i in 0..$r * $c {
            let vals: Vec<$t> = (0..6).map(|k| <$t as Num>::of(i as f64 + 10.0 + k as f64 * 0.25)).collect();
            let (row, col) = (i / $c, i % $c);
            for (k, v) in vals.into_iter().enumerate() {
                match k {
                    0 => $b.as_mut_slice()[i] = v,
                    1 => $b.as_matrix_mut().as_mut_slice()[i] = v,
                    2 => $b[i] = v,
                    3 => $b.set(row, col, v),
                    4 => $b.as_matrix_mut().set_at(row, col, v),
                    _ => $b.as_matrix_mut()[i] = v,
                }
                $want[i] = v;
                $cs.exact("as_slice after a write", $b.as_slice(), &$want)?;
                $cs.exact("as_mut_slice after a write", &$b.as_mut_slice().to_vec(), &$want)?;
                $cs.exact("as_matrix after a write", $b.as_matrix().as_slice(), &$want)?;
                $cs.that($b[i].bits() == v.bits() && $b.get(row, col).bits() == v.bits() && $b.as_matrix().get_at(row, col).bits() == v.bits(),
                    || format!("element {i} does not show what was written by way {k}"))?;
                $cs.count("writes observed from every side", 1);
            }
        }
    };
}
/// The innermost data of a storage.
trait Inner<T> {
    fn flat(&self) -> &[T];
}
impl<T> Inner<T> for &mut [T] {
    fn flat(&self) -> &[T] {
        self
    }
}
impl<T> Inner<T> for &[T] {
    fn flat(&self) -> &[T] {
        self
    }
}
impl<T, const N: usize> Inner<T> for [T; N] {
    fn flat(&self) -> &[T] {
        self
    }
}
impl<T> Inner<T> for Box<[T]> {
    fn flat(&self) -> &[T] {
        self
    }
}
impl<const R: usize, const C: usize, T> Inner<T> for MatrixDataMut<'_, R, C, T> {
    fn flat(&self) -> &[T] {
        self.as_slice()
    }
}
impl<const R: usize, const C: usize, const N: usize, T> Inner<T> for MatrixDataArray<R, C, N, T> {
    fn flat(&self) -> &[T] {
        self.as_slice()
    }
}
fn mb<const R: usize, const C: usize, T>(v: &mut [T]) -> MatrixDataMut<'_, R, C, T> {
    MatrixData::new_mut(v)
}

macro_rules! role {
    ($rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {
        same_memory!($rep, $t, "slice", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::from(d.as_mut_slice()), $ty, m);
        same_memory!($rep, $t, "array", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::from(arr::<$t, { $r * $c }>(d)), $ty, m);
        same_memory!($rep, $t, "new slice", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::new(mb::<$r, $c, $t>(d)), $ty, m);
        same_memory!($rep, $t, "new array", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::new(st!(array; $r, $c, $t, d)), $ty, m);
        #[cfg(feature = "alloc")]
        same_memory!($rep, $t, "boxed", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::new(st!(boxed; $r, $c, $t, d)), $ty, m);
        same_memory!($rep, $t, "wrapped slice", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::new(MatrixData::new_mut_from::<$r, $c, $t, _>(mb::<$r, $c, $t>(d))), $ty, m);
        same_memory!($rep, $t, "wrapped array", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::new(st!(rarr; $r, $c, $t, d)), $ty, m);
    };
}
macro_rules! imm {
    ($rep:ident, $t:ty; $ty:ident [$($g:tt)*], $r:tt, $c:tt) => {
        same_memory!($rep, $t, "array", $r, $c, |d: &'static mut Vec<$t>| $ty::<$($g)*, $t, _>::from(arr::<$t, { $r * $c }>(d)), $ty);
    };
}
macro_rules! memory_all {
    ($rep:ident, $t:ty) => {{
        role!($rep, $t; StateTransitionMatrixMutBuffer [3], 3, 3);
        role!($rep, $t; StateVectorBuffer [3], 3, 1);
        role!($rep, $t; EstimateCovarianceMatrixBuffer [3], 3, 3);
        role!($rep, $t; DirectProcessNoiseCovarianceMatrixMutBuffer [3], 3, 3);
        role!($rep, $t; PredictedStateEstimateVectorBuffer [3], 3, 1);
        role!($rep, $t; TemporaryStateMatrixBuffer [3], 3, 3);
        role!($rep, $t; ControlMatrixMutBuffer [3, 2], 3, 2);
        role!($rep, $t; ControlVectorBuffer [2], 2, 1);
        role!($rep, $t; ControlProcessNoiseCovarianceMatrixMutBuffer [2], 2, 2);
        role!($rep, $t; TemporaryBQMatrixBuffer [3, 2], 3, 2);
        role!($rep, $t; ObservationMatrixMutBuffer [4, 3], 4, 3);
        role!($rep, $t; MeasurementVectorBuffer [4], 4, 1);
        role!($rep, $t; MeasurementNoiseCovarianceMatrixBuffer [4], 4, 4);
        role!($rep, $t; InnovationVectorBuffer [4], 4, 1);
        role!($rep, $t; InnovationCovarianceMatrixBuffer [4], 4, 4);
        role!($rep, $t; KalmanGainMatrixBuffer [3, 4], 3, 4);
        role!($rep, $t; TemporaryResidualCovarianceInvertedMatrixBuffer [4], 4, 4);
        role!($rep, $t; TemporaryHPMatrixBuffer [4, 3], 4, 3);
        role!($rep, $t; TemporaryPHTMatrixBuffer [3, 4], 3, 4);
        role!($rep, $t; TemporaryKHPMatrixBuffer [3], 3, 3);
        imm!($rep, $t; StateTransitionMatrixBuffer [3], 3, 3);
        imm!($rep, $t; DirectProcessNoiseCovarianceMatrixBuffer [3], 3, 3);
        imm!($rep, $t; ControlMatrixBuffer [3, 2], 3, 2);
        imm!($rep, $t; ControlProcessNoiseCovarianceMatrixBuffer [2], 2, 2);
        imm!($rep, $t; ObservationMatrixBuffer [4, 3], 4, 3);
    }};
}

fn surplus_all(rep: &mut Rep) {
    every_type!(surplus_cases, rep);
}

fn main() {
    let mut rep = Rep::new(
        "C18",
        "A case is one shape and data put through every operation with every storage kind of every operand, one operation \
         set on oversized poisoned buffers, one mission on another storage in lockstep with slices, or one buffer \
         entered from every side; non-trivial when the data is not zero or the state changed; distinct by its data.",
    );
    all(&mut rep);
    rep.finish()
}

fn all(rep: &mut Rep) {
    shape_case!(rep, f64, 2, 3, 4);
    shape_case!(rep, f32, 3, 3, 3);
    #[cfg(not(feature = "lite"))]
    {
        shape_case!(rep, f64, 1, 1, 1);
        shape_case!(rep, f64, 5, 1, 2);
        shape_case!(rep, f32, 4, 2, 1);
        shape_case!(rep, f32, 1, 6, 3);
        shape_case!(rep, f64, 8, 8, 8);
        #[cfg(feature = "fixed")]
        shape_case!(rep, fixed::types::I16F16, 2, 3, 2);
    }
    square_case!(rep, f64, 3);
    square_case!(rep, f32, 4);
    #[cfg(not(feature = "lite"))]
    {
        square_case!(rep, f64, 1);
        square_case!(rep, f64, 6);
        square_case!(rep, f32, 2);
        #[cfg(feature = "fixed")]
        square_case!(rep, fixed::types::I32F32, 3);
    }
    surplus_all(rep);
    padded::<3, 2, 2, f64>(rep);
    padded::<2, 3, 4, f32>(rep);
    #[cfg(not(feature = "lite"))]
    {
        padded::<1, 1, 1, f64>(rep);
        padded::<4, 1, 3, f64>(rep);
        padded::<6, 2, 6, f64>(rep);
        padded::<9, 4, 2, f64>(rep);
        padded::<5, 5, 5, f32>(rep);
        padded::<3, 1, 1, f32>(rep);
        #[cfg(feature = "fixed")]
        {
            padded::<3, 2, 2, fixed::types::I16F16>(rep);
            padded::<2, 1, 3, fixed::types::I32F32>(rep);
        }
    }
    filters!(rep, f64, 3, 2, 4);
    #[cfg(not(feature = "lite"))]
    {
        filters!(rep, f64, 4, 1, 2);
        filters!(rep, f32, 2, 3, 1);
        #[cfg(feature = "fixed")]
        filters!(rep, fixed::types::I16F16, 2, 1, 2);
    }
    memory_all!(rep, f64);
}
