//! C23: matrices handed to nalgebra.
use kfmon::*;

#[cfg(not(all(feature = "nalgebra", feature = "unsafe")))]
fn run(_: &mut Rep) {}

#[cfg(all(feature = "nalgebra", feature = "unsafe"))]
use with_nalgebra::run;

#[cfg(all(feature = "nalgebra", feature = "unsafe"))]
mod with_nalgebra {
    use super::*;
    use minikalman::matrix::{MatrixData, MatrixDataArray, RowMajorSequentialData};
    use nalgebra as na;

    /// Elements of any kind; `of` is injective for small k.
    pub trait El: na::Scalar + PartialEq + Copy {
        const NAME: &'static str;
        fn of(k: u64) -> Self;
    }
    impl El for f64 {
        const NAME: &'static str = "f64";
        fn of(k: u64) -> f64 {
            (k as i64 - 500) as f64 * 0.25
        }
    }
    impl El for f32 {
        const NAME: &'static str = "f32";
        fn of(k: u64) -> f32 {
            (k as i64 - 300) as f32 * 0.5
        }
    }
    impl El for i64 {
        const NAME: &'static str = "i64";
        fn of(k: u64) -> i64 {
            k as i64 * 1_000_003 - 17
        }
    }
    impl El for u8 {
        const NAME: &'static str = "u8";
        fn of(k: u64) -> u8 {
            (k % 251) as u8
        }
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Odd(u8, u16, [u8; 3]);
    impl El for Odd {
        const NAME: &'static str = "struct";
        fn of(k: u64) -> Odd {
            Odd(k as u8, (k >> 3) as u16, [k as u8, !k as u8, (k >> 8) as u8])
        }
    }

    fn values<T: El>(c: &mut Case, n: usize, round: usize) -> Vec<T> {
        // first all different, then random
        let v: Vec<u64> = (0..n as u64).map(|k| if round == 0 { k * 3 + 1 } else { c.rng.next() % 1000 }).collect();
        for k in &v {
            c.tag(&k.to_string());
        }
        v.into_iter().map(T::of).collect()
    }

    fn of(shape: usize, array: usize) -> String {
        if shape == array { String::new() } else { format!("-in-array-of-{array}") }
    }

    /// Everything read through nalgebra by places and in nalgebra's documented order.
    fn places<const R: usize, const C: usize, const N: usize, T: El>(rep: &mut Rep) {
        for round in 0..rep.r(12, 300) {
            let label = format!("{}/{R}x{C}/elements{}#{round}", T::NAME, of(R * C, N));
            rep.case(&label, |c| {
                let v = values::<T>(c, N, round);
                let arr: [T; N] = v.clone().try_into().ok().unwrap();
                let v = &v[..R * C]; // the array may be larger than the matrix
                let kal = if round % 2 == 0 {
                    MatrixData::new_array::<R, C, N, T>(arr)
                } else {
                    MatrixDataArray::<R, C, N, T>::new_unchecked(arr)
                };
                for i in 0..R {
                    for j in 0..C {
                        c.that(kal.get_at(i, j) == v[i * C + j], || "get_at disagrees with the array".into())?;
                    }
                }
                let m = na::Matrix::from_data(kal);
                // the matrix may live anywhere
                let m = if round % 3 == 1 { Box::new(m) } else { Box::new(m.clone_it()) };
                let e = |i: usize, j: usize| v[i * C + j];
                c.that(m.shape() == (R, C) && m.nrows() == R && m.ncols() == C && m.len() == R * C, || {
                    format!("shape {:?} instead of {:?}", m.shape(), (R, C))
                })?;
                c.that(m.is_empty() == (R * C == 0), || "is_empty".into())?;
                for i in 0..R {
                    for j in 0..C {
                        c.that(m[(i, j)] == e(i, j), || format!("[({i},{j})] is {:?}, expected {:?}", m[(i, j)], e(i, j)))?;
                        c.that(m.get((i, j)) == Some(&e(i, j)), || format!("get(({i},{j})) differs"))?;
                        c.that(m[i + j * R] == e(i, j), || format!("linear index of ({i},{j}) differs"))?;
                        c.that(*m.index((i, j)) == e(i, j), || format!("index(({i},{j})) differs"))?;
                    }
                }
                c.count("elements read by place", (R * C) as u64);
                for bad in [(R, 0), (0, C), (R, C), (R + 7, C + 7), (usize::MAX, 0)] {
                    c.that(m.get(bad).is_none(), || format!("get({bad:?}) is not None"))?;
                }
                for bad in [(R, 0), (0, C), (R + 100, C)] {
                    c.that(guarded(|| m[bad]).is_err(), || format!("[{bad:?}] did not panic"))?;
                    c.count("out-of-range reads refused", 1);
                }
                c.that(guarded(|| m[R * C]).is_err(), || "linear index R*C did not panic".into())?;
                let order: Vec<T> = (0..C).flat_map(|j| (0..R).map(move |i| (i, j))).map(|(i, j)| e(i, j)).collect();
                c.that(m.iter().copied().collect::<Vec<T>>() == order, || "iter: order or elements differ".into())?;
                c.that(m.iter().rev().copied().collect::<Vec<T>>() == order.iter().rev().copied().collect::<Vec<T>>(), || {
                    "reversed iter: order or elements differ".into()
                })?;
                c.that(m.iter().len() == R * C, || "iter: length differs".into())?;
                for (i, row) in m.row_iter().enumerate() {
                    c.that(row.iter().copied().collect::<Vec<T>>() == (0..C).map(|j| e(i, j)).collect::<Vec<T>>(), || {
                        format!("row_iter: row {i} differs")
                    })?;
                }
                for (j, col) in m.column_iter().enumerate() {
                    c.that(col.iter().copied().collect::<Vec<T>>() == (0..R).map(|i| e(i, j)).collect::<Vec<T>>(), || {
                        format!("column_iter: column {j} differs")
                    })?;
                }
                c.that(m.row_iter().count() == R && m.column_iter().count() == C, || "number of rows or columns".into())?;
                for i in 0..R {
                    let r = m.row(i);
                    for j in 0..C {
                        c.that(r[j] == e(i, j), || format!("row({i})[{j}] differs"))?;
                    }
                }
                for j in 0..C {
                    let k = m.column(j);
                    for i in 0..R {
                        c.that(k[i] == e(i, j), || format!("column({j})[{i}] differs"))?;
                    }
                }
                // windows
                for _ in 0..6 {
                    let (i0, j0) = (c.rng.below(R + 1), c.rng.below(C + 1));
                    let (h, w) = (c.rng.below(R - i0 + 1), c.rng.below(C - j0 + 1));
                    let s = m.view((i0, j0), (h, w));
                    c.that(s.shape() == (h, w), || "view: shape".into())?;
                    for i in 0..h {
                        for j in 0..w {
                            c.that(s[(i, j)] == e(i0 + i, j0 + j), || format!("view(({i0},{j0}),({h},{w}))[({i},{j})] differs"))?;
                        }
                    }
                    let got: Vec<T> = s.iter().copied().collect();
                    let want: Vec<T> = (0..w).flat_map(|j| (0..h).map(move |i| (i, j))).map(|(i, j)| e(i0 + i, j0 + j)).collect();
                    c.that(got == want, || format!("view(({i0},{j0}),({h},{w})): iteration differs"))?;
                    let t = m.rows(i0, h);
                    c.that(t.shape() == (h, C) && (0..h).all(|i| (0..C).all(|j| t[(i, j)] == e(i0 + i, j))), || "rows differ".into())?;
                    let t = m.columns(j0, w);
                    c.that(t.shape() == (R, w) && (0..R).all(|i| (0..w).all(|j| t[(i, j)] == e(i, j0 + j))), || "columns differ".into())?;
                    c.count("windows compared", 3);
                }
                for step in 1..3 {
                    let k = R / (step + 1);
                    let t = m.rows_with_step(0, k, step);
                    c.that((0..k).all(|i| (0..C).all(|j| t[(i, j)] == e(i * (step + 1), j))), || "rows_with_step differ".into())?;
                    let k = C / (step + 1);
                    let t = m.columns_with_step(0, k, step);
                    c.that((0..R).all(|i| (0..k).all(|j| t[(i, j)] == e(i, j * (step + 1)))), || "columns_with_step differ".into())?;
                }
                // owned copies and transformations
                let o = na::SMatrix::<T, R, C>::from_fn(|i, j| e(i, j));
                let w = m.fixed_view::<R, C>(0, 0);
                c.that(w.clone_owned() == o, || "clone_owned of the full view differs".into())?;
                c.that(w == o && o == w, || "comparison with an equal matrix fails".into())?;
                c.that(*m == o, || "comparison with an equal matrix fails".into())?;
                c.that(m.map(|x| x) == o, || "map differs".into())?;
                c.that(m.map_with_location(|i, j, x| (i, j, x)) == na::SMatrix::<(usize, usize, T), R, C>::from_fn(|i, j| (i, j, e(i, j))), || {
                    "map_with_location differs".into()
                })?;
                c.that(m.zip_map(&o, |a, b| a == b).iter().all(|b| *b), || "zip_map differs".into())?;
                c.that(m.transpose() == na::SMatrix::<T, C, R>::from_fn(|i, j| e(j, i)), || "transpose differs".into())?;
                c.that(na::SMatrix::<T, R, C>::from_iterator(m.iter().copied()) == o, || "rebuilding from iter differs".into())?;
                c.that(m.fold(0usize, |a, x| a + (x == T::of(4)) as usize) == v.iter().filter(|x| **x == T::of(4)).count(), || {
                    "fold differs".into()
                })?;
                let mut copy = na::SMatrix::<T, R, C>::from_fn(|_, _| T::of(999));
                copy.copy_from(&*m);
                c.that(copy == o, || "copy_from differs".into())?;
                let mut tr = na::SMatrix::<T, C, R>::from_fn(|_, _| T::of(999));
                m.transpose_to(&mut tr);
                c.that(tr == o.transpose(), || "transpose_to differs".into())?;
                if R * C > 0 {
                    let mut other = o;
                    let (i, j) = (c.rng.below(R), c.rng.below(C));
                    other[(i, j)] = T::of(1234);
                    c.that(*m != other || e(i, j) == T::of(1234), || format!("a difference at ({i},{j}) goes unnoticed"))?;
                }
                c.count("whole-matrix operations compared", 11);
                // nalgebra documents its slices as column-major
                let s = m.as_slice();
                c.that(s.len() == R * C, || format!("as_slice has {} elements", s.len()))?;
                if s != &order[..] {
                    c.that(s == v, || "as_slice is neither column-major nor row-major".into())?;
                    c.known("nalgebra-as-slice-order");
                }
                c.nontrivial(R * C > 0);
                c.sample(|| format!("{:?}", &order[..order.len().min(6)]));
                Ok(())
            });
        }
    }

    trait CloneIt {
        fn clone_it(&self) -> Self;
    }
    impl<const R: usize, const C: usize, const N: usize, T: El> CloneIt
        for na::Matrix<T, na::Const<R>, na::Const<C>, MatrixDataArray<R, C, N, T>>
    {
        fn clone_it(&self) -> Self {
            na::Matrix::from_data(self.data.clone())
        }
    }

    /// Computations, in floating point with exactly representable numbers.
    fn numbers<const R: usize, const C: usize, const N: usize>(rep: &mut Rep) {
        for round in 0..rep.r(12, 300) {
            let label = format!("f64/{R}x{C}/computations{}#{round}", of(R * C, N));
            rep.case(&label, |c| {
                let v: Vec<f64> = (0..N).map(|_| c.rng.int(-40, 40) as f64 * 0.5).collect();
                let w: Vec<f64> = (0..N).map(|_| c.rng.int(-9, 9) as f64).collect();
                c.input(&v);
                c.input(&w);
                let mk = |v: &[f64]| na::Matrix::from_data(MatrixData::new_array::<R, C, N, f64>(v.to_vec().try_into().unwrap()));
                let (a, b) = (mk(&v), mk(&w));
                let (fa, fb) = (a.fixed_view::<R, C>(0, 0), b.fixed_view::<R, C>(0, 0));
                let (v, w) = (&v[..R * C], &w[..R * C]);
                let e = |i: usize, j: usize| v[i * C + j];
                let g = |i: usize, j: usize| w[i * C + j];
                let m = |f: &dyn Fn(usize, usize) -> f64| na::SMatrix::<f64, R, C>::from_fn(|i, j| f(i, j));
                c.that(a.sum() == v.iter().sum::<f64>(), || "sum differs".into())?;
                c.that(fa + fb == m(&|i, j| e(i, j) + g(i, j)), || "sum of matrices differs".into())?;
                c.that(fa - fb == m(&|i, j| e(i, j) - g(i, j)), || "difference differs".into())?;
                c.that(-fa == m(&|i, j| -e(i, j)), || "negation differs".into())?;
                c.that(fa * 3.0 == m(&|i, j| e(i, j) * 3.0), || "multiple differs".into())?;
                c.that(fa.component_mul(&fb) == m(&|i, j| e(i, j) * g(i, j)), || "component product differs".into())?;
                let mut acc = m(&|i, j| (i * 100 + j) as f64);
                acc += fa;
                acc -= fb;
                c.that(acc == m(&|i, j| (i * 100 + j) as f64 + e(i, j) - g(i, j)), || "accumulation differs".into())?;
                c.that(fa.dot(&fb) == v.iter().zip(w).map(|(p, q)| p * q).sum::<f64>(), || "dot product differs".into())?;
                c.that(fa.abs() == m(&|i, j| e(i, j).abs()), || "abs differs".into())?;
                if R * C > 0 {
                    let max = v.iter().cloned().fold(f64::MIN, f64::max);
                    let min = v.iter().cloned().fold(f64::MAX, f64::min);
                    c.that(a.max() == max && a.min() == min, || "max or min differs".into())?;
                    let (i, j) = a.iamax_full();
                    c.that(e(i, j).abs() == max.abs().max(min.abs()), || "iamax_full differs".into())?;
                }
                let rs = a.row_sum();
                c.that((0..C).all(|j| rs[j] == (0..R).map(|i| e(i, j)).sum::<f64>()), || "row_sum differs".into())?;
                let cs = a.column_sum();
                c.that((0..R).all(|i| cs[i] == (0..C).map(|j| e(i, j)).sum::<f64>()), || "column_sum differs".into())?;
                // products of copies made through nalgebra
                let (oa, ob) = (fa.clone_owned(), fb.transpose());
                let p = oa * ob;
                for i in 0..R {
                    for k in 0..R {
                        let t: f64 = (0..C).map(|j| e(i, j) * g(k, j)).sum();
                        c.that(p[(i, k)] == t, || format!("product ({i},{k}) is {} instead of {t}", p[(i, k)]))?;
                    }
                }
                for k in 0..R.min(C) {
                    c.that(a[(k, k)] == e(k, k), || "diagonal differs".into())?;
                }
                c.count("computations compared", 15);
                c.nontrivial(R * C > 0);
                Ok(())
            });
        }
    }

    /// Arrays too small for their shape must not be readable as if they were large enough.
    fn too_small<const R: usize, const C: usize, const N: usize>(rep: &mut Rep) {
        let label = format!("f64/{R}x{C}/array-of-{N}");
        rep.case(&label, |c| {
            let v: [f64; N] = core::array::from_fn(|k| k as f64 + 1.0);
            let made = || MatrixDataArray::<R, C, N, f64>::new_unchecked(v);
            let refused = |c: &mut Case, what: &str, r: Result<bool, (String, String)>| -> Chk {
                c.count("reads of arrays too small", 1);
                match r {
                    Err(_) => {
                        c.count("reads of arrays too small refused", 1);
                        Ok(())
                    }
                    Ok(true) => Ok(()),
                    Ok(false) => Err(format!("{what} went through although only {N} of {} elements exist", R * C)),
                }
            };
            for i in 0..R {
                for j in 0..C {
                    let inside = i * C + j < N;
                    let r = guarded(|| na::Matrix::from_data(made())[(i, j)]).map(|x| inside && x == v[i * C + j]);
                    refused(c, &format!("reading ({i},{j})"), r)?;
                    let r = guarded(|| na::Matrix::from_data(made()).get((i, j)).copied())
                        .map(|x| x.is_none() || (inside && x == Some(v[i * C + j])));
                    refused(c, &format!("get of ({i},{j})"), r)?;
                    let r = guarded(|| na::Matrix::from_data(made())[i + j * R]).map(|x| inside && x == v[i * C + j]);
                    refused(c, &format!("reading linear index {}", i + j * R), r)?;
                }
            }
            refused(c, "as_slice", guarded(|| na::Matrix::from_data(made()).as_slice().len()).map(|k| k <= N))?;
            refused(c, "iteration", guarded(|| na::Matrix::from_data(made()).iter().copied().count()).map(|k| k <= N))?;
            refused(c, "sum", guarded(|| na::Matrix::from_data(made()).sum()).map(|_| false))?;
            refused(c, "transpose", guarded(|| na::Matrix::from_data(made()).transpose()[(0, 0)]).map(|_| false))?;
            refused(c, "the last row", guarded(|| na::Matrix::from_data(made()).row(R - 1)[C - 1]).map(|_| false))?;
            refused(c, "the last column", guarded(|| na::Matrix::from_data(made()).column(C - 1)[R - 1]).map(|_| false))?;
            c.tag(&label);
            c.nontrivial(true);
            Ok(())
        });
    }

    macro_rules! shapes {
        ($rep:expr; $(($r:literal, $c:literal)),*) => {$(
            places::<$r, $c, {$r * $c}, f64>($rep);
            places::<$r, $c, {$r * $c}, f32>($rep);
            places::<$r, $c, {$r * $c}, i64>($rep);
            places::<$r, $c, {$r * $c}, u8>($rep);
            places::<$r, $c, {$r * $c}, Odd>($rep);
            numbers::<$r, $c, {$r * $c}>($rep);
        )*}
    }

    pub fn run(rep: &mut Rep) {
        #[cfg(not(feature = "lite"))]
        shapes!(rep; (1,1),(1,2),(1,3),(1,7),(2,1),(3,1),(7,1),(2,2),(2,3),(3,2),(2,4),(4,2),(3,3),(3,4),(4,3),(5,2),(2,5),(5,5),(4,7),(7,4),(6,6),(1,12),(12,1),(3,10),(10,3),(9,11),(16,16),(0,0));
        #[cfg(feature = "lite")]
        shapes!(rep; (1,1),(1,4),(4,1),(2,3),(3,2),(3,3),(5,2),(4,7));
        // arrays larger than their matrix
        places::<2, 3, 9, f64>(rep);
        places::<3, 2, 7, i64>(rep);
        places::<1, 3, 5, f32>(rep);
        places::<3, 1, 4, Odd>(rep);
        places::<4, 4, 17, u8>(rep);
        places::<5, 2, 40, f64>(rep);
        numbers::<2, 3, 9>(rep);
        numbers::<3, 3, 10>(rep);
        numbers::<1, 4, 9>(rep);
        numbers::<4, 1, 5>(rep);
        too_small::<1, 1, 0>(rep);
        too_small::<2, 2, 3>(rep);
        too_small::<2, 3, 5>(rep);
        too_small::<3, 2, 5>(rep);
        too_small::<2, 3, 1>(rep);
        too_small::<2, 3, 3>(rep);
        too_small::<4, 4, 15>(rep);
        too_small::<1, 8, 7>(rep);
        too_small::<8, 1, 7>(rep);
        too_small::<5, 3, 3>(rep);
        too_small::<3, 5, 5>(rep);
        too_small::<10, 10, 50>(rep);
    }
}

fn main() {
    let mut rep = Rep::new(
        "C23",
        "A case is one matrix shape, element type and set of values read or computed with through nalgebra, or one \
         array too small for its shape; non-trivial when there was an element to compare; distinct by shape and values.",
    );
    run(&mut rep);
    rep.finish()
}
