//! C17: addressing, copies of rows and columns, and setters, through every storage kind.
use kfmon::mats::*;
use kfmon::*;
use minikalman::matrix::*;

/// Distinct values, so that every misplaced element shows.
fn distinct<T: Num>(rng: &mut Rng, n: usize) -> Vec<T> {
    let off = rng.int(0, 60) as f64 * 0.25;
    let mut v: Vec<T> = (0..n).map(|i| T::of(i as f64 * 0.5 + 0.25 + off)).collect();
    rng.shuffle(&mut v);
    v
}

fn judge_read<T: Num>(c: &mut Case, r: usize, k: usize, buf: &[T], got: &Read<T>) -> Chk {
    let n = r * k;
    let want = &buf[..n];
    c.that(got.rows == r && got.cols == k, || format!("{}×{} reported as {}×{}", r, k, got.rows, got.cols))?;
    c.that(got.len == n, || format!("len is {} instead of {n}", got.len))?;
    c.that(got.buffer_len == buf.len(), || format!("buffer_len is {} instead of {}", got.buffer_len, buf.len()))?;
    c.that(got.empty == (n == 0), || format!("is_empty is {} for {r}×{k}", got.empty))?;
    c.that(got.valid == (buf.len() >= n), || format!("is_valid is {} with {} of {n} elements", got.valid, buf.len()))?;
    c.exact("as_slice", &got.slice, buf)?;
    c.exact("get over all elements", &got.get, want)?;
    c.exact("get_at over all elements", &got.get_at, want)?;
    c.exact("index over the buffer", &got.index, buf)?;
    for (i, row) in got.row_copies.iter().enumerate() {
        let mut w = want[i * k..(i + 1) * k].to_vec();
        w.extend([mark::<T>(); 2]);
        c.exact(&format!("copy of row {i} (with two surplus target elements)"), row, &w)?;
    }
    for (j, col) in got.col_copies.iter().enumerate() {
        let mut w: Vec<T> = (0..r).map(|i| want[i * k + j]).collect();
        w.extend([mark::<T>(); 2]);
        c.exact(&format!("copy of column {j} (with two surplus target elements)"), col, &w)?;
    }
    c.that(got.inspected == 1, || format!("inspect called its function {} times", got.inspected))?;
    c.exact("data seen by inspect", &got.inspect_slice, buf)?;
    c.count("elements read back", 4 * n as u64);
    Ok(())
}

fn writes<T: Num>(r: usize, k: usize, v: T) -> Vec<(Write<T>, Vec<usize>)> {
    let mut o = vec![];
    for i in 0..r {
        for j in 0..k {
            let t = i * k + j;
            o.push((Write::Set(i, j, v), vec![t]));
            o.push((Write::SetAt(i, j, v), vec![t]));
            o.push((Write::Apply(i, j, v), vec![t]));
            o.push((Write::Index(t, v), vec![t]));
            o.push((Write::Slice(t, v), vec![t]));
        }
    }
    o
}

fn judge_write<T: Num>(c: &mut Case, base: &[T], w: &Write<T>, at: &[usize], v: T, after: &[T]) -> Chk {
    let mut want = base.to_vec();
    for k in at {
        want[*k] = v;
    }
    c.count("writes judged", 1);
    c.exact(&format!("{w:?}"), after, &want)
}

fn slices<T: MatSets>(rep: &mut Rep) {
    let rounds = rep.r(2, 20);
    for e in T::elems().into_iter().chain(T::big().elems) {
        for round in 0..if e.r * e.c > 20_000 { rounds.div_ceil(16) } else { rounds } {
            rep.case(&format!("{}/slice/{}x{}/read#{round}", T::NAME, e.r, e.c), |c| {
                for extra in [0usize, 1, 7] {
                    let mut buf = distinct::<T>(&mut c.rng, e.r * e.c + extra);
                    // NaN and friends are data like any other
                    let k = c.rng.below(buf.len());
                    if !T::FIXED && e.r * e.c > 1 {
                        buf[k] = T::poison(c.rng.below(6));
                    }
                    c.input(&buf);
                    c.nontrivial(true);
                    let got = (e.read)(&buf);
                    judge_read(c, e.r, e.c, &buf, &got)?;
                    let mut again = buf.clone();
                    (e.copy_to)(&buf, &mut again);
                    c.exact("reading leaves the data alone", &again, &buf)?;
                }
                Ok(())
            });
            rep.case(&format!("{}/slice/{}x{}/write#{round}", T::NAME, e.r, e.c), |c| {
                let base = distinct::<T>(&mut c.rng, e.r * e.c);
                let v = T::of(-7.25 - round as f64);
                c.input(&base);
                c.nontrivial(true);
                let n = e.r * e.c;
                for (w, at) in writes(e.r, e.c, v) {
                    // of large matrices the corners and a few places in between
                    if n > 700 && at[0] > 2 && at[0] + 2 < n && !c.rng.chance(100, 5 * n as u64) {
                        continue;
                    }
                    let mut b = base.clone();
                    (e.write)(&mut b, &w);
                    judge_write(c, &base, &w, &at, v, &b)?;
                }
                let all: Vec<usize> = (0..e.r * e.c).collect();
                for (w, val) in [(Write::SetAll(v), v), (Write::Clear, T::zero()), (Write::SetZero, T::zero())] {
                    let mut b = base.clone();
                    (e.write)(&mut b, &w);
                    judge_write(c, &base, &w, &all, val, &b)?;
                }
                Ok(())
            });
        }
    }
    for s in T::squares() {
        let n = s.n;
        for round in 0..rounds {
            rep.case(&format!("{}/square/{n}#{round}", T::NAME), |c| {
                let base = distinct::<T>(&mut c.rng, n * n);
                let (d, o) = (T::of(-3.5), T::of(-8.75));
                c.input(&base);
                c.nontrivial(true);
                let form = |f: &dyn Fn(usize, usize) -> T| -> Vec<T> {
                    (0..n * n).map(|k| f(k / n, k % n)).collect()
                };
                let mut b = base.clone();
                (s.make_identity)(&mut b);
                c.exact("make_identity", &b, &form(&|i, j| if i == j { T::one() } else { T::zero() }))?;
                let mut b = base.clone();
                (s.make_scalar)(&mut b, d);
                c.exact("make_scalar", &b, &form(&|i, j| if i == j { d } else { T::zero() }))?;
                let mut b = base.clone();
                (s.make_comatrix)(&mut b, d, o);
                c.exact("make_comatrix", &b, &form(&|i, j| if i == j { d } else { o }))?;
                let mut b = base.clone();
                (s.set_diagonal)(&mut b, d);
                c.exact("set_diagonal_to_scalar", &b, &form(&|i, j| if i == j { d } else { base[i * n + j] }))?;
                for i in 0..n {
                    for j in 0..n {
                        let mut b = base.clone();
                        (s.set_symmetric)(&mut b, i, j, o);
                        let want = form(&|p, q| if (p, q) == (i, j) || (q, p) == (i, j) { o } else { base[p * n + q] });
                        c.exact(&format!("set_symmetric({i},{j})"), &b, &want)?;
                    }
                }
                c.count("square setters judged", 4 + (n * n) as u64);
                Ok(())
            });
        }
    }
    for s in T::vecs() {
        let n = s.n;
        for round in 0..rounds {
            rep.case(&format!("{}/vector/{n}#{round}", T::NAME), |c| {
                let base = distinct::<T>(&mut c.rng, n);
                let v = T::of(-9.5);
                c.input(&base);
                c.nontrivial(true);
                let (r, k): (Vec<T>, Vec<T>) = (0..n).map(|i| ((s.row_get)(&base, i), (s.col_get)(&base, i))).unzip();
                c.exact("get_row", &r, &base)?;
                c.exact("get_col", &k, &base)?;
                for i in 0..n {
                    let mut want = base.clone();
                    want[i] = v;
                    let mut b = base.clone();
                    (s.row_set)(&mut b, i, v);
                    c.exact("set_row", &b, &want)?;
                    let mut b = base.clone();
                    (s.col_set)(&mut b, i, v);
                    c.exact("set_col", &b, &want)?;
                }
                if n == 1 {
                    c.exact("get_value", &[scalar_get(&base)], &base)?;
                    let mut b = base.clone();
                    scalar_set(&mut b, v);
                    c.exact("set_value", &b, &[v])?;
                }
                c.count("vector accesses judged", 4 * n as u64);
                Ok(())
            });
        }
    }
}

/// The same questions to the other storage kinds.
fn kinds<T: Num>(rep: &mut Rep) {
    let rounds = rep.r(8, 100);
    macro_rules! shape {
        ($r:literal, $k:literal) => {
            for round in 0..rounds {
                rep.case(&format!("{}/storages/{}x{}#{round}", T::NAME, $r, $k), |c| {
                    const N: usize = $r * $k;
                    let data = distinct::<T>(&mut c.rng, N);
                    c.input(&data);
                    c.nontrivial(true);
                    let arr: [T; N] = data.clone().try_into().unwrap();
                    let m = MatrixDataArray::<$r, $k, N, T>::new(arr);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let m = MatrixData::new_array::<$r, $k, N, T>(arr);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let m = MatrixDataArray::<$r, $k, N, T>::from(arr);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let m = MatrixData::new_from::<$r, $k, T, _>(m);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let mut m = MatrixData::new_mut_from::<$r, $k, T, _>(MatrixDataArray::<$r, $k, N, T>::new(arr));
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let v = T::of(-6.75);
                    for (w, at) in writes($r, $k, v) {
                        write::<$r, $k, T, _>(&mut m, &w);
                        judge_write(c, &data, &w, &at, v, m.as_slice())?;
                        m.as_mut_slice().copy_from_slice(&data);
                        let mut a = MatrixDataArray::<$r, $k, N, T>::new(arr);
                        write::<$r, $k, T, _>(&mut a, &w);
                        judge_write(c, &data, &w, &at, v, a.as_slice())?;
                        judge_write(c, &data, &w, &at, v, &a.into_inner())?;
                    }
                    let mut d = data.clone();
                    let m = MatrixData::new_mut::<$r, $k, T>(&mut d);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    let m = MatrixData::new_ref::<$r, $k, T>(&data);
                    judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                    #[cfg(feature = "alloc")]
                    {
                        let mut m = MatrixDataBoxed::<$r, $k, T>::new(data.clone());
                        judge_read(c, $r, $k, &data, &read::<$r, $k, T, _>(&m))?;
                        for (w, at) in writes($r, $k, v) {
                            write::<$r, $k, T, _>(&mut m, &w);
                            judge_write(c, &data, &w, &at, v, m.as_slice())?;
                            m.as_mut_slice().copy_from_slice(&data);
                        }
                        let m = MatrixData::new::<$r, $k, T>(v);
                        judge_read(c, $r, $k, &vec![v; N], &read::<$r, $k, T, _>(&m))?;
                    }
                    Ok(())
                });
            }
        };
    }
    shape!(1, 1);
    shape!(1, 4);
    shape!(4, 1);
    shape!(2, 3);
    shape!(3, 2);
    shape!(3, 3);
    shape!(5, 4);
    shape!(2, 7);
}

/// Empty matrices describe themselves correctly.
fn empties<T: Num>(rep: &mut Rep) {
    macro_rules! one {
        ($r:literal, $k:literal) => {
            rep.case(&format!("{}/empty/{}x{}", T::NAME, $r, $k), |c| {
                c.nontrivial(true);
                for extra in [0usize, 3] {
                    let mut buf = distinct::<T>(&mut c.rng, extra);
                    let copy = buf.clone();
                    judge_read(c, $r, $k, &copy, &read::<$r, $k, T, _>(&MatrixDataRef::<$r, $k, T>::new(&copy)))?;
                    judge_read(c, $r, $k, &copy, &read::<$r, $k, T, _>(&MatrixDataMut::<$r, $k, T>::new(&mut buf)))?;
                }
                Ok(())
            });
        };
    }
    one!(0, 0);
    one!(0, 2);
    one!(3, 0);
    rep.case(&format!("{}/empty/built-in", T::NAME), |c| {
        c.nontrivial(true);
        let m = MatrixData::empty::<T>();
        judge_read(c, 0, 0, &[], &read::<0, 0, T, _>(&m))
    });
}

fn all<T: MatSets>(rep: &mut Rep) {
    slices::<T>(rep);
    kinds::<T>(rep);
    empties::<T>(rep);
}

fn main() {
    let mut rep = Rep::new(
        "C17",
        "A case is one matrix of one shape, number type and storage, read or written through every accessor at every \
         position; all are non-trivial (the elements are pairwise different); distinct by data, shape and storage.",
    );
    every_type!(all, &mut rep);
    rep.finish()
}
