//! C24: no undefined behaviour. This workload touches every step, storage and access path with
//! exactly sized heap memory; the interpreter (or the address sanitizer) it runs under is the
//! judge. What it judges itself: an access beyond a buffer ends in a panic.
#![allow(static_mut_refs, non_upper_case_globals)]
use kfmon::drive::{can, fill_all, make_op};
use kfmon::mission::{apply, Model, Op};
use kfmon::rig::{Make, Rig, SliceRig, Slot, ALL};
use kfmon::*;
use minikalman::matrix::*;
use std::hint::black_box;

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

/// Every kind of step, on ordinary data and on data that makes every branch go wrong.
fn steps<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    for (wiring, n, u, m, mk) in makes {
        for kind in KINDS {
            if !can(&*mk(), kind) {
                continue;
            }
            for data in ["ordinary", "zero", "poison", "indefinite"] {
                if T::FIXED && (data == "poison" || data == "indefinite") {
                    continue;
                }
                rep.case(&format!("{}/{wiring}/n{n}u{u}m{m}/{kind}/{data}", T::NAME), |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    for s in ALL {
                        if !r.has(s) {
                            continue;
                        }
                        let k = r.len(s);
                        let v: Vec<T> = match data {
                            "zero" => vec![T::zero(); k],
                            "poison" => (0..k).map(|i| T::poison(i + s as usize)).collect(),
                            "indefinite" if s == Slot::P || s == Slot::R => (0..k).map(|_| T::of(-1.0)).collect(),
                            _ => continue,
                        };
                        r.put(s, &v);
                    }
                    for _ in 0..2 {
                        let mut op = make_op::<T>(&mut c.rng, kind, r.dims());
                        if data == "zero" && T::FIXED {
                            // S = 0 divides by zero (documented to panic); λ is never zero here
                            r.put(Slot::R, &(0..m * m).map(|k| T::of((k / m == k % m) as u8 as f64)).collect::<Vec<T>>());
                        }
                        // one step in three runs through a model function that panics half-way
                        if let Op::PredictNl(_) | Op::TunedNl(..) | Op::CorrectNl(_) = op {
                            if c.rng.chance(1, 3) {
                                let _ = guarded(|| broken(&mut *r, kind));
                                c.count("steps left by a panic of the model function", 1);
                            }
                            if let Op::TunedNl(_, ref mut mo) | Op::PredictNl(ref mut mo) = op {
                                *mo = Model::new(&mut c.rng, "permute", *n, *n);
                            }
                        }
                        match guarded(|| apply(&mut *r, &op)) {
                            Ok(()) => c.count("steps performed", 1),
                            Err(_) => c.count("steps ended by a panic", 1),
                        }
                        for s in ALL {
                            if r.has(s) {
                                black_box(r.get(s));
                            }
                        }
                    }
                    c.evals += 2;
                    c.nontrivial(true);
                    Ok(())
                });
            }
        }
    }
}

/// A model function that looks at everything it is given, writes half and panics.
fn broken<T: Num>(r: &mut dyn Rig<T>, kind: &str) {
    let mut f = |x: &[T], o: &mut [T]| {
        let mut acc = T::zero();
        for v in x.iter().chain(o.iter()) {
            if *v == T::zero() {
                acc = *v;
            }
        }
        black_box(acc);
        let h = o.len() / 2;
        for v in &mut o[..h] {
            *v = T::one();
        }
        panic!("model function gives up");
    };
    match kind {
        "predict_nl" => r.predict_nl(&mut f),
        "tuned_nl" => r.predict_tuned_nl(T::one(), &mut f),
        _ => r.correct_nl(&mut f),
    }
}

// ----------------------------------------------------------------- out-of-range indices

fn out_of_range<const R: usize, const C: usize, const N: usize, T: Num>(rep: &mut Rep) {
    rep.case(&format!("{}/{R}x{C}/out-of-range", T::NAME), |c| {
        let v: Vec<T> = (0..N).map(|k| T::of(k as f64 * 0.25)).collect();
        let arr: [T; N] = v.clone().try_into().unwrap();
        fn must<X>(c: &mut Case, what: &str, r: Result<X, (String, String)>) -> Chk {
            c.count("accesses beyond a buffer", 1);
            c.that(r.is_err(), || format!("{what} did not panic"))
        }
        // rows and columns whose element lies behind the last one
        let beyond = [(R, 0), (R, C), (R + 5, 0), (0, R * C), (R.max(1) - 1, C + R * C), (1000, 1000)];
        macro_rules! reads {
            ($how:literal, $m:expr) => {{
                for (i, j) in beyond {
                    if i * C + j < N {
                        continue;
                    }
                    must(c, concat!($how, ": get_at"), guarded(|| black_box($m.get_at(i, j))))?;
                    must(c, concat!($how, ": get"), guarded(|| black_box(Matrix::get(&$m, i, j))))?;
                }
                // anything may come of a wrapped-around offset, except undefined behaviour
                for (i, j) in [(usize::MAX, 0), (usize::MAX, usize::MAX), (usize::MAX / 2 + 1, 1)] {
                    let _ = guarded(|| black_box($m.get_at(i, j)));
                }
                for k in [N, N + 1, N + 100, usize::MAX] {
                    must(c, concat!($how, ": []"), guarded(|| black_box($m[k])))?;
                }
                let mut row = vec![T::zero(); C];
                let mut col = vec![T::zero(); R];
                if C > 0 {
                    must(c, concat!($how, ": get_row_copy"), guarded(|| $m.get_row_copy(R, &mut row)))?;
                }
                if R > 0 {
                    must(c, concat!($how, ": get_column_copy"), guarded(|| $m.get_column_copy(N + C, &mut col)))?;
                }
                // targets that are too small
                if C > 0 && R > 0 {
                    let _ = guarded(|| $m.get_row_copy(0, &mut row[..C - 1]));
                    let _ = guarded(|| $m.get_column_copy(0, &mut col[..R - 1]));
                }
            }};
        }
        macro_rules! writes {
            ($how:literal, $m:expr) => {{
                for (i, j) in beyond {
                    if i * C + j < N {
                        continue;
                    }
                    must(c, concat!($how, ": set_at"), guarded(|| $m.set_at(i, j, T::one())))?;
                    must(c, concat!($how, ": set"), guarded(|| MatrixMut::set(&mut $m, i, j, T::one())))?;
                    must(c, concat!($how, ": set_symmetric"), guarded(|| MatrixMut::set_symmetric(&mut $m, i, j, T::one())))?;
                }
                for (i, j) in [(usize::MAX, 0), (usize::MAX, usize::MAX)] {
                    let _ = guarded(|| $m.set_at(i, j, T::one()));
                }
                for k in [N, N + 1, usize::MAX] {
                    must(c, concat!($how, ": []="), guarded(|| $m[k] = T::one()))?;
                }
            }};
        }
        let mut a = MatrixDataArray::<R, C, N, T>::new(arr);
        reads!("array", a);
        writes!("array", a);
        let mut b = v.clone().into_boxed_slice();
        {
            let r = MatrixData::new_ref::<R, C, T>(&b);
            reads!("reference", r);
        }
        {
            let mut w = MatrixData::new_mut::<R, C, T>(&mut b);
            reads!("mutable reference", w);
            writes!("mutable reference", w);
        }
        #[cfg(feature = "alloc")]
        {
            let mut x = MatrixData::new_boxed::<R, C, T, _>(v.clone());
            reads!("boxed", x);
            writes!("boxed", x);
            let back = x.into_inner();
            c.that(back.len() == N, || "boxed: into_inner".into())?;
        }
        // whatever was written inside the range, the inner array is whole
        c.that(a.into_inner().len() == N, || "array: into_inner".into())?;
        c.input(&v);
        c.nontrivial(true);
        Ok(())
    });
}

/// Storages of elements that own memory: moved in, moved out, dropped once.
fn owners(rep: &mut Rep) {
    rep.case("owned elements", |c| {
        let s = |k: usize| format!("element number {k}");
        let a = MatrixDataArray::<2, 2, 4, String>::new([s(0), s(1), s(2), s(3)]);
        let b = a.clone();
        let [p, _, _, q] = a.into_inner();
        c.that(p == s(0) && q == s(3) && b[2] == s(2), || "array of strings".into())?;
        let back: [String; 4] = b.into();
        c.that(back[1] == s(1), || "array of strings".into())?;
        let mut d = MatrixDataArray::<1, 2, 2, String>::new([s(5), s(6)]);
        d[1] = s(7);
        d.as_mut_slice().swap(0, 1);
        c.that(d.as_slice()[0] == s(7), || "array of strings".into())?;
        #[cfg(feature = "alloc")]
        {
            let mut x = MatrixData::new_boxed::<2, 1, String, _>([s(8), s(9)]);
            x[0] = s(10);
            let v = x.into_inner();
            c.that(v[0] == s(10) && v[1] == s(9), || "box of strings".into())?;
        }
        // dropped by unwinding
        let r = guarded(|| {
            let m = MatrixDataArray::<1, 2, 2, String>::new([s(1), s(2)]);
            m[5].len()
        });
        c.that(r.is_err(), || "index 5 of 2".into())?;
        c.count("storages of owning elements", 5);
        c.nontrivial(true);
        Ok(())
    });
}

// ------------------------------------------------------------------------------- threads

/// Filters of several threads at once, reading shared parameters and moving between threads.
fn threads<T: Num>(rep: &mut Rep) {
    minikalman::impl_buffer_A!(static SHARED_A, 3, f64, 0.25);
    minikalman::impl_buffer_H!(static SHARED_H, 2, 3, f64, 0.5);
    for round in 0..rep.r(25, 100) {
        rep.case(&format!("{}/threads#{round}", T::NAME), |c| {
            let mut rigs: Vec<Box<dyn Rig<T>>> = vec![
                Box::new(SliceRig::<2, 1, 1, T>::new()),
                Box::new(SliceRig::<2, 1, 1, T>::new()),
                Box::new(SliceRig::<3, 2, 2, T>::new()),
            ];
            #[cfg(feature = "alloc")]
            {
                rigs.push(Box::new(kfmon::rig::owned::RegRig::<2, 1, 1, T>::new()));
                rigs.push(Box::new(kfmon::rig::owned::RegRig::<2, 1, 1, T>::new()));
                rigs.push(Box::new(kfmon::rig::owned::ExtRig::<2, 1, T>::new()));
            }
            for r in rigs.iter_mut() {
                fill_all(c, &mut **r);
            }
            let seed = c.rng.next();
            let done: Vec<Box<dyn Rig<T>>> = std::thread::scope(|s| {
                let hs: Vec<_> = rigs
                    .into_iter()
                    .enumerate()
                    .map(|(k, mut r)| {
                        s.spawn(move || {
                            let mut rng = Rng::new(seed, &format!("thread{k}"));
                            for step in 0..3 {
                                let kind = KINDS[(step * 3 + k) % KINDS.len()];
                                if can(&*r, kind) {
                                    let op = make_op::<T>(&mut rng, kind, r.dims());
                                    let _ = guarded(|| apply(&mut *r, &op));
                                }
                                black_box(SHARED_A.get_at(step, k % 3));
                                black_box(SHARED_H.as_slice()[k % 6]);
                                if (k + step) % 2 == 0 {
                                    std::thread::yield_now();
                                }
                            }
                            r
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            c.count("filters stepped in parallel", done.len() as u64);
            for r in &done {
                black_box(r.get(Slot::P));
            }
            c.evals += 1;
            c.nontrivial(true);
            Ok(())
        });
    }
}

/// One filter read by several threads at once.
#[cfg(feature = "alloc")]
fn readers(rep: &mut Rep) {
    use minikalman::regular::builder::KalmanFilterBuilder;
    for round in 0..rep.r(25, 50) {
        rep.case(&format!("f64/readers#{round}"), |c| {
            use minikalman::prelude::*;
            let b = KalmanFilterBuilder::<3, f64>::default();
            let mut f = b.build();
            let mut o = b.observations().build::<2>();
            f.state_transition_mut().make_identity();
            f.estimate_covariance_mut().make_identity();
            o.measurement_noise_covariance_mut().make_identity();
            f.predict();
            f.correct(&mut o);
            let (f, o) = (&f, &o);
            std::thread::scope(|s| {
                for _ in 0..3 {
                    s.spawn(move || {
                        black_box(f.state_vector().as_slice()[0]);
                        black_box(f.estimate_covariance().get(1, 1));
                        black_box(f.state_transition().get_at(2, 2));
                        black_box(o.measurement_vector().as_slice()[1]);
                        black_box(o.observation_matrix().get(0, 0));
                        f.estimate_covariance().inspect(|p| black_box(p.get(0, 0)));
                    });
                }
            });
            c.count("concurrent readers", 3);
            c.evals += 1;
            c.nontrivial(true);
            Ok(())
        });
    }
}

// ------------------------------------------------------------------------------ nalgebra

/// By place only: iterators, products and the like over row-major storage go through upstream
/// code that computes pointers out of bounds for any storage with a row stride above one.
#[cfg(all(feature = "nalgebra", feature = "unsafe"))]
fn views<const R: usize, const C: usize, const N: usize, T: Num + nalgebra::Scalar>(rep: &mut Rep) {
    rep.case(&format!("{}/{R}x{C}/nalgebra-array-of-{N}", T::NAME), |c| {
        let v: Vec<T> = (0..N).map(|k| T::of(k as f64 * 0.125)).collect();
        let mk = || {
            let arr: [T; N] = v.clone().try_into().unwrap();
            Box::new(nalgebra::Matrix::from_data(MatrixDataArray::<R, C, N, T>::new_unchecked(arr)))
        };
        for i in 0..R + 1 {
            for j in 0..C + 1 {
                let r = guarded(|| mk()[(i, j)]);
                let inside = i < R && j < C && i * C + j < N;
                c.that(inside || r.is_err(), || format!("[({i},{j})] of an array of {N} did not panic"))?;
                let _ = guarded(|| black_box(mk().get((i, j)).copied()));
                let _ = guarded(|| black_box(mk()[i + j * R]));
                c.count("accesses through nalgebra", 3);
            }
        }
        let _ = guarded(|| black_box(mk().as_slice().iter().map(|x| x.bits()).fold(0, u64::wrapping_add)));
        if R > 0 && C > 0 {
            let _ = guarded(|| black_box(mk().row(R - 1)[C - 1]));
            let _ = guarded(|| black_box(mk().column(C - 1)[R - 1]));
            let _ = guarded(|| black_box(mk().fixed_view::<1, 1>(R - 1, C - 1)[(0, 0)]));
            let _ = guarded(|| black_box(mk().transpose()[(C - 1, R - 1)]));
            let _ = guarded(|| black_box(mk().map(|x| x)[(R - 1, C - 1)]));
        }
        c.evals += 1;
        c.input(&v);
        c.nontrivial(true);
        Ok(())
    });
}

fn main() {
    let mut rep = Rep::new(
        "C24",
        "A case is one step on one shape, number type, wiring and kind of data, one matrix offered indices beyond its \
         end in every way, one group of threads, or one nalgebra view; non-trivial when the library was entered; distinct by inputs.",
    );
    macro_rules! typ {
        ($t:ty) => {{
            steps::<$t>(&mut rep, &rig_slices!($t; (1,1,1),(2,1,1),(1,2,3),(3,2,2),(2,0,1)));
            #[cfg(feature = "alloc")]
            steps::<$t>(&mut rep, &rig_owned!($t; (1,1,1),(2,1,3),(3,2,2)));
            #[cfg(feature = "alloc")]
            steps::<$t>(&mut rep, &rig_owned_ext!($t; (1,1),(2,3),(3,2)));
            out_of_range::<1, 1, 1, $t>(&mut rep);
            out_of_range::<2, 3, 6, $t>(&mut rep);
            out_of_range::<3, 2, 6, $t>(&mut rep);
            out_of_range::<1, 4, 4, $t>(&mut rep);
            out_of_range::<4, 1, 4, $t>(&mut rep);
            out_of_range::<3, 3, 9, $t>(&mut rep);
            out_of_range::<0, 0, 0, $t>(&mut rep);
            threads::<$t>(&mut rep);
            #[cfg(all(feature = "nalgebra", feature = "unsafe"))]
            {
                views::<1, 1, 1, $t>(&mut rep);
                views::<1, 1, 0, $t>(&mut rep);
                views::<2, 3, 6, $t>(&mut rep);
                views::<2, 3, 5, $t>(&mut rep);
                views::<3, 2, 6, $t>(&mut rep);
                views::<3, 2, 3, $t>(&mut rep);
                views::<1, 4, 4, $t>(&mut rep);
                views::<4, 1, 4, $t>(&mut rep);
                views::<4, 1, 3, $t>(&mut rep);
            }
        }};
    }
    typ!(f64);
    typ!(f32);
    #[cfg(feature = "fixed")]
    {
        typ!(fixed::types::I16F16);
        typ!(fixed::types::I32F32);
    }
    owners(&mut rep);
    #[cfg(feature = "alloc")]
    readers(&mut rep);
    rep.finish()
}
