//! C20: builders, buffer macros and size macros produce the documented shapes and contents, and
//! what they build works together like a hand-wired filter.
#![allow(non_snake_case, non_upper_case_globals, unused_mut, static_mut_refs)]
use kfmon::drive::{can, fill_all, make_op_tame, settle};
use kfmon::mission::*;
use kfmon::num::bits_of;
use kfmon::rig::{Make, Rig, Slot, ALL};
use kfmon::*;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};
use std::fmt::Debug;

/// What a buffer says about itself and holds.
#[derive(Debug, PartialEq)]
struct Said<V> {
    rows: usize,
    cols: usize,
    len: usize,
    buffer_len: usize,
    valid: bool,
    data: Vec<V>,
}

fn look<const RR: usize, const CC: usize, V: Copy, B: Matrix<RR, CC, V>>(b: &B) -> Said<V> {
    Said {
        rows: <B as Matrix<RR, CC, V>>::rows(b),
        cols: <B as Matrix<RR, CC, V>>::cols(b),
        len: <B as RowMajorSequentialData<RR, CC, V>>::len(b),
        buffer_len: b.buffer_len(),
        valid: b.is_valid(),
        data: b.as_slice().to_vec(),
    }
}

/// As many elements as the shape has, all of them `init`.
fn judge<V: Copy + Debug>(c: &mut Case, how: &str, bits: fn(&[V]) -> Vec<u64>, s: &Said<V>, want: (usize, usize), init: V) -> Chk {
    let n = want.0 * want.1;
    c.count("buffers made", 1);
    c.that((s.rows, s.cols) == want, || format!("{how}: {}x{} instead of {}x{}", s.rows, s.cols, want.0, want.1))?;
    c.that(s.len == n && s.buffer_len == n && s.data.len() == n, || {
        format!("{how}: length {}, buffer length {}, {} elements instead of {n}", s.len, s.buffer_len, s.data.len())
    })?;
    c.that(s.valid, || format!("{how}: reported as invalid"))?;
    let i = bits(&[init])[0];
    match bits(&s.data).iter().position(|b| *b != i) {
        None => Ok(()),
        Some(k) => c.that(false, || format!("{how}: element {k} is {:?} instead of {init:?}", s.data[k])),
    }
}

/// Every element can be written and found again, and nothing else changes with it.
fn writable<const RR: usize, const CC: usize, V: Copy + Debug, B: MatrixMut<RR, CC, V>>(c: &mut Case, how: &str, b: &mut B, bits: fn(&[V]) -> Vec<u64>, mk: fn(usize) -> V) -> Chk {
    for i in 0..RR {
        for j in 0..CC {
            b.set(i, j, mk(i * CC + j));
        }
    }
    let want: Vec<V> = (0..RR * CC).map(mk).collect();
    let got = b.as_slice().to_vec();
    c.that(bits(&got) == bits(&want), || format!("{how}: after writing {want:?} it holds {got:?}"))
}

/// Something no filter computes with, whose default is not zero.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Tag(u64);
impl Default for Tag {
    fn default() -> Self {
        Tag(0x5EED)
    }
}
fn tag_bits(v: &[Tag]) -> Vec<u64> {
    v.iter().map(|t| t.0).collect()
}
fn tag(k: usize) -> Tag {
    Tag(1000 + k as u64)
}
fn num<T: Num>(k: usize) -> T {
    T::of(k as f64 + 0.5)
}

#[cfg(feature = "alloc")]
fn builders<const NN: usize, const NU: usize, const NM: usize, V: Copy + Default + Debug>(c: &mut Case, bits: fn(&[V]) -> Vec<u64>, mk: fn(usize) -> V, inits: &[V]) -> Chk {
    macro_rules! one {
        ($b:expr, $name:literal, $want:expr) => {{
            let mut b = $b.new::<V>();
            judge(c, concat!($name, ".new()"), bits, &look(&b), $want, V::default())?;
            writable(c, concat!($name, ".new()"), &mut b, bits, mk)?;
            for i in inits {
                let mut b = $b.new_with(*i);
                judge(c, concat!($name, ".new_with()"), bits, &look(&b), $want, *i)?;
                writable(c, concat!($name, ".new_with()"), &mut b, bits, mk)?;
            }
        }};
    }
    one!(BufferBuilder::state_vector_x::<NN>(), "state_vector_x", (NN, 1));
    one!(BufferBuilder::system_matrix_A::<NN>(), "system_matrix_A", (NN, NN));
    one!(BufferBuilder::estimate_covariance_P::<NN>(), "estimate_covariance_P", (NN, NN));
    one!(BufferBuilder::direct_process_noise_covariance_Q::<NN>(), "direct_process_noise_covariance_Q", (NN, NN));
    one!(BufferBuilder::control_vector_u::<NU>(), "control_vector_u", (NU, 1));
    one!(BufferBuilder::control_matrix_B::<NN, NU>(), "control_matrix_B", (NN, NU));
    one!(BufferBuilder::control_process_noise_covariance_Q::<NU>(), "control_process_noise_covariance_Q", (NU, NU));
    one!(BufferBuilder::measurement_vector_z::<NM>(), "measurement_vector_z", (NM, 1));
    one!(BufferBuilder::observation_matrix_H::<NM, NN>(), "observation_matrix_H", (NM, NN));
    one!(BufferBuilder::observation_covariance_R::<NM>(), "observation_covariance_R", (NM, NM));
    one!(BufferBuilder::innovation_vector_y::<NM>(), "innovation_vector_y", (NM, 1));
    one!(BufferBuilder::innovation_covariance_S::<NM>(), "innovation_covariance_S", (NM, NM));
    one!(BufferBuilder::kalman_gain_K::<NN, NM>(), "kalman_gain_K", (NN, NM));
    one!(BufferBuilder::state_prediction_temp_x::<NN>(), "state_prediction_temp_x", (NN, 1));
    one!(BufferBuilder::temp_system_covariance_P::<NN>(), "temp_system_covariance_P", (NN, NN));
    one!(BufferBuilder::temp_BQ::<NN, NU>(), "temp_BQ", (NN, NU));
    one!(BufferBuilder::temp_S_inv::<NM>(), "temp_S_inv", (NM, NM));
    one!(BufferBuilder::temp_HP::<NM, NN>(), "temp_HP", (NM, NN));
    one!(BufferBuilder::temp_PHt::<NN, NM>(), "temp_PHt", (NN, NM));
    one!(BufferBuilder::temp_KHP::<NN>(), "temp_KHP", (NN, NN));
    Ok(())
}

#[cfg(feature = "alloc")]
fn all_builders<T: Num>(rep: &mut Rep) {
    macro_rules! at {
        ($(($n:literal, $u:literal, $m:literal)),* $(,)?) => { $(
            rep.case(&format!("builders/{}/n{}u{}m{}", T::NAME, $n, $u, $m), |c| {
                c.tag(&format!("{} {} {}", $n, $u, $m));
                c.nontrivial(true);
                let mut inits: Vec<T> = vec![T::zero(), T::one(), T::of(-3.25), T::poison(1), T::poison(2)];
                inits.extend(gen::vector::<T>(&mut c.rng, 3));
                builders::<$n, $u, $m, T>(c, bits_of, num::<T>, &inits)
            });
            rep.case(&format!("builders/other/n{}u{}m{}", $n, $u, $m), |c| {
                c.tag(&format!("tag {} {} {}", $n, $u, $m));
                c.nontrivial(true);
                builders::<$n, $u, $m, Tag>(c, tag_bits, tag, &[Tag(0), Tag(1), Tag(u64::MAX)])
            });
        )* };
    }
    at!((1, 1, 1), (1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1), (2, 2, 5), (5, 2, 2), (2, 5, 2), (4, 6, 3), (3, 4, 6), (6, 3, 4), (7, 1, 1), (1, 7, 1), (1, 1, 7));
    #[cfg(not(feature = "lite"))]
    at!((4, 0, 2), (9, 4, 2), (2, 9, 4), (4, 2, 9), (8, 8, 8), (16, 3, 5), (5, 16, 3), (3, 5, 16), (12, 12, 1), (17, 2, 2), (2, 17, 2), (2, 2, 17), (33, 1, 4));
}

/// One macro in each of its forms.
macro_rules! forms {
    ($c:ident, $mac:ident, ($($d:expr),*), $t:ty, $init:expr, $want:expr) => {{
        let bits: fn(&[$t]) -> Vec<u64> = bits_of;
        let mk: fn(usize) -> $t = num::<$t>;
        let i: $t = $init;
        {
            minikalman::$mac!(mut b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(mut ..)"), bits, &look(&b), $want, i)?;
            writable($c, concat!(stringify!($mac), "!(mut ..)"), &mut b, bits, mk)?;
        }
        {
            minikalman::$mac!(b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(..)"), bits, &look(&b), $want, i)?;
        }
        {
            minikalman::$mac!(let mut b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(let mut ..)"), bits, &look(&b), $want, i)?;
            writable($c, concat!(stringify!($mac), "!(let mut ..)"), &mut b, bits, mk)?;
        }
        {
            minikalman::$mac!(let b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(let ..)"), bits, &look(&b), $want, i)?;
        }
        {
            // Once per process: the second visit finds what the first has written.
            minikalman::$mac!(static mut b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(static mut ..)"), bits, &look(unsafe { &b }), $want, i)?;
            writable($c, concat!(stringify!($mac), "!(static mut ..)"), unsafe { &mut b }, bits, mk)?;
        }
        {
            minikalman::$mac!(static b, $($d),*, $t, $init);
            judge($c, concat!(stringify!($mac), "!(static ..)"), bits, &look(&b), $want, i)?;
        }
    }};
}

/// A size macro, as a constant and as a value, against the buffer of the same role.
macro_rules! size {
    ($c:ident, $mac:ident, ($($d:expr),*), $want:expr) => {{
        const S: usize = minikalman::$mac!($($d),*);
        let v: usize = minikalman::$mac!($($d),*);
        let w = $want.0 * $want.1;
        $c.count("size macros evaluated", 1);
        $c.that(S == w && v == w, || format!("{}: {S} / {v} instead of {w}", stringify!($mac)))?;
    }};
}

macro_rules! macros_at {
    ($rep:ident, $t:ty, $init:expr, $n:expr, $u:expr, $m:expr) => {
        $rep.case(&format!("macros/{}/n{}u{}m{}", <$t as Num>::NAME, $n, $u, $m), |c| {
            c.tag(&format!("{} {} {}", $n, $u, $m));
            c.nontrivial(true);
            forms!(c, impl_buffer_x, ($n), $t, $init, ($n, 1));
            forms!(c, impl_buffer_A, ($n), $t, $init, ($n, $n));
            forms!(c, impl_buffer_P, ($n), $t, $init, ($n, $n));
            forms!(c, impl_buffer_Q_direct, ($n), $t, $init, ($n, $n));
            forms!(c, impl_buffer_u, ($u), $t, $init, ($u, 1));
            forms!(c, impl_buffer_B, ($n, $u), $t, $init, ($n, $u));
            forms!(c, impl_buffer_Q_control, ($u), $t, $init, ($u, $u));
            forms!(c, impl_buffer_z, ($m), $t, $init, ($m, 1));
            forms!(c, impl_buffer_H, ($m, $n), $t, $init, ($m, $n));
            forms!(c, impl_buffer_R, ($m), $t, $init, ($m, $m));
            forms!(c, impl_buffer_y, ($m), $t, $init, ($m, 1));
            forms!(c, impl_buffer_S, ($m), $t, $init, ($m, $m));
            forms!(c, impl_buffer_K, ($n, $m), $t, $init, ($n, $m));
            forms!(c, impl_buffer_temp_x, ($n), $t, $init, ($n, 1));
            forms!(c, impl_buffer_temp_P, ($n), $t, $init, ($n, $n));
            forms!(c, impl_buffer_temp_BQ, ($n, $u), $t, $init, ($n, $u));
            forms!(c, impl_buffer_temp_S_inv, ($m), $t, $init, ($m, $m));
            forms!(c, impl_buffer_temp_HP, ($m, $n), $t, $init, ($m, $n));
            forms!(c, impl_buffer_temp_PHt, ($n, $m), $t, $init, ($n, $m));
            forms!(c, impl_buffer_temp_KHP, ($n), $t, $init, ($n, $n));
            Ok(())
        });
    };
}
macro_rules! sizes_at {
    ($rep:ident, $n:expr, $u:expr, $m:expr) => {
        $rep.case(&format!("sizes/n{}u{}m{}", $n, $u, $m), |c| {
            c.tag(&format!("{} {} {}", $n, $u, $m));
            c.nontrivial(true);
            size!(c, size_buffer_x, ($n), ($n, 1));
            size!(c, size_buffer_A, ($n), ($n, $n));
            size!(c, size_buffer_P, ($n), ($n, $n));
            size!(c, size_buffer_Q_direct, ($n), ($n, $n));
            size!(c, size_buffer_u, ($u), ($u, 1));
            size!(c, size_buffer_B, ($n, $u), ($n, $u));
            size!(c, size_buffer_Q_control, ($u), ($u, $u));
            size!(c, size_buffer_z, ($m), ($m, 1));
            size!(c, size_buffer_H, ($m, $n), ($m, $n));
            size!(c, size_buffer_R, ($m), ($m, $m));
            size!(c, size_buffer_y, ($m), ($m, 1));
            size!(c, size_buffer_S, ($m), ($m, $m));
            size!(c, size_buffer_K, ($n, $m), ($n, $m));
            size!(c, size_buffer_temp_x, ($n), ($n, 1));
            size!(c, size_buffer_temp_P, ($n), ($n, $n));
            size!(c, size_buffer_temp_BQ, ($n, $u), ($n, $u));
            size!(c, size_buffer_temp_S_inv, ($m), ($m, $m));
            size!(c, size_buffer_temp_HP, ($m, $n), ($m, $n));
            size!(c, size_buffer_temp_PHt, ($n, $m), ($n, $m));
            size!(c, size_buffer_temp_KHP, ($n), ($n, $n));
            Ok(())
        });
    };
}

/// The documented way of building a filter without an allocator: `static mut` buffers from the
/// macros, wired through their slices. A mission on it, and on the same filter wired by hand.
macro_rules! static_filter {
    ($rep:ident, $t:ty, $z:expr, $n:expr, $u:expr, $m:expr, $rounds:expr) => {
        $rep.case(&format!("static filter/{}/n{}u{}m{}", <$t as Num>::NAME, $n, $u, $m), |c| {
            const Z: $t = $z;
            minikalman::impl_buffer_x!(static mut g_x, $n, $t, Z);
            minikalman::impl_buffer_A!(static mut g_A, $n, $t, Z);
            minikalman::impl_buffer_P!(static mut g_P, $n, $t, Z);
            minikalman::impl_buffer_Q_direct!(static mut g_Q, $n, $t, Z);
            minikalman::impl_buffer_u!(static mut g_u, $u, $t, Z);
            minikalman::impl_buffer_B!(static mut g_B, $n, $u, $t, Z);
            minikalman::impl_buffer_Q_control!(static mut g_QC, $u, $t, Z);
            minikalman::impl_buffer_z!(static mut g_z, $m, $t, Z);
            minikalman::impl_buffer_H!(static mut g_H, $m, $n, $t, Z);
            minikalman::impl_buffer_R!(static mut g_R, $m, $t, Z);
            minikalman::impl_buffer_y!(static mut g_y, $m, $t, Z);
            minikalman::impl_buffer_S!(static mut g_S, $m, $t, Z);
            minikalman::impl_buffer_K!(static mut g_K, $n, $m, $t, Z);
            minikalman::impl_buffer_temp_x!(static mut t_x, $n, $t, Z);
            minikalman::impl_buffer_temp_P!(static mut t_P, $n, $t, Z);
            minikalman::impl_buffer_temp_BQ!(static mut t_BQ, $n, $u, $t, Z);
            minikalman::impl_buffer_temp_S_inv!(static mut t_SI, $m, $t, Z);
            minikalman::impl_buffer_temp_HP!(static mut t_HP, $m, $n, $t, Z);
            minikalman::impl_buffer_temp_PHt!(static mut t_PHT, $n, $m, $t, Z);
            minikalman::impl_buffer_temp_KHP!(static mut t_KHP, $n, $t, Z);
            c.nontrivial(true);
            c.tag(&format!("{} {} {}", $n, $u, $m));
            let mut f = RegularKalmanBuilder::new::<$n, $t>(
                StateTransitionMatrixMutBuffer::from(unsafe { g_A.as_mut_slice() }),
                StateVectorBuffer::from(unsafe { g_x.as_mut_slice() }),
                EstimateCovarianceMatrixBuffer::from(unsafe { g_P.as_mut_slice() }),
                DirectProcessNoiseCovarianceMatrixMutBuffer::from(unsafe { g_Q.as_mut_slice() }),
                PredictedStateEstimateVectorBuffer::from(unsafe { t_x.as_mut_slice() }),
                TemporaryStateMatrixBuffer::from(unsafe { t_P.as_mut_slice() }),
            );
            let mut o = RegularObservationBuilder::new::<$n, $m, $t>(
                ObservationMatrixMutBuffer::from(unsafe { g_H.as_mut_slice() }),
                MeasurementVectorBuffer::from(unsafe { g_z.as_mut_slice() }),
                MeasurementNoiseCovarianceMatrixBuffer::from(unsafe { g_R.as_mut_slice() }),
                InnovationVectorBuffer::from(unsafe { g_y.as_mut_slice() }),
                InnovationCovarianceMatrixBuffer::from(unsafe { g_S.as_mut_slice() }),
                KalmanGainMatrixBuffer::from(unsafe { g_K.as_mut_slice() }),
                TemporaryResidualCovarianceInvertedMatrixBuffer::from(unsafe { t_SI.as_mut_slice() }),
                TemporaryHPMatrixBuffer::from(unsafe { t_HP.as_mut_slice() }),
                TemporaryPHTMatrixBuffer::from(unsafe { t_PHT.as_mut_slice() }),
                TemporaryKHPMatrixBuffer::from(unsafe { t_KHP.as_mut_slice() }),
            );
            let mut k = ControlBuilder::new::<$n, $u, $t>(
                ControlMatrixMutBuffer::from(unsafe { g_B.as_mut_slice() }),
                ControlVectorBuffer::from(unsafe { g_u.as_mut_slice() }),
                ControlProcessNoiseCovarianceMatrixMutBuffer::from(unsafe { g_QC.as_mut_slice() }),
                TemporaryBQMatrixBuffer::from(unsafe { t_BQ.as_mut_slice() }),
            );
            let mut twin = rig::SliceRig::<$n, $u, $m, $t>::new();
            let r: &mut dyn Rig<$t> = &mut twin;
            for round in 0..$rounds {
                fill_all(c, r);
                settle(c, r);
                f.state_transition_mut().as_mut_slice().copy_from_slice(&r.get(Slot::A));
                f.state_vector_mut().as_mut_slice().copy_from_slice(&r.get(Slot::X));
                f.estimate_covariance_mut().as_mut_slice().copy_from_slice(&r.get(Slot::P));
                f.direct_process_noise_mut().as_mut_slice().copy_from_slice(&r.get(Slot::Q));
                k.control_matrix_mut().as_mut_slice().copy_from_slice(&r.get(Slot::B));
                k.control_vector_mut().as_mut_slice().copy_from_slice(&r.get(Slot::U));
                k.process_noise_covariance_mut().as_mut_slice().copy_from_slice(&r.get(Slot::QC));
                o.observation_matrix_mut().as_mut_slice().copy_from_slice(&r.get(Slot::H));
                o.measurement_vector_mut().as_mut_slice().copy_from_slice(&r.get(Slot::Z));
                o.measurement_noise_covariance_mut().as_mut_slice().copy_from_slice(&r.get(Slot::R));
                for step in 0..3 {
                    if !tame(r) {
                        break;
                    }
                    let what = c.rng.below(4);
                    let l = lambda::<$t>(&mut c.rng);
                    // A step whose intermediate results do not fit the number type panics with
                    // overflow checks: for both filters alike.
                    let a = guarded(|| match what {
                        0 => r.predict(),
                        1 => r.predict_tuned(l),
                        2 => r.control(),
                        _ => r.correct(),
                    });
                    let b = guarded(|| match what {
                        0 => f.predict(),
                        1 => f.predict_tuned(l),
                        2 => f.control(&mut k),
                        _ => f.correct(&mut o),
                    });
                    c.that(a.is_ok() == b.is_ok(), || format!("round {round}, step {step} ({what}): {a:?} by hand, {b:?} on macro-made buffers"))?;
                    if a.is_err() {
                        break;
                    }
                    c.count("steps of macro-made filters", 1);
                    c.exact(&format!("round {round}, step {step} ({what}): state of a filter on macro-made buffers"), f.state_vector().as_slice(), &r.get(Slot::X))?;
                    c.exact(&format!("round {round}, step {step} ({what}): covariance of a filter on macro-made buffers"), f.estimate_covariance().as_slice(), &r.get(Slot::P))?;
                }
            }
            Ok(())
        });
    };
}

/// Filters from the allocating builders: fresh contents, then missions next to a hand-wired twin.
#[cfg(feature = "alloc")]
fn built<T: Num>(rep: &mut Rep, pairs: &[(Make<T>, Make<T>)]) {
    let rounds = rep.r(6, 60);
    for ((w, n, u, m, mk), (_, _, _, _, hand)) in pairs {
        rep.case(&format!("fresh/{}/{w}/n{n}u{u}m{m}", T::NAME), |c| {
            c.nontrivial(true);
            c.tag(&format!("{w} {n} {u} {m}"));
            let r = mk();
            for s in ALL.iter().filter(|s| r.has(**s)) {
                let v = r.get(*s);
                c.that(v.len() == r.len(*s), || format!("{s:?} of a built filter has {} elements instead of {}", v.len(), r.len(*s)))?;
                c.exact(&format!("{s:?} of a freshly built filter"), &v, &vec![T::default(); v.len()])?;
            }
            Ok(())
        });
        for round in 0..rounds {
            rep.case(&format!("built/{}/{w}/n{n}u{u}m{m}#{round}", T::NAME), |c| {
                c.nontrivial(true);
                let mut a = mk();
                let mut b = hand();
                let kinds: Vec<&str> = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"].into_iter().filter(|k| can(&*a, k)).collect();
                let has: Vec<Slot> = ALL.iter().copied().filter(|s| a.has(*s)).collect();
                for leg in 0..4 {
                    if leg != 1 {
                        // The second leg continues with whatever the first has left behind.
                        fill_all(c, &mut *a);
                        settle(c, &mut *a);
                        for s in &has {
                            let v = a.get(*s);
                            b.put(*s, &v);
                        }
                    }
                    for step in 0..5 {
                        if !tame(&*a) {
                            break;
                        }
                        let kind = *c.rng.pick(&kinds);
                        if kind == "control" && *u == 0 {
                            continue;
                        }
                        let op = make_op_tame::<T>(&mut c.rng, kind, a.dims());
                        let ra = guarded(|| apply(&mut *a, &op));
                        let rb = guarded(|| apply(&mut *b, &op));
                        c.that(ra.is_ok() == rb.is_ok(), || format!("leg {leg}, step {step} ({kind}): {ra:?} as built, {rb:?} wired by hand"))?;
                        if ra.is_err() {
                            break;
                        }
                        c.count("steps of built filters", 1);
                        for s in &has {
                            c.exact(&format!("leg {leg}, step {step} ({kind}): {s:?} as built and wired by hand"), &a.get(*s), &b.get(*s))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
#[cfg(feature = "alloc")]
macro_rules! pairs {
    ($t:ty; $(($n:literal, $u:literal, $m:literal)),* $(,)?) => {{
        let mut v: Vec<(Make<$t>, Make<$t>)> = vec![];
        $(
            v.push((rig_owned!($t; ($n, $u, $m))[0], rig_slices!($t; ($n, $u, $m))[0]));
            v.push((rig_owned_ext!($t; ($n, $m))[0], rig_slices!($t; ($n, $u, $m))[0]));
        )*
        v
    }};
}

/// The builder objects themselves: every way of obtaining one builds the same thing, and the
/// built objects report the counts they were built for.
#[cfg(feature = "alloc")]
fn builder_objects<const NN: usize, const NU: usize, const NM: usize>(rep: &mut Rep) {
    use minikalman::extended::builder as eb;
    use minikalman::regular::builder as rb;
    rep.case(&format!("builder objects/n{NN}u{NU}m{NM}"), |c| {
        c.nontrivial(true);
        c.tag(&format!("{NN} {NU} {NM}"));
        let b = rb::KalmanFilterBuilder::<NN, f64>::default();
        for b in [b, rb::KalmanFilterBuilder::new(), b.clone()] {
            let f = b.build();
            c.that(f.states() == NN, || format!("a filter for {NN} states reports {}", f.states()))?;
            judge(c, "state_vector()", bits_of, &look(f.state_vector()), (NN, 1), 0.0)?;
            judge(c, "state_transition()", bits_of, &look(f.state_transition()), (NN, NN), 0.0)?;
            judge(c, "estimate_covariance()", bits_of, &look(f.estimate_covariance()), (NN, NN), 0.0)?;
            judge(c, "direct_process_noise()", bits_of, &look(f.direct_process_noise()), (NN, NN), 0.0)?;
            for cb in [b.controls(), rb::KalmanFilterControlBuilder::default(), rb::KalmanFilterControlBuilder::new()] {
                let k = cb.build::<NU>();
                c.that((k.states(), k.controls()) == (NN, NU), || format!("a control for {NN} states and {NU} controls reports {} and {}", k.states(), k.controls()))?;
                judge(c, "control_vector()", bits_of, &look(k.control_vector()), (NU, 1), 0.0)?;
                judge(c, "control_matrix()", bits_of, &look(k.control_matrix()), (NN, NU), 0.0)?;
                judge(c, "process_noise_covariance()", bits_of, &look(k.process_noise_covariance()), (NU, NU), 0.0)?;
            }
            for ob in [b.observations(), rb::KalmanFilterObservationBuilder::default(), rb::KalmanFilterObservationBuilder::new()] {
                let o = ob.build::<NM>();
                c.that((o.states(), o.measurements()) == (NN, NM), || format!("an observation for {NN} states and {NM} measurements reports {} and {}", o.states(), o.measurements()))?;
                judge(c, "measurement_vector()", bits_of, &look(o.measurement_vector()), (NM, 1), 0.0)?;
                judge(c, "observation_matrix()", bits_of, &look(o.observation_matrix()), (NM, NN), 0.0)?;
                judge(c, "measurement_noise_covariance()", bits_of, &look(o.measurement_noise_covariance()), (NM, NM), 0.0)?;
            }
        }
        let b = eb::KalmanFilterBuilder::<NN, f64>::default();
        for b in [b, eb::KalmanFilterBuilder::new(), b.clone()] {
            let f = b.build();
            c.that(f.states() == NN, || format!("an extended filter for {NN} states reports {}", f.states()))?;
            judge(c, "extended state_vector()", bits_of, &look(f.state_vector()), (NN, 1), 0.0)?;
            judge(c, "extended state_transition()", bits_of, &look(f.state_transition_jacobian()), (NN, NN), 0.0)?;
            judge(c, "extended estimate_covariance()", bits_of, &look(f.estimate_covariance()), (NN, NN), 0.0)?;
            judge(c, "extended direct_process_noise()", bits_of, &look(f.direct_process_noise()), (NN, NN), 0.0)?;
            for ob in [b.observations(), eb::KalmanFilterObservationBuilder::default(), eb::KalmanFilterObservationBuilder::new()] {
                let o = ob.build::<NM>();
                c.that((o.states(), o.measurements()) == (NN, NM), || format!("an extended observation for {NN} states and {NM} measurements reports {} and {}", o.states(), o.measurements()))?;
                judge(c, "extended measurement_vector()", bits_of, &look(o.measurement_vector()), (NM, 1), 0.0)?;
                judge(c, "extended observation_matrix()", bits_of, &look(o.observation_jacobian_matrix()), (NM, NN), 0.0)?;
                judge(c, "extended measurement_noise_covariance()", bits_of, &look(o.measurement_noise_covariance()), (NM, NM), 0.0)?;
            }
        }
        Ok(())
    });
}

fn main() {
    let mut rep = Rep::new("C20", "builders and macros: documented shapes, exact contents, filters equal to hand-wired ones");
    let rep = &mut rep;
    const THREE: usize = 3;
    const TWO: usize = THREE - 1;
    const FOUR: usize = 4;
    macro_rules! every_size {
        ($(($n:expr, $u:expr, $m:expr)),* $(,)?) => { $( sizes_at!(rep, $n, $u, $m); )* };
    }
    every_size!((1, 1, 1), (2, 3, 5), (3, 5, 2), (5, 2, 3), (THREE, TWO, 7), (TWO + 7, THREE * 2, 1 + 1), (1, 9, 4), (16, 1, 3), (100, 33, 7));
    macro_rules! macros_for {
        ($t:ty, $init:expr; $(($n:expr, $u:expr, $m:expr)),* $(,)?) => { $( macros_at!(rep, $t, $init, $n, $u, $m); )* };
    }
    macros_for!(f64, 1.5; (1, 1, 1), (2, 3, 5), (5, 2, 3), (3, 5, 2));
    macros_for!(f32, -0.0; (4, 1, 2));
    #[cfg(not(feature = "lite"))]
    {
        macros_for!(f64, f64::NAN; (THREE, TWO, FOUR));
        macros_for!(f32, 7.25e-3; (3, 2, 1), (2, 1, 3), (1, 3, 2), (1, 4, 6));
        macros_for!(f64, -2.0e9; (6, 4, 9));
        macros_for!(f64, 0.0; (16, 2, 5));
    }
    #[cfg(feature = "fixed")]
    {
        macros_for!(I16F16, I16F16::from_bits(0x0001_8000); (3, 2, 4));
        macros_for!(I32F32, I32F32::from_bits(-77); (2, 4, 3));
    }
    let n = rep.r(20, 400);
    static_filter!(rep, f64, 0.0, 3, 2, 4, n);
    static_filter!(rep, f64, 0.0, 2, 3, 1, n);
    static_filter!(rep, f64, 0.0, 5, 1, 3, n);
    static_filter!(rep, f32, 0.0, 4, 3, 2, n);
    static_filter!(rep, f32, 0.0, 1, 2, 3, n);
    #[cfg(feature = "fixed")]
    {
        static_filter!(rep, I16F16, I16F16::ZERO, 3, 2, 1, n);
        static_filter!(rep, I32F32, I32F32::ZERO, 2, 1, 3, n);
    }
    #[cfg(feature = "alloc")]
    {
        all_builders::<f64>(rep);
        all_builders::<f32>(rep);
        #[cfg(feature = "fixed")]
        all_builders::<I16F16>(rep);
        #[cfg(feature = "fixed")]
        all_builders::<I32F32>(rep);
        builder_objects::<1, 1, 1>(rep);
        builder_objects::<2, 3, 5>(rep);
        builder_objects::<5, 2, 3>(rep);
        builder_objects::<3, 5, 2>(rep);
        builder_objects::<4, 1, 2>(rep);
        built::<f64>(rep, &pairs!(f64; (1, 1, 1), (1, 2, 3), (2, 3, 1), (3, 1, 2), (2, 4, 2), (4, 2, 3)));
        built::<f32>(rep, &pairs!(f32; (1, 3, 2), (2, 1, 3), (3, 2, 1)));
        #[cfg(not(feature = "lite"))]
        {
            built::<f64>(rep, &pairs!(f64; (5, 5, 5), (6, 1, 4), (3, 6, 7), (9, 2, 2), (2, 9, 9)));
            built::<f32>(rep, &pairs!(f32; (4, 4, 4), (5, 2, 6), (8, 3, 1)));
        }
        #[cfg(feature = "fixed")]
        {
            built::<I16F16>(rep, &pairs!(I16F16; (2, 1, 1), (3, 2, 4), (1, 3, 2)));
            built::<I32F32>(rep, &pairs!(I32F32; (2, 3, 1), (3, 1, 2)));
        }
    }
    let rep = std::mem::replace(rep, Rep::new("C20", ""));
    rep.finish();
}
