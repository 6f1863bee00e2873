//! C27: working memory may share its storage where the library documents that it may. The filter
//! objects work on user-supplied buffers that are windows into one arena, laid out in every
//! documented way, and must do exactly what a filter with separate memory does.
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mission::*;
use kfmon::rig::*;
use kfmon::*;
use minikalman::extended::{ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::matrix::{AsMatrix, AsMatrixMut, Matrix, MatrixMut, RowMajorSequentialData, RowMajorSequentialDataMut};
use minikalman::prelude::*;
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};
use std::ops::{Index, IndexMut};

/// A window of R x C elements into memory owned by somebody else. References are made only for
/// as long as the library asks for them, so that windows may overlap.
struct Win<const RW: usize, const CL: usize, T> {
    at: *mut T,
}

impl<const RW: usize, const CL: usize, T> RowMajorSequentialData<RW, CL, T> for Win<RW, CL, T> {
    fn as_slice(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.at, RW * CL) }
    }
}
impl<const RW: usize, const CL: usize, T> RowMajorSequentialDataMut<RW, CL, T> for Win<RW, CL, T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.at, RW * CL) }
    }
}
impl<const RW: usize, const CL: usize, T> Index<usize> for Win<RW, CL, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &RowMajorSequentialData::as_slice(self)[i]
    }
}
impl<const RW: usize, const CL: usize, T> IndexMut<usize> for Win<RW, CL, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut RowMajorSequentialDataMut::as_mut_slice(self)[i]
    }
}
impl<const RW: usize, const CL: usize, T> Matrix<RW, CL, T> for Win<RW, CL, T> {}
impl<const RW: usize, const CL: usize, T> MatrixMut<RW, CL, T> for Win<RW, CL, T> {}
impl<const RW: usize, T> AsMatrix<RW, 1, T> for Win<RW, 1, T> {
    type Target = Self;
    fn as_matrix(&self) -> &Self {
        self
    }
}
impl<const RW: usize, T> AsMatrixMut<RW, 1, T> for Win<RW, 1, T> {
    type TargetMut = Self;
    fn as_matrix_mut(&mut self) -> &mut Self {
        self
    }
}
impl<const RW: usize, T> StateVector<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> StateVectorMut<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> PredictedStateEstimateVector<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> ControlVector<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> ControlVectorMut<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> MeasurementVector<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> MeasurementVectorMut<RW, T> for Win<RW, 1, T> {}
impl<const RW: usize, T> InnovationVector<RW, T> for Win<RW, 1, T> {}

macro_rules! role {
    ($tr:ident, $($p:ident),+; $r:ident, $c:ident) => {
        impl<$(const $p: usize,)+ T> $tr<$($p,)+ T> for Win<$r, $c, T> {
            type Target = Self;
            type TargetMut = Self;
            fn as_matrix(&self) -> &Self { self }
            fn as_matrix_mut(&mut self) -> &mut Self { self }
        }
    };
    (read $tr:ident, $($p:ident),+; $r:ident, $c:ident) => {
        impl<$(const $p: usize,)+ T> $tr<$($p,)+ T> for Win<$r, $c, T> {
            type Target = Self;
            fn as_matrix(&self) -> &Self { self }
        }
    };
    (write $tr:ident, $($p:ident),+; $r:ident, $c:ident) => {
        impl<$(const $p: usize,)+ T> $tr<$($p,)+ T> for Win<$r, $c, T> {
            type TargetMut = Self;
            fn as_matrix_mut(&mut self) -> &mut Self { self }
        }
    };
}
role!(read StateTransitionMatrix, NX; NX, NX);
role!(write StateTransitionMatrixMut, NX; NX, NX);
role!(EstimateCovarianceMatrix, NX; NX, NX);
role!(read DirectProcessNoiseCovarianceMatrix, NX; NX, NX);
role!(TemporaryStateMatrix, NX; NX, NX);
role!(read ControlMatrix, NX, UX; NX, UX);
role!(read ControlProcessNoiseCovarianceMatrix, NX; NX, NX);
role!(TemporaryBQMatrix, NX, UX; NX, UX);
role!(read ObservationMatrix, MX, NX; MX, NX);
role!(write ObservationMatrixMut, MX, NX; MX, NX);
role!(MeasurementNoiseCovarianceMatrix, NX; NX, NX);
role!(InnovationCovarianceMatrix, NX; NX, NX);
role!(KalmanGainMatrix, NX, MX; NX, MX);
role!(TemporaryResidualCovarianceInvertedMatrix, NX; NX, NX);
role!(TemporaryHPMatrix, MX, NX; MX, NX);
role!(TemporaryPHTMatrix, NX, MX; NX, MX);
role!(TemporaryKHPMatrix, NX; NX, NX);

/// The documented ways to share. Each pair: (who, with whom).
const LAYOUTS: [(&str, &[(Slot, Slot)]); 10] = [
    ("separate", &[]),
    ("SI=KHP", &[(SI, KHP)]),
    ("SI=HP", &[(SI, HP)]),
    ("HP=PHT", &[(HP, PHT)]),
    ("PHT=KHP", &[(PHT, KHP)]),
    ("SI=KHP,HP=PHT", &[(SI, KHP), (HP, PHT)]),
    ("SI=HP,PHT=KHP", &[(SI, HP), (PHT, KHP)]),
    ("TP=BQ", &[(TP, BQ)]),
    ("TP=BQ,SI=KHP,HP=PHT", &[(TP, BQ), (SI, KHP), (HP, PHT)]),
    ("TP=BQ,SI=HP,PHT=KHP", &[(TP, BQ), (SI, HP), (PHT, KHP)]),
];

type Filter<const NX: usize, T> =
    minikalman::regular::RegularKalman<NX, T, Win<NX, NX, T>, Win<NX, 1, T>, Win<NX, NX, T>, Win<NX, NX, T>, Win<NX, 1, T>, Win<NX, NX, T>>;
type ExtFilter<const NX: usize, T> =
    minikalman::extended::ExtendedKalman<NX, T, Win<NX, NX, T>, Win<NX, 1, T>, Win<NX, NX, T>, Win<NX, NX, T>, Win<NX, 1, T>, Win<NX, NX, T>>;
type Ctl<const NX: usize, const UX: usize, T> =
    minikalman::regular::Control<NX, UX, T, Win<NX, UX, T>, Win<UX, 1, T>, Win<UX, UX, T>, Win<NX, UX, T>>;
type Obs<const NX: usize, const MX: usize, T> = minikalman::regular::RegularObservation<
    NX, MX, T, Win<MX, NX, T>, Win<MX, 1, T>, Win<MX, MX, T>, Win<MX, 1, T>, Win<MX, MX, T>, Win<NX, MX, T>, Win<MX, MX, T>, Win<MX, NX, T>, Win<NX, MX, T>, Win<NX, NX, T>,
>;
type ExtObs<const NX: usize, const MX: usize, T> = minikalman::extended::ExtendedObservation<
    NX, MX, T, Win<MX, NX, T>, Win<MX, 1, T>, Win<MX, MX, T>, Win<MX, 1, T>, Win<MX, MX, T>, Win<NX, MX, T>, Win<MX, MX, T>, Win<MX, NX, T>, Win<NX, MX, T>, Win<NX, NX, T>,
>;

/// Long-lived filters of both kinds, a control and measurements over one arena.
struct Arena<const NS: usize, const NU: usize, const NM: usize, T: Num> {
    base: *mut T,
    size: usize,
    at: [usize; 20],
    f: Filter<NS, T>,
    e: ExtFilter<NS, T>,
    c: Ctl<NS, NU, T>,
    o: Obs<NS, NM, T>,
    oe: ExtObs<NS, NM, T>,
}

unsafe impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Send for Arena<NS, NU, NM, T> {}

impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Arena<NS, NU, NM, T> {
    /// `shift`: by how much the second of a sharing pair starts later than the first (partial
    /// overlap); `usize::MAX`: both end at the same place.
    fn new(layout: usize, shift: usize) -> Self {
        let len = |s: Slot| {
            let (r, c) = shape(s, NS, NU, NM);
            r * c
        };
        let mut at = [usize::MAX; 20];
        let mut next = 0;
        for (a, b) in LAYOUTS[layout].1 {
            let (la, lb) = (len(*a), len(*b));
            let (oa, ob) = match shift {
                usize::MAX if la >= lb => (0, la - lb),
                usize::MAX => (lb - la, 0),
                k => (0, k.min(la.saturating_sub(1))),
            };
            at[*a as usize] = next + oa;
            at[*b as usize] = next + ob;
            next += (oa + la).max(ob + lb);
        }
        for s in ALL {
            if at[s as usize] == usize::MAX {
                at[s as usize] = next;
                next += len(s);
            }
        }
        let size = next + 1;
        let base = Box::into_raw(vec![T::default(); size].into_boxed_slice()) as *mut T;
        macro_rules! w {
            ($s:ident) => {
                Win { at: unsafe { base.add(at[$s as usize]) } }
            };
        }
        Arena {
            base,
            size,
            at,
            f: RegularKalmanBuilder::new::<NS, T>(w!(A), w!(X), w!(P), w!(Q), w!(PX), w!(TP)),
            e: ExtendedKalmanBuilder::new::<NS, T>(w!(A), w!(X), w!(P), w!(Q), w!(PX), w!(TP)),
            c: ControlBuilder::new::<NS, NU, T>(w!(B), w!(U), w!(QC), w!(BQ)),
            o: RegularObservationBuilder::new::<NS, NM, T>(w!(H), w!(Z), w!(R), w!(Y), w!(S), w!(K), w!(SI), w!(HP), w!(PHT), w!(KHP)),
            oe: ExtendedObservationBuilder::new::<NS, NM, T>(w!(H), w!(Z), w!(R), w!(Y), w!(S), w!(K), w!(SI), w!(HP), w!(PHT), w!(KHP)),
        }
    }
}

impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Drop for Arena<NS, NU, NM, T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.base, self.size)) });
    }
}

impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Rig<T> for Arena<NS, NU, NM, T> {
    fn name(&self) -> &'static str {
        "arena"
    }
    fn dims(&self) -> (usize, usize, usize) {
        (NS, NU, NM)
    }
    fn get(&self, s: Slot) -> Vec<T> {
        (0..self.len(s)).map(|i| unsafe { self.base.add(self.at[s as usize] + i).read() }).collect()
    }
    fn put(&mut self, s: Slot, v: &[T]) {
        assert_eq!(v.len(), self.len(s));
        for (i, x) in v.iter().enumerate() {
            unsafe { self.base.add(self.at[s as usize] + i).write(*x) }
        }
    }
    fn has(&self, _s: Slot) -> bool {
        true
    }
    fn linear(&self) -> bool {
        true
    }
    fn nonlinear(&self) -> bool {
        true
    }
    fn predict(&mut self) {
        self.f.predict();
    }
    fn predict_tuned(&mut self, l: T) {
        self.f.predict_tuned(l);
    }
    fn control(&mut self) {
        self.f.control(&mut self.c);
    }
    fn correct(&mut self) {
        self.f.correct(&mut self.o);
    }
    fn predict_nl(&mut self, g: NlFn<T>) {
        self.e.predict_nonlinear(|x, nx| g(RowMajorSequentialData::as_slice(x), RowMajorSequentialDataMut::as_mut_slice(nx)));
    }
    fn predict_tuned_nl(&mut self, l: T, g: NlFn<T>) {
        self.e.predict_tuned_nonlinear(l, |x, nx| g(RowMajorSequentialData::as_slice(x), RowMajorSequentialDataMut::as_mut_slice(nx)));
    }
    fn correct_nl(&mut self, g: NlFn<T>) {
        self.e.correct_nonlinear(&mut self.oe, |x, hx| g(RowMajorSequentialData::as_slice(x), RowMajorSequentialDataMut::as_mut_slice(hx)));
    }
}

type Pair<T> = (usize, usize, usize, fn(usize, usize) -> Box<dyn Rig<T>>, fn() -> Box<dyn Rig<T>>);

macro_rules! pairs {
    ($t:ty; $(($n:literal, $u:literal, $m:literal)),* $(,)?) => {{
        let v: Vec<Pair<$t>> = vec![$((
            $n, $u, $m,
            |l, s| Box::new(Arena::<$n, $u, $m, $t>::new(l, s)),
            || Box::new(SliceRig::<$n, $u, $m, $t>::new()),
        )),*];
        v
    }};
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

/// Wrecks the working memory, whoever shares it.
fn poison<T: Num>(c: &mut Case, r: &mut dyn Rig<T>) {
    for s in SCRATCH {
        let n = r.len(s);
        let k = c.rng.below(7);
        let v: Vec<T> = (0..n).map(|i| if k == 6 { T::of(1.5) } else { T::poison(k + i % 2) }).collect();
        r.put(s, &v);
    }
}

fn feed<T: Num>(from: &dyn Rig<T>, to: &mut dyn Rig<T>) {
    for s in PARAMS.into_iter().chain([X, P]) {
        if from.len(s) > 0 {
            to.put(s, &from.get(s));
        }
    }
}

fn alike<T: Num>(c: &mut Case, what: &str, own: &dyn Rig<T>, shared: &dyn Rig<T>) -> Chk {
    c.exact(&format!("{what}: state with shared working memory"), &shared.get(X), &own.get(X))?;
    c.exact(&format!("{what}: covariance with shared working memory"), &shared.get(P), &own.get(P))?;
    for s in PARAMS {
        c.exact(&format!("{what}: parameter {s:?} with shared working memory"), &shared.get(s), &own.get(s))?;
    }
    Ok(())
}

fn allowed<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Result<bool, String> {
    if !T::FIXED {
        apply(r, op);
        return Ok(true);
    }
    Ok(unjudged(c, r, op)? == Judged::Checked)
}

/// Does this step use the memory this layout shares?
fn concerned(layout: usize, kind: &str) -> bool {
    LAYOUTS[layout].1.iter().any(|(a, _)| match a {
        TP => !kind.starts_with("correct"),
        _ => kind.starts_with("correct"),
    })
}

fn run<T: Num>(rep: &mut Rep, pairs: &[Pair<T>]) {
    let (rounds, steps) = (rep.r(32, 200), rep.n(600, 6000));
    for (n, u, m, mk, own) in pairs {
        for (l, (name, _)) in LAYOUTS.iter().enumerate() {
            let base = format!("{}/n{n}u{u}m{m}/{name}", T::NAME);
            let shift = |round: usize| match round % 4 {
                0 | 1 => 0,
                2 => 1 + round / 4,
                _ => usize::MAX,
            };
            for kind in KINDS.into_iter().filter(|k| can(&*own(), k)) {
                if l > 0 && !concerned(l, kind) {
                    continue;
                }
                for round in 0..rounds {
                    rep.case(&format!("{base}/{kind}#{round}"), |c| {
                        let (mut a, mut b) = (own(), mk(l, shift(round)));
                        fill_all(c, &mut *a);
                        poison(c, &mut *a);
                        poison(c, &mut *b);
                        feed(&*a, &mut *b);
                        let op = make_op::<T>(&mut c.rng, kind, a.dims());
                        if !allowed(c, &mut *a, &op)? {
                            return Ok(());
                        }
                        apply(&mut *b, &op);
                        alike(c, kind, &*a, &*b)?;
                        c.count(if l > 0 { "steps with shared memory" } else { "steps on user-supplied buffers" }, 1);
                        c.nontrivial(true);
                        c.sample(|| format!("x = {:?}", b.get(X)));
                        Ok(())
                    });
                }
            }
            for round in 0..rep.r(4, 12) {
                rep.case(&format!("{base}/mission#{round}"), |c| {
                    let (mut a, mut b) = (own(), mk(l, shift(round * 2)));
                    fill_all(c, &mut *a);
                    settle(c, &mut *a);
                    feed(&*a, &mut *b);
                    for k in 0..steps {
                        if !tame(&*a) || k % 40 == 39 {
                            fill_all(c, &mut *a);
                            settle(c, &mut *a);
                            feed(&*a, &mut *b);
                        } else if k % 3 == 0 {
                            // a new measurement and input, handed to both
                            for s in [Z, U] {
                                if a.len(s) > 0 {
                                    fill(c, &mut *a, s);
                                    b.put(s, &a.get(s));
                                }
                            }
                        }
                        let kind = *c.rng.pick(&KINDS);
                        let op = make_op::<T>(&mut c.rng, kind, a.dims());
                        if !allowed(c, &mut *a, &op)? {
                            settle(c, &mut *a);
                            feed(&*a, &mut *b);
                            continue;
                        }
                        apply(&mut *b, &op);
                        alike(c, &format!("step {k} ({kind})"), &*a, &*b)?;
                        c.count("mission steps with shared memory", 1);
                        c.nontrivial(true);
                    }
                    Ok(())
                });
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C27",
        "A case is one step or one mission of a pair of filters, one with separate working memory and one over shared memory in \
         one documented layout; non-trivial when performed; distinct by all inputs.",
    );
    #[cfg(not(feature = "lite"))]
    {
        run::<f64>(&mut rep, &pairs!(f64; (1,1,1),(2,1,1),(2,2,3),(1,2,4),(3,2,3),(3,0,2),(3,4,5),(4,2,1),(4,3,2),(5,5,5),(4,6,7),(6,3,4),(9,2,3),(8,8,8)));
        run::<f32>(&mut rep, &pairs!(f32; (1,2,1),(2,1,2),(3,2,5),(4,1,3),(5,4,2),(6,6,6)));
    }
    #[cfg(feature = "lite")]
    {
        run::<f64>(&mut rep, &pairs!(f64; (2,1,1),(2,3,4),(5,2,3)));
        run::<f32>(&mut rep, &pairs!(f32; (3,2,2)));
    }
    #[cfg(feature = "fixed")]
    {
        run::<fixed::types::I16F16>(&mut rep, &pairs!(fixed::types::I16F16; (2,1,3),(3,2,2)));
        run::<fixed::types::I32F32>(&mut rep, &pairs!(fixed::types::I32F32; (3,1,1),(2,3,4)));
    }
    rep.finish()
}
