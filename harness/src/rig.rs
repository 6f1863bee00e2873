//! Dimension-erased rigs that drive the real filters. A monitor is written once against
//! `dyn Rig<T>`; every shape, storage and filter kind is a separate monomorphisation below.

use crate::num::Num;
use minikalman::buffers::types::*;
use minikalman::extended::{ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::matrix::{RowMajorSequentialData, RowMajorSequentialDataMut};
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Slot {
    A,
    X,
    P,
    Q,
    PX,
    TP,
    B,
    U,
    QC,
    BQ,
    H,
    Z,
    R,
    Y,
    S,
    K,
    SI,
    HP,
    PHT,
    KHP,
}
pub use Slot::*;

pub const PARAMS: [Slot; 8] = [A, Q, B, U, QC, H, Z, R];
pub const SCRATCH: [Slot; 10] = [PX, TP, BQ, Y, S, K, SI, HP, PHT, KHP];
pub const ALL: [Slot; 20] = [
    A, X, P, Q, PX, TP, B, U, QC, BQ, H, Z, R, Y, S, K, SI, HP, PHT, KHP,
];

/// (rows, columns) of a role for n states, u controls, m measurements.
pub fn shape(s: Slot, n: usize, u: usize, m: usize) -> (usize, usize) {
    match s {
        A | P | Q | TP | KHP => (n, n),
        X | PX => (n, 1),
        B | BQ => (n, u),
        U => (u, 1),
        QC => (u, u),
        H | HP => (m, n),
        Z | Y => (m, 1),
        R | S | SI => (m, m),
        K | PHT => (n, m),
    }
}

pub type NlFn<'f, T> = &'f mut dyn FnMut(&[T], &mut [T]);

pub trait Rig<T: Num>: Send {
    fn name(&self) -> &'static str;
    fn dims(&self) -> (usize, usize, usize);
    fn get(&self, s: Slot) -> Vec<T>;
    fn put(&mut self, s: Slot, v: &[T]);
    /// Whether this slot can be read and written from outside.
    fn has(&self, s: Slot) -> bool;
    fn linear(&self) -> bool;
    fn nonlinear(&self) -> bool;
    fn predict(&mut self);
    fn predict_tuned(&mut self, l: T);
    fn control(&mut self);
    fn correct(&mut self);
    fn predict_nl(&mut self, f: NlFn<T>);
    fn predict_tuned_nl(&mut self, l: T, f: NlFn<T>);
    fn correct_nl(&mut self, f: NlFn<T>);
    fn len(&self, s: Slot) -> usize {
        let (n, u, m) = self.dims();
        let (r, c) = shape(s, n, u, m);
        r * c
    }
}

// ------------------------------------------------------------------------------------------

/// Hand-wired filter over caller-owned slices, wired anew for every step, so that every
/// buffer (also the working memory) is visible between steps. Both filter kinds.
pub struct SliceRig<const NS: usize, const NU: usize, const NM: usize, T> {
    pub d: Vec<Vec<T>>,
    /// Surplus elements at the end of every buffer that allows them.
    pub pad: usize,
}

impl<const NS: usize, const NU: usize, const NM: usize, T: Num> SliceRig<NS, NU, NM, T> {
    pub fn new() -> Self {
        Self::padded(0)
    }
    pub fn padded(pad: usize) -> Self {
        let d = ALL
            .iter()
            .map(|s| {
                let (r, c) = shape(*s, NS, NU, NM);
                vec![T::default(); r * c + pad]
            })
            .collect();
        SliceRig { d, pad }
    }
}

/// The elements of the vector itself, without the surplus of an oversized buffer.
fn cut<T>(v: &[T], n: usize, pad: usize) -> &[T] {
    if pad > 0 && v.len() > n {
        &v[..n]
    } else {
        v
    }
}
fn cut_mut<T>(v: &mut [T], n: usize, pad: usize) -> &mut [T] {
    if pad > 0 && v.len() > n {
        &mut v[..n]
    } else {
        v
    }
}

macro_rules! split {
    ($self:ident; $($v:ident = $s:ident),* $(,)?) => {
        // no heap memory here: C25 counts allocations around whole steps
        let mut all: [Option<&mut [T]>; 20] = Default::default();
        for (o, v) in all.iter_mut().zip($self.d.iter_mut()) {
            *o = Some(v.as_mut_slice());
        }
        $( let $v = all[$s as usize].take().unwrap(); )*
    };
}

macro_rules! wire_reg {
    ($a:ident, $x:ident, $p:ident, $q:ident, $px:ident, $tp:ident) => {
        RegularKalmanBuilder::new::<NS, T>(
            StateTransitionMatrixMutBuffer::from($a),
            StateVectorBuffer::from($x),
            EstimateCovarianceMatrixBuffer::from($p),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from($q),
            PredictedStateEstimateVectorBuffer::from($px),
            TemporaryStateMatrixBuffer::from($tp),
        )
    };
}
macro_rules! wire_ext {
    ($a:ident, $x:ident, $p:ident, $q:ident, $px:ident, $tp:ident) => {
        ExtendedKalmanBuilder::new::<NS, T>(
            StateTransitionMatrixMutBuffer::from($a),
            StateVectorBuffer::from($x),
            EstimateCovarianceMatrixBuffer::from($p),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from($q),
            PredictedStateEstimateVectorBuffer::from($px),
            TemporaryStateMatrixBuffer::from($tp),
        )
    };
}
macro_rules! wire_obs {
    ($b:ident; $h:ident, $z:ident, $r:ident, $y:ident, $s:ident, $k:ident, $si:ident, $hp:ident, $pht:ident, $khp:ident) => {
        $b::new::<NS, NM, T>(
            ObservationMatrixMutBuffer::from($h),
            MeasurementVectorBuffer::from($z),
            MeasurementNoiseCovarianceMatrixBuffer::from($r),
            InnovationVectorBuffer::from($y),
            InnovationCovarianceMatrixBuffer::from($s),
            KalmanGainMatrixBuffer::from($k),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from($si),
            TemporaryHPMatrixBuffer::from($hp),
            TemporaryPHTMatrixBuffer::from($pht),
            TemporaryKHPMatrixBuffer::from($khp),
        )
    };
}

impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Rig<T> for SliceRig<NS, NU, NM, T> {
    fn name(&self) -> &'static str {
        "slices"
    }
    fn dims(&self) -> (usize, usize, usize) {
        (NS, NU, NM)
    }
    fn get(&self, s: Slot) -> Vec<T> {
        self.d[s as usize][..self.len(s)].to_vec()
    }
    fn put(&mut self, s: Slot, v: &[T]) {
        let n = self.len(s);
        self.d[s as usize][..n].copy_from_slice(v);
    }
    fn has(&self, _s: Slot) -> bool {
        true
    }
    fn linear(&self) -> bool {
        true
    }
    fn nonlinear(&self) -> bool {
        true
    }
    fn predict(&mut self) {
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP);
        wire_reg!(a, x, p, q, px, tp).predict();
    }
    fn predict_tuned(&mut self, l: T) {
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP);
        wire_reg!(a, x, p, q, px, tp).predict_tuned(l);
    }
    fn control(&mut self) {
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP, b = B, u = U, qc = QC, bq = BQ);
        let mut f = wire_reg!(a, x, p, q, px, tp);
        let mut c = ControlBuilder::new::<NS, NU, T>(
            ControlMatrixMutBuffer::from(b),
            ControlVectorBuffer::from(u),
            ControlProcessNoiseCovarianceMatrixMutBuffer::from(qc),
            TemporaryBQMatrixBuffer::from(bq),
        );
        f.control(&mut c);
    }
    fn correct(&mut self) {
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP, h = H, z = Z, r = R, y = Y,
            s = S, k = K, si = SI, hp = HP, pht = PHT, khp = KHP);
        let mut f = wire_reg!(a, x, p, q, px, tp);
        let mut o = wire_obs!(RegularObservationBuilder; h, z, r, y, s, k, si, hp, pht, khp);
        f.correct(&mut o);
    }
    fn predict_nl(&mut self, g: NlFn<T>) {
        let pad = self.pad;
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP);
        wire_ext!(a, x, p, q, px, tp)
            .predict_nonlinear(|x, nx| g(cut(x.as_slice(), NS, pad), cut_mut(nx.as_mut_slice(), NS, pad)));
    }
    fn predict_tuned_nl(&mut self, l: T, g: NlFn<T>) {
        let pad = self.pad;
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP);
        wire_ext!(a, x, p, q, px, tp)
            .predict_tuned_nonlinear(l, |x, nx| g(cut(x.as_slice(), NS, pad), cut_mut(nx.as_mut_slice(), NS, pad)));
    }
    fn correct_nl(&mut self, g: NlFn<T>) {
        let pad = self.pad;
        split!(self; a = A, x = X, p = P, q = Q, px = PX, tp = TP, h = H, z = Z, r = R, y = Y,
            s = S, k = K, si = SI, hp = HP, pht = PHT, khp = KHP);
        let mut f = wire_ext!(a, x, p, q, px, tp);
        let mut o = wire_obs!(ExtendedObservationBuilder; h, z, r, y, s, k, si, hp, pht, khp);
        f.correct_nonlinear(&mut o, |x, hx| g(cut(x.as_slice(), NS, pad), cut_mut(hx.as_mut_slice(), NM, pad)));
    }
}

// ------------------------------------------------------------------------------------------

#[cfg(feature = "alloc")]
pub mod owned {
    use super::*;
    use minikalman::extended::builder as eb;
    use minikalman::regular::builder as rb;

    /// One long-lived linear filter with one control and one measurement, from the builders.
    pub struct RegRig<const NS: usize, const NU: usize, const NM: usize, T: Num> {
        pub f: rb::KalmanFilterType<NS, T>,
        pub c: rb::KalmanFilterControlType<NS, NU, T>,
        pub o: rb::KalmanFilterObservationType<NS, NM, T>,
    }
    impl<const NS: usize, const NU: usize, const NM: usize, T: Num> RegRig<NS, NU, NM, T> {
        pub fn new() -> Self {
            let b = rb::KalmanFilterBuilder::<NS, T>::default();
            RegRig {
                f: b.build(),
                c: b.controls().build::<NU>(),
                o: b.observations().build::<NM>(),
            }
        }
    }
    impl<const NS: usize, const NU: usize, const NM: usize, T: Num> Rig<T> for RegRig<NS, NU, NM, T> {
        fn name(&self) -> &'static str {
            "owned"
        }
        fn dims(&self) -> (usize, usize, usize) {
            (NS, NU, NM)
        }
        fn get(&self, s: Slot) -> Vec<T> {
            match s {
                A => self.f.state_transition().as_slice().to_vec(),
                X => self.f.state_vector().as_slice().to_vec(),
                P => self.f.estimate_covariance().as_slice().to_vec(),
                Q => self.f.direct_process_noise().as_slice().to_vec(),
                B => self.c.control_matrix().as_slice().to_vec(),
                U => self.c.control_vector().as_slice().to_vec(),
                QC => self.c.process_noise_covariance().as_slice().to_vec(),
                H => self.o.observation_matrix().as_slice().to_vec(),
                Z => self.o.measurement_vector().as_slice().to_vec(),
                R => self.o.measurement_noise_covariance().as_slice().to_vec(),
                _ => panic!("not visible"),
            }
        }
        fn put(&mut self, s: Slot, v: &[T]) {
            match s {
                A => self.f.state_transition_mut().as_mut_slice().copy_from_slice(v),
                X => self.f.state_vector_mut().as_mut_slice().copy_from_slice(v),
                P => self.f.estimate_covariance_mut().as_mut_slice().copy_from_slice(v),
                Q => self.f.direct_process_noise_mut().as_mut_slice().copy_from_slice(v),
                B => self.c.control_matrix_mut().as_mut_slice().copy_from_slice(v),
                U => self.c.control_vector_mut().as_mut_slice().copy_from_slice(v),
                QC => self.c.process_noise_covariance_mut().as_mut_slice().copy_from_slice(v),
                H => self.o.observation_matrix_mut().as_mut_slice().copy_from_slice(v),
                Z => self.o.measurement_vector_mut().as_mut_slice().copy_from_slice(v),
                R => self
                    .o
                    .measurement_noise_covariance_mut()
                    .as_mut_slice()
                    .copy_from_slice(v),
                _ => panic!("not visible"),
            }
        }
        fn has(&self, s: Slot) -> bool {
            !SCRATCH.contains(&s)
        }
        fn linear(&self) -> bool {
            true
        }
        fn nonlinear(&self) -> bool {
            false
        }
        fn predict(&mut self) {
            self.f.predict()
        }
        fn predict_tuned(&mut self, l: T) {
            self.f.predict_tuned(l)
        }
        fn control(&mut self) {
            self.f.control(&mut self.c)
        }
        fn correct(&mut self) {
            self.f.correct(&mut self.o)
        }
        fn predict_nl(&mut self, _: NlFn<T>) {
            unreachable!()
        }
        fn predict_tuned_nl(&mut self, _: T, _: NlFn<T>) {
            unreachable!()
        }
        fn correct_nl(&mut self, _: NlFn<T>) {
            unreachable!()
        }
    }

    /// One long-lived extended filter with one measurement, from the builders.
    pub struct ExtRig<const NS: usize, const NM: usize, T: Num> {
        pub f: eb::KalmanFilterType<NS, T>,
        pub o: eb::KalmanFilterObservationType<NS, NM, T>,
    }
    impl<const NS: usize, const NM: usize, T: Num> ExtRig<NS, NM, T> {
        pub fn new() -> Self {
            let b = eb::KalmanFilterBuilder::<NS, T>::default();
            ExtRig {
                f: b.build(),
                o: b.observations().build::<NM>(),
            }
        }
    }
    impl<const NS: usize, const NM: usize, T: Num> Rig<T> for ExtRig<NS, NM, T> {
        fn name(&self) -> &'static str {
            "owned-ext"
        }
        fn dims(&self) -> (usize, usize, usize) {
            (NS, 0, NM)
        }
        fn get(&self, s: Slot) -> Vec<T> {
            match s {
                A => self.f.state_transition_jacobian().as_slice().to_vec(),
                X => self.f.state_vector().as_slice().to_vec(),
                P => self.f.estimate_covariance().as_slice().to_vec(),
                Q => self.f.direct_process_noise().as_slice().to_vec(),
                H => self.o.observation_jacobian_matrix().as_slice().to_vec(),
                Z => self.o.measurement_vector().as_slice().to_vec(),
                R => self.o.measurement_noise_covariance().as_slice().to_vec(),
                B | U | QC => vec![],
                _ => panic!("not visible"),
            }
        }
        fn put(&mut self, s: Slot, v: &[T]) {
            match s {
                A => self.f.state_transition_jacobian_mut().as_mut_slice().copy_from_slice(v),
                X => self.f.state_vector_mut().as_mut_slice().copy_from_slice(v),
                P => self.f.estimate_covariance_mut().as_mut_slice().copy_from_slice(v),
                Q => self.f.direct_process_noise_mut().as_mut_slice().copy_from_slice(v),
                H => self.o.observation_jacobian_matrix_mut().as_mut_slice().copy_from_slice(v),
                Z => self.o.measurement_vector_mut().as_mut_slice().copy_from_slice(v),
                R => self
                    .o
                    .measurement_noise_covariance_mut()
                    .as_mut_slice()
                    .copy_from_slice(v),
                _ => panic!("not visible"),
            }
        }
        fn has(&self, s: Slot) -> bool {
            !SCRATCH.contains(&s) && ![B, U, QC].contains(&s)
        }
        fn linear(&self) -> bool {
            false
        }
        fn nonlinear(&self) -> bool {
            true
        }
        fn predict(&mut self) {
            unreachable!()
        }
        fn predict_tuned(&mut self, _: T) {
            unreachable!()
        }
        fn control(&mut self) {
            unreachable!()
        }
        fn correct(&mut self) {
            unreachable!()
        }
        fn predict_nl(&mut self, g: NlFn<T>) {
            self.f.predict_nonlinear(|x, nx| g(x.as_slice(), nx.as_mut_slice()))
        }
        fn predict_tuned_nl(&mut self, l: T, g: NlFn<T>) {
            self.f
                .predict_tuned_nonlinear(l, |x, nx| g(x.as_slice(), nx.as_mut_slice()))
        }
        fn correct_nl(&mut self, g: NlFn<T>) {
            self.f
                .correct_nonlinear(&mut self.o, |x, hx| g(x.as_slice(), hx.as_mut_slice()))
        }
    }
}

// ------------------------------------------------------------------------------------------

pub type Make<T> = (&'static str, usize, usize, usize, fn() -> Box<dyn Rig<T>>);

#[macro_export]
macro_rules! rig_slices {
    ($t:ty; $(($n:literal, $u:literal, $m:literal)),* $(,)?) => {
        {
            let v: Vec<$crate::rig::Make<$t>> = vec![$((
            "slices", $n, $u, $m,
            (|| Box::new($crate::rig::SliceRig::<$n, $u, $m, $t>::new()) as Box<dyn $crate::rig::Rig<$t>>) as fn() -> Box<dyn $crate::rig::Rig<$t>>
        )),*];
            v
        }
    };
}
#[macro_export]
macro_rules! rig_owned {
    ($t:ty; $(($n:literal, $u:literal, $m:literal)),* $(,)?) => {
        {
            let v: Vec<$crate::rig::Make<$t>> = vec![$((
            "owned", $n, $u, $m,
            (|| Box::new($crate::rig::owned::RegRig::<$n, $u, $m, $t>::new()) as Box<dyn $crate::rig::Rig<$t>>) as fn() -> Box<dyn $crate::rig::Rig<$t>>
        )),*];
            v
        }
    };
}
#[macro_export]
macro_rules! rig_owned_ext {
    ($t:ty; $(($n:literal, $m:literal)),* $(,)?) => {
        {
            let v: Vec<$crate::rig::Make<$t>> = vec![$((
            "owned-ext", $n, 0usize, $m,
            (|| Box::new($crate::rig::owned::ExtRig::<$n, $m, $t>::new()) as Box<dyn $crate::rig::Rig<$t>>) as fn() -> Box<dyn $crate::rig::Rig<$t>>
        )),*];
            v
        }
    };
}
