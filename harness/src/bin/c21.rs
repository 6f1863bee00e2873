//! C21: what generic code reaches through the filter, control and observation traits is what the
//! concrete types offer: same memory, same counts, same steps, same results.
#![allow(non_snake_case, unused_mut)]
use kfmon::drive::{fill_all, settle};
use kfmon::mission::*;
use kfmon::num::bits_of;
use kfmon::rig::{shape, Rig, SliceRig, Slot};
use kfmon::*;
use minikalman::buffers::types::*;
use minikalman::extended::{builder as eb, ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::{builder as rb, ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};

/// Where one role's data are, by every way of getting at them.
type Routes = Vec<(&'static str, Vec<(&'static str, usize, usize)>)>;

macro_rules! at {
    ($e:expr) => {{
        let s = $e;
        (s.as_ptr() as usize, s.len())
    }};
}
macro_rules! ro {
    ($v:ident, $name:literal, $b:expr) => {{
        let mut w = Vec::new();
        let (p, l) = at!($b.as_slice());
        w.push(("slice", p, l));
        let (p, l) = at!($b.as_matrix().as_slice());
        w.push(("matrix", p, l));
        w.push(("index", &$b[0] as *const _ as usize, $b.len()));
        $v.push(($name, w));
    }};
}
macro_rules! rw {
    ($v:ident, $name:literal, $b:expr) => {{
        let mut w = Vec::new();
        let (p, l) = at!($b.as_slice());
        w.push(("mut: slice", p, l));
        let (p, l) = at!($b.as_matrix().as_slice());
        w.push(("mut: matrix", p, l));
        let (p, l) = at!($b.as_mut_slice());
        w.push(("mut: mutable slice", p, l));
        let (p, l) = at!($b.as_matrix_mut().as_mut_slice());
        w.push(("mut: mutable matrix", p, l));
        w.push(("mut: index", &mut $b[0] as *mut _ as usize, $b.len()));
        $v.push(($name, w));
    }};
}

// -- generic code: nothing but the traits is in reach here -------------------------------------

fn filter_routes<const NN: usize, T, F: KalmanFilter<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "state vector", f.state_vector());
    ro!(v, "state transition", f.state_transition());
    ro!(v, "estimate covariance", f.estimate_covariance());
    rw!(v, "state vector", f.state_vector_mut());
    rw!(v, "estimate covariance", f.estimate_covariance_mut());
    v
}
fn transition_routes<const NN: usize, T, F: KalmanFilterStateTransitionMut<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    rw!(v, "state transition", f.state_transition_mut());
    v
}
fn ext_filter_routes<const NN: usize, T, F: ExtendedKalmanFilter<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "state vector", f.state_vector());
    ro!(v, "state transition", f.state_transition_jacobian());
    ro!(v, "estimate covariance", f.estimate_covariance());
    rw!(v, "state vector", f.state_vector_mut());
    rw!(v, "estimate covariance", f.estimate_covariance_mut());
    v
}
fn ext_transition_routes<const NN: usize, T, F: ExtendedKalmanFilterStateTransitionMut<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    rw!(v, "state transition", f.state_transition_jacobian_mut());
    v
}
fn noise_routes<const NN: usize, T, F: KalmanFilterDirectProcessNoiseMut<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "direct process noise", f.direct_process_noise());
    rw!(v, "direct process noise", f.direct_process_noise_mut());
    v
}
fn noise_route<const NN: usize, T, F: KalmanFilterDirectProcessNoiseCovariance<NN, T>>(f: &mut F) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "direct process noise", f.direct_process_noise());
    v
}
fn control_routes<const NN: usize, const NU: usize, T, C: KalmanFilterControl<NN, NU, T>>(k: &mut C) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "control vector", k.control_vector());
    ro!(v, "control matrix", k.control_matrix());
    ro!(v, "control noise", k.process_noise_covariance());
    rw!(v, "control vector", k.control_vector_mut());
    rw!(v, "control noise", k.process_noise_covariance_mut());
    v
}
fn control_matrix_routes<const NN: usize, const NU: usize, T, C: KalmanFilterControlTransitionMut<NN, NU, T>>(k: &mut C) -> Routes {
    let mut v: Routes = vec![];
    rw!(v, "control matrix", k.control_matrix_mut());
    v
}
fn observation_routes<const NN: usize, const NM: usize, T, O: KalmanFilterObservation<NN, NM, T>>(o: &mut O) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "measurement vector", o.measurement_vector());
    ro!(v, "observation matrix", o.observation_matrix());
    ro!(v, "measurement noise", o.measurement_noise_covariance());
    rw!(v, "measurement vector", o.measurement_vector_mut());
    rw!(v, "measurement noise", o.measurement_noise_covariance_mut());
    v
}
fn observation_matrix_routes<const NN: usize, const NM: usize, T, O: KalmanFilterObservationTransformationMut<NN, NM, T>>(o: &mut O) -> Routes {
    let mut v: Routes = vec![];
    rw!(v, "observation matrix", o.observation_matrix_mut());
    v
}
fn ext_observation_routes<const NN: usize, const NM: usize, T, O: ExtendedKalmanFilterObservation<NN, NM, T>>(o: &mut O) -> Routes {
    let mut v: Routes = vec![];
    ro!(v, "measurement vector", o.measurement_vector());
    ro!(v, "observation matrix", o.observation_jacobian_matrix());
    ro!(v, "measurement noise", o.measurement_noise_covariance());
    rw!(v, "measurement vector", o.measurement_vector_mut());
    rw!(v, "measurement noise", o.measurement_noise_covariance_mut());
    v
}
fn ext_observation_matrix_routes<const NN: usize, const NM: usize, T, O: ExtendedKalmanFilterObservationTransformationMut<NN, NM, T>>(o: &mut O) -> Routes {
    let mut v: Routes = vec![];
    rw!(v, "observation matrix", o.observation_jacobian_matrix_mut());
    v
}

fn predict<const NN: usize, T, F: KalmanFilter<NN, T>>(f: &mut F) {
    f.predict()
}
fn control<const NN: usize, const NU: usize, T, F: KalmanFilter<NN, T>, C: KalmanFilterControl<NN, NU, T> + KalmanFilterControlApplyToFilter<NN, T>>(f: &mut F, k: &mut C) {
    f.control(k)
}
fn correct<const NN: usize, const NM: usize, T, F: KalmanFilter<NN, T>, O: KalmanFilterObservation<NN, NM, T>>(f: &mut F, o: &mut O) {
    f.correct(o)
}
fn predict_nl<const NN: usize, T: Copy, F: ExtendedKalmanFilter<NN, T>>(f: &mut F, g: &mut dyn FnMut(&[T], &mut [T])) {
    f.predict_nonlinear(|x, o| g(x.as_slice(), o.as_matrix_mut().as_mut_slice()))
}
fn correct_nl<const NN: usize, const NM: usize, T: Copy, F: ExtendedKalmanFilter<NN, T>, O: ExtendedKalmanFilterObservation<NN, NM, T>>(f: &mut F, o: &mut O, g: &mut dyn FnMut(&[T], &mut [T])) {
    f.correct_nonlinear(o, |x, z| g(x.as_slice(), z.as_matrix_mut().as_mut_slice()))
}
fn apply_to<const NN: usize, T, C: KalmanFilterControlApplyToFilter<NN, T>, X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(k: &mut C, x: &mut X, p: &mut P) {
    k.apply_to(x, p)
}
fn correct_alone<const NN: usize, const NM: usize, T, O: KalmanFilterObservation<NN, NM, T>, X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(o: &mut O, x: &mut X, p: &mut P) {
    o.correct(x, p)
}
fn correct_nl_alone<const NN: usize, const NM: usize, T: Copy, O: ExtendedKalmanFilterObservation<NN, NM, T>, X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(o: &mut O, x: &mut X, p: &mut P, g: &mut dyn FnMut(&[T], &mut [T])) {
    o.correct_nonlinear(x, p, |x, z| g(x.as_slice(), z.as_matrix_mut().as_mut_slice()))
}
fn states<const NN: usize, F: KalmanFilterNumStates<NN>>(f: &F) -> (usize, usize) {
    (f.states(), F::NUM_STATES)
}
fn controls<const NU: usize, F: KalmanFilterNumControls<NU>>(f: &F) -> (usize, usize) {
    (f.controls(), F::NUM_CONTROLS)
}
fn observations<const NM: usize, F: KalmanFilterNumObservations<NM>>(f: &F) -> (usize, usize) {
    (f.observations(), F::NUM_OBSERVATIONS)
}
fn putx<const R: usize, const C: usize, T: Copy>(b: &mut impl RowMajorSequentialDataMut<R, C, T>, v: &[T]) {
    b.as_mut_slice().copy_from_slice(v)
}

// -- a control and an observation of the user's own: they record how they are used --------------

struct Spy<const NM: usize, T> {
    calls: Vec<(Vec<T>, Vec<T>)>,
    nx: Vec<T>,
    np: Vec<T>,
    y: InnovationVectorBuffer<NM, T, MatrixDataBoxed<NM, 1, T>>,
    seen: Vec<T>,
}
impl<const NM: usize, T: Num> Spy<NM, T> {
    fn new(nx: &[T], np: &[T]) -> Self {
        Spy {
            calls: vec![],
            nx: nx.to_vec(),
            np: np.to_vec(),
            y: InnovationVectorBuffer::new(MatrixData::new_boxed::<NM, 1, T, _>(vec![T::zero(); NM])),
            seen: vec![],
        }
    }
    fn step<const NN: usize, X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(&mut self, x: &mut X, p: &mut P) {
        self.calls.push((x.as_slice().to_vec(), p.as_slice().to_vec()));
        x.as_mut_slice().copy_from_slice(&self.nx);
        p.as_mut_slice().copy_from_slice(&self.np);
    }
    fn report(&self) -> (Vec<Vec<u64>>, Vec<u64>, Vec<u64>) {
        let calls = self.calls.iter().flat_map(|(x, p)| [bits_of(x), bits_of(p)]).collect();
        (calls, bits_of(&self.seen), bits_of(self.y.as_slice()))
    }
}
impl<const NN: usize, const NM: usize, T: Num> KalmanFilterControlApplyToFilter<NN, T> for Spy<NM, T> {
    fn apply_to<X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(&mut self, x: &mut X, P: &mut P) {
        self.step(x, P)
    }
}
impl<const NN: usize, const NM: usize, T: Num> KalmanFilterObservationCorrectFilter<NN, T> for Spy<NM, T> {
    fn correct<X: StateVectorMut<NN, T>, P: EstimateCovarianceMatrix<NN, T>>(&mut self, x: &mut X, P: &mut P) {
        self.step(x, P)
    }
}
impl<const NN: usize, const NM: usize, T: Num> KalmanFilterNonlinearObservationCorrectFilter<NN, NM, T> for Spy<NM, T> {
    type ObservationVector = InnovationVectorBuffer<NM, T, MatrixDataBoxed<NM, 1, T>>;
    fn correct_nonlinear<X, P, F>(&mut self, x: &mut X, P: &mut P, mut observation: F)
    where
        X: StateVectorMut<NN, T>,
        P: EstimateCovarianceMatrix<NN, T>,
        F: FnMut(&X, &mut Self::ObservationVector),
    {
        observation(x, &mut self.y);
        self.seen = self.y.as_slice().to_vec();
        self.step(x, P)
    }
}
fn spied_control<const NN: usize, T, F: KalmanFilterApplyControl<NN, T>, S: KalmanFilterControlApplyToFilter<NN, T>>(f: &mut F, s: &mut S) {
    f.control(s)
}
fn spied_correct<const NN: usize, T, F: KalmanFilterUpdate<NN, T>, S: KalmanFilterObservationCorrectFilter<NN, T>>(f: &mut F, s: &mut S) {
    f.correct(s)
}
fn spied_correct_nl<const NN: usize, const NM: usize, T: Copy, F: KalmanFilterNonlinearUpdate<NN, T>, S: KalmanFilterNonlinearObservationCorrectFilter<NN, NM, T>>(f: &mut F, s: &mut S, g: &mut dyn FnMut(&[T], &mut [T])) {
    f.correct_nonlinear(s, |x, z| g(x.as_slice(), z.as_matrix_mut().as_mut_slice()))
}

// -- the comparison ------------------------------------------------------------------------------

/// All routes to one role, from generic and from direct code, lead to the same place.
fn same_place(c: &mut Case, direct: Routes, generic: Routes) -> Chk {
    let mut home: std::collections::BTreeMap<&str, (usize, usize)> = Default::default();
    for (name, ways) in &direct {
        for (how, p, l) in ways {
            let h = *home.entry(name).or_insert((*p, *l));
            c.that(h == (*p, *l), || format!("{name} through the type itself ({how}) is elsewhere than by other ways"))?;
        }
    }
    for (name, ways) in &generic {
        for (how, p, l) in ways {
            c.count("ways to a role compared", 1);
            let h = home[name];
            c.that(h == (*p, *l), || format!("{name} through its trait ({how}) is elsewhere, or of another length, than through the type itself"))?;
        }
    }
    let mut places: Vec<usize> = home.values().map(|h| h.0).collect();
    let n = places.len();
    places.sort();
    places.dedup();
    c.that(places.len() == n, || format!("two roles share their memory: {home:x?}"))
}

fn pair<T: Num>(c: &mut Case, what: &str, generic: &[T], direct: &[T]) -> Chk {
    c.exact(&format!("{what}: through traits and directly"), generic, direct)
}

/// The log of a model function: every call, what it was given, and how large its result was.
struct Log<T>(Vec<(Vec<T>, usize)>);
fn logged<'a, T: Num>(m: &'a Model<T>, l: &'a mut Log<T>) -> impl FnMut(&[T], &mut [T]) + 'a {
    move |x, o| {
        l.0.push((x.to_vec(), o.len()));
        let v = m.eval(x);
        o.copy_from_slice(&v);
    }
}
fn log_bits<T: Num>(l: &Log<T>) -> Vec<(Vec<u64>, usize)> {
    l.0.iter().map(|(x, n)| (bits_of(x), *n)).collect()
}

macro_rules! both {
    ($c:ident, $what:expr; $a:expr; $b:expr) => {{
        let a = guarded(|| $a);
        let b = guarded(|| $b);
        $c.count("steps performed both ways", 1);
        $c.that(a.is_ok() == b.is_ok(), || format!("{}: {:?} through traits, {:?} directly", $what, a, b))?;
        b.is_ok()
    }};
}

macro_rules! regular {
    ($rep:ident, $t:ty, $n:literal, $u:literal, $m:literal, $wiring:literal, $rounds:expr, $make:expr) => {
        for round in 0..$rounds {
            $rep.case(&format!("regular/{}/{}/n{}u{}m{}#{round}", <$t as Num>::NAME, $wiring, $n, $u, $m), |c| {
                c.nontrivial(true);
                let (mut fa, mut ka, mut oa) = $make;
                let (mut fb, mut kb, mut ob) = $make;
                // Places and counts.
                let mut d: Routes = vec![];
                ro!(d, "state vector", fa.state_vector());
                rw!(d, "state vector", fa.state_vector_mut());
                ro!(d, "state transition", fa.state_transition());
                rw!(d, "state transition", fa.state_transition_mut());
                ro!(d, "estimate covariance", fa.estimate_covariance());
                rw!(d, "estimate covariance", fa.estimate_covariance_mut());
                ro!(d, "direct process noise", fa.direct_process_noise());
                rw!(d, "direct process noise", fa.direct_process_noise_mut());
                let mut g = filter_routes::<$n, $t, _>(&mut fa);
                g.extend(transition_routes::<$n, $t, _>(&mut fa));
                same_place(c, d, g)?;
                let mut d: Routes = vec![];
                ro!(d, "control vector", ka.control_vector());
                rw!(d, "control vector", ka.control_vector_mut());
                ro!(d, "control matrix", ka.control_matrix());
                rw!(d, "control matrix", ka.control_matrix_mut());
                ro!(d, "control noise", ka.process_noise_covariance());
                rw!(d, "control noise", ka.process_noise_covariance_mut());
                let mut g = control_routes::<$n, $u, $t, _>(&mut ka);
                g.extend(control_matrix_routes::<$n, $u, $t, _>(&mut ka));
                same_place(c, d, g)?;
                let mut d: Routes = vec![];
                ro!(d, "measurement vector", oa.measurement_vector());
                rw!(d, "measurement vector", oa.measurement_vector_mut());
                ro!(d, "observation matrix", oa.observation_matrix());
                rw!(d, "observation matrix", oa.observation_matrix_mut());
                ro!(d, "measurement noise", oa.measurement_noise_covariance());
                rw!(d, "measurement noise", oa.measurement_noise_covariance_mut());
                let mut g = observation_routes::<$n, $m, $t, _>(&mut oa);
                g.extend(observation_matrix_routes::<$n, $m, $t, _>(&mut oa));
                same_place(c, d, g)?;
                for (who, got, want) in [
                    ("filter's states", states(&fa), fa.states()),
                    ("control's states", states(&ka), ka.states()),
                    ("observation's states", states(&oa), oa.states()),
                    ("control's controls", controls(&ka), ka.controls()),
                    ("observation's measurements", observations(&oa), oa.measurements()),
                ] {
                    c.that(got == (want, want), || format!("the {who}: {got:?} through the trait, {want} directly"))?;
                }
                // One of them driven through the traits, the other directly.
                let mut gen = SliceRig::<$n, $u, $m, $t>::new();
                let r: &mut dyn Rig<$t> = &mut gen;
                for leg in 0..3 {
                    fill_all(c, r);
                    if c.rng.chance(1, 2) {
                        settle(c, r);
                    }
                    let g = |s: Slot| r.get(s);
                    putx(KalmanFilterStateVectorMut::state_vector_mut(&mut fa), &g(Slot::X));
                    putx(KalmanFilterStateTransitionMut::state_transition_mut(&mut fa), &g(Slot::A));
                    putx(KalmanFilterEstimateCovarianceMut::estimate_covariance_mut(&mut fa), &g(Slot::P));
                    putx(fa.direct_process_noise_mut(), &g(Slot::Q));
                    putx(KalmanFilterControlVectorMut::control_vector_mut(&mut ka), &g(Slot::U));
                    putx(KalmanFilterControlTransitionMut::control_matrix_mut(&mut ka), &g(Slot::B));
                    putx(KalmanFilterControlProcessNoiseMut::process_noise_covariance_mut(&mut ka), &g(Slot::QC));
                    putx(KalmanFilterObservationVectorMut::measurement_vector_mut(&mut oa), &g(Slot::Z));
                    putx(KalmanFilterObservationTransformationMut::observation_matrix_mut(&mut oa), &g(Slot::H));
                    putx(KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(&mut oa), &g(Slot::R));
                    putx(fb.state_vector_mut(), &g(Slot::X));
                    putx(fb.state_transition_mut(), &g(Slot::A));
                    putx(fb.estimate_covariance_mut(), &g(Slot::P));
                    putx(fb.direct_process_noise_mut(), &g(Slot::Q));
                    putx(kb.control_vector_mut(), &g(Slot::U));
                    putx(kb.control_matrix_mut(), &g(Slot::B));
                    putx(kb.process_noise_covariance_mut(), &g(Slot::QC));
                    putx(ob.measurement_vector_mut(), &g(Slot::Z));
                    putx(ob.observation_matrix_mut(), &g(Slot::H));
                    putx(ob.measurement_noise_covariance_mut(), &g(Slot::R));
                    for step in 0..7 {
                        if !tame(r) {
                            break;
                        }
                        let kind = c.rng.below(7);
                        let what = format!("leg {leg}, step {step} ({})", ["predict", "control", "correct", "control on its own", "correction on its own", "the user's control", "the user's observation"][kind]);
                        let (x0, p0) = (fb.state_vector().as_slice().to_vec(), fb.estimate_covariance().as_slice().to_vec());
                        let mut xs = [x0.clone(), x0.clone()];
                        let mut ps = [p0.clone(), p0.clone()];
                        let [xa, xb] = &mut xs;
                        let [pa, pb] = &mut ps;
                        let mut xa = StateVectorBuffer::<$n, $t, _>::from(xa.as_mut_slice());
                        let mut xb = StateVectorBuffer::<$n, $t, _>::from(xb.as_mut_slice());
                        let mut pa = EstimateCovarianceMatrixBuffer::<$n, $t, _>::from(pa.as_mut_slice());
                        let mut pb = EstimateCovarianceMatrixBuffer::<$n, $t, _>::from(pb.as_mut_slice());
                        let (nx, np) = (gen::vector::<$t>(&mut c.rng, $n), gen::cov::<$t>(&mut c.rng, "diag", $n));
                        let mut sa = Spy::<$m, $t>::new(&nx, &np);
                        let mut sb = Spy::<$m, $t>::new(&nx, &np);
                        let fine = match kind {
                            0 => both!(c, what; predict(&mut fa); fb.predict()),
                            1 => both!(c, what; control::<$n, $u, $t, _, _>(&mut fa, &mut ka); fb.control(&mut kb)),
                            2 => both!(c, what; correct::<$n, $m, $t, _, _>(&mut fa, &mut oa); fb.correct(&mut ob)),
                            3 => both!(c, what; apply_to(&mut ka, &mut xa, &mut pa); kb.apply_control(&mut xb, &mut pb)),
                            4 => both!(c, what; correct_alone::<$n, $m, $t, _, _, _>(&mut oa, &mut xa, &mut pa); ob.correct(&mut xb, &mut pb)),
                            5 => both!(c, what; spied_control(&mut fa, &mut sa); fb.control(&mut sb)),
                            _ => both!(c, what; spied_correct(&mut fa, &mut sa); fb.correct(&mut sb)),
                        };
                        if !fine {
                            break;
                        }
                        c.that(sa.report() == sb.report(), || format!("{what}: used {} times through traits, {} times directly, or with other contents", sa.calls.len(), sb.calls.len()))?;
                        pair(c, &format!("{what}: separate state"), xa.as_slice(), xb.as_slice())?;
                        pair(c, &format!("{what}: separate covariance"), pa.as_slice(), pb.as_slice())?;
                        // The generic one is read directly, the direct one through the traits.
                        pair(c, &format!("{what}: state"), fa.state_vector().as_slice(), KalmanFilterStateVector::state_vector(&fb).as_slice())?;
                        pair(c, &format!("{what}: covariance"), fa.estimate_covariance().as_slice(), KalmanFilterEstimateCovariance::estimate_covariance(&fb).as_slice())?;
                        pair(c, &format!("{what}: transition"), fa.state_transition().as_slice(), KalmanFilterStateTransition::state_transition(&fb).as_slice())?;
                        pair(c, &format!("{what}: noise"), fa.direct_process_noise().as_slice(), fb.direct_process_noise().as_slice())?;
                        pair(c, &format!("{what}: controls"), ka.control_vector().as_slice(), KalmanFilterControlVector::control_vector(&kb).as_slice())?;
                        pair(c, &format!("{what}: control matrix"), ka.control_matrix().as_slice(), KalmanFilterControlTransition::control_matrix(&kb).as_slice())?;
                        pair(c, &format!("{what}: control noise"), ka.process_noise_covariance().as_slice(), KalmanFilterControlProcessNoiseCovariance::process_noise_covariance(&kb).as_slice())?;
                        pair(c, &format!("{what}: measurement"), oa.measurement_vector().as_slice(), KalmanFilterMeasurementVector::measurement_vector(&ob).as_slice())?;
                        pair(c, &format!("{what}: observation matrix"), oa.observation_matrix().as_slice(), KalmanFilterObservationTransformation::observation_matrix(&ob).as_slice())?;
                        pair(c, &format!("{what}: measurement noise"), oa.measurement_noise_covariance().as_slice(), KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(&ob).as_slice())?;
                        r.put(Slot::X, fb.state_vector().as_slice());
                        r.put(Slot::P, fb.estimate_covariance().as_slice());
                    }
                }
                Ok(())
            });
        }
    };
}

macro_rules! extended {
    ($rep:ident, $t:ty, $n:literal, $m:literal, $wiring:literal, $rounds:expr, $make:expr) => {
        for round in 0..$rounds {
            $rep.case(&format!("extended/{}/{}/n{}m{}#{round}", <$t as Num>::NAME, $wiring, $n, $m), |c| {
                c.nontrivial(true);
                let (mut fa, mut oa) = $make;
                let (mut fb, mut ob) = $make;
                let mut d: Routes = vec![];
                ro!(d, "state vector", fa.state_vector());
                rw!(d, "state vector", fa.state_vector_mut());
                ro!(d, "state transition", fa.state_transition_jacobian());
                rw!(d, "state transition", fa.state_transition_jacobian_mut());
                ro!(d, "estimate covariance", fa.estimate_covariance());
                rw!(d, "estimate covariance", fa.estimate_covariance_mut());
                ro!(d, "direct process noise", fa.direct_process_noise());
                rw!(d, "direct process noise", fa.direct_process_noise_mut());
                let mut g = ext_filter_routes::<$n, $t, _>(&mut fa);
                g.extend(ext_transition_routes::<$n, $t, _>(&mut fa));
                g.extend(noise_routes::<$n, $t, _>(&mut fa));
                g.extend(noise_route::<$n, $t, _>(&mut fa));
                same_place(c, d, g)?;
                let mut d: Routes = vec![];
                ro!(d, "measurement vector", oa.measurement_vector());
                rw!(d, "measurement vector", oa.measurement_vector_mut());
                ro!(d, "observation matrix", oa.observation_jacobian_matrix());
                rw!(d, "observation matrix", oa.observation_jacobian_matrix_mut());
                ro!(d, "measurement noise", oa.measurement_noise_covariance());
                rw!(d, "measurement noise", oa.measurement_noise_covariance_mut());
                let mut g = ext_observation_routes::<$n, $m, $t, _>(&mut oa);
                g.extend(ext_observation_matrix_routes::<$n, $m, $t, _>(&mut oa));
                same_place(c, d, g)?;
                for (who, got, want) in [
                    ("extended filter's states", states(&fa), fa.states()),
                    ("extended observation's states", states(&oa), oa.states()),
                    ("extended observation's measurements", observations(&oa), oa.measurements()),
                ] {
                    c.that(got == (want, want), || format!("the {who}: {got:?} through the trait, {want} directly"))?;
                }
                let mut gen = SliceRig::<$n, 1, $m, $t>::new();
                let r: &mut dyn Rig<$t> = &mut gen;
                for leg in 0..3 {
                    fill_all(c, r);
                    if c.rng.chance(1, 2) {
                        settle(c, r);
                    }
                    let g = |s: Slot| r.get(s);
                    putx(KalmanFilterStateVectorMut::state_vector_mut(&mut fa), &g(Slot::X));
                    putx(ExtendedKalmanFilterStateTransitionMut::state_transition_jacobian_mut(&mut fa), &g(Slot::A));
                    putx(KalmanFilterEstimateCovarianceMut::estimate_covariance_mut(&mut fa), &g(Slot::P));
                    putx(KalmanFilterDirectProcessNoiseMut::direct_process_noise_mut(&mut fa), &g(Slot::Q));
                    putx(KalmanFilterObservationVectorMut::measurement_vector_mut(&mut oa), &g(Slot::Z));
                    putx(ExtendedKalmanFilterObservationTransformationMut::observation_jacobian_matrix_mut(&mut oa), &g(Slot::H));
                    putx(KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(&mut oa), &g(Slot::R));
                    putx(fb.state_vector_mut(), &g(Slot::X));
                    putx(fb.state_transition_jacobian_mut(), &g(Slot::A));
                    putx(fb.estimate_covariance_mut(), &g(Slot::P));
                    putx(fb.direct_process_noise_mut(), &g(Slot::Q));
                    putx(ob.measurement_vector_mut(), &g(Slot::Z));
                    putx(ob.observation_jacobian_matrix_mut(), &g(Slot::H));
                    putx(ob.measurement_noise_covariance_mut(), &g(Slot::R));
                    for step in 0..6 {
                        if !tame(r) {
                            break;
                        }
                        let kind = c.rng.below(4);
                        let what = format!("leg {leg}, step {step} ({})", ["predict", "correct", "correction on its own", "the user's observation"][kind]);
                        let (x0, p0) = (fb.state_vector().as_slice().to_vec(), fb.estimate_covariance().as_slice().to_vec());
                        let mut xs = [x0.clone(), x0.clone()];
                        let mut ps = [p0.clone(), p0.clone()];
                        let [xa, xb] = &mut xs;
                        let [pa, pb] = &mut ps;
                        let mut xa = StateVectorBuffer::<$n, $t, _>::from(xa.as_mut_slice());
                        let mut xb = StateVectorBuffer::<$n, $t, _>::from(xb.as_mut_slice());
                        let mut pa = EstimateCovarianceMatrixBuffer::<$n, $t, _>::from(pa.as_mut_slice());
                        let mut pb = EstimateCovarianceMatrixBuffer::<$n, $t, _>::from(pb.as_mut_slice());
                        let (nx, np) = (gen::vector::<$t>(&mut c.rng, $n), gen::cov::<$t>(&mut c.rng, "diag", $n));
                        let mut sa = Spy::<$m, $t>::new(&nx, &np);
                        let mut sb = Spy::<$m, $t>::new(&nx, &np);
                        let f = Model::<$t>::any(&mut c.rng, $n, $n);
                        let h = Model::<$t>::any(&mut c.rng, $n, $m);
                        let (mut la, mut lb) = (Log::<$t>(vec![]), Log::<$t>(vec![]));
                        let fine = match kind {
                            0 => both!(c, what; predict_nl(&mut fa, &mut logged(&f, &mut la)); {
                                let mut w = logged(&f, &mut lb);
                                fb.predict_nonlinear(|x, o| w(x.as_slice(), o.as_mut_slice()))
                            }),
                            1 => both!(c, what; correct_nl::<$n, $m, $t, _, _>(&mut fa, &mut oa, &mut logged(&h, &mut la)); {
                                let mut w = logged(&h, &mut lb);
                                fb.correct_nonlinear(&mut ob, |x, o| w(x.as_slice(), o.as_mut_slice()))
                            }),
                            2 => both!(c, what; correct_nl_alone::<$n, $m, $t, _, _, _>(&mut oa, &mut xa, &mut pa, &mut logged(&h, &mut la)); {
                                let mut w = logged(&h, &mut lb);
                                ob.correct_nonlinear(&mut xb, &mut pb, |x, o| w(x.as_slice(), o.as_mut_slice()))
                            }),
                            _ => both!(c, what; spied_correct_nl::<$n, $m, $t, _, _>(&mut fa, &mut sa, &mut logged(&h, &mut la)); {
                                let mut w = logged(&h, &mut lb);
                                fb.correct_nonlinear(&mut sb, |x, o| w(x.as_slice(), o.as_mut_slice()))
                            }),
                        };
                        if !fine {
                            break;
                        }
                        c.that(sa.report() == sb.report(), || format!("{what}: used {} times through traits, {} times directly, or with other contents", sa.calls.len(), sb.calls.len()))?;
                        c.that(log_bits(&la) == log_bits(&lb), || format!("{what}: the model function saw {:?} through traits, {:?} directly", la.0, lb.0))?;
                        pair(c, &format!("{what}: separate state"), xa.as_slice(), xb.as_slice())?;
                        pair(c, &format!("{what}: separate covariance"), pa.as_slice(), pb.as_slice())?;
                        pair(c, &format!("{what}: state"), fa.state_vector().as_slice(), KalmanFilterStateVector::state_vector(&fb).as_slice())?;
                        pair(c, &format!("{what}: covariance"), fa.estimate_covariance().as_slice(), KalmanFilterEstimateCovariance::estimate_covariance(&fb).as_slice())?;
                        pair(c, &format!("{what}: transition"), fa.state_transition_jacobian().as_slice(), ExtendedKalmanFilterStateTransition::state_transition_jacobian(&fb).as_slice())?;
                        pair(c, &format!("{what}: noise"), fa.direct_process_noise().as_slice(), KalmanFilterDirectProcessNoiseCovariance::direct_process_noise(&fb).as_slice())?;
                        pair(c, &format!("{what}: measurement"), oa.measurement_vector().as_slice(), KalmanFilterMeasurementVector::measurement_vector(&ob).as_slice())?;
                        pair(c, &format!("{what}: observation matrix"), oa.observation_jacobian_matrix().as_slice(), ExtendedKalmanFilterObservationTransformation::observation_jacobian_matrix(&ob).as_slice())?;
                        pair(c, &format!("{what}: measurement noise"), oa.measurement_noise_covariance().as_slice(), KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(&ob).as_slice())?;
                        r.put(Slot::X, fb.state_vector().as_slice());
                        r.put(Slot::P, fb.estimate_covariance().as_slice());
                    }
                }
                Ok(())
            });
        }
    };
}

/// Memory for one role, for as long as the process lives.
fn mem<T: Num>(s: Slot, n: usize, u: usize, m: usize) -> &'static mut [T] {
    let (r, c) = shape(s, n, u, m);
    vec![T::default(); r * c].leak()
}
macro_rules! obs_parts {
    ($b:ident, $t:ty, $n:literal, $m:literal) => {
        $b::new::<$n, $m, $t>(
            ObservationMatrixMutBuffer::from(mem::<$t>(Slot::H, $n, 1, $m)),
            MeasurementVectorBuffer::from(mem::<$t>(Slot::Z, $n, 1, $m)),
            MeasurementNoiseCovarianceMatrixBuffer::from(mem::<$t>(Slot::R, $n, 1, $m)),
            InnovationVectorBuffer::from(mem::<$t>(Slot::Y, $n, 1, $m)),
            InnovationCovarianceMatrixBuffer::from(mem::<$t>(Slot::S, $n, 1, $m)),
            KalmanGainMatrixBuffer::from(mem::<$t>(Slot::K, $n, 1, $m)),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from(mem::<$t>(Slot::SI, $n, 1, $m)),
            TemporaryHPMatrixBuffer::from(mem::<$t>(Slot::HP, $n, 1, $m)),
            TemporaryPHTMatrixBuffer::from(mem::<$t>(Slot::PHT, $n, 1, $m)),
            TemporaryKHPMatrixBuffer::from(mem::<$t>(Slot::KHP, $n, 1, $m)),
        )
    };
}
macro_rules! filter_parts {
    ($b:ident, $t:ty, $n:literal) => {
        $b::new::<$n, $t>(
            StateTransitionMatrixMutBuffer::from(mem::<$t>(Slot::A, $n, 1, 1)),
            StateVectorBuffer::from(mem::<$t>(Slot::X, $n, 1, 1)),
            EstimateCovarianceMatrixBuffer::from(mem::<$t>(Slot::P, $n, 1, 1)),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from(mem::<$t>(Slot::Q, $n, 1, 1)),
            PredictedStateEstimateVectorBuffer::from(mem::<$t>(Slot::PX, $n, 1, 1)),
            TemporaryStateMatrixBuffer::from(mem::<$t>(Slot::TP, $n, 1, 1)),
        )
    };
}
macro_rules! reg_all {
    ($rep:ident, $t:ty, $rounds:expr; $(($n:literal, $u:literal, $m:literal)),* $(,)?) => { $(
        regular!($rep, $t, $n, $u, $m, "owned", $rounds, {
            let b = rb::KalmanFilterBuilder::<$n, $t>::default();
            (b.build(), b.controls().build::<$u>(), b.observations().build::<$m>())
        });
        regular!($rep, $t, $n, $u, $m, "slices", $rounds, (
            filter_parts!(RegularKalmanBuilder, $t, $n),
            ControlBuilder::new::<$n, $u, $t>(
                ControlMatrixMutBuffer::from(mem::<$t>(Slot::B, $n, $u, $m)),
                ControlVectorBuffer::from(mem::<$t>(Slot::U, $n, $u, $m)),
                ControlProcessNoiseCovarianceMatrixMutBuffer::from(mem::<$t>(Slot::QC, $n, $u, $m)),
                TemporaryBQMatrixBuffer::from(mem::<$t>(Slot::BQ, $n, $u, $m)),
            ),
            obs_parts!(RegularObservationBuilder, $t, $n, $m),
        ));
    )* };
}
macro_rules! ext_all {
    ($rep:ident, $t:ty, $rounds:expr; $(($n:literal, $m:literal)),* $(,)?) => { $(
        extended!($rep, $t, $n, $m, "owned", $rounds, {
            let b = eb::KalmanFilterBuilder::<$n, $t>::default();
            (b.build(), b.observations().build::<$m>())
        });
        extended!($rep, $t, $n, $m, "slices", $rounds, (
            filter_parts!(ExtendedKalmanBuilder, $t, $n),
            obs_parts!(ExtendedObservationBuilder, $t, $n, $m),
        ));
    )* };
}

fn main() {
    let mut rep = Rep::new("C21", "the same filter twice: one driven through the traits, one through its own methods");
    let n = rep.r(12, 150);
    reg_all!(rep, f64, n; (1, 1, 1), (2, 3, 1), (3, 1, 2), (4, 2, 3));
    reg_all!(rep, f32, n; (1, 2, 3), (3, 2, 1));
    ext_all!(rep, f64, n; (1, 1), (2, 1), (3, 2), (2, 4));
    ext_all!(rep, f32, n; (1, 3), (3, 1));
    #[cfg(not(feature = "lite"))]
    {
        reg_all!(rep, f64, n; (1, 3, 2), (2, 2, 2), (5, 4, 6), (6, 1, 2), (7, 3, 7));
        reg_all!(rep, f32, n; (2, 1, 4), (6, 3, 2));
        ext_all!(rep, f64, n; (4, 4), (5, 6), (6, 2), (7, 7));
        ext_all!(rep, f32, n; (4, 2), (6, 5));
    }
    #[cfg(feature = "fixed")]
    {
        reg_all!(rep, I16F16, n; (2, 1, 1), (3, 2, 4));
        reg_all!(rep, I32F32, n; (1, 2, 2), (3, 1, 2));
        ext_all!(rep, I16F16, n; (2, 1), (3, 2));
        ext_all!(rep, I32F32, n; (1, 2), (3, 3));
    }
    rep.finish();
}
