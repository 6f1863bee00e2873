//! C02: tuned prediction, linear and extended: state as in the plain prediction, covariance
//! (A·P·Aᵀ)/λ² + Q.
use kfmon::drive::{self, fill_all};
use kfmon::mission::{checked, tame, Model, Op};
use kfmon::rig::{Make, Slot::*};
use kfmon::*;

const LAMBDAS: &[f64] = &[
    1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 4.0, 0.75, 1.5, 0.875, 1.125, 0.9375, 1.0625, 3.0, -0.75,
    0.96875, 1.03125, 8.0, 0.125, 10.0, 0.1, 1.1, 0.9, -1.1, 100.0, 0.01, 1.0009765625, 0.9990234375,
];

fn sweep<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let rounds = rep.r(1, 8);
    for (wiring, n, u, m, mk) in makes {
        for round in 0..rounds {
            for l in LAMBDAS {
                if T::FIXED && (l.abs() < 0.2 || l.abs() > 5.0) {
                    continue;
                }
                let label = format!("{}/{wiring}/n{n}u{u}m{m}/lambda{l}#{round}", T::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    let lambda = T::of(*l);
                    c.input(&[lambda]);
                    if r.linear() {
                        fill_all(c, &mut *r);
                        checked(c, &mut *r, &Op::Tuned(lambda))?;
                        if tame(&*r) {
                            checked(c, &mut *r, &Op::Tuned(lambda))?;
                        }
                    }
                    if r.nonlinear() {
                        fill_all(c, &mut *r);
                        let f = Model::any(&mut c.rng, *n, *n);
                        checked(c, &mut *r, &Op::TunedNl(lambda, f))?;
                    }
                    // A factor of one is the plain prediction (up to rounding, which the same
                    // reference bounds for both).
                    if l.abs() == 1.0 && r.linear() {
                        let mut q = mk();
                        fill_all(c, &mut *r);
                        for s in [A, X, P, Q] {
                            q.put(s, &r.get(s));
                        }
                        let exact = T::FIXED || !cfg!(feature = "micromath");
                        let want = oracle::predict(
                            &M::of(*n, *n, &r.get(A)),
                            &M::of(*n, 1, &r.get(X)),
                            &M::of(*n, *n, &r.get(P)),
                            &M::of(*n, *n, &r.get(Q)),
                            None,
                            Ar::of::<T>(),
                        );
                        if exact && (!T::FIXED || want.p.max_v() < 100.0) {
                            r.predict_tuned(lambda);
                            c.near("λ=1: state", &r.get(X), &want.x)?;
                            c.near("λ=1: covariance", &r.get(P), &want.p)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C02",
        "A case is one generated configuration with one factor, or one mission, for one shape, number type and \
         wiring; non-trivial when a judged tuned prediction changed state or covariance; distinct by all inputs.",
    );
    drive::standard(
        &mut rep,
        &["tuned", "tuned_nl"],
        &["predict", "control", "correct", "predict_nl", "correct_nl"],
        &[A, P, Q, X],
    );
    fn all<T: Sets>(rep: &mut Rep) {
        sweep(rep, &T::slices());
        #[cfg(feature = "alloc")]
        {
            sweep(rep, &T::owned());
            sweep(rep, &T::owned_ext());
        }
    }
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
