//! C01: linear prediction against the textbook recursion, step by step along trajectories.
use kfmon::mission::{checked, Op};
use kfmon::rig::{Make, Slot::*};
use kfmon::*;

/// Every structure of P against every structure of Q.
fn pairs<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    for (wiring, n, _, _, mk) in makes {
        for (cp, cq) in gen::COV_CLASSES.iter().flat_map(|a| gen::COV_CLASSES.iter().map(move |b| (a, b))) {
            for round in 0..rep.r(1, 6) {
                let label = format!("{}/{wiring}/n{n}/cov/{cp}-{cq}#{round}", T::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    drive::fill_all(c, &mut *r);
                    mission::fill_as(c, &mut *r, P, cp);
                    mission::fill_as(c, &mut *r, Q, cq);
                    checked(c, &mut *r, &Op::Predict)?;
                    Ok(())
                });
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C01",
        "A case is one generated (A, x, P, Q), or one mission, for one shape, number type and wiring; non-trivial \
         when a judged prediction changed the state or the covariance; distinct by the bits of all inputs.",
    );
    drive::standard(&mut rep, &["predict"], &["control", "correct", "tuned"], &[A, P, Q, X]);
    fn all<T: Sets>(rep: &mut Rep) {
        pairs(rep, &T::linear());
    }
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
