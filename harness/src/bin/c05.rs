//! C05: extended prediction: the model function decides the state, the Jacobian the covariance.
use kfmon::rig::Slot::*;
use kfmon::{drive, Rep};

fn main() {
    let mut rep = Rep::new(
        "C05",
        "A case is one generated configuration with one model function, or one mission, for one shape, number type \
         and wiring; non-trivial when a judged extended prediction changed state or covariance; distinct by all inputs.",
    );
    drive::standard(&mut rep, &["predict_nl"], &["correct_nl", "tuned_nl", "control"], &[A, P, Q, X]);
    rep.finish()
}
