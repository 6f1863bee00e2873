//! C04: the linear measurement update against the Kalman equations.
use kfmon::rig::Slot::*;
use kfmon::{drive, Rep};

fn main() {
    let mut rep = Rep::new(
        "C04",
        "A case is one generated configuration, or one mission, for one shape, number type and wiring; \
         non-trivial when a judged measurement update changed the state or the covariance; distinct by all inputs.",
    );
    drive::standard(&mut rep, &["correct"], &["predict", "control", "tuned"], &[H, P, R, X, Z]);
    rep.finish()
}
