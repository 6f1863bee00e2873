//! C06: extended measurement update: innovation z − h(x), gain from the stored Jacobian.
use kfmon::rig::Slot::*;
use kfmon::{drive, Rep};

fn main() {
    let mut rep = Rep::new(
        "C06",
        "A case is one generated configuration with one observation function, or one mission, for one shape, number \
         type and wiring; non-trivial when a judged extended update changed state or covariance; distinct by all inputs.",
    );
    drive::standard(&mut rep, &["correct_nl"], &["predict_nl", "tuned_nl", "control"], &[H, P, R, X, Z]);
    rep.finish()
}
