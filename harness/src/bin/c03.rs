//! C03: control inputs: x += B·u, P += B·Q·Bᵀ; none at all for zero inputs.
use kfmon::drive::{self, fill_all};
use kfmon::rig::{Make, Slot::*};
use kfmon::*;

fn empty<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    for (wiring, n, u, m, mk) in makes {
        if *u != 0 {
            continue;
        }
        for round in 0..rep.r(20, 200) {
            let label = format!("{}/{wiring}/n{n}u{u}m{m}/no-inputs#{round}", T::NAME);
            rep.case(&label, |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                let (x, p) = (r.get(X), r.get(P));
                r.control();
                c.exact("state after a control with no inputs", &r.get(X), &x)?;
                c.exact("covariance after a control with no inputs", &r.get(P), &p)?;
                c.count("controls with no inputs", 1);
                c.nontrivial(true);
                Ok(())
            });
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C03",
        "A case is one generated configuration, or one mission, for one shape, number type and wiring; \
         non-trivial when a judged control step changed state or covariance (or had no inputs); distinct by all inputs.",
    );
    drive::standard(&mut rep, &["control"], &["predict", "correct", "tuned"], &[B, U, QC, P, X]);
    empty(&mut rep, &f64::slices());
    empty(&mut rep, &f32::slices());
    #[cfg(feature = "fixed")]
    {
        empty(&mut rep, &<fixed::types::I16F16 as Sets>::slices());
        empty(&mut rep, &<fixed::types::I32F32 as Sets>::slices());
    }
    rep.finish()
}
