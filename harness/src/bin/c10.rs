//! C10: steps never modify their parameters, bit for bit, whatever the parameters are.
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mission::*;
use kfmon::num::bits_of;
use kfmon::rig::{Make, Rig, Slot, PARAMS};
use kfmon::*;

/// Values that tend to be disturbed by an operation that should not have happened.
fn hostile<T: Num>(rng: &mut Rng) -> T {
    if T::FIXED {
        return T::of([0.0, 1.0, -1.0, 0.5, 3.25][rng.below(5)]);
    }
    let tiny = if T::NAME == "f32" { 1e-40 } else { 1e-310 };
    let huge = if T::NAME == "f32" { 3e38 } else { 1e308 };
    T::of([0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, tiny, -tiny, huge, 1.0, -1.0, 1e20, 1e-20][rng.below(12)])
}

fn visible<T: Num>(r: &dyn Rig<T>) -> Vec<Slot> {
    PARAMS.into_iter().filter(|s| r.has(*s) && r.len(*s) > 0).collect()
}

fn watched<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>, free: bool) -> Result<bool, String> {
    let slots = visible(r);
    let before: Vec<Vec<u64>> = slots.iter().map(|s| bits_of(&r.get(*s))).collect();
    let (x, p) = (bits_of(&r.get(Slot::X)), bits_of(&r.get(Slot::P)));
    let done = if free && !T::FIXED {
        apply(r, op);
        true
    } else {
        unjudged(c, r, op)? == Judged::Checked
    };
    if !done {
        return Ok(false);
    }
    for (s, b) in slots.iter().zip(&before) {
        let after = bits_of(&r.get(*s));
        c.that(&after == b, || format!("{} changed {s:?} from {b:x?} to {after:x?}", op.name()))?;
    }
    c.count(&format!("{}: parameters read back", op.name()), slots.len() as u64);
    c.nontrivial(x != bits_of(&r.get(Slot::X)) || p != bits_of(&r.get(Slot::P)));
    Ok(true)
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

fn run<T: Num>(rep: &mut Rep, makes: &[Make<T>], rounds: usize, steps: usize) {
    for (w, n, u, m, mk) in makes {
        let base = format!("{}/{w}/n{n}u{u}m{m}", T::NAME);
        let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*mk(), k)).collect();
        for kind in &kinds {
            for round in 0..rounds {
                rep.case(&format!("{base}/{kind}#{round}"), |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    // also arbitrary, asymmetric, indefinite and non-finite parameters
                    if round % 3 != 0 {
                        for s in visible(&*r) {
                            if c.rng.chance(1, 2) && (!T::FIXED || ![Slot::R, Slot::Q, Slot::QC].contains(&s)) {
                                let mut v = r.get(s);
                                for e in v.iter_mut() {
                                    if c.rng.chance(1, 3) {
                                        *e = hostile(&mut c.rng);
                                    }
                                }
                                r.put(s, &v);
                                c.input(&v);
                            }
                        }
                    }
                    c.sample(|| visible(&*r).iter().map(|s| format!("{s:?}={:?} ", r.get(*s))).collect());
                    let op = make_op::<T>(&mut c.rng, kind, r.dims());
                    // twice: leftovers of the first step may flow back in the second
                    if watched(c, &mut *r, &op, true)? && (tame(&*r) || !T::FIXED) {
                        watched(c, &mut *r, &op, true)?;
                    }
                    Ok(())
                });
            }
        }
        rep.case(&format!("{base}/mission"), |c| {
            let mut r = mk();
            fill_all(c, &mut *r);
            settle(c, &mut *r);
            for k in 0..steps {
                if !tame(&*r) || k % 40 == 39 {
                    fill_all(c, &mut *r);
                    settle(c, &mut *r);
                }
                let kind = *c.rng.pick(&kinds);
                let op = make_op::<T>(&mut c.rng, kind, r.dims());
                if !watched(c, &mut *r, &op, false).map_err(|e| format!("step {k}: {e}"))? {
                    settle(c, &mut *r);
                }
            }
            Ok(())
        });
    }
}

fn all<T: Sets>(rep: &mut Rep) {
    let (rounds, steps) = (rep.r(12, 150), rep.n(300, 4000));
    run::<T>(rep, &T::slices(), rounds, steps);
    #[cfg(feature = "alloc")]
    {
        run::<T>(rep, &T::owned(), rounds, steps);
        run::<T>(rep, &T::owned_ext(), rounds, steps);
    }
    if !rep.tiny {
        let rounds = rep.n(8, 30);
        run::<T>(rep, &T::wide(), rounds, 5);
    }
}

fn main() {
    let mut rep = Rep::new(
        "C10",
        "A case is one filter with generated (also hostile) parameters run through one step twice, or one mission; \
         non-trivial when a step changed state or covariance; distinct by all inputs.",
    );
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
