//! C11: what working memory contains beforehand never influences a result. Twins with different
//! leftovers run the same mission and must stay identical, bit for bit.
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mission::*;
use kfmon::rig::{Make, Rig, Slot, PARAMS, SCRATCH};
use kfmon::*;

fn poison<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, style: usize) {
    for s in SCRATCH {
        if !r.has(s) || r.len(s) == 0 {
            continue;
        }
        let n = r.len(s);
        let v: Vec<T> = (0..n)
            .map(|i| match style {
                0 => T::default(),
                1 => T::poison(0),
                2 => T::poison(i),
                3 => T::of(1.0),
                4 => T::of(-3.25),
                _ => {
                    let k = c.rng.below(6);
                    T::poison(k)
                }
            })
            .collect();
        r.put(s, &v);
    }
}

fn compare<T: Num>(c: &mut Case, what: &str, a: &dyn Rig<T>, b: &dyn Rig<T>) -> Chk {
    c.exact(&format!("{what}: state with other leftovers"), &b.get(Slot::X), &a.get(Slot::X))?;
    c.exact(&format!("{what}: covariance with other leftovers"), &b.get(Slot::P), &a.get(Slot::P))
}

/// May this step be performed (fixed point must stay in range)?
fn allowed<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Result<bool, String> {
    if !T::FIXED {
        apply(r, op);
        return Ok(true);
    }
    Ok(unjudged(c, r, op)? == Judged::Checked)
}

/// A model function that panics half way through; the caller catches that and goes on.
fn abandon<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, op: &Op<T>) -> Chk {
    let keep = c.rng.below(9);
    let mut f = |_: &[T], out: &mut [T]| {
        for (i, v) in out.iter_mut().enumerate().take(keep) {
            *v = T::poison(i % 6);
        }
        std::panic::resume_unwind(Box::new(()));
    };
    let went = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
        Op::PredictNl(_) => r.predict_nl(&mut f),
        Op::TunedNl(l, _) => r.predict_tuned_nl(*l, &mut f),
        _ => r.correct_nl(&mut f),
    }));
    c.count("steps abandoned by a panicking model function", 1);
    c.that(went.is_err(), || "the panic of a model function was swallowed".into())
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

fn run<T: Num>(rep: &mut Rep, makes: &[Make<T>], rounds: usize, steps: usize) {
    for (w, n, u, m, mk) in makes {
        let base = format!("{}/{w}/n{n}u{u}m{m}", T::NAME);
        let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*mk(), k)).collect();
        // One step, every style of leftovers; also with data for which the update must fail.
        for kind in &kinds {
            for round in 0..rounds {
                rep.case(&format!("{base}/{kind}#{round}"), |c| {
                    let mut a = mk();
                    fill_all(c, &mut *a);
                    let broken = round % 3 == 2 && !T::FIXED;
                    if broken {
                        // innovation covariance indefinite or not a number
                        let mut v = a.get(Slot::R);
                        let k = c.rng.below(v.len());
                        v[k] = T::of([-50.0, 0.0, f64::NAN, -1e6, 1e30][c.rng.below(5)]);
                        a.put(Slot::R, &v);
                        c.input(&v);
                    }
                    let op = make_op::<T>(&mut c.rng, kind, a.dims());
                    let mut b = mk();
                    for s in PARAMS.into_iter().chain([Slot::X, Slot::P]) {
                        if a.has(s) && a.len(s) > 0 {
                            b.put(s, &a.get(s));
                        }
                    }
                    poison(c, &mut *b, 1 + round % 5);
                    let x0 = a.get(Slot::X);
                    if !allowed(c, &mut *a, &op)? {
                        return Ok(());
                    }
                    apply(&mut *b, &op);
                    compare(c, kind, &*a, &*b)?;
                    c.count(if broken { "steps on invalid data compared" } else { "steps compared" }, 1);
                    c.nontrivial(!same(&x0, &a.get(Slot::X)) || *kind == "control");
                    Ok(())
                });
            }
        }
        // Missions: one twin is re-poisoned before every step, the other one keeps its leftovers.
        for round in 0..rep.r(2, 8) {
            rep.case(&format!("{base}/mission#{round}"), |c| {
                let (mut a, mut b) = (mk(), mk());
                fill_all(c, &mut *a);
                settle(c, &mut *a);
                for k in 0..steps {
                    if !tame(&*a) || k % 40 == 39 {
                        fill_all(c, &mut *a);
                        settle(c, &mut *a);
                    }
                    for s in PARAMS.into_iter().chain([Slot::X, Slot::P]) {
                        if a.has(s) && a.len(s) > 0 {
                            b.put(s, &a.get(s));
                        }
                    }
                    let kind = *c.rng.pick(&kinds);
                    let op = make_op::<T>(&mut c.rng, kind, a.dims());
                    let style = c.rng.below(6);
                    poison(c, &mut *b, style);
                    if !T::FIXED && c.rng.chance(1, 8) {
                        let kind = *c.rng.pick(&["predict_nl", "tuned_nl", "correct_nl"]);
                        let op = make_op::<T>(&mut c.rng, kind, a.dims());
                        abandon(c, &mut *b, &op)?;
                        for s in PARAMS.into_iter().chain([Slot::X, Slot::P]) {
                            if a.has(s) && a.len(s) > 0 {
                                b.put(s, &a.get(s));
                            }
                        }
                    }
                    if !allowed(c, &mut *a, &op)? {
                        settle(c, &mut *a);
                        continue;
                    }
                    apply(&mut *b, &op);
                    compare(c, &format!("step {k} ({kind})"), &*a, &*b)?;
                    c.count("mission steps compared", 1);
                    c.nontrivial(true);
                }
                Ok(())
            });
        }
    }
}

/// Filters whose working memory is not visible: a veteran with a long (also failed) history
/// against a fresh one that is handed the same state.
#[cfg(feature = "alloc")]
fn veterans<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let steps = rep.n(250, 4000);
    for (w, n, u, m, mk) in makes {
        let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&*mk(), k)).collect();
        for round in 0..rep.r(3, 12) {
            rep.case(&format!("{}/{w}/n{n}u{u}m{m}/veteran#{round}", T::NAME), |c| {
                let mut a = mk();
                fill_all(c, &mut *a);
                settle(c, &mut *a);
                for k in 0..steps {
                    if !tame(&*a) || k % 40 == 39 {
                        fill_all(c, &mut *a);
                        settle(c, &mut *a);
                    }
                    let kind = *c.rng.pick(&kinds);
                    let op = make_op::<T>(&mut c.rng, kind, a.dims());
                    if !T::FIXED && c.rng.chance(1, 10) {
                        // leave wreckage behind: a step on data that are not numbers
                        let keep: Vec<(Slot, Vec<T>)> = PARAMS
                            .into_iter()
                            .chain([Slot::X, Slot::P])
                            .filter(|s| a.has(*s) && a.len(*s) > 0)
                            .map(|s| (s, a.get(s)))
                            .collect();
                        let (s, v) = keep[c.rng.below(keep.len())].clone();
                        let q = c.rng.below(6);
                        a.put(s, &vec![T::poison(q); v.len()]);
                        let kind = *c.rng.pick(&kinds);
                        let op = make_op::<T>(&mut c.rng, kind, a.dims());
                        if c.rng.chance(1, 2) && kind.ends_with("_nl") {
                            abandon(c, &mut *a, &op)?;
                        } else {
                            apply(&mut *a, &op);
                        }
                        for (s, v) in &keep {
                            a.put(*s, v);
                        }
                        c.count("wrecking steps", 1);
                    }
                    let mut b = mk();
                    for s in PARAMS.into_iter().chain([Slot::X, Slot::P]) {
                        if a.has(s) && a.len(s) > 0 {
                            b.put(s, &a.get(s));
                        }
                    }
                    if !allowed(c, &mut *a, &op)? {
                        settle(c, &mut *a);
                        continue;
                    }
                    apply(&mut *b, &op);
                    compare(c, &format!("step {k} ({kind}) of a used and a fresh filter"), &*a, &*b)?;
                    c.count("used against fresh", 1);
                    c.nontrivial(true);
                }
                Ok(())
            });
        }
    }
}

fn all<T: Sets>(rep: &mut Rep) {
    let (rounds, steps) = (rep.r(18, 240), rep.n(200, 3000));
    run::<T>(rep, &T::slices(), rounds, steps);
    if !rep.tiny {
        // only the slices give access to the working memory
        let large: Vec<Make<T>> = T::wide().into_iter().filter(|(w, ..)| *w == "slices").collect();
        let rounds = rep.n(8, 30);
        run::<T>(rep, &large, rounds, 4);
    }
    #[cfg(feature = "alloc")]
    {
        veterans::<T>(rep, &T::owned());
        veterans::<T>(rep, &T::owned_ext());
    }
}

fn main() {
    let mut rep = Rep::new(
        "C11",
        "A case is one pair of filters that differ only in their working memory, run through one step or one mission; \
         non-trivial when the step did something; distinct by all inputs.",
    );
    all::<f64>(&mut rep);
    all::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        all::<fixed::types::I16F16>(&mut rep);
        all::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
