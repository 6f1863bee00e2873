//! Workloads shared by the monitors that judge filter steps against the reference model.

use crate::gen;
use crate::mission::*;
use crate::num::Num;
use crate::rep::{Case, Rep};
use crate::rig::{shape, Make, Rig, Slot, Slot::*};
use crate::rng::Rng;

pub fn make_op<T: Num>(rng: &mut Rng, kind: &str, dims: (usize, usize, usize)) -> Op<T> {
    let (n, _, m) = dims;
    match kind {
        "predict" => Op::Predict,
        "tuned" => Op::Tuned(lambda::<T>(rng)),
        "control" => Op::Control,
        "correct" => Op::Correct,
        "predict_nl" => Op::PredictNl(motion(rng, n)),
        "tuned_nl" => Op::TunedNl(lambda::<T>(rng), motion(rng, n)),
        "correct_nl" => Op::CorrectNl(Model::any(rng, n, m)),
        k => panic!("kind {k}"),
    }
}

/// As `make_op`, without model functions that go off the rails.
pub fn make_op_tame<T: Num>(rng: &mut Rng, kind: &str, dims: (usize, usize, usize)) -> Op<T> {
    let mut op = make_op::<T>(rng, kind, dims);
    if let Op::PredictNl(m) | Op::TunedNl(_, m) = &mut op {
        if m.kind == "wild" {
            *m = Model::any(rng, dims.0, dims.0);
        }
    }
    op
}

fn motion<T: Num>(rng: &mut Rng, n: usize) -> Model<T> {
    if rng.chance(1, 8) {
        Model::wild(rng, n, n)
    } else {
        Model::any(rng, n, n)
    }
}

pub fn can<T: Num>(r: &dyn Rig<T>, kind: &str) -> bool {
    match kind {
        "predict" | "tuned" | "correct" => r.linear(),
        "control" => r.linear(),
        _ => r.nonlinear(),
    }
}

pub fn classes(s: Slot) -> &'static [&'static str] {
    match s {
        P | Q | QC | R => gen::COV_CLASSES,
        _ => gen::GEN_CLASSES,
    }
}

fn relevant<T: Num>(r: &dyn Rig<T>) -> Vec<Slot> {
    let (n, u, m) = r.dims();
    [A, X, P, Q, B, U, QC, H, Z, R]
        .into_iter()
        .filter(|s| r.has(*s))
        .filter(|s| {
            let (a, b) = shape(*s, n, u, m);
            a * b > 0
        })
        .collect()
}

pub fn fill_all<T: Num>(c: &mut Case, r: &mut dyn Rig<T>) {
    for s in relevant(r) {
        fill(c, r, s);
    }
}

/// Puts the filter into a bounded, well-behaved configuration.
pub fn settle<T: Num>(c: &mut Case, r: &mut dyn Rig<T>) {
    let (n, _, _) = r.dims();
    let a = gen::stable::<T>(&mut c.rng, n);
    r.put(A, &a);
    c.input(&a);
    fill(c, r, X);
    let k = *c.rng.pick(&["dense", "identity", "diag", "correlated", "integer"]);
    fill_as(c, r, P, k);
}

fn count(c: &mut Case, j: Judged) {
    if j == Judged::NoClaim {
        c.count("steps outside the claim, not performed", 1);
    }
}

/// Every structure of every relevant operand, for every shape; two steps each.
pub fn singles<T: Num>(rep: &mut Rep, makes: &[Make<T>], kinds: &[&'static str], sweep: &[Slot], rounds: usize) {
    for (wiring, n, u, m, mk) in makes {
        for kind in kinds {
            if !can(&*mk(), kind) {
                continue;
            }
            for s in sweep {
                let (a, b) = shape(*s, *n, *u, *m);
                if a * b == 0 || !mk().has(*s) {
                    continue;
                }
                for class in classes(*s) {
                    for round in 0..rounds {
                        let label = format!("{}/{wiring}/n{n}u{u}m{m}/{kind}/{s:?}-{class}#{round}", T::NAME);
                        rep.case(&label, |c| {
                            let mut r = mk();
                            fill_all(c, &mut *r);
                            fill_as(c, &mut *r, *s, class);
                            c.sample(|| {
                                format!("x={:?} P={:?} {s:?}={:?}", r.get(X), r.get(P), r.get(*s))
                            });
                            for _ in 0..2 {
                                let op = make_op::<T>(&mut c.rng, kind, r.dims());
                                let j = checked(c, &mut *r, &op)?;
                                count(c, j);
                                if j == Judged::NoClaim || !tame(&*r) {
                                    break;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

/// Long sequences on one filter: judged steps mixed with other steps and parameter changes.
pub fn missions<T: Num>(
    rep: &mut Rep,
    makes: &[Make<T>],
    judged: &[&'static str],
    others: &[&'static str],
    steps: usize,
    rounds: usize,
) {
    for (wiring, n, u, m, mk) in makes {
        for round in 0..rounds {
            let label = format!("{}/{wiring}/n{n}u{u}m{m}/{}#{round}", T::NAME, if steps > 20_000 { format!("marathon-{}", judged[0]) } else { "mission".into() });
            rep.case(&label, |c| {
                let mut r = mk();
                let j: Vec<&'static str> = judged.iter().copied().filter(|k| can(&*r, k)).collect();
                let o: Vec<&'static str> = others
                    .iter()
                    .copied()
                    .filter(|k| can(&*r, k))
                    .collect();
                if j.is_empty() {
                    return Ok(());
                }
                let slots = relevant(&*r);
                fill_all(c, &mut *r);
                settle(c, &mut *r);
                for k in 0..steps {
                    if c.rng.chance(1, 3) {
                        let s = *c.rng.pick(&slots);
                        if s == A && (T::FIXED || c.rng.chance(2, 3)) {
                            let a = gen::stable::<T>(&mut c.rng, *n);
                            r.put(A, &a);
                        } else {
                            fill(c, &mut *r, s);
                        }
                    }
                    if !tame(&*r) || k % 60 == 59 {
                        settle(c, &mut *r);
                    }
                    let jd = if !o.is_empty() && c.rng.chance(2, 5) {
                        let kind = *c.rng.pick(&o);
                        let op = make_op::<T>(&mut c.rng, kind, r.dims());
                        unjudged(c, &mut *r, &op)?
                    } else {
                        let kind = *c.rng.pick(&j);
                        let op = make_op::<T>(&mut c.rng, kind, r.dims());
                        checked(c, &mut *r, &op).map_err(|e| format!("step {k}: {e}"))?
                    };
                    count(c, jd);
                    if jd == Judged::NoClaim {
                        settle(c, &mut *r);
                        fill(c, &mut *r, R);
                    }
                }
                Ok(())
            });
        }
    }
}


/// More consecutive steps of one kind on one small filter than an 8 or 16 bit counter can hold.
pub fn marathons<T: Num>(rep: &mut Rep, makes: &[Make<T>], judged: &[&'static str]) {
    if rep.tiny || T::NAME != "f64" {
        return;
    }
    let mut seen: Vec<&str> = vec![];
    let mut small: Vec<Make<T>> = vec![];
    for (w, n, u, m, mk) in makes {
        if *n == 2 && !seen.contains(w) && judged.iter().any(|k| can(&*mk(), k)) {
            seen.push(w);
            small.push((*w, *n, *u, *m, *mk));
        }
    }
    for k in judged {
        missions(rep, &small, &[k], &[], 70_000, 1);
    }
}

/// Measurements without noise in some or all of their components: R is singular, S is not.
pub fn noiseless<T: Num>(rep: &mut Rep, makes: &[Make<T>], judged: &[&'static str]) {
    for (wiring, n, u, m, mk) in makes {
        for kind in judged {
            if !kind.starts_with("correct") || m > n || !can(&*mk(), kind) {
                continue;
            }
            for round in 0..if rep.tiny { 1 } else { rep.r(8, 60) } {
                let label = format!("{}/{wiring}/n{n}u{u}m{m}/{kind}/noiseless#{round}", T::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    let k = *c.rng.pick(&["dense", "dense", "identity", "diag", "correlated", "integer", "tridiag", "scalar"]);
                    fill_as(c, &mut *r, P, k);
                    if c.rng.chance(1, 2) {
                        // selects states
                        let at = c.rng.below(n - m + 1);
                        let g = c.rng.chance(1, 2);
                        let h: Vec<T> = (0..n * m)
                            .map(|i| if i % n == i / n + at { T::one() } else if g && i % n > i / n + at { T::of(c.rng.int(-2, 2) as f64 * 0.25) } else { T::zero() })
                            .collect();
                        r.put(H, &h);
                        c.input(&h);
                    }
                    let k = *c.rng.pick(&["zero", "zero", "partial", "rank1", "first", "last", "lastcertain", "firstcertain"]);
                    let v = gen::cov::<T>(&mut c.rng, k, *m);
                    r.put(R, &v);
                    c.input(&v);
                    let op = make_op::<T>(&mut c.rng, kind, r.dims());
                    let j = checked(c, &mut *r, &op)?;
                    count(c, j);
                    if j != Judged::NoClaim {
                        c.count("updates with singular noise judged", 1);
                    }
                    Ok(())
                });
            }
        }
    }
}

/// A few steps on filters of extraordinary size.
pub fn wide<T: crate::Sets>(rep: &mut Rep, judged: &[&'static str]) {
    if rep.tiny {
        return;
    }
    for (wiring, n, u, m, mk) in &T::wide() {
        for kind in judged {
            if !can(&*mk(), kind) {
                continue;
            }
            for round in 0..rep.r(2, 12) {
                let label = format!("{}/{wiring}/n{n}u{u}m{m}/{kind}/wide#{round}", T::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    if round == 0 {
                        settle(c, &mut *r);
                    }
                    let op = make_op::<T>(&mut c.rng, kind, r.dims());
                    let j = checked(c, &mut *r, &op)?;
                    count(c, j);
                    if j != Judged::NoClaim {
                        c.count("steps on filters of extraordinary size", 1);
                    }
                    Ok(())
                });
            }
        }
    }
}

/// Sizes of the workload: (rounds of singles, mission steps, mission rounds).
pub fn sizes(rep: &Rep) -> (usize, usize, usize) {
    if rep.tiny {
        (1, 12, 1)
    } else if rep.thorough {
        (24, 3000, 8)
    } else {
        (rep.r(3, 3), 400, rep.r(2, 2))
    }
}

/// The standard workload of a step property, over all number types.
pub fn standard(rep: &mut Rep, judged: &[&'static str], others: &[&'static str], sweep: &[Slot]) {
    fn go<T: crate::Sets>(rep: &mut Rep, judged: &[&'static str], others: &[&'static str], sweep: &[Slot]) {
        let (rounds, steps, mrounds) = sizes(rep);
        let nl = judged.iter().any(|k| k.ends_with("_nl"));
        let lin = judged.iter().any(|k| !k.ends_with("_nl"));
        let mut makes = T::slices();
        #[cfg(feature = "alloc")]
        {
            if lin {
                makes.extend(T::owned());
            }
            if nl {
                makes.extend(T::owned_ext());
            }
        }
        let _ = (nl, lin);
        singles(rep, &makes, judged, sweep, rounds);
        noiseless(rep, &makes, judged);
        missions(rep, &makes, judged, others, steps, mrounds);
        marathons(rep, &makes, judged);
        wide::<T>(rep, judged);
    }
    go::<f64>(rep, judged, others, sweep);
    go::<f32>(rep, judged, others, sweep);
    #[cfg(feature = "fixed")]
    {
        go::<fixed::types::I16F16>(rep, judged, others, sweep);
        go::<fixed::types::I32F32>(rep, judged, others, sweep);
    }
}
