//! C26: the same missions in every build. This program judges nothing: it records what the
//! library computed, and `check.py` compares the records of all builds with one another.
//!
//! Every line of the record: key, class, bit patterns, tolerances.
//!   E  no square root and no reciprocal involved: equal bits in every build
//!   R  square roots or reciprocals involved: equal bits in builds with the same back end, within
//!      the tolerance across exact back ends, not compared with the approximate one
//!   V  f64 reciprocals involved: as R, but the approximate back end takes part in the comparison
use kfmon::drive::{can, fill_all, make_op_tame, settle};
use kfmon::mats::*;
use kfmon::mission::*;
use kfmon::rig::{Make, Rig, Slot};
use kfmon::*;
use std::io::Write as _;
use std::sync::Mutex;

static OUT: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);

fn line(key: &str, class: char, bits: &str, tol: &str) {
    if let Some(f) = OUT.lock().unwrap().as_mut() {
        writeln!(f, "{key}\t{class}\t{bits}\t{tol}").unwrap();
    }
}
fn hex<T: Num>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| if x.f().is_nan() { "nan".into() } else if x.f() == 0.0 { "0".into() } else { format!("{:x}", x.bits()) }).collect();
    s.join(",")
}
fn record<T: Num>(c: &mut Case, key: &str, class: char, v: &[T], tol: &[f64]) {
    let class = if T::FIXED { 'E' } else { class };
    let t: Vec<String> = if class == 'E' { vec![] } else { tol.iter().map(|t| format!("{t:e}")).collect() };
    let vals = if class == 'E' {
        hex(v)
    } else {
        // decimal values next to the bits, so that they can be compared within a tolerance
        hex(v) + ";" + &v.iter().map(|x| format!("{:e}", x.f())).collect::<Vec<_>>().join(",")
    };
    line(key, class, &vals, &t.join(","));
    c.evals += 1;
    c.count("results recorded", v.len() as u64);
}

/// The conditions under which a step is performed must not depend on the build.
fn arith<T: Num>() -> Ar {
    Ar { u: T::U, d: T::DELTA, fr: 4.0 * T::U }
}

fn class<T: Num>(kind: &str) -> char {
    match kind {
        "predict" | "control" | "predict_nl" => 'E',
        "tuned" | "tuned_nl" if T::NAME == "f64" => 'V',
        _ => 'R',
    }
}

/// One step on both sides of the record. Returns false when the mission cannot go on.
fn step<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, key: &str, kind: &str) -> Result<bool, String> {
    let op = make_op_tame::<T>(&mut c.rng, kind, r.dims());
    c.want = None;
    // (message and place of a panic may differ between builds)
    let j = guarded(|| step_ar(c, r, &op, arith::<T>(), false));
    match j {
        Err(_) => {
            line(key, 'E', "panic", "");
            return Ok(false);
        }
        Ok(Err(e)) => return Err(e),
        Ok(Ok(Judged::NoClaim)) => {
            line(key, 'E', "not performed", "");
            c.count("steps outside the claim, not performed", 1);
            return Ok(false);
        }
        Ok(Ok(Judged::Checked)) => {}
    }
    let (x, p) = (r.get(Slot::X), r.get(Slot::P));
    let [wx, ex, wp, ep] = c.want.take().expect("no expectation");
    let k = class::<T>(kind);
    let tol = |e: &[f64]| e.iter().map(|e| 2.0 * rep::SLACK * e).collect::<Vec<_>>();
    record(c, &format!("{key}/x"), if kind.starts_with("tuned") { 'E' } else { k }, &x, &tol(&ex));
    record(c, &format!("{key}/P"), k, &p, &tol(&ep));
    c.nontrivial(true);
    if k != 'E' && !T::FIXED {
        // go on from the same numbers in every build
        r.put(Slot::X, &to_t::<T>(&wx));
        r.put(Slot::P, &to_t::<T>(&wp));
    }
    Ok(true)
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

fn filters<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let (rounds, steps, long) = (rep.r(24, 150), rep.n(200, 1200), rep.n(2, 10));
    for (w, n, u, m, mk) in makes {
        let base = format!("{}/{w}/n{n}u{u}m{m}", T::NAME);
        let kinds: Vec<&'static str> = KINDS.into_iter().filter(|k| can(&*mk(), k)).collect();
        for kind in &kinds {
            for round in 0..rounds {
                let label = format!("{base}/{kind}#{round}");
                rep.case(&label, |c| {
                    let mut r = mk();
                    fill_all(c, &mut *r);
                    c.sample(|| format!("x={:?} P={:?}", r.get(Slot::X), r.get(Slot::P)));
                    for k in 0..2 {
                        if !tame(&*r) || !step(c, &mut *r, &format!("{label}/{k}"), kind)? {
                            break;
                        }
                    }
                    Ok(())
                });
            }
        }
        for round in 0..long {
            let label = format!("{base}/mission#{round}");
            rep.case(&label, |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                settle(c, &mut *r);
                for k in 0..steps {
                    if c.rng.chance(1, 4) {
                        fill_all(c, &mut *r);
                        settle(c, &mut *r);
                    }
                    if !tame(&*r) || k % 40 == 39 {
                        settle(c, &mut *r);
                    }
                    let kind = *c.rng.pick(&kinds);
                    if !step(c, &mut *r, &format!("{label}/{k}:{kind}"), kind)? {
                        fill_all(c, &mut *r);
                        settle(c, &mut *r);
                    }
                }
                Ok(())
            });
        }
        // without square roots and reciprocals: nothing is put back in between, all bits count
        let exact: Vec<&'static str> = ["predict", "control", "predict_nl"].into_iter().filter(|k| kinds.contains(k)).collect();
        for round in 0..long {
            let label = format!("{base}/unbroken#{round}");
            rep.case(&label, |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                settle(c, &mut *r);
                for k in 0..steps.min(60) {
                    let kind = *c.rng.pick(&exact);
                    if !tame(&*r) || !step(c, &mut *r, &format!("{label}/{k}:{kind}"), kind)? {
                        break;
                    }
                }
                Ok(())
            });
        }
        if T::FIXED {
            continue;
        }
        // NaN, infinities and extremes flow through the same way
        for round in 0..rounds {
            let label = format!("{base}/hostile#{round}");
            rep.case(&label, |c| {
                let mut r = mk();
                fill_all(c, &mut *r);
                let big = if T::NAME == "f32" { 3e38 } else { 1e308 };
                for k in 0..3 {
                    for s in [Slot::A, Slot::X, Slot::P, Slot::Q, Slot::B, Slot::U, Slot::QC] {
                        if !r.has(s) || r.len(s) == 0 || c.rng.chance(1, 2) {
                            continue;
                        }
                        let mut v = r.get(s);
                        let at = c.rng.below(v.len());
                        v[at] = T::of([f64::NAN, f64::INFINITY, -big, big, 1e-40, -0.0, f64::NEG_INFINITY][c.rng.below(7)]);
                        r.put(s, &v);
                        c.input(&v);
                    }
                    let kind = *c.rng.pick(&exact);
                    let op = make_op_tame::<T>(&mut c.rng, kind, r.dims());
                    let key = format!("{label}/{k}:{kind}");
                    if guarded(|| apply(&mut *r, &op)).is_err() {
                        line(&key, 'E', "panic", "");
                        break;
                    }
                    let (x, p) = (r.get(Slot::X), r.get(Slot::P));
                    record(c, &format!("{key}/x"), 'E', &x, &[]);
                    record(c, &format!("{key}/P"), 'E', &p, &[]);
                    c.nontrivial(true);
                }
                Ok(())
            });
        }
    }
}

fn operations<T: Num>(rep: &mut Rep) {
    let rounds = rep.r(24, 200);
    let prods = [Prod::<T>::of::<1, 1, 1>(), Prod::of::<2, 3, 4>(), Prod::of::<4, 2, 3>(), Prod::of::<3, 4, 2>(), Prod::of::<5, 5, 5>(), Prod::of::<1, 7, 1>(), Prod::of::<9, 8, 3>()];
    for p in prods {
        for round in 0..rounds {
            let label = format!("{}/products/{}x{}x{}#{round}", T::NAME, p.r, p.k, p.u);
            rep.case(&label, |c| {
                let cl = *c.rng.pick(gen::GEN_CLASSES);
                let (a, b) = (gen::general::<T>(&mut c.rng, cl, p.r, p.k), gen::general::<T>(&mut c.rng, "reals", p.k, p.u));
                let acc = gen::general::<T>(&mut c.rng, "reals", p.r, p.u);
                let s = T::of(0.75);
                c.input(&a);
                c.input(&b);
                c.nontrivial(true);
                let run = |c: &mut Case, what: &str, f: &dyn Fn(&mut [T])| {
                    let mut o = acc.clone();
                    match guarded(|| f(&mut o)) {
                        Ok(()) => record(c, &format!("{label}/{what}"), 'E', &o, &[]),
                        Err(_) => line(&format!("{label}/{what}"), 'E', "panic", ""),
                    }
                };
                run(c, "mult", &|o| (p.mult)(&a, &b, o));
                run(c, "mult_buffered", &|o| (p.mult_buffered)(&a, &b, &mut vec![T::zero(); p.k], o));
                run(c, "mult_transb", &|o| (p.mult_transb)(&a, &b, o));
                run(c, "multadd_transb", &|o| (p.multadd_transb)(&a, &b, o));
                run(c, "multscale_transb", &|o| (p.multscale_transb)(&a, &b, s, o));
                Ok(())
            });
        }
    }
    let elems = [Elem::<T>::of::<1, 1>(), Elem::of::<2, 3>(), Elem::of::<3, 2>(), Elem::of::<4, 4>(), Elem::of::<1, 6>(), Elem::of::<9, 5>()];
    for e in elems {
        for round in 0..rounds {
            let label = format!("{}/elements/{}x{}#{round}", T::NAME, e.r, e.c);
            rep.case(&label, |c| {
                let a = gen::general::<T>(&mut c.rng, "reals", e.r, e.c);
                let b = gen::general::<T>(&mut c.rng, "reals", e.r, e.c);
                let x = gen::general::<T>(&mut c.rng, "reals", e.c, 1);
                let y = gen::general::<T>(&mut c.rng, "reals", e.r, 1);
                c.input(&a);
                c.input(&b);
                c.nontrivial(true);
                let run = |c: &mut Case, what: &str, o: &[T], f: &dyn Fn(&mut [T])| {
                    let mut o = o.to_vec();
                    match guarded(|| f(&mut o)) {
                        Ok(()) => record(c, &format!("{label}/{what}"), 'E', &o, &[]),
                        Err(_) => line(&format!("{label}/{what}"), 'E', "panic", ""),
                    }
                };
                run(c, "mult_rowvector", &y, &|o| (e.mult_rowvector)(&a, &x, o));
                run(c, "multadd_rowvector", &y, &|o| (e.multadd_rowvector)(&a, &x, o));
                run(c, "sub", &b, &|o| (e.sub)(&a, &b, o));
                run(c, "add_inplace_a", &b, &|o| (e.add_inplace_a)(&a, o));
                run(c, "add_inplace_b", &b, &|o| (e.add_inplace_b)(&a, o));
                run(c, "sub_inplace_a", &b, &|o| (e.sub_inplace_a)(&a, o));
                run(c, "sub_inplace_b", &b, &|o| (e.sub_inplace_b)(&a, o));
                run(c, "copy", &b, &|o| (e.copy)(&a, o));
                Ok(())
            });
        }
    }
    let squares = [Sq::<T>::of::<1>(), Sq::of::<2>(), Sq::of::<3>(), Sq::of::<4>(), Sq::of::<5>(), Sq::of::<8>()];
    let rel = if T::NAME == "f64" { 1e-10 } else { 1e-2 };
    for s in squares {
        for round in 0..rounds {
            let label = format!("{}/squares/{}#{round}", T::NAME, s.n);
            rep.case(&label, |c| {
                let n = s.n;
                let l: Vec<f64> = to_f(&gen::lower::<T>(&mut c.rng, n, "dense"));
                let a: Vec<T> = (0..n * n).map(|i| T::of((0..n).map(|k| l[i / n * n + k] * l[i % n * n + k]).sum())).collect();
                c.input(&a);
                c.nontrivial(true);
                let mut f = a.clone();
                match guarded(|| (s.chol)(&mut f)) {
                    Ok(ok) => {
                        let tri: Vec<T> = (0..n * n).filter(|i| i % n <= i / n).map(|i| f[i]).collect();
                        let big = tri.iter().fold(0.0f64, |m, x| m.max(x.f().abs()));
                        line(&format!("{label}/chol"), 'R', &format!("{ok};0"), "0");
                        record(c, &format!("{label}/L"), 'R', &tri, &vec![big * rel; tri.len()]);
                    }
                    Err(_) => line(&format!("{label}/chol"), 'R', "panic;0", "0"),
                }
                let l: Vec<T> = to_t(&l);
                let mut i = vec![T::zero(); n * n];
                match guarded(|| (s.inv)(&l, &mut i)) {
                    Ok(()) => {
                        let big = i.iter().fold(0.0f64, |m, x| m.max(x.f().abs()));
                        record(c, &format!("{label}/inverse"), if T::NAME == "f64" { 'V' } else { 'R' }, &i, &vec![big * rel; n * n]);
                    }
                    Err(_) => line(&format!("{label}/inverse"), 'R', "panic;0", "0"),
                }
                // not positive definite at the very first pivot: refused everywhere, nothing rounded
                let mut bad = a.clone();
                bad[0] = T::of(-1.0);
                match guarded(|| (s.chol)(&mut bad)) {
                    Ok(ok) => line(&format!("{label}/refused"), 'E', &ok.to_string(), ""),
                    Err(_) => line(&format!("{label}/refused"), 'E', "panic", ""),
                }
                Ok(())
            });
        }
    }
}

macro_rules! makes {
    ($t:ty) => {{
        #[allow(unused_mut)]
        let mut v = kfmon::rig_slices!($t; (1, 1, 1), (2, 1, 2), (3, 2, 1), (2, 3, 4), (4, 1, 3), (5, 2, 2), (6, 4, 5), (9, 1, 2));
        #[cfg(feature = "alloc")]
        {
            v.extend(kfmon::rig_owned!($t; (1, 1, 1), (3, 1, 2), (4, 3, 5)));
            v.extend(kfmon::rig_owned_ext!($t; (1, 1), (3, 2), (4, 5)));
        }
        v
    }};
}

fn main() {
    let mut rep = Rep::new(
        "C26",
        "A case is one short or long mission, or one set of matrix operations, recorded in every build; non-trivial when \
         results were recorded; distinct by inputs.",
    );
    if let Ok(p) = std::env::var("KF_OUT") {
        *OUT.lock().unwrap() = Some(std::io::BufWriter::new(std::fs::File::create(p + ".rec").expect("record")));
    }
    filters::<f64>(&mut rep, &makes!(f64));
    filters::<f32>(&mut rep, &makes!(f32));
    operations::<f64>(&mut rep);
    operations::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        filters::<fixed::types::I16F16>(&mut rep, &kfmon::rig_slices!(fixed::types::I16F16; (1, 1, 1), (2, 1, 2), (3, 2, 1), (4, 2, 3)));
        filters::<fixed::types::I32F32>(&mut rep, &kfmon::rig_slices!(fixed::types::I32F32; (1, 1, 1), (2, 1, 2), (3, 2, 1), (4, 2, 3)));
        operations::<fixed::types::I16F16>(&mut rep);
        operations::<fixed::types::I32F32>(&mut rep);
    }
    if let Some(f) = OUT.lock().unwrap().as_mut() {
        f.flush().unwrap();
    }
    rep.finish()
}
