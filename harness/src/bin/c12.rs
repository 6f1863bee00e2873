//! C12: every filter behaves as if it were the only one. A mission is recorded once; repeated,
//! interleaved with other filters, run in parallel threads, handed from thread to thread or
//! served by a shared measurement or control object it must give the same results bit for bit.
use kfmon::drive::{can, fill_all, make_op, settle};
use kfmon::mission::*;
use kfmon::rig::{Make, NlFn, Rig, Slot, PARAMS};
use kfmon::rng::fnv;
use kfmon::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

#[derive(Clone)]
enum Event<T> {
    Put(Slot, Vec<T>),
    Do(Op<T>),
}

/// Forwards to the filter and logs what was set.
struct Recorder<T: Num> {
    r: Box<dyn Rig<T>>,
    log: Vec<Event<T>>,
}
impl<T: Num> Rig<T> for Recorder<T> {
    fn name(&self) -> &'static str {
        self.r.name()
    }
    fn dims(&self) -> (usize, usize, usize) {
        self.r.dims()
    }
    fn get(&self, s: Slot) -> Vec<T> {
        self.r.get(s)
    }
    fn put(&mut self, s: Slot, v: &[T]) {
        self.log.push(Event::Put(s, v.to_vec()));
        self.r.put(s, v)
    }
    fn has(&self, s: Slot) -> bool {
        self.r.has(s)
    }
    fn linear(&self) -> bool {
        self.r.linear()
    }
    fn nonlinear(&self) -> bool {
        self.r.nonlinear()
    }
    fn predict(&mut self) {
        self.r.predict()
    }
    fn predict_tuned(&mut self, l: T) {
        self.r.predict_tuned(l)
    }
    fn control(&mut self) {
        self.r.control()
    }
    fn correct(&mut self) {
        self.r.correct()
    }
    fn predict_nl(&mut self, f: NlFn<T>) {
        self.r.predict_nl(f)
    }
    fn predict_tuned_nl(&mut self, l: T, f: NlFn<T>) {
        self.r.predict_tuned_nl(l, f)
    }
    fn correct_nl(&mut self, f: NlFn<T>) {
        self.r.correct_nl(f)
    }
}

const KINDS: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];

fn print_of<T: Num>(r: &dyn Rig<T>) -> u64 {
    let mut h = 0;
    for s in [Slot::X, Slot::P] {
        for v in r.get(s) {
            let b = if v.f().is_nan() { 0x7ff8_dead } else { v.bits() };
            h = fnv(h, &b.to_le_bytes());
        }
    }
    h
}

/// A mission and the fingerprint of (x, P) after each of its steps.
struct Mission<T> {
    events: Vec<Event<T>>,
    trace: Vec<u64>,
    mk: fn() -> Box<dyn Rig<T>>,
}

fn record<T: Num>(c: &mut Case, mk: fn() -> Box<dyn Rig<T>>, steps: usize) -> Result<Mission<T>, String> {
    let mut r = Recorder { r: mk(), log: vec![] };
    let kinds: Vec<&str> = KINDS.into_iter().filter(|k| can(&r, k)).collect();
    let mut trace = vec![];
    fill_all(c, &mut r);
    settle(c, &mut r);
    let slots: Vec<Slot> = PARAMS.into_iter().filter(|s| r.has(*s) && r.len(*s) > 0).collect();
    let mut wrecked: Option<(Slot, Vec<T>)> = None;
    for k in 0..steps {
        if let Some((s, v)) = wrecked.take() {
            r.put(s, &v);
            settle(c, &mut r);
        }
        if c.rng.chance(1, 3) {
            let s = *c.rng.pick(&slots);
            if s == Slot::A {
                let a = gen::stable::<T>(&mut c.rng, r.dims().0);
                r.put(s, &a);
            } else {
                fill(c, &mut r, s);
            }
        }
        if !tame(&r) || k % 40 == 39 {
            settle(c, &mut r);
        }
        let kind = *c.rng.pick(&kinds);
        let op = make_op::<T>(&mut c.rng, kind, r.dims());
        if T::FIXED {
            if unjudged(c, &mut r, &op)? == Judged::NoClaim {
                settle(c, &mut r);
                fill(c, &mut r, Slot::R);
                continue;
            }
        } else {
            if c.rng.chance(1, 12) {
                // data for which the update must fail
                let keep = r.get(Slot::R);
                let mut v = keep.clone();
                let at = c.rng.below(v.len());
                v[at] = T::of([-1e3, f64::NAN, 0.0, f64::INFINITY][c.rng.below(4)]);
                r.put(Slot::R, &v);
                wrecked = Some((Slot::R, keep));
            }
            apply(&mut r, &op);
        }
        r.log.push(Event::Do(op));
        trace.push(print_of(&r));
    }
    Ok(Mission { events: r.log, trace, mk })
}

/// Runs events up to and including the next step; returns its fingerprint.
fn advance<T: Num>(r: &mut dyn Rig<T>, events: &[Event<T>], at: &mut usize) -> Option<u64> {
    while *at < events.len() {
        let e = &events[*at];
        *at += 1;
        match e {
            Event::Put(s, v) => r.put(*s, v),
            Event::Do(op) => {
                apply(r, op);
                return Some(print_of(r));
            }
        }
    }
    None
}

fn agree(c: &mut Case, what: &str, got: &[u64], want: &[u64]) -> Chk {
    let n = got.iter().zip(want).position(|(a, b)| a != b);
    c.that(got.len() == want.len() && n.is_none(), || {
        format!("{what}: the results differ from those of the first run from step {} on", n.unwrap_or(got.len().min(want.len())))
    })
}

fn solo<T: Num>(m: &Mission<T>) -> Vec<u64> {
    let mut r = (m.mk)();
    let (mut at, mut t) = (0, vec![]);
    while let Some(h) = advance(&mut *r, &m.events, &mut at) {
        t.push(h);
    }
    t
}

/// As `advance`; `other` is called before and after every evaluation of a model function.
fn advance_around<T: Num>(r: &mut dyn Rig<T>, events: &[Event<T>], at: &mut usize, other: &mut dyn FnMut()) -> Option<u64> {
    while *at < events.len() {
        let e = &events[*at];
        *at += 1;
        let op = match e {
            Event::Put(s, v) => {
                r.put(*s, v);
                continue;
            }
            Event::Do(op) => op,
        };
        let mut s = seen::<T>();
        let (Op::PredictNl(m) | Op::TunedNl(_, m) | Op::CorrectNl(m)) = op else {
            apply(r, op);
            return Some(print_of(r));
        };
        let mut f = spy(m, &mut s);
        let mut g = |a: &[T], b: &mut [T]| {
            other();
            f(a, b);
            other();
        };
        match op {
            Op::PredictNl(_) => r.predict_nl(&mut g),
            Op::TunedNl(l, _) => r.predict_tuned_nl(*l, &mut g),
            _ => r.correct_nl(&mut g),
        }
        return Some(print_of(r));
    }
    None
}

/// Filters that run inside the model functions of another filter (three deep).
fn nested<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let steps = rep.n(120, 1500);
    let outer: Vec<Make<T>> = makes.iter().filter(|(.., mk)| mk().nonlinear()).copied().collect();
    for round in 0..rep.r(if rep.tiny { 3 } else { 40 }, 300) {
        rep.case(&format!("{}/nested#{round}", T::NAME), |c| {
            let mk = c.rng.pick(&outer).4;
            let a = record(c, mk, steps)?;
            // the same kind of filter inside, or any other
            let same = c.rng.chance(1, 2);
            let mkb = if same { mk } else { c.rng.pick(&outer).4 };
            let b = record(c, mkb, steps)?;
            let mk = c.rng.pick(makes).4;
            let d = record(c, mk, steps)?;
            let (mut ra, mut rb, mut rd) = ((a.mk)(), (b.mk)(), (d.mk)());
            let (mut ata, mut atb, mut atd) = (0, 0, 0);
            let (mut ta, mut tb, mut td) = (vec![], vec![], vec![]);
            let mut depth = 0u64;
            while let Some(h) = advance_around(&mut *ra, &a.events, &mut ata, &mut || {
                let mut inner = || {
                    if let Some(h) = advance(&mut *rd, &d.events, &mut atd) {
                        td.push(h);
                        depth += 1;
                    }
                };
                if let Some(h) = advance_around(&mut *rb, &b.events, &mut atb, &mut inner) {
                    tb.push(h);
                }
            }) {
                ta.push(h);
            }
            agree(c, "a filter whose model functions run other filters", &ta, &a.trace)?;
            agree(c, "a filter inside a model function", &tb, &b.trace[..tb.len()])?;
            agree(c, "a filter inside a model function inside a model function", &td, &d.trace[..td.len()])?;
            c.count("steps inside model functions", tb.len() as u64);
            c.count("steps two model functions deep", depth);
            c.nontrivial(!tb.is_empty());
            Ok(())
        });
    }
}

fn pools<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
    let steps = rep.n(120, 1500);
    let marathon = rep.n(300_000, 3_000_000);
    // Repetition, one filter at a time.
    for (w, n, u, m, mk) in makes {
        rep.case(&format!("{}/{w}/n{n}u{u}m{m}/repeat", T::NAME), |c| {
            let s = record(c, *mk, steps)?;
            for _ in 0..2 {
                agree(c, "the same mission again", &solo(&s), &s.trace)?;
            }
            c.count("steps repeated", 2 * s.trace.len() as u64);
            c.nontrivial(s.trace.iter().collect::<HashSet<_>>().len() > 5);
            c.sample(|| format!("{} events, fingerprints {:x?}...", s.events.len(), &s.trace[..3.min(s.trace.len())]));
            Ok(())
        });
    }
    // A life long enough for 16-bit counters to run over several times: the same events again and
    // again on one object, judged by the first round.
    let mut taken = HashSet::new();
    for (w, n, u, m, mk) in makes {
        if rep.tiny || *n > 2 || *m > 2 || *u > 2 || !taken.insert((w.to_string(), *n == 1)) {
            continue;
        }
        rep.case(&format!("{}/{w}/n{n}u{u}m{m}/marathon", T::NAME), |c| {
            let s = record(c, *mk, 60)?;
            let total = marathon / s.trace.len().max(1);
            let mut r = (s.mk)();
            for lap in 0..total {
                let (mut at, mut t) = (0, 0);
                while let Some(h) = advance(&mut *r, &s.events, &mut at) {
                    c.that(h == s.trace[t], || format!("lap {lap}, step {t}: the result differs from that of the first lap"))?;
                    t += 1;
                }
            }
            c.count("steps of marathons", (total * s.trace.len()) as u64);
            c.nontrivial(s.trace.iter().collect::<HashSet<_>>().len() > 5);
            Ok(())
        });
    }
    // Interleaved filters of different shapes and kinds; the same mission appears twice.
    for round in 0..rep.r(12, 80) {
        rep.case(&format!("{}/interleaved#{round}", T::NAME), |c| {
            let k = 2 + c.rng.below(6);
            let mut ms = vec![];
            for _ in 0..k {
                let mk = c.rng.pick(makes).4;
                ms.push(record(c, mk, steps)?);
            }
            let mut run: Vec<(usize, Box<dyn Rig<T>>, usize, Vec<u64>)> = vec![];
            for i in (0..k).chain([0]) {
                run.push((i, (ms[i].mk)(), 0, vec![]));
            }
            let mut live: Vec<usize> = (0..run.len()).collect();
            let (mut last, mut switches) = (usize::MAX, 0);
            while !live.is_empty() {
                let p = c.rng.below(live.len());
                let j = live[p];
                for _ in 0..1 + c.rng.below(3) {
                    let (i, r, at, t) = &mut run[j];
                    match advance(&mut **r, &ms[*i].events, at) {
                        Some(h) => t.push(h),
                        None => {
                            live.retain(|x| *x != j);
                            break;
                        }
                    }
                }
                switches += (last != j) as u64;
                last = j;
            }
            for (i, _, _, t) in &run {
                agree(c, &format!("filter {i} of {k} interleaved ones"), t, &ms[*i].trace)?;
            }
            c.count("switches between filters", switches);
            c.nontrivial(switches > 10);
            Ok(())
        });
    }
    // Parallel threads; the interleaving that happened is observed through tickets.
    for round in 0..rep.r(10, 60) {
        let mut seen = HashSet::new();
        rep.case(&format!("{}/threads#{round}", T::NAME), |c| {
            let k = 3;
            let mut ms = vec![];
            for _ in 0..k {
                let mk = c.rng.pick(makes).4;
                ms.push(record(c, mk, steps)?);
            }
            let threads = 8;
            let yields: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
            let order = Mutex::new(Vec::<u8>::new());
            let go = Barrier::new(threads);
            let traces: Vec<Vec<u64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let (m, order, go, y) = (&ms[t % k], &order, &go, yields[t]);
                        s.spawn(move || {
                            let mut r = (m.mk)();
                            let (mut at, mut tr) = (0, vec![]);
                            go.wait();
                            while let Some(h) = advance(&mut *r, &m.events, &mut at) {
                                tr.push(h);
                                order.lock().unwrap().push(t as u8);
                                if (y >> (tr.len() % 61)) & 3 == 0 {
                                    std::thread::yield_now();
                                }
                            }
                            tr
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            for (t, tr) in traces.iter().enumerate() {
                agree(c, &format!("thread {t} of {threads}"), tr, &ms[t % k].trace)?;
            }
            let o = order.into_inner().unwrap();
            let sw = o.windows(2).filter(|w| w[0] != w[1]).count();
            seen.insert(fnv(0, &o));
            c.count("steps in parallel", o.len() as u64);
            c.count("switches between threads observed", sw as u64);
            c.nontrivial(sw > 0);
            Ok(())
        });
        let n = seen.len() as u64;
        rep.count("distinct thread interleavings", n);
    }
    // One filter, handed to another thread for every step.
    for (w, n, u, m, mk) in makes.iter().step_by(3) {
        rep.case(&format!("{}/{w}/n{n}u{u}m{m}/moved", T::NAME), |c| {
            let s = record(c, *mk, 25)?;
            let mut r = Some((s.mk)());
            let (mut at, mut tr) = (0, vec![]);
            let hops = AtomicUsize::new(0);
            loop {
                let mut mine = r.take().unwrap();
                let (events, hops) = (&s.events, &hops);
                let (back, h, a) = std::thread::scope(|sc| {
                    sc.spawn(move || {
                        let mut a = at;
                        let h = advance(&mut *mine, events, &mut a);
                        hops.fetch_add(1, Ordering::Relaxed);
                        (mine, h, a)
                    })
                    .join()
                    .expect("thread")
                });
                r = Some(back);
                at = a;
                match h {
                    Some(h) => tr.push(h),
                    None => break,
                }
            }
            agree(c, "handed from thread to thread", &tr, &s.trace)?;
            c.count("moves between threads", hops.into_inner() as u64);
            c.nontrivial(true);
            Ok(())
        });
    }
}

/// Several filters take turns with the same measurement and control object, whose parameters change
/// now and then. Twins of the filters are served by objects made for that one step.
#[cfg(feature = "alloc")]
mod shared {
    use super::*;
    use kfmon::rig::owned::{ExtRig, RegRig};
    use kfmon::rig::Slot::*;

    fn params<T: Num>(c: &mut Case, r: &mut dyn Rig<T>, slots: &[Slot]) {
        for s in slots {
            if r.len(*s) > 0 && c.rng.chance(1, 3) {
                fill(c, r, *s);
            }
        }
    }

    fn copy<T: Num>(from: &dyn Rig<T>, to: &mut dyn Rig<T>, slots: &[Slot]) {
        for s in slots {
            if from.has(*s) && from.len(*s) > 0 {
                to.put(*s, &from.get(*s));
            }
        }
    }

    pub fn linear<const NN: usize, const NU: usize, const NM: usize, T: Num>(rep: &mut Rep) {
        let (rounds, steps) = (rep.r(4, 20), rep.n(150, 2000));
        for round in 0..rounds {
            rep.case(&format!("{}/shared/n{NN}u{NU}m{NM}#{round}", T::NAME), |c| {
                let k = 2 + c.rng.below(3);
                let mut fs: Vec<RegRig<NN, NU, NM, T>> = (0..k).map(|_| RegRig::new()).collect();
                for f in &mut fs {
                    fill_all(c, f);
                    settle(c, f);
                }
                // the objects of filter 0 serve everybody
                let mut hub = RegRig::<NN, NU, NM, T>::new();
                fill_all(c, &mut hub);
                let mut twin = RegRig::<NN, NU, NM, T>::new();
                for step in 0..steps {
                    params(c, &mut hub, &[B, U, QC, H, Z, R]);
                    let i = c.rng.below(k);
                    if !tame(&fs[i]) || c.rng.chance(1, 40) {
                        settle(c, &mut fs[i]);
                    }
                    copy(&hub, &mut fs[i], &[B, U, QC, H, Z, R]);
                    copy(&fs[i], &mut twin, &[A, X, P, Q]);
                    let mut fresh = RegRig::<NN, NU, NM, T>::new();
                    copy(&hub, &mut fresh, &[B, U, QC, H, Z, R]);
                    let kind = *c.rng.pick(&["control", "correct", "correct", "wreck", "predict"]);
                    let op = match kind {
                        "control" => Op::Control,
                        "predict" => Op::Predict,
                        _ => Op::Correct,
                    };
                    if T::FIXED {
                        // a dry run decides whether this stays in range
                        let mut dry = RegRig::<NN, NU, NM, T>::new();
                        copy(&fs[i], &mut dry, &[A, X, P, Q, B, U, QC, H, Z, R]);
                        if unjudged(c, &mut dry, &op)? == Judged::NoClaim {
                            fill(c, &mut hub, R);
                            settle(c, &mut fs[i]);
                            continue;
                        }
                    }
                    let mut keep = None;
                    if kind == "wreck" && !T::FIXED {
                        let r = hub.get(R);
                        keep = Some(r.clone());
                        let mut v = r;
                        let at = c.rng.below(v.len());
                        v[at] = T::of([f64::NAN, -1e5, 1e300][c.rng.below(3)]);
                        hub.put(R, &v);
                        fresh.put(R, &v);
                    }
                    let x0 = fs[i].get(X);
                    match op {
                        Op::Control => {
                            fs[i].f.control(&mut hub.c);
                            twin.f.control(&mut fresh.c);
                        }
                        Op::Predict => {
                            fs[i].f.predict();
                            twin.f.predict();
                        }
                        _ => {
                            fs[i].f.correct(&mut hub.o);
                            twin.f.correct(&mut fresh.o);
                        }
                    }
                    let w = format!("step {step} ({kind}), filter {i} of {k}, shared against fresh object");
                    c.exact(&format!("{w}: state"), &fs[i].get(X), &twin.get(X))?;
                    c.exact(&format!("{w}: covariance"), &fs[i].get(P), &twin.get(P))?;
                    c.nontrivial(!same(&x0, &fs[i].get(X)));
                    c.count("steps with a shared object", 1);
                    if let Some(r) = keep {
                        hub.put(R, &r);
                        settle(c, &mut fs[i]);
                    }
                }
                Ok(())
            });
        }
    }

    pub fn extended<const NN: usize, const NM: usize, T: Num>(rep: &mut Rep) {
        let (rounds, steps) = (rep.r(4, 20), rep.n(150, 2000));
        for round in 0..rounds {
            rep.case(&format!("{}/shared-ext/n{NN}m{NM}#{round}", T::NAME), |c| {
                let k = 2 + c.rng.below(3);
                let mut fs: Vec<ExtRig<NN, NM, T>> = (0..k).map(|_| ExtRig::new()).collect();
                for f in &mut fs {
                    fill_all(c, f);
                    settle(c, f);
                }
                let mut hub = ExtRig::<NN, NM, T>::new();
                fill_all(c, &mut hub);
                let mut twin = ExtRig::<NN, NM, T>::new();
                for step in 0..steps {
                    params(c, &mut hub, &[H, Z, R]);
                    let i = c.rng.below(k);
                    if !tame(&fs[i]) || c.rng.chance(1, 40) {
                        settle(c, &mut fs[i]);
                    }
                    copy(&fs[i], &mut twin, &[A, X, P, Q]);
                    let mut fresh = ExtRig::<NN, NM, T>::new();
                    copy(&hub, &mut fresh, &[H, Z, R]);
                    let md = Model::<T>::any(&mut c.rng, NN, NM);
                    if T::FIXED {
                        let mut dry = ExtRig::<NN, NM, T>::new();
                        copy(&fs[i], &mut dry, &[A, X, P, Q]);
                        copy(&hub, &mut dry, &[H, Z, R]);
                        if unjudged(c, &mut dry, &Op::CorrectNl(md.clone()))? == Judged::NoClaim {
                            fill(c, &mut hub, R);
                            settle(c, &mut fs[i]);
                            continue;
                        }
                    }
                    use minikalman::prelude::*;
                    let g = |x: &[T], o: &mut [T]| o.copy_from_slice(&md.eval(x));
                    let x0 = fs[i].get(X);
                    fs[i].f.correct_nonlinear(&mut hub.o, |x, h| g(x.as_slice(), h.as_mut_slice()));
                    twin.f.correct_nonlinear(&mut fresh.o, |x, h| g(x.as_slice(), h.as_mut_slice()));
                    let w = format!("step {step}, filter {i} of {k}, shared against fresh measurement");
                    c.exact(&format!("{w}: state"), &fs[i].get(X), &twin.get(X))?;
                    c.exact(&format!("{w}: covariance"), &fs[i].get(P), &twin.get(P))?;
                    c.nontrivial(!same(&x0, &fs[i].get(X)));
                    c.count("steps with a shared object", 1);
                }
                Ok(())
            });
        }
    }

    pub fn all<T: Num>(rep: &mut Rep) {
        linear::<1, 1, 1, T>(rep);
        linear::<2, 1, 3, T>(rep);
        linear::<3, 2, 1, T>(rep);
        linear::<3, 4, 2, T>(rep);
        extended::<1, 1, T>(rep);
        extended::<2, 3, T>(rep);
        extended::<3, 2, T>(rep);
        #[cfg(not(feature = "lite"))]
        {
            linear::<2, 2, 2, T>(rep);
            linear::<4, 1, 4, T>(rep);
            linear::<5, 3, 2, T>(rep);
            linear::<1, 2, 3, T>(rep);
            extended::<2, 2, T>(rep);
            extended::<4, 1, T>(rep);
            extended::<5, 5, T>(rep);
        }
    }
}

fn go<T: Sets>(rep: &mut Rep) {
    #[allow(unused_mut)]
    let mut makes = T::slices();
    #[cfg(feature = "alloc")]
    {
        makes.extend(T::owned());
        makes.extend(T::owned_ext());
    }
    pools::<T>(rep, &makes);
    nested::<T>(rep, &makes);
    #[cfg(feature = "alloc")]
    shared::all::<T>(rep);
}

fn main() {
    let mut rep = Rep::new(
        "C12",
        "A case is one group of missions: repeated, interleaved, run in parallel threads, moved between threads, or \
         served by shared objects; non-trivial when results changed along the way (and switches happened); distinct by all inputs.",
    );
    go::<f64>(&mut rep);
    go::<f32>(&mut rep);
    #[cfg(feature = "fixed")]
    {
        go::<fixed::types::I16F16>(&mut rep);
        go::<fixed::types::I32F32>(&mut rep);
    }
    rep.finish()
}
