//! C22: reciprocal and square root of every number type; user-supplied number types.
use kfcore::ulp;
use kfmon::drive;
use kfmon::rig::{shape, Make, Slot::*};
use kfmon::*;
use minikalman::matrix::MatrixDataType;
use num_traits::{FromPrimitive, One, Zero};
use std::sync::atomic::{AtomicBool, Ordering};

const APPROX: bool = cfg!(feature = "micromath") && !cfg!(any(feature = "std", feature = "libm"));

// ---------------------------------------------------------------------------------- scalars

/// Runs `f` over 0..n in parallel; the first complaint (lowest index of a thread) wins.
fn parallel(n: u64, f: impl Fn(u64) -> Result<f64, String> + Sync) -> Result<f64, String> {
    const T: u64 = 8;
    if n < 4096 {
        let mut worst = 0f64;
        for i in 0..n {
            worst = worst.max(f(i)?);
        }
        return Ok(worst);
    }
    let stop = AtomicBool::new(false);
    let (f, stop) = (&f, &stop);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..T)
            .map(|t| {
                s.spawn(move || {
                    let mut worst = 0f64;
                    for i in n * t / T..n * (t + 1) / T {
                        match f(i) {
                            Ok(e) => worst = worst.max(e),
                            Err(e) => {
                                stop.store(true, Ordering::Relaxed);
                                return Err(e);
                            }
                        }
                        if i % 1024 == 0 && stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                    Ok(worst)
                })
            })
            .collect();
        let mut r = Ok(0f64);
        for h in hs {
            let one = h.join().unwrap_or_else(|_| Err("the function panicked".into()));
            r = match (r, one) {
                (Ok(a), Ok(b)) => Ok(a.max(b)),
                (Err(e), _) | (_, Err(e)) => Err(e),
            };
        }
        r
    })
}

fn recip32(x: f32) -> f32 {
    <f32 as MatrixDataType>::recip(x)
}
fn sqrt32(x: f32) -> f32 {
    <f32 as MatrixDataType>::square_root(x)
}
fn recip64(x: f64) -> f64 {
    <f64 as MatrixDataType>::recip(x)
}
fn sqrt64(x: f64) -> f64 {
    <f64 as MatrixDataType>::square_root(x)
}

fn judge32(what: &str, x: f32, y: f32, t: f64) -> Result<f64, String> {
    if APPROX {
        // only where neither argument nor result leaves the normal range
        let tiny = f32::MIN_POSITIVE;
        if x.abs() < tiny || t.abs() < tiny as f64 || t.abs() > f32::MAX as f64 {
            return Ok(0.0);
        }
        let e = ulp::rel(y as f64, t);
        return if e <= 0.1 { Ok(e) } else { Err(format!("{what} of {x:e} is {y:e}, expected {t:e} ± 10 %")) };
    }
    ulp::near32(y, t).map_err(|_| {
        format!("{what} of {x:e} (bits {:#x}) is {y:e}, expected {t:e} ± {} ulp", x.to_bits(), ulp::ULPS)
    })
}

fn floats32(rep: &mut Rep) {
    let stride = rep.n(7, 1) as u64;
    let seed = rep.seed;
    for e in 0..255u32 {
        for func in ["recip", "sqrt", "recip-of-negative"] {
            let label = format!("f32/{func}/exponent-{e}");
            rep.case(&label, |c| {
                let n = (1u64 << 23) / stride;
                let worst = parallel(n, |i| {
                    // another residue class for every exponent, function and seed; both ends always
                    let k = match i {
                        0 => 0,
                        1 => (1 << 23) - 1,
                        _ => (i * stride + (e as u64 * 5 + seed * 3 + func.len() as u64) % stride).min((1 << 23) - 1),
                    };
                    let x = f32::from_bits(e << 23 | k as u32);
                    if x == 0.0 {
                        return Ok(0.0);
                    }
                    match func {
                        "recip" => judge32("the reciprocal", x, recip32(x), 1.0 / x as f64),
                        "sqrt" => judge32("the square root", x, sqrt32(x), (x as f64).sqrt()),
                        _ => judge32("the reciprocal", -x, recip32(-x), -1.0 / x as f64),
                    }
                })?;
                c.count(&format!("f32 {func} values judged"), n);
                c.tag(&label);
                c.evals += n;
                c.ratio(worst / if APPROX { 0.1 } else { ulp::ULPS as f64 });
                c.nontrivial(true);
                c.sample(|| format!("{n} values, largest error {worst:.3}"));
                Ok(())
            });
        }
    }
}

fn mantissa(rng: &mut Rng, i: u64) -> u64 {
    let m = (1u64 << 52) - 1;
    match i {
        0 => 0,
        1 => m,
        2 => 1,
        3 => 1 << 51,
        4..=60 => (1u64 << (i - 4).min(51)) & m,
        61..=112 => !(1u64 << (i - 61)) & m,
        _ => match rng.below(4) {
            0 => (rng.next() & m) & !((1 << rng.below(52)) - 1),
            1 => rng.next() & m & ((1 << (1 + rng.below(51))) - 1),
            _ => rng.next() & m,
        },
    }
}

fn floats64(rep: &mut Rep) {
    let each = rep.r(200, 6000) as u64;
    for e in 0..2047u64 {
        let label = format!("f64/exponent-{e}");
        rep.case(&label, |c| {
            for i in 0..each {
                let x = f64::from_bits(e << 52 | mantissa(&mut c.rng, i));
                if x == 0.0 {
                    continue;
                }
                let (r, n, s) = (recip64(x), recip64(-x), sqrt64(x));
                if APPROX {
                    // the reciprocal divides; the square root works in f32
                    let t = 1.0 / x;
                    if x.is_normal() && t.is_normal() {
                        let bad = ulp::rel(r, t).max(ulp::rel(n, -t)) > 0.1;
                        c.that(!bad, || format!("the reciprocal of ±{x:e} is {r:e} / {n:e}"))?;
                        c.count("f64 recip values judged", 2);
                    }
                    if x >= f32::MIN_POSITIVE as f64 && x <= f32::MAX as f64 {
                        let e = ulp::rel(s, x.sqrt());
                        c.that(e <= 0.1, || format!("the square root of {x:e} is {s:e}"))?;
                        c.ratio(e / 0.1);
                        c.count("f64 sqrt values judged", 1);
                    }
                } else {
                    c.that(ulp::recip64(x, r), || format!("the reciprocal of {x:e} ({:#x}) is {r:e}", x.to_bits()))?;
                    c.that(ulp::recip64(x, -n), || format!("the reciprocal of {:e} is {n:e}", -x))?;
                    c.that(ulp::sqrt64(x, s), || format!("the square root of {x:e} ({:#x}) is {s:e}", x.to_bits()))?;
                    c.count("f64 recip values judged", 2);
                    c.count("f64 sqrt values judged", 1);
                }
            }
            c.tag(&label);
            c.nontrivial(true);
            Ok(())
        });
    }
}

#[cfg(feature = "fixed")]
fn fixeds(rep: &mut Rep) {
    use fixed::types::{I16F16, I32F32};
    // I16F16: every value (thorough) or every 211th, in blocks of 2^20 bit patterns.
    let stride = rep.n(211, 1) as u64;
    let seed = rep.seed;
    for block in 0..2048u64 {
        let label = format!("I16F16/block-{block}");
        rep.case(&label, |c| {
            let n = (1u64 << 20) / stride;
            parallel(n, |i| {
                let k = (i * stride + (block * 7 + seed) % stride).min((1 << 20) - 1);
                // the smallest and the largest values are always included
                let b = if block == 0 && i < 2000 { i as i64 + 1 } else { (block << 20 | k) as i64 };
                let b = if block == 2047 && i == 0 { i32::MAX as i64 } else { b };
                if b == 0 {
                    return Ok(0.0);
                }
                let x = I16F16::from_bits(b as i32);
                let s = <I16F16 as MatrixDataType>::square_root(x).to_bits();
                if !ulp::sqrt_fx(b as i128, s as i128, 16) {
                    return Err(format!("the square root of {x} (bits {b}) is {}", I16F16::from_bits(s)));
                }
                if b >= 3 {
                    for v in [x, -x] {
                        let r = <I16F16 as MatrixDataType>::recip(v).to_bits();
                        if !ulp::recip_fx(v.to_bits() as i128, r as i128, 16) {
                            return Err(format!("the reciprocal of {v} (bits {}) is {}", v.to_bits(), I16F16::from_bits(r)));
                        }
                    }
                }
                Ok(0.0)
            })?;
            c.count("I16F16 values judged", n);
            c.evals += 3 * n;
            c.tag(&label);
            c.nontrivial(true);
            Ok(())
        });
    }
    for bit in 0..63u32 {
        for round in 0..rep.r(8, 200) {
            let label = format!("I32F32/bit-{bit}#{round}");
            rep.case(&label, |c| {
                for i in 0..200 {
                    let lo = 1i64 << bit;
                    let b = match i {
                        0 => lo,
                        1 => lo + (lo - 1),
                        2 => lo + lo / 2,
                        _ => lo + (c.rng.next() as i64 & (lo - 1)),
                    };
                    let x = I32F32::from_bits(b);
                    let s = <I32F32 as MatrixDataType>::square_root(x).to_bits();
                    c.that(ulp::sqrt_fx(b as i128, s as i128, 32), || {
                        format!("the square root of {x} (bits {b}) is {}", I32F32::from_bits(s))
                    })?;
                    if b >= 3 {
                        for v in [x, -x] {
                            let r = <I32F32 as MatrixDataType>::recip(v).to_bits();
                            c.that(ulp::recip_fx(v.to_bits() as i128, r as i128, 32), || {
                                format!("the reciprocal of {v} (bits {}) is {}", v.to_bits(), I32F32::from_bits(r))
                            })?;
                        }
                    }
                    c.input(&[x]);
                    c.count("I32F32 values judged", 1);
                }
                c.nontrivial(true);
                Ok(())
            });
        }
    }
}

// ----------------------------------------------------------------------------- user's types

macro_rules! arithmetic {
    ($t:ident, $zero:expr, $one:expr, $add:expr, $sub:expr, $mul:expr, $div:expr, $neg:expr, $from:expr) => {
        impl core::ops::Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                $add(self, o)
            }
        }
        impl core::ops::Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                $sub(self, o)
            }
        }
        impl core::ops::Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                $mul(self, o)
            }
        }
        impl core::ops::Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                $div(self, o)
            }
        }
        impl core::ops::Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $neg(self)
            }
        }
        impl core::ops::AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl core::ops::SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl core::iter::Sum for $t {
            fn sum<I: Iterator<Item = $t>>(i: I) -> $t {
                i.fold($zero, |a, b| a + b)
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $zero
            }
            fn is_zero(&self) -> bool {
                *self == $zero
            }
        }
        impl One for $t {
            fn one() -> $t {
                $one
            }
        }
        impl FromPrimitive for $t {
            fn from_i64(v: i64) -> Option<$t> {
                Some($from(v as f64))
            }
            fn from_u64(v: u64) -> Option<$t> {
                Some($from(v as f64))
            }
            fn from_f64(v: f64) -> Option<$t> {
                Some($from(v))
            }
        }
    };
}

/// A wrapped f64 with the trait's own reciprocal and an exact square root of its own.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct W64(f64);
arithmetic!(
    W64,
    W64(0.0),
    W64(1.0),
    |a: W64, b: W64| W64(a.0 + b.0),
    |a: W64, b: W64| W64(a.0 - b.0),
    |a: W64, b: W64| W64(a.0 * b.0),
    |a: W64, b: W64| W64(a.0 / b.0),
    |a: W64| W64(-a.0),
    W64
);
impl MatrixDataType for W64 {
    fn square_root(self) -> Self {
        W64(self.0.sqrt())
    }
}
impl Num for W64 {
    const NAME: &'static str = "user's wrapped f64";
    const U: f64 = f64::U;
    const DELTA: f64 = f64::DELTA;
    // keeps the accurate bounds in every build
    const FIXED: bool = true;
    const LIM: f64 = 1e12;
    const CAP: f64 = 64.0;
    fn of(v: f64) -> Self {
        W64(v)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn poison(k: usize) -> Self {
        W64(f64::poison(k))
    }
}

/// A fixed-point type of the user's: 24 fractional bits in an i64, truncating division.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct F24(i64);
fn r24(v: i128) -> F24 {
    F24(v as i64)
}
arithmetic!(
    F24,
    F24(0),
    F24(1 << 24),
    |a: F24, b: F24| F24(a.0 + b.0),
    |a: F24, b: F24| F24(a.0 - b.0),
    |a: F24, b: F24| r24((a.0 as i128 * b.0 as i128 + (1 << 23)) >> 24),
    |a: F24, b: F24| r24(((a.0 as i128) << 24) / b.0 as i128),
    |a: F24| F24(-a.0),
    |v: f64| F24((v * 16777216.0).round() as i64)
);
impl MatrixDataType for F24 {
    fn square_root(self) -> Self {
        if self.0 <= 0 {
            return F24(0);
        }
        let t = (self.0 as u128) << 24;
        let mut r = (t as f64).sqrt() as u128;
        while r * r > t {
            r -= 1;
        }
        while (r + 1) * (r + 1) <= t {
            r += 1;
        }
        F24(r as i64)
    }
}
impl Num for F24 {
    const NAME: &'static str = "user's fixed point";
    const U: f64 = 0.0;
    const DELTA: f64 = 1.0 / 16777216.0;
    const FIXED: bool = true;
    const LIM: f64 = 1e8;
    const CAP: f64 = 16.0;
    fn of(v: f64) -> Self {
        F24::from_f64(v).unwrap()
    }
    fn f(self) -> f64 {
        self.0 as f64 / 16777216.0
    }
    fn bits(self) -> u64 {
        self.0 as u64
    }
    fn poison(k: usize) -> Self {
        Self::of([1230.25, -770.5, 2000.125, -3110.0625, 990.0, 450.875][k % 6])
    }
}

/// The integers modulo the prime 2^61-1: exact arithmetic, so the equations hold exactly or not
/// at all. Half of the elements have a square root; asking for another is noted.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct Fp(u64);
const MP: u64 = (1 << 61) - 1;
static NO_ROOT: AtomicBool = AtomicBool::new(false);
fn fmul(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % MP as u128) as u64
}
fn fpow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = fmul(r, a);
        }
        a = fmul(a, a);
        e >>= 1;
    }
    r
}
fn finv(a: u64) -> u64 {
    fpow(a, MP - 2)
}
arithmetic!(
    Fp,
    Fp(0),
    Fp(1),
    |a: Fp, b: Fp| Fp((a.0 + b.0) % MP),
    |a: Fp, b: Fp| Fp((a.0 + MP - b.0) % MP),
    |a: Fp, b: Fp| Fp(fmul(a.0, b.0)),
    |a: Fp, b: Fp| Fp(fmul(a.0, finv(b.0))),
    |a: Fp| Fp((MP - a.0) % MP),
    |v: f64| Fp((v.rem_euclid(MP as f64)) as u64)
);
impl PartialOrd for Fp {
    // Everything but zero counts as positive.
    fn partial_cmp(&self, o: &Fp) -> Option<core::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl MatrixDataType for Fp {
    fn square_root(self) -> Self {
        let r = fpow(self.0, (MP + 1) / 4);
        if fmul(r, r) != self.0 {
            NO_ROOT.store(true, Ordering::SeqCst);
        }
        Fp(r)
    }
}
impl Num for Fp {
    const NAME: &'static str = "user's finite field";
    const U: f64 = 0.0;
    const DELTA: f64 = 0.0;
    const FIXED: bool = true;
    const LIM: f64 = 1e300;
    const CAP: f64 = 1e18;
    fn of(v: f64) -> Self {
        Fp::from_f64(v).unwrap()
    }
    fn f(self) -> f64 {
        self.0 as f64
    }
    fn bits(self) -> u64 {
        self.0
    }
    fn poison(k: usize) -> Self {
        Fp(0x1234_5678_9abc + k as u64)
    }
}

/// Matrices over the field.
#[derive(Clone, Debug)]
struct FM {
    r: usize,
    c: usize,
    v: Vec<Fp>,
}
impl FM {
    fn mul(&self, b: &FM) -> FM {
        assert_eq!(self.c, b.r);
        let mut v = vec![Fp(0); self.r * b.c];
        for i in 0..self.r {
            for j in 0..b.c {
                for k in 0..self.c {
                    v[i * b.c + j] += self.v[i * self.c + k] * b.v[k * b.c + j];
                }
            }
        }
        FM { r: self.r, c: b.c, v }
    }
    fn t(&self) -> FM {
        let mut v = vec![];
        for j in 0..self.c {
            for i in 0..self.r {
                v.push(self.v[i * self.c + j]);
            }
        }
        FM { r: self.c, c: self.r, v }
    }
    fn zip(&self, b: &FM, f: impl Fn(Fp, Fp) -> Fp) -> FM {
        FM { r: self.r, c: self.c, v: self.v.iter().zip(&b.v).map(|(p, q)| f(*p, *q)).collect() }
    }
    fn add(&self, b: &FM) -> FM {
        self.zip(b, |p, q| p + q)
    }
    fn sub(&self, b: &FM) -> FM {
        self.zip(b, |p, q| p - q)
    }
    fn scale(&self, f: Fp) -> FM {
        self.zip(self, |p, _| p * f)
    }
    /// Gauss–Jordan; None when singular.
    fn inv(&self) -> Option<FM> {
        let n = self.r;
        let mut a = self.v.clone();
        let mut b: Vec<Fp> = (0..n * n).map(|k| Fp((k / n == k % n) as u64)).collect();
        for p in 0..n {
            let row = (p..n).find(|i| a[i * n + p].0 != 0)?;
            for j in 0..n {
                a.swap(p * n + j, row * n + j);
                b.swap(p * n + j, row * n + j);
            }
            let f = Fp(finv(a[p * n + p].0));
            for j in 0..n {
                a[p * n + j] = a[p * n + j] * f;
                b[p * n + j] = b[p * n + j] * f;
            }
            for i in 0..n {
                if i != p {
                    let g = a[i * n + p];
                    for j in 0..n {
                        a[i * n + j] = a[i * n + j] - g * a[p * n + j];
                        b[i * n + j] = b[i * n + j] - g * b[p * n + j];
                    }
                }
            }
        }
        Some(FM { r: n, c: n, v: b })
    }
}

fn field(rep: &mut Rep) {
    let makes: Vec<Make<Fp>> = rig_slices!(Fp; (1,1,1),(2,1,1),(1,2,2),(2,3,1),(3,1,2),(3,2,3),(4,2,2),(5,3,1),(6,1,4),(2,4,5),(8,2,3),(3,0,2),(12,3,1),(4,5,6));
    let el = |rng: &mut Rng, sparse: bool| -> Fp {
        match if sparse { rng.below(4) } else { 3 } {
            0 => Fp(0),
            1 => Fp(1),
            2 => Fp(MP - 1),
            _ => Fp(rng.next() % MP),
        }
    };
    for (_, n, u, m, mk) in &makes {
        for kind in ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"] {
            for round in 0..rep.r(12, 400) {
                let label = format!("{}/n{n}u{u}m{m}/{kind}#{round}", Fp::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    let sparse = c.rng.chance(1, 3);
                    // half of the draws have no square root of a pivot: try again
                    for _attempt in 0..400 {
                        for s in kfmon::rig::ALL {
                            let (a, b) = shape(s, *n, *u, *m);
                            let mut v: Vec<Fp> = (0..a * b).map(|_| el(&mut c.rng, sparse)).collect();
                            if [P, Q, QC, R].contains(&s) {
                                for i in 0..a {
                                    for j in 0..i {
                                        v[i * a + j] = v[j * a + i];
                                    }
                                }
                            }
                            r.put(s, &v);
                        }
                        let g = |s| {
                            let (a, b) = shape(s, *n, *u, *m);
                            FM { r: a, c: b, v: r.get(s) }
                        };
                        let (a, x, p, q, b, uu, qc, h, z, rr) =
                            (g(A), g(X), g(P), g(Q), g(B), g(U), g(QC), g(H), g(Z), g(R));
                        let l = el(&mut c.rng, false);
                        if l.0 == 0 {
                            continue;
                        }
                        // model functions: a fixed polynomial of the state
                        let to = if kind == "correct_nl" { *m } else { *n };
                        let (i0, i1, k) = (c.rng.below(*n), c.rng.below(*n), el(&mut c.rng, false));
                        let model = |x: &[Fp]| -> Vec<Fp> {
                            (0..to).map(|o| x[i0] * x[(o + i1) % x.len()] + k * x[o % x.len()] + Fp(o as u64)).collect()
                        };
                        let mut run = |y: &[Fp], o: &mut [Fp]| {
                            let v = model(y);
                            o[..v.len()].copy_from_slice(&v);
                        };
                        let f = if kind.starts_with("tuned") { Fp(finv(fmul(l.0, l.0))) } else { Fp(1) };
                        let pred = a.mul(&p).mul(&a.t()).scale(f).add(&q);
                        let mut want: (Vec<Fp>, Vec<Fp>);
                        NO_ROOT.store(false, Ordering::SeqCst);
                        match kind {
                            "predict" | "tuned" => {
                                want = (a.mul(&x).v, pred.v);
                                if kind == "predict" { r.predict() } else { r.predict_tuned(l) }
                            }
                            "predict_nl" | "tuned_nl" => {
                                want = (model(&x.v), pred.v);
                                if kind == "predict_nl" { r.predict_nl(&mut run) } else { r.predict_tuned_nl(l, &mut run) }
                            }
                            "control" => {
                                want = if *u == 0 {
                                    (x.v.clone(), p.v.clone())
                                } else {
                                    (x.add(&b.mul(&uu)).v, p.add(&b.mul(&qc).mul(&b.t())).v)
                                };
                                r.control()
                            }
                            _ => {
                                let y = if kind == "correct" {
                                    z.sub(&h.mul(&x))
                                } else {
                                    z.sub(&FM { r: *m, c: 1, v: model(&x.v) })
                                };
                                let pht = p.mul(&h.t());
                                let Some(si) = h.mul(&pht).add(&rr).inv() else { continue };
                                let kk = pht.mul(&si);
                                want = (x.add(&kk.mul(&y)).v, p.sub(&kk.mul(&h).mul(&p)).v);
                                if kind == "correct" { r.correct() } else { r.correct_nl(&mut run) }
                                if NO_ROOT.load(Ordering::SeqCst) {
                                    c.count("updates needing a square root the field lacks, not judged", 1);
                                    want = (vec![], vec![]);
                                }
                                // a leading principal minor may vanish in the field although S is regular
                                let s = h.mul(&pht).add(&rr);
                                let regular = (1..=*m).all(|k| {
                                    FM { r: k, c: k, v: (0..k * k).map(|e| s.v[e / k * m + e % k]).collect() }.inv().is_some()
                                });
                                if !regular {
                                    continue;
                                }
                            }
                        }
                        if want.0.is_empty() {
                            continue;
                        }
                        c.exact(&format!("{kind}: state in exact arithmetic"), &r.get(X), &want.0)?;
                        c.exact(&format!("{kind}: covariance in exact arithmetic"), &r.get(P), &want.1)?;
                        c.input(&x.v);
                        c.input(&p.v);
                        c.nontrivial(true);
                        c.count("steps judged in exact arithmetic", 1);
                        return Ok(());
                    }
                    c.count("exact cases without a usable draw", 1);
                    Ok(())
                });
            }
        }
    }
}

fn users(rep: &mut Rep) {
    const ALL: [&str; 7] = ["predict", "tuned", "control", "correct", "predict_nl", "tuned_nl", "correct_nl"];
    fn go<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
        let (rounds, steps, mr) = (rep.r(1, 12), rep.n(250, 3000), rep.n(2, 8));
        drive::singles(rep, makes, &ALL, &[A, P, B, H, R], rounds);
        drive::missions(rep, makes, &ALL, &[], steps, mr);
    }
    let w: Vec<Make<W64>> = rig_slices!(W64; (1,1,1),(2,1,1),(3,2,2),(2,3,4),(4,1,3),(6,2,2),(5,4,6),(9,3,2));
    let f: Vec<Make<F24>> = rig_slices!(F24; (1,1,1),(2,1,1),(3,2,2),(2,3,3),(4,1,2),(5,2,3));
    go(rep, &w);
    go(rep, &f);
    field(rep);
}

/// The approximate back end: a correction with uncorrelated innovations is the exact one with each
/// gain off by less than a quarter.
fn approximate(rep: &mut Rep) {
    fn go<T: Num>(rep: &mut Rep, makes: &[Make<T>]) {
        for (_, n, _, m, mk) in makes {
            for round in 0..rep.r(150, 5000) {
                let label = format!("{}/n{n}m{m}/approximate-correct#{round}", T::NAME);
                rep.case(&label, |c| {
                    let mut r = mk();
                    drive::fill_all(c, &mut *r);
                    if *m > 1 {
                        // uncorrelated: diagonal P, one state per measurement, diagonal R
                        if m > n {
                            return Ok(());
                        }
                        let d = |c: &mut Case, k: usize| -> Vec<T> {
                            (0..k * k).map(|e| if e / k == e % k { T::of(0.25 + 3.0 * c.rng.unit()) } else { T::zero() }).collect()
                        };
                        let (p, rr) = (d(c, *n), d(c, *m));
                        let mut order: Vec<usize> = (0..*n).collect();
                        c.rng.shuffle(&mut order);
                        let h: Vec<T> = (0..m * n)
                            .map(|e| if order[e / n] == e % n { T::of(c.rng.pick(&[1.0, -1.0, 2.0, 0.5]).to_owned()) } else { T::zero() })
                            .collect();
                        r.put(P, &p);
                        r.put(R, &rr);
                        r.put(H, &h);
                        c.input(&p);
                        c.input(&h);
                    }
                    let g = |s| to_f(&r.get(s));
                    let (x, p, h, z, rr) = (g(X), g(P), g(H), g(Z), g(R));
                    let (n, m) = (*n, *m);
                    let pht = |i: usize, k: usize| (0..n).map(|j| p[i * n + j] * h[k * n + j]).sum::<f64>();
                    let s: Vec<f64> = (0..m).map(|k| (0..n).map(|i| h[k * n + i] * pht(i, k)).sum::<f64>() + rr[k * m + k]).collect();
                    if s.iter().any(|s| !(1e-6..1e9).contains(s)) {
                        return Ok(());
                    }
                    r.correct();
                    let (x1, p1) = (to_f(&r.get(X)), to_f(&r.get(P)));
                    let near = |got: f64, old: f64, delta: f64, scale: f64| {
                        (got - old - delta).abs() <= 0.25 * delta.abs().max(scale) + 1e-4 * (old.abs() + scale)
                    };
                    for i in 0..n {
                        let parts: Vec<f64> = (0..m)
                            .map(|k| pht(i, k) / s[k] * (z[k] - (0..n).map(|j| h[k * n + j] * x[j]).sum::<f64>()))
                            .collect();
                        let (dx, sx) = (parts.iter().sum::<f64>(), parts.iter().map(|v| v.abs()).sum::<f64>());
                        let hx: f64 = (0..m).map(|k| (pht(i, k) / s[k]).abs() * (z[k].abs() + (0..n).map(|j| (h[k * n + j] * x[j]).abs()).sum::<f64>())).sum();
                        c.that(near(x1[i], x[i], dx, sx) || (x1[i] - x[i] - dx).abs() < 1e-4 * hx, || {
                            format!("state {i} went from {:e} to {:e}; the exact change is {dx:e}", x[i], x1[i])
                        })?;
                        for j in 0..n {
                            let dp: f64 = -(0..m).map(|k| pht(i, k) * pht(j, k) / s[k]).sum::<f64>();
                            let sp: f64 = (0..m).map(|k| (pht(i, k) * pht(j, k) / s[k]).abs()).sum();
                            let e = i * n + j;
                            c.that(near(p1[e], p[e], dp, sp), || {
                                format!("covariance ({i},{j}) went from {:e} to {:e}; the exact change is {dp:e}", p[e], p1[e])
                            })?;
                        }
                    }
                    c.nontrivial(true);
                    c.count("approximate corrections judged", 1);
                    Ok(())
                });
            }
        }
    }
    let a: Vec<Make<f32>> = rig_slices!(f32; (1,1,1),(2,1,1),(3,1,1),(5,1,1),(3,1,2),(4,1,3),(6,1,4));
    let b: Vec<Make<f64>> = rig_slices!(f64; (1,1,1),(2,1,1),(3,1,1),(5,1,1),(3,1,2),(4,1,3),(6,1,4));
    go(rep, &a);
    go(rep, &b);
}

fn main() {
    let mut rep = Rep::new(
        "C22",
        "A case is one exponent (or block of bit patterns) of one function and number type, or one configuration or \
         mission of a filter over a user-supplied number type; non-trivial when a value or step was judged; distinct by its inputs.",
    );
    floats32(&mut rep);
    floats64(&mut rep);
    #[cfg(feature = "fixed")]
    fixeds(&mut rep);
    users(&mut rep);
    if APPROX {
        approximate(&mut rep);
    }
    rep.finish()
}
