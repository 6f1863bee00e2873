//! Input generators. Every class below exists because some realistic mistake only shows there.

use crate::ev::M;
use crate::num::{to_t, Num};
use crate::rng::Rng;

/// Structure classes of general matrices.
pub const GEN_CLASSES: &[&str] = &[
    "ints", "reals", "sparse", "identity", "zero", "diag", "perm", "upper", "lower", "neg",
    "onehot", "const", "small", "large", "mixed", "nearid", "rank1", "antisym", "kinematic",
    "zerorow", "zerocol", "big1", "tiny", "huge", "firstzero", "lastzero", "scalar", "negid",
    "symmetric", "iddev", "duprow", "shift", "negzero", "headzero", "tailzero", "hollow", "ones",
    "dev", "dev2", "tridiag", "toeplitz", "blocks",
];

/// Extreme magnitudes that products of three such factors (and a second step) still represent.
pub fn extreme<T: Num>(rng: &mut Rng, up: bool) -> f64 {
    let k = if T::FIXED {
        return if up { 1.0 } else { 0.0625 };
    } else if T::U > 1e-12 {
        if up { rng.int(18, 26) } else { -rng.int(20, 36) }
    } else if up {
        rng.int(30, 120)
    } else {
        -rng.int(30, 120)
    };
    (2f64).powi(k as i32)
}

/// Scales usable for a type: powers of two, so that scaling itself is exact.
fn scale_pow<T: Num>(rng: &mut Rng, k: i64) -> f64 {
    if T::FIXED {
        1.0
    } else {
        (2f64).powi(rng.int(-k, k) as i32)
    }
}

/// Quantises to the type under test.
pub fn q<T: Num>(v: f64) -> f64 {
    T::of(v).f()
}

pub fn general<T: Num>(rng: &mut Rng, class: &str, r: usize, c: usize) -> Vec<T> {
    let m = if T::FIXED { 1.5f64.min(T::CAP) } else { 3.0 };
    let mut v = vec![0.0; r * c];
    let real = |rng: &mut Rng| q::<T>(rng.sym() * m);
    let int = |rng: &mut Rng| rng.int(-(m as i64).max(1), (m as i64).max(1)) as f64;
    match class {
        "ints" => v.iter_mut().for_each(|x| *x = int(rng)),
        "reals" => v.iter_mut().for_each(|x| *x = real(rng)),
        "sparse" => v.iter_mut().for_each(|x| {
            if rng.chance(1, 4) {
                *x = real(rng)
            }
        }),
        "identity" => (0..r.min(c)).for_each(|i| v[i * c + i] = 1.0),
        "zero" => {}
        "diag" => (0..r.min(c)).for_each(|i| v[i * c + i] = real(rng)),
        "perm" => {
            let mut p: Vec<usize> = (0..r.max(c)).collect();
            rng.shuffle(&mut p);
            for i in 0..r {
                if p[i] < c {
                    v[i * c + p[i]] = if rng.chance(1, 3) { -1.0 } else { 1.0 };
                }
            }
        }
        "upper" => (0..r).for_each(|i| (i..c).for_each(|j| v[i * c + j] = real(rng))),
        "lower" => (0..r).for_each(|i| (0..c.min(i + 1)).for_each(|j| v[i * c + j] = real(rng))),
        "neg" => v.iter_mut().for_each(|x| *x = -real(rng).abs() - q::<T>(0.125)),
        "onehot" => {
            if !v.is_empty() {
                let k = rng.below(r * c);
                v[k] = real(rng) + 1.0;
            }
        }
        "const" => {
            let k = real(rng);
            v.iter_mut().for_each(|x| *x = k)
        }
        "small" => {
            let k = if T::FIXED { 0.0625 } else { (2f64).powi(-(rng.int(8, 24) as i32)) };
            v.iter_mut().for_each(|x| *x = q::<T>(real(rng) * k))
        }
        "large" => {
            let k = if T::FIXED { 1.0 } else { (2f64).powi(rng.int(4, 14) as i32) };
            v.iter_mut().for_each(|x| *x = q::<T>(real(rng) * k))
        }
        "mixed" => {
            for i in 0..r {
                let k = scale_pow::<T>(rng, 8);
                for j in 0..c {
                    v[i * c + j] = q::<T>(real(rng) * k);
                }
            }
        }
        "nearid" => {
            for i in 0..r {
                for j in 0..c {
                    v[i * c + j] = q::<T>(rng.sym() * 0.03125) + if i == j { 1.0 } else { 0.0 };
                }
            }
        }
        "rank1" => {
            let a: Vec<f64> = (0..r).map(|_| int(rng)).collect();
            let b: Vec<f64> = (0..c).map(|_| int(rng)).collect();
            for i in 0..r {
                for j in 0..c {
                    v[i * c + j] = a[i] * b[j] * 0.5;
                }
            }
        }
        "antisym" => {
            for i in 0..r {
                for j in 0..c {
                    if i < j {
                        let x = real(rng);
                        v[i * c + j] = x;
                        if j < r && i < c {
                            v[j * c + i] = -x;
                        }
                    }
                }
            }
        }
        "kinematic" => {
            let dt = q::<T>(0.5);
            for i in 0..r {
                let mut f = 1.0;
                for j in i..c {
                    v[i * c + j] = q::<T>(f);
                    f *= dt / ((j - i + 1) as f64);
                }
            }
        }
        "zerorow" => {
            let k = rng.below(r.max(1));
            for i in 0..r {
                for j in 0..c {
                    if i != k {
                        v[i * c + j] = real(rng);
                    }
                }
            }
        }
        "zerocol" => {
            let k = rng.below(c.max(1));
            for i in 0..r {
                for j in 0..c {
                    if j != k {
                        v[i * c + j] = real(rng);
                    }
                }
            }
        }
        "big1" => {
            v.iter_mut().for_each(|x| *x = real(rng));
            if !v.is_empty() {
                let k = rng.below(r * c);
                v[k] = if T::FIXED { T::CAP } else { 4096.0 };
            }
        }
        "tiny" | "huge" => {
            let k = extreme::<T>(rng, class == "huge");
            v.iter_mut().for_each(|x| *x = q::<T>(real(rng) * k))
        }
        "firstzero" => v.iter_mut().enumerate().for_each(|(i, x)| {
            *x = if i == 0 { 0.0 } else { real(rng) }
        }),
        "lastzero" => {
            let l = v.len();
            v.iter_mut().enumerate().for_each(|(i, x)| {
                *x = if i + 1 == l { 0.0 } else { real(rng) }
            })
        }
        "scalar" => {
            let k = real(rng);
            (0..r.min(c)).for_each(|i| v[i * c + i] = k)
        }
        "negid" => (0..r.min(c)).for_each(|i| v[i * c + i] = -1.0),
        "symmetric" => {
            for i in 0..r {
                for j in 0..c {
                    v[i * c + j] = real(rng);
                    if j < i && i < c {
                        v[i * c + j] = v[j * c + i];
                    }
                }
            }
        }
        "iddev" => {
            (0..r.min(c)).for_each(|i| v[i * c + i] = 1.0);
            if !v.is_empty() {
                let k = rng.below(r * c);
                v[k] += q::<T>(0.25 + 0.5 * rng.unit());
            }
        }
        "duprow" => {
            let row: Vec<f64> = (0..c).map(|_| real(rng)).collect();
            for i in 0..r {
                v[i * c..(i + 1) * c].copy_from_slice(&row);
            }
        }
        "shift" => (0..r).for_each(|i| {
            if i + 1 < c {
                v[i * c + i + 1] = 1.0
            }
        }),
        "negzero" => v.iter_mut().for_each(|x| *x = if rng.chance(1, 2) { -0.0 } else { real(rng) }),
        "headzero" | "tailzero" => {
            let l = v.len();
            v.iter_mut().enumerate().for_each(|(i, x)| {
                if (2 * i >= l) == (class == "headzero") {
                    *x = real(rng)
                }
            })
        }
        "hollow" => {
            for i in 0..r {
                for j in 0..c {
                    if i != j {
                        v[i * c + j] = real(rng);
                    }
                }
            }
        }
        "ones" => v.iter_mut().for_each(|x| *x = 1.0),
        // a structured matrix, except for one or two elements anywhere
        "dev" | "dev2" => {
            let base = *rng.pick(&["zero", "identity", "diag", "scalar", "upper", "lower", "symmetric", "antisym",
                "const", "ones", "shift", "perm", "negid", "tridiag", "toeplitz", "duprow", "kinematic", "blocks"]);
            let b: Vec<T> = general::<T>(rng, base, r, c);
            v = b.iter().map(|x| x.f()).collect();
            for _ in 0..1 + (class == "dev2") as usize {
                if !v.is_empty() {
                    let k = rng.below(r * c);
                    let d = real(rng);
                    v[k] = if rng.chance(1, 4) { 0.0 } else { d };
                }
            }
        }
        "tridiag" => {
            for i in 0..r {
                for j in i.saturating_sub(1)..c.min(i + 2) {
                    v[i * c + j] = real(rng);
                }
            }
        }
        "toeplitz" => {
            let k: Vec<f64> = (0..r + c).map(|_| real(rng)).collect();
            for i in 0..r {
                for j in 0..c {
                    v[i * c + j] = k[j + r - i];
                }
            }
        }
        "blocks" => {
            for i in 0..r {
                for j in 0..c {
                    if i / 2 == j / 2 {
                        v[i * c + j] = real(rng);
                    }
                }
            }
        }
        _ => panic!("class {class}"),
    }
    to_t(&v)
}

pub const COV_CLASSES: &[&str] = &[
    "dense", "identity", "zero", "diag", "rank1", "correlated", "mixed", "small", "large",
    "block", "integer", "scalar", "partial", "first", "last", "middle", "firstcertain",
    "lastcertain", "anticorrelated", "iddev", "tiny", "huge", "dev", "dev2", "tridiag", "arrow", "toeplitz",
];

/// Symmetric positive semidefinite matrices (exactly symmetric in the type under test).
pub fn cov<T: Num>(rng: &mut Rng, class: &str, n: usize) -> Vec<T> {
    let mut v = vec![0.0; n * n];
    let gram = |rng: &mut Rng, v: &mut Vec<f64>, k: usize, amp: f64| {
        let g: Vec<f64> = (0..n * k).map(|_| rng.sym() * amp).collect();
        for i in 0..n {
            for j in 0..n {
                v[i * n + j] += (0..k).map(|l| g[i * k + l] * g[j * k + l]).sum::<f64>();
            }
        }
    };
    let amp = if T::FIXED { (2.0 / n.max(1) as f64).sqrt() } else { 1.5 };
    match class {
        "dense" => {
            gram(rng, &mut v, n, amp);
            (0..n).for_each(|i| v[i * n + i] += 0.25)
        }
        "identity" => (0..n).for_each(|i| v[i * n + i] = 1.0),
        "zero" => {}
        "diag" => (0..n).for_each(|i| v[i * n + i] = 0.0625 + rng.unit() * 2.0),
        "rank1" => gram(rng, &mut v, 1, 1.0),
        "correlated" => {
            for i in 0..n {
                for j in 0..n {
                    v[i * n + j] = if i == j { 1.0 } else { 0.9 };
                }
            }
        }
        "mixed" => {
            gram(rng, &mut v, n, amp);
            (0..n).for_each(|i| v[i * n + i] += 0.25);
            let s: Vec<f64> = (0..n).map(|_| scale_pow::<T>(rng, 6)).collect();
            for i in 0..n {
                for j in 0..n {
                    v[i * n + j] *= s[i] * s[j];
                }
            }
        }
        "small" | "large" => {
            gram(rng, &mut v, n, amp);
            (0..n).for_each(|i| v[i * n + i] += 0.25);
            let s = if T::FIXED {
                1.0
            } else if class == "small" {
                (2f64).powi(-(rng.int(10, 30) as i32))
            } else {
                (2f64).powi(rng.int(6, 20) as i32)
            };
            v.iter_mut().for_each(|x| *x *= s);
        }
        "block" => {
            for i in 0..n {
                v[i * n + i] = 2.0;
                if i % 2 == 1 {
                    v[i * n + i - 1] = -0.75;
                    v[(i - 1) * n + i] = -0.75;
                }
            }
        }
        "integer" => {
            for i in 0..n {
                for j in 0..i {
                    let x = rng.int(-1, 1) as f64;
                    v[i * n + j] = x;
                    v[j * n + i] = x;
                }
                v[i * n + i] = n as f64 + 1.0;
            }
        }
        "scalar" => {
            let k = 0.0625 + rng.unit() * 3.0;
            (0..n).for_each(|i| v[i * n + i] = k)
        }
        // some states are certain
        "partial" | "first" | "last" | "middle" | "firstcertain" | "lastcertain" => {
            gram(rng, &mut v, n, amp);
            (0..n).for_each(|i| v[i * n + i] += 0.25);
            for i in 0..n {
                let keep = match class {
                    "first" => i == 0,
                    "last" => i + 1 == n,
                    "middle" => (i != 0 && i + 1 != n) || n < 3,
                    "firstcertain" => i != 0,
                    "lastcertain" => i + 1 != n,
                    _ => rng.chance(1, 2),
                };
                if !keep {
                    for j in 0..n {
                        v[i * n + j] = 0.0;
                        v[j * n + i] = 0.0;
                    }
                }
            }
        }
        "anticorrelated" => {
            // definite as long as the off-diagonal entries stay above -1/(n-1)
            let k = -0.95 / (n.max(2) - 1) as f64;
            for i in 0..n {
                for j in 0..n {
                    v[i * n + j] = if i == j { 1.0 } else { k };
                }
            }
        }
        "iddev" => {
            (0..n).for_each(|i| v[i * n + i] = 1.0);
            let (a, b) = (rng.below(n), rng.below(n));
            let d = 0.25 + 0.5 * rng.unit();
            v[a * n + b] += d;
            if a != b {
                v[b * n + a] += d;
            }
        }
        "tiny" | "huge" => {
            gram(rng, &mut v, n, amp);
            (0..n).for_each(|i| v[i * n + i] += 0.25);
            let k = extreme::<T>(rng, class == "huge");
            v.iter_mut().for_each(|x| *x *= k);
        }
        // uncorrelated, except for one or two pairs anywhere
        "dev" | "dev2" => {
            let k = rng.below(3);
            (0..n).for_each(|i| v[i * n + i] = if k == 0 { 1.0 } else { 1.0 + rng.unit() });
            for _ in 0..1 + (class == "dev2") as usize {
                let (a, b) = (rng.below(n), rng.below(n));
                if a != b {
                    let d = rng.sym() * 0.45;
                    v[a * n + b] = d;
                    v[b * n + a] = d;
                } else if rng.chance(1, 2) {
                    v[a * n + a] += rng.unit();
                }
            }
        }
        "tridiag" => {
            for i in 0..n {
                v[i * n + i] = 1.0 + rng.unit();
                if i > 0 {
                    let d = rng.sym() * 0.48;
                    v[i * n + i - 1] = d;
                    v[(i - 1) * n + i] = d;
                }
            }
        }
        "arrow" => {
            let k = if rng.chance(1, 2) { 0 } else { n - 1 };
            for i in 0..n {
                v[i * n + i] = 1.0 + rng.unit();
            }
            for i in 0..n {
                if i != k {
                    let d = rng.sym() * 0.9 / (n as f64).sqrt();
                    v[i * n + k] = d;
                    v[k * n + i] = d;
                }
            }
        }
        "toeplitz" => {
            let rho = rng.sym() * 0.9;
            for i in 0..n {
                for j in 0..n {
                    v[i * n + j] = rho.powi((i as i32 - j as i32).abs());
                }
            }
        }
        _ => panic!("class {class}"),
    }
    for i in 0..n {
        for j in 0..n {
            v[i * n + j] = q::<T>(v[i.max(j) * n + i.min(j)]);
        }
    }
    to_t(&v)
}

/// Positive definite with moderate condition: `cov` plus a diagonal share.
pub fn cov_pd<T: Num>(rng: &mut Rng, class: &str, n: usize) -> Vec<T> {
    let mut v: Vec<f64> = cov::<T>(rng, class, n).iter().map(|x| x.f()).collect();
    for i in 0..n {
        if v[i * n + i] == 0.0 {
            v[i * n + i] = 1.0;
        }
        let d = v[i * n + i];
        v[i * n + i] = q::<T>(d * 1.25 + if T::FIXED { 0.5 } else { 0.0 });
    }
    to_t(&v)
}

/// Lower triangular factor with positive diagonal. `dyadic`: powers of two on the diagonal and
/// multiples of 1/2 below, so that factorisation and inversion of L·Lᵀ are exact everywhere.
pub fn lower<T: Num>(rng: &mut Rng, n: usize, class: &str) -> Vec<T> {
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            v[i * n + j] = match class {
                "dyadic" => {
                    if i == j {
                        *rng.pick(&[1.0, 1.0, 2.0, 0.5])
                    } else if i - j <= 2 {
                        rng.int(-1, 1) as f64 * 0.5
                    } else {
                        0.0
                    }
                }
                "diag" => {
                    if i == j {
                        0.5 + rng.unit() * 2.0
                    } else {
                        0.0
                    }
                }
                "band" => {
                    if i == j {
                        1.0 + rng.unit()
                    } else if i == j + 1 {
                        rng.sym()
                    } else {
                        0.0
                    }
                }
                "arrow" => {
                    if i == j {
                        1.0 + rng.unit()
                    } else if i == n - 1 || j == 0 {
                        rng.sym() * 0.5
                    } else {
                        0.0
                    }
                }
                "identity" => (i == j) as u8 as f64,
                "neg" => {
                    if i == j {
                        1.0 + rng.unit()
                    } else {
                        -0.05 - rng.unit() / (n as f64).sqrt()
                    }
                }
                _ => {
                    if i == j {
                        1.0 + rng.unit()
                    } else {
                        rng.sym() / (n as f64).sqrt()
                    }
                }
            };
        }
        if class == "scaled" && !T::FIXED {
            let s = (2f64).powi(rng.int(-6, 6) as i32);
            for j in 0..=i {
                v[i * n + j] *= s;
            }
        }
    }
    let v: Vec<f64> = v.iter().map(|x| q::<T>(*x)).collect();
    to_t(&v)
}
pub const LOWER_CLASSES: &[&str] =
    &["dense", "dyadic", "diag", "band", "arrow", "identity", "neg", "scaled"];

pub fn vector<T: Num>(rng: &mut Rng, n: usize) -> Vec<T> {
    let class = *rng.pick(&["ints", "reals", "sparse", "zero", "neg", "const", "small", "large", "onehot",
        "firstzero", "lastzero", "negzero", "headzero", "tailzero", "ones", "mixed"]);
    general::<T>(rng, class, n, 1)
}

/// Transition matrices that keep a mission bounded: spectral norm about one.
pub fn stable<T: Num>(rng: &mut Rng, n: usize) -> Vec<T> {
    let mut v = M::eye(n);
    // product of a few plane rotations with mild damping
    for _ in 0..n {
        if n < 2 {
            break;
        }
        let i = rng.below(n);
        let j = (i + 1 + rng.below(n - 1)) % n;
        let (s, c) = (rng.sym() * 1.5).sin_cos();
        for k in 0..n {
            let (x, y) = (v.v[i * n + k], v.v[j * n + k]);
            v.v[i * n + k] = c * x - s * y;
            v.v[j * n + k] = s * x + c * y;
        }
    }
    let damp = 0.85 + rng.unit() * 0.13;
    to_t(&v.v.iter().map(|x| q::<T>(x * damp)).collect::<Vec<_>>())
}
