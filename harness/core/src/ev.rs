//! Reference matrices: values in f64 together with a bound on the error a correct
//! implementation of the same formula may have in the number type under test. The bound is
//! independent of the order of evaluation, so reassociated or fused implementations stay inside.

#[derive(Clone, Copy, Debug)]
pub struct Ar {
    pub u: f64,
    pub d: f64,
    /// Relative error of reciprocal and square root (back end dependent).
    pub fr: f64,
}

#[derive(Clone, Debug)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub v: Vec<f64>,
    pub e: Vec<f64>,
}

impl M {
    pub fn new(r: usize, c: usize, v: Vec<f64>) -> M {
        assert_eq!(v.len(), r * c);
        let e = vec![0.0; v.len()];
        M { r, c, v, e }
    }
    pub fn zero(r: usize, c: usize) -> M {
        M::new(r, c, vec![0.0; r * c])
    }
    pub fn eye(n: usize) -> M {
        let mut m = M::zero(n, n);
        for i in 0..n {
            m.v[i * n + i] = 1.0;
        }
        m
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.v[i * self.c + j]
    }
    pub fn t(&self) -> M {
        let mut o = M::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                o.v[j * self.r + i] = self.v[i * self.c + j];
                o.e[j * self.r + i] = self.e[i * self.c + j];
            }
        }
        o
    }
    pub fn mul(&self, b: &M, ar: Ar) -> M {
        assert_eq!(self.c, b.r);
        let mut o = M::zero(self.r, b.c);
        let n = self.c as f64;
        for i in 0..self.r {
            for j in 0..b.c {
                let (mut v, mut s, mut e) = (0.0, 0.0, 0.0);
                for k in 0..self.c {
                    let (av, ae) = (self.v[i * self.c + k], self.e[i * self.c + k]);
                    let (bv, be) = (b.v[k * b.c + j], b.e[k * b.c + j]);
                    v += av * bv;
                    s += (av.abs() + ae) * (bv.abs() + be);
                    e += av.abs() * be + ae * bv.abs() + ae * be;
                }
                o.v[i * b.c + j] = v;
                o.e[i * b.c + j] = e + (n + 1.0) * (ar.u * s + ar.d);
            }
        }
        o
    }
    fn zip(&self, b: &M, ar: Ar, f: impl Fn(f64, f64) -> f64) -> M {
        assert_eq!((self.r, self.c), (b.r, b.c));
        let mut o = M::zero(self.r, self.c);
        for i in 0..o.v.len() {
            o.v[i] = f(self.v[i], b.v[i]);
            // Covers implementations that accumulate directly into the target.
            o.e[i] = self.e[i] + b.e[i] + ar.u * (self.v[i].abs() + b.v[i].abs());
        }
        o
    }
    pub fn add(&self, b: &M, ar: Ar) -> M {
        self.zip(b, ar, |x, y| x + y)
    }
    pub fn sub(&self, b: &M, ar: Ar) -> M {
        self.zip(b, ar, |x, y| x - y)
    }
    /// Multiplication with a scalar that itself carries the error `ef`.
    pub fn scale(&self, f: f64, ef: f64, ar: Ar) -> M {
        let mut o = self.clone();
        for i in 0..o.v.len() {
            let v = self.v[i];
            o.v[i] = v * f;
            o.e[i] = self.e[i] * (f.abs() + ef) + v.abs() * ef + ar.u * (v * f).abs() + ar.d;
        }
        o
    }
    pub fn norm_inf(&self) -> f64 {
        (0..self.r)
            .map(|i| (0..self.c).map(|j| self.at(i, j).abs()).sum::<f64>())
            .fold(0.0, f64::max)
    }
    pub fn max_e(&self) -> f64 {
        self.e.iter().cloned().fold(0.0, f64::max)
    }
    pub fn max_v(&self) -> f64 {
        self.v.iter().map(|x| x.abs()).fold(0.0, f64::max)
    }
    pub fn symmetrized(&self) -> M {
        let mut o = self.clone();
        for i in 0..self.r {
            for j in 0..self.c {
                o.v[i * self.c + j] = 0.5 * (self.at(i, j) + self.at(j, i));
            }
        }
        o
    }
    /// Plain Cholesky in f64; None when a pivot is not positive.
    pub fn chol(&self) -> Option<M> {
        let n = self.r;
        let mut l = M::zero(n, n);
        for j in 0..n {
            let mut s = self.at(j, j);
            for k in 0..j {
                s -= l.at(j, k) * l.at(j, k);
            }
            if !(s > 0.0) || !s.is_finite() {
                return None;
            }
            let d = s.sqrt();
            l.v[j * n + j] = d;
            for i in j + 1..n {
                let mut s = self.at(i, j);
                for k in 0..j {
                    s -= l.at(i, k) * l.at(j, k);
                }
                l.v[i * n + j] = s / d;
            }
        }
        Some(l)
    }
    /// Gauss-Jordan inverse with full row pivoting in f64 (an algorithm unrelated to the
    /// one under test).
    pub fn inv_plain(&self) -> Option<M> {
        let n = self.r;
        let mut a = self.v.clone();
        let mut b = M::eye(n).v;
        for c in 0..n {
            let p = (c..n).max_by(|x, y| a[x * n + c].abs().total_cmp(&a[y * n + c].abs()))?;
            if a[p * n + c] == 0.0 || !a[p * n + c].is_finite() {
                return None;
            }
            for k in 0..n {
                a.swap(c * n + k, p * n + k);
                b.swap(c * n + k, p * n + k);
            }
            let d = a[c * n + c];
            for k in 0..n {
                a[c * n + k] /= d;
                b[c * n + k] /= d;
            }
            for r in 0..n {
                if r != c {
                    let f = a[r * n + c];
                    if f != 0.0 {
                        for k in 0..n {
                            a[r * n + k] -= f * a[c * n + k];
                            b[r * n + k] -= f * b[c * n + k];
                        }
                    }
                }
            }
        }
        Some(M::new(n, n, b))
    }
    pub fn abs(&self) -> M {
        let mut o = self.clone();
        o.v.iter_mut().for_each(|v| *v = v.abs());
        o.e.iter_mut().for_each(|v| *v = 0.0);
        o
    }
    /// Inverse of a symmetric positive definite matrix with an error bound for any backward
    /// stable method (and, in fixed point, for a Cholesky based one). None when the matrix is
    /// not safely invertible in the number type, i.e. when nothing may be claimed.
    pub fn inv_spd(&self, ar: Ar) -> Option<M> {
        let n = self.r;
        let s = self.symmetrized();
        // Equilibrated: the bound is invariant under diagonal scaling.
        let d: Vec<f64> = (0..n).map(|i| s.at(i, i)).collect();
        if d.iter().any(|x| !(*x > 0.0) || !x.is_finite()) {
            return None;
        }
        let d: Vec<f64> = d.iter().map(|x| 1.0 / x.sqrt()).collect();
        let mut eq = s.clone();
        for i in 0..n {
            for j in 0..n {
                eq.v[i * n + j] = s.at(i, j) * d[i] * d[j];
            }
        }
        eq.chol()?;
        let inv = eq.inv_plain()?;
        let nrm = inv.norm_inf();
        let kappa = nrm * eq.norm_inf();
        // Equilibrated input error.
        let mut ein = 0.0f64;
        for i in 0..n {
            let mut row = 0.0;
            for j in 0..n {
                // An implementation may read either triangle of a not quite symmetric matrix.
                let asym = (self.at(i, j) - self.at(j, i)).abs();
                row += (self.e[i * n + j].max(self.e[j * n + i]) + asym) * d[i] * d[j];
            }
            ein = ein.max(row);
        }
        let nn = n as f64;
        let um = ar.u.max(1.2e-16) + ar.fr;
        let rel = 8.0 * (nn + 1.0) * um;
        // Claim nothing unless the perturbed matrix stays clearly definite.
        if nrm * (ein + rel) > 0.05 || kappa * rel > 0.05 {
            return None;
        }
        let e_eq = 2.0 * nrm * nrm * ein + 4.0 * nrm * kappa * rel;
        let mut o = M::zero(n, n);
        for i in 0..n {
            for j in 0..n {
                o.v[i * n + j] = inv.at(i, j) * d[i] * d[j];
                o.e[i * n + j] = e_eq * d[i] * d[j];
            }
        }
        if ar.u == 0.0 {
            // Fixed point: quanta of L, its reciprocals and the inverse are absolute.
            let ni = o.norm_inf();
            let ns = s.norm_inf();
            let q = 4.0
                * (nn + 1.0)
                * ar.d
                * (ni * ni * (1.0 + ns).powf(1.5) + (1.0 + ni) * (1.0 + ni));
            if q * (1.0 + ns) > 0.5 {
                return None;
            }
            for e in o.e.iter_mut() {
                *e += q;
            }
        }
        Some(o)
    }
}

/// Eigenvalues of a symmetric matrix (cyclic Jacobi).
pub fn eig_sym(m: &M) -> Vec<f64> {
    let n = m.r;
    // scaled, as squares of very small or large numbers leave the range
    let top = m.max_v();
    if top == 0.0 || !top.is_finite() {
        return vec![if top == 0.0 { 0.0 } else { f64::NAN }; n];
    }
    let mut a = m.symmetrized().v;
    a.iter_mut().for_each(|x| *x /= top);
    for _ in 0..60 {
        let mut off = 0.0;
        let mut dia = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i * n + j] * a[i * n + j];
                } else {
                    dia += a[i * n + i] * a[i * n + i];
                }
            }
        }
        if off <= 1e-34 * dia || off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[p * n + q];
                if apq == 0.0 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * apq);
                let t = if th >= 0.0 {
                    1.0 / (th + (1.0 + th * th).sqrt())
                } else {
                    -1.0 / (-th + (1.0 + th * th).sqrt())
                };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k * n + p], a[k * n + q]);
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p * n + k], a[q * n + k]);
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
            }
        }
    }
    (0..n).map(|i| top * a[i * n + i]).collect()
}
