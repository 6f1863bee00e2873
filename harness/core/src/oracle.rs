//! The textbook equations, on reference matrices with error bounds.

use crate::ev::{Ar, M};

pub struct Pred {
    pub x: M,
    pub p: M,
}

/// The additional error of accumulating the products of `a·b` one by one into `base`.
fn into(sum: &mut M, base: &M, a: &M, b: &M, ar: Ar) {
    let s = a.abs().mul(&b.abs(), ar);
    for i in 0..sum.v.len() {
        sum.e[i] += ar.u * (a.c as f64 + 1.0) * (base.v[i].abs() + s.v[i]);
    }
}

/// The larger of the errors of two ways to associate a product.
fn either(m: &mut M, alt: &M) {
    for (e, f) in m.e.iter_mut().zip(&alt.e) {
        *e = e.max(*f);
    }
}

/// x = A·x ; P = (A·P·Aᵀ)/λ² + Q
pub fn predict(a: &M, x: &M, p: &M, q: &M, lambda: Option<f64>, ar: Ar) -> Pred {
    Pred {
        x: a.mul(x, ar),
        p: predict_p(a, p, q, lambda, ar),
    }
}

pub fn predict_p(a: &M, p: &M, q: &M, lambda: Option<f64>, ar: Ar) -> M {
    let mut app = a.mul(p, ar).mul(&a.t(), ar);
    // An implementation may associate the other way round; allow both.
    let alt = a.mul(&p.mul(&a.t(), ar), ar);
    either(&mut app, &alt);
    let ap = a.mul(p, ar);
    if let Some(l) = lambda {
        let l2 = l * l;
        let f = 1.0 / l2;
        // rounding of λ², of the reciprocal, and of applying it (also when divided twice by λ)
        let el2 = ar.u * l2 + ar.d;
        let ef = f * (ar.fr + 4.0 * ar.u) + f * f * el2 + 2.0 * ar.d * (1.0 + f);
        app = app.scale(f, ef, ar);
        let mut o = app.add(q, ar);
        into(&mut o, q, &ap.scale(f, ef, ar), &a.t(), ar);
        return o;
    }
    let mut o = app.add(q, ar);
    into(&mut o, q, &ap, &a.t(), ar);
    o
}

/// x += B·u ; P += B·Q·Bᵀ
pub fn control(b: &M, u: &M, q: &M, x: &M, p: &M, ar: Ar) -> Pred {
    let bq = b.mul(q, ar).mul(&b.t(), ar);
    let mut xx = x.add(&b.mul(u, ar), ar);
    let mut pp = p.add(&bq, ar);
    // accumulation in any order, including into the target
    into(&mut xx, x, b, u, ar);
    into(&mut pp, p, &b.abs().mul(&q.abs(), ar), &b.t(), ar);
    Pred { x: xx, p: pp }
}

pub struct Upd {
    pub x: M,
    pub p: M,
    pub s: M,
    pub k: M,
    pub y: M,
}

/// Measurement update with innovation `y`; None when nothing may be claimed because the
/// innovation covariance is not safely positive definite in this number type, or (fixed point)
/// because an intermediate value might leave the representable range `lim`.
pub fn update(x: &M, p: &M, h: &M, r: &M, y: &M, ar: Ar, lim: f64) -> Option<Upd> {
    let hp = h.mul(p, ar);
    let pht = p.mul(&h.t(), ar);
    let mut hpht = hp.mul(&h.t(), ar);
    either(&mut hpht, &h.mul(&pht, ar));
    let mut s = hpht.add(r, ar);
    into(&mut s, r, &hp, &h.t(), ar);
    let si = s.inv_spd(ar)?;
    let k = pht.mul(&si, ar);
    let mut ky = k.mul(y, ar);
    either(&mut ky, &pht.mul(&si.mul(y, ar), ar));
    let mut x1 = x.add(&ky, ar);
    into(&mut x1, x, &k, y, ar);
    let mut khp = k.mul(&hp, ar);
    either(&mut khp, &k.mul(h, ar).mul(p, ar));
    let mut p1 = p.sub(&khp, ar);
    into(&mut p1, p, &k, &hp, ar);
    if lim < 1e30 {
        let ha = h.abs();
        let hpa = ha.mul(&p.abs(), ar);
        let sa = hpa.mul(&ha.t(), ar).add(&r.abs(), ar);
        let ka = pht.abs().mul(&si.abs(), ar);
        let worst = [
            hpa.max_v(),
            sa.max_v(),
            ka.max_v(),
            ka.mul(&y.abs(), ar).add(&x.abs(), ar).max_v(),
            k.abs().mul(&hp.abs(), ar).max_v(),
            si.max_v() * sa.max_v(),
        ];
        if worst.iter().any(|w| *w > lim) {
            return None;
        }
    }
    Some(Upd { x: x1, p: p1, s, k, y: y.clone() })
}

/// y = z − H·x
pub fn innovation(z: &M, h: &M, x: &M, ar: Ar) -> M {
    let mut y = z.sub(&h.mul(x, ar), ar);
    into(&mut y, z, h, x, ar);
    y
}
