//! C13: every product operation against the mathematical product.
use kfmon::mats::*;
use kfmon::*;

fn junk<T: Num>(rng: &mut Rng, n: usize) -> Vec<T> {
    let k = rng.below(6);
    (0..n).map(|i| T::poison(k + i)).collect()
}

fn transposed<T: Num>(r: usize, c: usize, v: &[T]) -> Vec<T> {
    let mut o = v.to_vec();
    for i in 0..r {
        for j in 0..c {
            o[j * r + i] = v[i * c + j];
        }
    }
    o
}

/// c + a·b accumulated in any order, in the target or beside it.
fn accumulated(c0: &M, ab: &M, a: &M, b: &M, ar: Ar) -> M {
    let mut o = c0.add(ab, ar);
    let s = a.abs().mul(&b.abs(), ar);
    for i in 0..o.v.len() {
        o.e[i] += ar.u * (a.c as f64 + 1.0) * (c0.v[i].abs() + s.v[i]);
    }
    o
}

fn check_prod<T: Num>(c: &mut Case, p: &Prod<T>, ca: &str, cb: &str) -> Chk {
    let ar = Ar::of::<T>();
    let (r, k, u) = (p.r, p.k, p.u);
    let a = gen::general::<T>(&mut c.rng, ca, r, k);
    let b = gen::general::<T>(&mut c.rng, cb, k, u);
    let bt = transposed(k, u, &b);
    c.input(&a);
    c.input(&b);
    let (ma, mb) = (M::of(r, k, &a), M::of(k, u, &b));
    let want = ma.mul(&mb, ar);
    c.sample(|| format!("a={a:?} b={b:?}"));
    let (a0, b0) = (a.clone(), b.clone());

    let mut t = junk::<T>(&mut c.rng, r * u);
    (p.mult)(&a, &b, &mut t);
    c.near("mult", &t, &want)?;

    let mut tb = junk::<T>(&mut c.rng, r * u);
    let mut aux = junk::<T>(&mut c.rng, k);
    (p.mult_buffered)(&a, &b, &mut aux, &mut tb);
    c.near("mult_buffered", &tb, &want)?;

    let mut tt = junk::<T>(&mut c.rng, r * u);
    (p.mult_transb)(&a, &bt, &mut tt);
    c.near("mult_transb", &tt, &want)?;

    let scale = *c.rng.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, -1.5, 3.25, 0.125]);
    let mut ts = junk::<T>(&mut c.rng, r * u);
    (p.multscale_transb)(&a, &bt, T::of(scale), &mut ts);
    // also covers scaling an operand or each term instead of the sum
    let mut ws = want.scale(scale, 0.0, ar);
    let s = ma.abs().mul(&mb.abs(), ar);
    for i in 0..ws.v.len() {
        ws.e[i] += (ar.u * (s.v[i] * scale).abs() + ar.d) * (k as f64 + 1.0);
        ws.e[i] += ar.d * (k as f64) * ma.max_v().max(mb.max_v());
    }
    c.near("multscale_transb", &ts, &ws)?;

    let c0 = gen::general::<T>(&mut c.rng, ca, r, u);
    let mut tacc = c0.clone();
    (p.multadd_transb)(&a, &bt, &mut tacc);
    let mut wacc = accumulated(&M::of(r, u, &c0), &want, &ma, &mb, ar);
    c.near("multadd_transb", &tacc, &wacc)?;
    // and a second time on top
    (p.multadd_transb)(&a, &bt, &mut tacc);
    wacc = accumulated(&wacc, &want, &ma, &mb, ar);
    c.near("multadd_transb twice", &tacc, &wacc)?;

    c.exact("left operand", &a, &a0)?;
    c.exact("right operand", &b, &b0)?;
    c.exact("transposed right operand", &bt, &transposed(k, u, &b0))?;
    c.count("products judged", 6);
    c.nontrivial(want.max_v() != 0.0);
    Ok(())
}

fn check_vec<T: Num>(c: &mut Case, e: &Elem<T>, ca: &str) -> Chk {
    let ar = Ar::of::<T>();
    let a = gen::general::<T>(&mut c.rng, ca, e.r, e.c);
    let x = gen::vector::<T>(&mut c.rng, e.c);
    c.input(&a);
    c.input(&x);
    let (a0, x0) = (a.clone(), x.clone());
    let (ma, mx) = (M::of(e.r, e.c, &a), M::of(e.c, 1, &x));
    let want = ma.mul(&mx, ar);
    let mut y = junk::<T>(&mut c.rng, e.r);
    (e.mult_rowvector)(&a, &x, &mut y);
    c.near("mult_rowvector", &y, &want)?;
    let y0 = gen::vector::<T>(&mut c.rng, e.r);
    let mut z = y0.clone();
    (e.multadd_rowvector)(&a, &x, &mut z);
    let mut w = accumulated(&M::of(e.r, 1, &y0), &want, &ma, &mx, ar);
    c.near("multadd_rowvector", &z, &w)?;
    (e.multadd_rowvector)(&a, &x, &mut z);
    w = accumulated(&w, &want, &ma, &mx, ar);
    c.near("multadd_rowvector twice", &z, &w)?;
    c.exact("matrix operand", &a, &a0)?;
    c.exact("vector operand", &x, &x0)?;
    c.count("vector products judged", 3);
    c.nontrivial(want.max_v() != 0.0);
    Ok(())
}

fn all<T: MatSets>(rep: &mut Rep) {
    let rounds = rep.r(2, 40);
    for p in T::prods() {
        for (i, ca) in gen::GEN_CLASSES.iter().enumerate() {
            for round in 0..rounds {
                let cb = gen::GEN_CLASSES[(i * 5 + round * 7 + p.r + p.k) % gen::GEN_CLASSES.len()];
                let l = format!("{}/{}x{}x{}/{ca}-{cb}#{round}", T::NAME, p.r, p.k, p.u);
                rep.case(&l, |c| check_prod(c, &p, ca, cb));
            }
        }
    }
    let big = T::big();
    for (k, p) in big.prods.iter().enumerate() {
        for round in 0..rounds {
            let ca = gen::GEN_CLASSES[(round * 11 + k) % gen::GEN_CLASSES.len()];
            let l = format!("{}/{}x{}x{}/{ca}-reals#{round}", T::NAME, p.r, p.k, p.u);
            rep.case(&l, |c| check_prod(c, p, ca, "reals"));
        }
    }
    for (k, e) in big.elems.iter().enumerate() {
        for round in 0..rounds {
            let ca = gen::GEN_CLASSES[(round * 11 + k) % gen::GEN_CLASSES.len()];
            let l = format!("{}/{}x{}/vector/{ca}#{round}", T::NAME, e.r, e.c);
            rep.case(&l, |c| check_vec(c, e, ca));
        }
    }
    for e in T::elems() {
        for ca in gen::GEN_CLASSES {
            for round in 0..rounds * 2 {
                let l = format!("{}/{}x{}/vector/{ca}#{round}", T::NAME, e.r, e.c);
                rep.case(&l, |c| check_vec(c, &e, ca));
            }
        }
    }
}

fn main() {
    let mut rep = Rep::new(
        "C13",
        "A case is one pair of operands of one shape and number type, put through every product operation; \
         non-trivial when the product is not zero; distinct by the operands' bits and the shape.",
    );
    every_type!(all, &mut rep);
    rep.finish()
}
