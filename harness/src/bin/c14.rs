//! C14: elementwise operations and copies, bit for bit.
use kfmon::mats::*;
use kfmon::*;
use minikalman::matrix::*;

fn zip<T: Num>(a: &[T], b: &[T], f: impl Fn(T, T) -> T) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

fn check<T: Num>(c: &mut Case, e: &Elem<T>, ca: &str, cb: &str) -> Chk {
    let mut a = gen::general::<T>(&mut c.rng, ca, e.r, e.c);
    let mut b = gen::general::<T>(&mut c.rng, cb, e.r, e.c);
    if !T::FIXED && c.rng.chance(1, 4) {
        // the formula holds for every value there is
        for v in [&mut a, &mut b] {
            for x in v.iter_mut() {
                if c.rng.chance(1, 3) {
                    *x = T::of(*c.rng.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 3e38, -3e38, 1e-40, 1.0]));
                }
            }
        }
    }
    c.input(&a);
    c.input(&b);
    c.sample(|| format!("a={a:?} b={b:?}"));
    let n = e.r * e.c;
    let k = c.rng.below(6);
    let junk: Vec<T> = (0..n).map(|i| T::poison(k + i)).collect();
    let mut ro = a.clone();
    let add = zip(&a, &b, |x, y| x + y);
    let sub = zip(&a, &b, |x, y| x - y);

    let mut t = junk.clone();
    (e.sub)(&ro, &b, &mut t);
    c.outcome("sub", &t, &sub)?;
    // target = b
    let mut t = b.clone();
    (e.add_inplace_b)(&ro, &mut t);
    c.outcome("add_inplace_b", &t, &add)?;
    let mut t = b.clone();
    (e.sub_inplace_b)(&ro, &mut t);
    c.outcome("sub_inplace_b", &t, &sub)?;
    // target = b, subtracting or adding a
    let mut t = b.clone();
    (e.add_inplace_a)(&ro, &mut t);
    c.outcome("add_inplace_a", &t, &add)?;
    let mut t = b.clone();
    (e.sub_inplace_a)(&ro, &mut t);
    c.outcome("sub_inplace_a", &t, &zip(&b, &a, |x, y| x - y))?;
    c.exact("operand that is not the target", &ro, &a)?;
    for (what, f) in [("copy", e.copy), ("copy_to", e.copy_to)] {
        let mut t = junk.clone();
        f(&ro, &mut t);
        c.exact(what, &t, &a)?;
        c.exact("source of a copy", &ro, &a)?;
    }
    let mut t = junk.clone();
    (e.copy_from)(&mut ro, &mut t);
    c.exact("copy_from", &t, &a)?;
    c.exact("source of copy_from", &ro, &a)?;
    // copies carry any bit pattern
    let mut t = b.clone();
    (e.copy_to)(&junk, &mut t);
    c.exact("copy of special values", &t, &junk)?;
    c.count("elementwise results judged", 5);
    c.count("copies judged", 4);
    c.nontrivial(a.iter().any(|x| x.f() != 0.0) && b.iter().any(|x| x.f() != 0.0));
    Ok(())
}

/// Empty matrices of every form: nothing happens, whatever the buffers hold.
fn empties<T: Num>(rep: &mut Rep) {
    macro_rules! one {
        ($r:literal, $c:literal) => {
            for extra in [0usize, 1, 5] {
                rep.case(&format!("{}/empty/{}x{}/{extra}", T::NAME, $r, $c), |c| {
                    let a: Vec<T> = (0..extra).map(|i| T::of(i as f64 + 1.0)).collect();
                    let b0: Vec<T> = (0..extra).map(|i| T::of(-(i as f64) - 0.5)).collect();
                    c.tag(&format!("{extra}"));
                    c.nontrivial(true);
                    macro_rules! op {
                        ($n:literal, $ma:ident, $mb:ident, $e:expr) => {{
                            let mut a1 = a.clone();
                            let mut b = b0.clone();
                            {
                                #[allow(unused_mut)]
                                let mut $ma = MatrixDataMut::<$r, $c, T>::new(&mut a1);
                                #[allow(unused_mut)]
                                let mut $mb = MatrixDataMut::<$r, $c, T>::new(&mut b);
                                $e;
                            }
                            c.exact(concat!($n, ": source of an empty matrix"), &a1, &a)?;
                            c.exact(concat!($n, ": target of an empty matrix"), &b, &b0)?;
                            c.count("operations on empty matrices", 1);
                        }};
                    }
                    op!("copy_to", x, y, x.copy_to(&mut y));
                    #[allow(deprecated)]
                    {
                        op!("copy", x, y, x.copy(&mut y));
                    }
                    op!("copy_from", x, y, y.copy_from(&x));
                    op!("add_inplace_a", x, y, y.add_inplace_a(&x));
                    op!("add_inplace_b", x, y, x.add_inplace_b(&mut y));
                    op!("sub_inplace_a", x, y, y.sub_inplace_a(&x));
                    op!("sub_inplace_b", x, y, x.sub_inplace_b(&mut y));
                    Ok(())
                });
            }
        };
    }
    one!(0, 0);
    one!(0, 3);
    one!(3, 0);
    one!(0, 1);
    one!(1, 0);
}

fn all<T: MatSets>(rep: &mut Rep) {
    let rounds = rep.r(4, 60);
    for e in T::elems() {
        for (i, ca) in gen::GEN_CLASSES.iter().enumerate() {
            for round in 0..rounds {
                let cb = gen::GEN_CLASSES[(i * 5 + round * 7 + e.r + e.c) % gen::GEN_CLASSES.len()];
                let l = format!("{}/{}x{}/{ca}-{cb}#{round}", T::NAME, e.r, e.c);
                rep.case(&l, |c| check(c, &e, ca, cb));
            }
        }
    }
    for (k, e) in T::big().elems.iter().enumerate() {
        for round in 0..rounds {
            let (ca, cb) = (gen::GEN_CLASSES[(round * 11 + k) % gen::GEN_CLASSES.len()], "reals");
            let l = format!("{}/{}x{}/{ca}-{cb}#{round}", T::NAME, e.r, e.c);
            rep.case(&l, |c| check(c, e, ca, cb));
        }
    }
    empties::<T>(rep);
}

fn main() {
    let mut rep = Rep::new(
        "C14",
        "A case is one pair of matrices of one shape and number type, put through every elementwise operation and copy; \
         non-trivial when both are not zero (or the matrix is empty and nothing may happen); distinct by their bits and shape.",
    );
    every_type!(all, &mut rep);
    rep.finish()
}
