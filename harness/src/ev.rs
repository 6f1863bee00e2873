//! Glue between the number types and the reference matrices.
use crate::num::Num;
pub use kfcore::ev::*;

pub trait ArOf {
    fn of<T: Num>() -> Ar;
}
impl ArOf for Ar {
    fn of<T: Num>() -> Ar {
        let approx = cfg!(feature = "micromath") && !cfg!(any(feature = "std", feature = "libm"));
        Ar {
            u: T::U,
            d: T::DELTA,
            fr: if approx && !T::FIXED { 0.1 } else { 4.0 * T::U },
        }
    }
}

pub trait MFrom {
    fn of<T: Num>(r: usize, c: usize, s: &[T]) -> M;
}
impl MFrom for M {
    fn of<T: Num>(r: usize, c: usize, s: &[T]) -> M {
        assert!(s.len() >= r * c);
        M::new(r, c, s[..r * c].iter().map(|x| x.f()).collect())
    }
}
