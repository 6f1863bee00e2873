//! The number types under test, as seen by the monitors.

use minikalman::matrix::MatrixDataType;
use std::fmt::Debug;

pub trait Num: MatrixDataType + Copy + Default + PartialEq + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// Relative rounding error of one operation (0 for fixed point).
    const U: f64;
    /// Absolute quantum of one multiplication, division or square root.
    const DELTA: f64;
    const FIXED: bool;
    /// Intermediate values beyond this are avoided (fixed point overflow is documented to panic).
    const LIM: f64;
    /// Largest magnitude the generators may produce for entries.
    const CAP: f64;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    /// A recognisable value that destroys any result it enters.
    fn poison(k: usize) -> Self;
    fn finite(self) -> bool {
        self.f().is_finite()
    }
}

impl Num for f32 {
    const NAME: &'static str = "f32";
    const U: f64 = 6.0e-8;
    const DELTA: f64 = 1.5e-45;
    const FIXED: bool = false;
    const LIM: f64 = 1e300;
    const CAP: f64 = 1e8;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn poison(k: usize) -> Self {
        [f32::NAN, f32::INFINITY, -1.2345e30, 7.75e25, f32::NEG_INFINITY, f32::MAX][k % 6]
    }
}

impl Num for f64 {
    const NAME: &'static str = "f64";
    // twice the unit roundoff: the reference is computed in f64 as well
    const U: f64 = 2.3e-16;
    const DELTA: f64 = 5e-324;
    const FIXED: bool = false;
    const LIM: f64 = 1e300;
    const CAP: f64 = 1e8;
    fn of(v: f64) -> Self {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn poison(k: usize) -> Self {
        [f64::NAN, f64::INFINITY, -1.2345e30, 7.75e25, f64::NEG_INFINITY, f64::MAX][k % 6]
    }
}

#[cfg(feature = "fixed")]
impl Num for fixed::types::I16F16 {
    const NAME: &'static str = "I16F16";
    const U: f64 = 0.0;
    const DELTA: f64 = 1.0 / 65536.0;
    const FIXED: bool = true;
    const LIM: f64 = 6000.0;
    const CAP: f64 = 4.0;
    fn of(v: f64) -> Self {
        fixed::types::I16F16::from_num(v)
    }
    fn f(self) -> f64 {
        self.to_num::<f64>()
    }
    fn bits(self) -> u64 {
        self.to_bits() as u32 as u64
    }
    fn poison(k: usize) -> Self {
        Self::of([123.25, -77.5, 200.125, -311.0625, 99.0, 45.875][k % 6])
    }
}

#[cfg(feature = "fixed")]
impl Num for fixed::types::I32F32 {
    const NAME: &'static str = "I32F32";
    const U: f64 = 0.0;
    const DELTA: f64 = 1.0 / 4294967296.0;
    const FIXED: bool = true;
    const LIM: f64 = 1e8;
    const CAP: f64 = 16.0;
    fn of(v: f64) -> Self {
        fixed::types::I32F32::from_num(v)
    }
    fn f(self) -> f64 {
        self.to_num::<f64>()
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn poison(k: usize) -> Self {
        Self::of([1230.25, -770.5, 2000.125, -3110.0625, 990.0, 450.875][k % 6])
    }
}

pub fn to_t<T: Num>(v: &[f64]) -> Vec<T> {
    v.iter().map(|x| T::of(*x)).collect()
}
pub fn to_f<T: Num>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}
pub fn bits_of<T: Num>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.bits()).collect()
}
/// Bitwise equality, except that any NaN equals any NaN.
pub fn same<T: Num>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(p, q)| p.bits() == q.bits() || (p.f().is_nan() && q.f().is_nan()))
}
/// Value equality (+0 equals -0, NaN equals NaN).
pub fn same_val<T: Num>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(p, q)| p.f() == q.f() || (p.f().is_nan() && q.f().is_nan()))
}
