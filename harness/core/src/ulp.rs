//! Independent judges of reciprocal and square root: the exact value by wider or integer
//! arithmetic, never by the function under test.

/// Units in the last place granted to the accurate back ends.
pub const ULPS: u64 = 4;

fn ulp32(t: f64) -> f64 {
    let e = ((t.abs().to_bits() >> 52) & 0x7ff) as i32 - 1023;
    2f64.powi((e - 23).max(-149))
}

/// f32 against f64 (exact to 2^-53, that is 2^-29 of an f32 ulp). Error in ulp if too large.
pub fn near32(y: f32, t: f64) -> Result<f64, ()> {
    let max = f32::MAX as f64;
    if y.is_infinite() {
        // Only where the true value is not representable (or all but).
        return if t.abs() > max * (1.0 - 3e-7) && (y > 0.0) == (t > 0.0) { Ok(0.0) } else { Err(()) };
    }
    let e = (y as f64 - t).abs() / ulp32(t);
    // a true value beyond the maximum may also saturate
    if e <= ULPS as f64 || (t.abs() > max && y.abs() == f32::MAX && (y > 0.0) == (t > 0.0)) {
        Ok(e)
    } else {
        Err(())
    }
}

/// The positive normal or subnormal f64 as m·2^e with m < 2^53.
fn parts(x: f64) -> (u128, i32) {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    if e == 0 {
        (m as u128, -1074)
    } else {
        ((m | 1 << 52) as u128, e - 1075)
    }
}
/// Normalised: 2^52 <= m < 2^53.
fn norm(x: f64) -> (u128, i32) {
    let (mut m, mut e) = parts(x);
    while m < 1 << 52 {
        m <<= 1;
        e -= 1;
    }
    (m, e)
}

/// a <= 2^s, exactly.
fn le_pow(a: u128, s: i32) -> bool {
    if a == 0 {
        return true;
    }
    if s < 0 {
        return false;
    }
    s >= 127 || a <= 1u128 << s
}
fn ge_pow(a: u128, s: i32) -> bool {
    if s < 0 {
        return a >= 1;
    }
    s < 127 && a >= 1u128 << s
}

/// Is y within ULPS of 1/x, for x > 0?
pub fn recip64(x: f64, y: f64) -> bool {
    if y.is_nan() || y <= 0.0 {
        return false;
    }
    let huge = f64::from_bits((1u64 << 50) + 8); // 2^-1024 and a little
    if y.is_infinite() || y == f64::MAX {
        return x <= huge;
    }
    if x < f64::from_bits(1u64 << 50) {
        return false; // the true value overflows
    }
    let (mx, ex) = parts(x);
    let (my, ey) = parts(y);
    // (my - k)·mx·2^(ex+ey) <= 1 <= (my + k)·mx·2^(ex+ey)
    let k = ULPS as u128;
    let s = -(ex + ey);
    le_pow(my.saturating_sub(k) * mx, s) && ge_pow((my + k) * mx, s)
}

/// Is y within ULPS of the square root of x, for x > 0?
pub fn sqrt64(x: f64, y: f64) -> bool {
    if !y.is_finite() || y <= 0.0 {
        return false;
    }
    let (mx, ex) = norm(x);
    let (my, ey) = norm(y);
    let s = ex - 2 * ey;
    if !(50..=58).contains(&s) {
        return false;
    }
    let t = mx << s;
    let k = ULPS as u128;
    (my - k) * (my - k) <= t && t <= (my + k) * (my + k)
}

/// Quanta granted to fixed-point results.
pub const QUANTA: i128 = 4;

/// Is `y` (bits) within QUANTA of 2^(2·frac)/x (bits)?
pub fn recip_fx(x: i128, y: i128, frac: u32) -> bool {
    let one = 1i128 << (2 * frac);
    // |y·x - one| <= QUANTA·|x|
    (y * x - one).abs() <= QUANTA * x.abs()
}
/// Is `y` (bits) within QUANTA of sqrt(x·2^frac) (bits)?
pub fn sqrt_fx(x: i128, y: i128, frac: u32) -> bool {
    let t = x << frac;
    let (lo, hi) = ((y - QUANTA).max(0), y + QUANTA);
    y >= 0 && lo * lo <= t && t <= hi * hi
}

/// Relative error against the exact value (for the approximate back end).
pub fn rel(y: f64, t: f64) -> f64 {
    ((y - t) / t).abs()
}
