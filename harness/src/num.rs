//! f64 helpers shared by the oracles.

/// the k-th next representable double (negative k: previous)
pub fn ulp(x: f64, k: i64) -> f64 {
    fn key(x: f64) -> i64 { let b = x.to_bits() as i64; if b < 0 { i64::MIN.wrapping_sub(b) } else { b } }
    let t = key(x) + k;
    f64::from_bits(if t < 0 { i64::MIN.wrapping_sub(t) as u64 } else { t as u64 })
}
/// identical, with NaN equal to NaN and +0 equal to -0
#[inline]
pub fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
/// |a-b| within rel of scale (scale at least the larger magnitude)
#[inline]
pub fn close(a: f64, b: f64, rel: f64, scale: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) { return true; }
    if !a.is_finite() || !b.is_finite() { return false; }
    (a - b).abs() <= rel * scale.abs().max(a.abs()).max(b.abs())
}
