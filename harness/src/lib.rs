//! Explicit, exhaustive exploration of bounded spaces of inputs and operation
//! sequences of geos-rs, executed on the real code and judged by reference models.
//! This library knows nothing about geos-rs: only the property binaries do.
pub mod big;
pub mod exact;
pub mod geo;
pub mod mc;
pub mod num;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
