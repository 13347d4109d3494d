pub mod gen;
pub mod mon;
pub mod refmodel;

/// Shorthand for an oracle disagreement.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
