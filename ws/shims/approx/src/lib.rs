//! Stand-in for approx 0.5 (tests only).
#[macro_export]
macro_rules! assert_relative_eq { ($a:expr, $b:expr $(, $k:ident = $v:expr)* $(,)?) => { { let (a, b): (f64, f64) = (f64::from($a), f64::from($b)); let mut tol = f64::EPSILON * a.abs().max(b.abs()).max(1.0); $( let _ = stringify!($k); tol = tol.max($v as f64); )* assert!((a - b).abs() <= tol, "{} != {}", a, b) } } }
#[macro_export]
macro_rules! assert_abs_diff_eq { ($($t:tt)*) => { $crate::assert_relative_eq!($($t)*) } }
