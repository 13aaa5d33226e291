//! Stand-in: the toolchain is newer than every version named.
#[macro_export]
macro_rules! if_rust_version { (>= $v:literal { $($a:tt)* } else { $($b:tt)* }) => { { $($a)* } }; (>= $v:literal { $($a:tt)* }) => { { $($a)* } }; }
