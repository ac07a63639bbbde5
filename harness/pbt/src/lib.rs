//! A small property-based testing engine without dependencies.
//!
//! Every case is a function of a *choice sequence*: each random decision is a
//! draw of an integer in `0..n`, 0 being the simplest. The sequence of draws
//! is what is generated, shrunk (deleted, zeroed, minimised), stored in replay
//! files and re-executed.

mod gen;
mod json;
mod runner;

pub use gen::{Fail, G, R};
pub use json::Json;
pub use runner::{main, scratch_root, Check, Sub};

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::Fail::new(format!($($a)*))); }
    };
}

/// Fails the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if !(*l == *r) {
            return Err($crate::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($a)*), l, r)));
        }
    }};
}

/// Fails the case.
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail::new(format!($($a)*))) };
}
