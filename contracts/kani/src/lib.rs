//! Contracts decided by Kani (CBMC), over every bit pattern of every f64: the
//! factorial, and what the function macro builds. The code is /repo's own files,
//! compiled in place; nothing is copied.
#![cfg_attr(NIGHTLY, feature(float_gamma))]
#![allow(dead_code, unused, clippy::all, static_mut_refs)]

pub mod utils {
    #[path = "/repo/src/utils/hidden_macros.rs"]
    pub mod hidden_macros;
    #[path = "/repo/src/utils/factorial.rs"]
    pub mod factorial;
}
#[path = "/repo/src/token/function.rs"]
pub mod function;
pub use function::{FnPointer, Function};

#[cfg(kani)]
mod factorial;
#[cfg(kani)]
mod macros;
#[cfg(kani)]
mod functions;
