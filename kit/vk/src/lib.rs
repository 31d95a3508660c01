//! Support crate for the contract harnesses: ghost state and models (assumed contracts) of the
//! external code the mirrored sources call. Nothing in here is code of the project under test.
#![cfg_attr(kani, feature(min_specialization))]
#![allow(dead_code, static_mut_refs, clippy::all)]

pub mod any;
pub mod ghost;
pub mod kstd;
pub mod model;

pub use any::{any_bool, any_u16, any_u32, any_u64, any_u8, any_usize, any_i64, any_i32};

/// Postcondition / invariant obligation: named, so that a failure names the obligation.
#[macro_export]
macro_rules! ensures {
    ($name:literal, $cond:expr) => {
        ::std::assert!($cond, $name)
    };
}

/// Precondition (assumed for the call under contract; checked non-vacuous by `reach!`).
#[macro_export]
macro_rules! requires {
    ($cond:expr) => {{
        let c: bool = $cond;
        $crate::any::assume(c);
    }};
}

/// Reachability check behind a precondition / case split (must be satisfiable on every run).
#[macro_export]
macro_rules! reach {
    ($name:literal, $cond:expr) => {{
        let _c: bool = $cond;
        #[cfg(kani)]
        ::kani::cover!(_c, $name);
    }};
}
pub mod envq;
pub mod kstd_aw;
pub mod kstd_sm;
pub mod kstd_cr;
pub mod kstd_gc;
pub mod rgflag;
pub mod kstd_tg;
pub mod kstd_mono;
pub mod kstd_rg;
pub mod rg;

/// Proves that a ghost value has a known constant, then uses the constant (keeps symbolic execution
/// deterministic; the equality is an obligation, not an assumption).
#[macro_export]
macro_rules! settle {
    ($name:literal, $place:expr, $v:expr) => {{
        ::std::assert!($place == $v, $name);
        $place = $v;
    }};
}
