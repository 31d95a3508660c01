//! kstd with the rely/guarantee turn flag.
pub use crate::kstd::*;
pub mod sync {
    pub use crate::kstd::sync::*;
    pub mod atomic {
        pub use crate::rgflag::TurnBool as AtomicBool;
        pub use ::std::sync::atomic::*;
    }
}
