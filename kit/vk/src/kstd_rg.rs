//! kstd with rely/guarantee `AtomicUsize` (see rg.rs).
pub use crate::kstd::*;
pub mod sync {
    pub use crate::kstd::sync::*;
    pub mod atomic {
        pub use crate::rg::ShareUsize as AtomicUsize;
        pub use crate::model::flag::AtomicBool;
        pub use ::std::sync::atomic::*;
    }
}
