//! kstd with an `AtomicUsize` under monotone interference: other threads may have increased it by
//! any amount before each access (the rely of an id counter whose every writer only increments it).
pub use crate::kstd::*;
pub mod sync {
    pub use crate::kstd::sync::*;
    pub mod atomic {
        pub use crate::rg::MonoUsize as AtomicUsize;
        pub use crate::model::flag::AtomicBool;
        pub use ::std::sync::atomic::*;
    }
}
