//! kstd whose id counters other threads increment.
pub use crate::kstd::*;
pub mod sync {
    pub use crate::kstd::sync::*;
    pub use crate::envq::{Mutex, MutexGuard};
    pub use crate::model::arc::Arc;
    pub mod atomic {
        pub use crate::envq::IdU64 as AtomicU64;
        pub use crate::model::flag::AtomicBool;
        pub use ::std::sync::atomic::*;
    }
}
