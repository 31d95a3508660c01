//! kstd with the rely/guarantee queue, counter and accumulator of envq.rs.
pub use crate::kstd::*;
pub mod sync {
    pub use crate::kstd::sync::*;
    pub use crate::envq::{Mutex, MutexGuard};
    pub mod atomic {
        pub use crate::envq::{CountU64 as AtomicU64, CountUsize as AtomicUsize, LedgerI64 as AtomicI64};
        pub use crate::model::flag::AtomicBool;
        pub use ::std::sync::atomic::*;
    }
}
pub mod collections {
    pub use crate::envq::VecDeque;
    pub use crate::kstd::collections::*;
}
