//! Stand-in for `std` in mirrored sources: everything is the real std except the items below.
pub use ::std::*;

pub mod sync {
    pub use crate::model::sync::{LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock};
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::model::flag::AtomicBool;
        pub use ::std::sync::atomic::*;
    }
    pub mod mpsc {
        pub use crate::model::std_mpsc::*;
    }
}
pub mod collections {
    pub use crate::model::map::{HashMap, HashSet, hash_map};
    pub use crate::model::deque::VecDeque;
    pub use ::std::collections::*;
}
pub mod thread {
    pub use crate::model::thread::*;
    pub use ::std::thread::{AccessError, LocalKey, ThreadId};
}
pub mod time {
    pub use crate::model::time::{Duration, Instant};
    pub use ::std::time::{SystemTime, UNIX_EPOCH};
}
pub mod io {
    pub use crate::model::io::{Error, Result};
    pub use ::std::io::*;
}
