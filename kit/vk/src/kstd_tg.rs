//! Model std of the wall-clock guard: `kstd` with recording wakers (no vtables).
pub use crate::kstd::*;
pub mod task {
    pub use crate::model::task::{Context, Waker};
    pub use ::std::task::Poll;
}
