#![cfg_attr(kani, feature(min_specialization))]
#![allow(dead_code, unused, static_mut_refs)]
pub mod tracing {
    #[macro_export] macro_rules! vp_log { ($($t:tt)*) => {{}} }
    pub use crate::vp_log as warn;
    pub use crate::vp_log as error;
    pub use crate::vp_log as info;
    pub use crate::vp_log as debug;
    pub use crate::vp_log as trace;
}
pub mod env;
pub use env::{async_waiter, execution_context, kstd_po, owc, request_context, tokio, v8, LockerManagedIsolate};
pub mod pool_common;
pub mod pool_s;
pub mod pool_m;
#[cfg(kani)]
pub mod pool_es;
#[cfg(kani)]
pub mod pool_em;
