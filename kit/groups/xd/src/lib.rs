#![cfg_attr(kani, feature(min_specialization))]
#![allow(dead_code, unused, static_mut_refs, unused_unsafe)]
pub mod tracing {
    #[macro_export] macro_rules! vp_log { ($($t:tt)*) => {{}} }
    pub use crate::vp_log as warn;
    pub use crate::vp_log as error;
    pub use crate::vp_log as info;
    pub use crate::vp_log as debug;
    pub use crate::vp_log as trace;
}
pub mod js;
pub mod env;
pub use js as v8;
pub use env::{v8_helpers, async_waiter, event_loop, execution_helpers, gc, kstd_xd, owc, request_context, security, tokio, tokio_util, LockerManagedIsolate, Text};
pub mod d01;
pub mod runtime;
pub mod ec_cb;
pub mod eh;
