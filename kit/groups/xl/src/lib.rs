#![cfg_attr(kani, feature(min_specialization))]
#![allow(dead_code, unused, static_mut_refs, unused_unsafe)]
pub mod tracing {
    #[macro_export] macro_rules! vp_log { ($($t:tt)*) => {{}} }
    pub use crate::vp_log as warn;
    pub use crate::vp_log as error;
    pub use crate::vp_log as info;
    pub use crate::vp_log as debug;
    pub use crate::vp_log as trace;
}
pub mod env;
pub use env::{async_waiter, event_loop, execution_helpers, gc, kstd_xl, owc, request_context, runtime, security, tokio, tokio_util, v8, LockerManagedIsolate, Text};
pub mod ec_loop;
pub mod ec_exit;
pub mod ec_exec;
pub mod wk_loop;
pub mod wk_exec;
pub mod ec_fetch;
pub mod wk_fetch;
pub mod wf {
    pub mod worker_future;
}
pub mod event_loop_real;
