//! E02: the event loop of a worker with its own isolate.
use super::*;
use crate::env::*;
use crate::ec_loop::h_loop::{config, limits};
use vk::any::*;
use vk::{ensures, reach, requires};
use std::marker::PhantomData;

pub fn any_rt() -> Runtime {
    Runtime {
        isolate: v8::Isolate { id: ISO }, context: v8::Global { id: CTX, p: PhantomData }, stream_manager: Arc::new(crate::runtime::stream_manager::StreamManager { id: 3 }),
        memory_limit_hit: Arc::new(AtomicBool::new(w().memory)), limits: limits(), callback_rx: crate::tokio::sync::mpsc::UnboundedReceiver { id: CHAN, p: PhantomData },
        fetch_response_tx: crate::kstd_xl::rc::Rc::new(std::cell::RefCell::new(None)),
    }
}
#[kani::proof]
#[kani::unwind(7)]
pub fn e02_worker_poll() {
    let (c, a) = config();
    let mut k = Worker { runtime: any_rt(), _event_loop_handle: AbortOnDropHandle(PhantomData), aborted: Arc::new(AtomicBool::new(false)), _cancel_guard: DropGuard };
    let wall = TimeoutGuard::vp();
    w().cpu_some = any_bool();
    let cpu = if w().cpu_some { Some(CpuEnforcer::vp()) } else { None };
    let r = k.await_event_loop(&wall, &cpu, c, a);
    reach!("E02.worker_exit", r.is_ok());
    reach!("E02.worker_second", w().polls == 2 && w().drains == 4 && r.is_ok());
    reach!("E02.worker_grace", r.is_ok() && !w().base);
    std::mem::forget(k);
    std::mem::forget(wall);
    std::mem::forget(cpu);
}
