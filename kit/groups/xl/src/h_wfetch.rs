//! E03: the phases of a fetch request (own isolate).
use super::*;
use crate::env::*;
use crate::wk_loop::h_wloop::any_rt;
use vk::any::*;
use vk::{ensures, reach, requires};
use std::marker::PhantomData;

pub static mut WALL: Option<*const TimeoutGuard> = None;
impl Worker {
    pub fn await_event_loop(&mut self, g: &TimeoutGuard, c: &Option<CpuEnforcer>, e: EventLoopExit, a: Option<AbortConfig>) -> Now<Result<(), Text>> {
        let own = unsafe { WALL } == Some(g as *const TimeoutGuard) && c.is_some() == w().cpu_some;
        Now(phase_wait(e, a.is_some(), 3, own))
    }
}
#[kani::proof]
pub fn e03_worker_fetch() {
    let f = fetch_start(false);
    let mut rt = any_rt();
    rt.limits.stream_buffer_size = any_usize();
    w().buffer = rt.limits.stream_buffer_size;
    let mut k = Worker { runtime: rt, _event_loop_handle: AbortOnDropHandle(PhantomData), aborted: Arc::new(AtomicBool::new(false)), _cancel_guard: DropGuard };
    let wall = TimeoutGuard::vp();
    unsafe { WALL = Some(&wall); }
    w().cpu_some = any_bool();
    let cpu = if w().cpu_some { Some(CpuEnforcer::vp()) } else { None };
    let r = k.trigger_fetch_event(f, &wall, &cpu);
    fetch_end(&r);
    std::mem::forget(r);
    std::mem::forget(k);
    std::mem::forget(wall);
    std::mem::forget(cpu);
}
