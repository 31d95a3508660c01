//! E03: the phases of a fetch request (pooled isolate).
use super::*;
use crate::env::*;
use crate::ec_loop::h_loop::{limits, ISOLATE, LMI};
use vk::any::*;
use vk::{ensures, reach, requires};

pub static mut WALL: Option<*const TimeoutGuard> = None;
impl ExecutionContext {
    pub fn process_single_callback(&mut self, _: crate::runtime::CallbackMessage) {}
    pub fn pump_and_checkpoint(&mut self) {}
    pub fn await_event_loop(&mut self, g: &TimeoutGuard, c: &Option<CpuEnforcer>, e: EventLoopExit, a: Option<AbortConfig>) -> Now<Result<(), Text>> {
        let own = unsafe { WALL } == Some(g as *const TimeoutGuard) && c.is_some() == w().cpu_some;
        Now(phase_wait(e, a.is_some(), 2, own))
    }
}
#[kani::proof]
pub fn e03_ec_fetch() {
    let f = fetch_start(any_bool());
    let lmi: *mut LockerManagedIsolate = if w().pooled { &raw mut LMI } else { std::ptr::null_mut() };
    let waiter = if w().queued { Some(Arc::new(AsyncWaiter { id: 4 })) } else { None };
    let l = RuntimeLimits { stream_buffer_size: any_usize(), ..limits() };
    w().buffer = l.stream_buffer_size;
    let mut ec = ExecutionContext::from_cached(&raw mut ISOLATE, lmi, &PLATFORM, l, Arc::new(AtomicBool::new(false)), RequestContext::vp(), waiter);
    let wall = TimeoutGuard::vp();
    unsafe { WALL = Some(&wall); }
    w().cpu_some = any_bool();
    let cpu = if w().cpu_some { Some(CpuEnforcer::vp()) } else { None };
    let r = ec.trigger_fetch_event(f, &wall, &cpu);
    fetch_end(&r);
    reach!("E03.waited", w().queued && r.is_ok());
    std::mem::forget(r);
    std::mem::forget(ec);
    std::mem::forget(wall);
    std::mem::forget(cpu);
}
