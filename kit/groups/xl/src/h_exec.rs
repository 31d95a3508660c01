//! X01: an execution's guards and verdict (pooled isolate).
use super::*;
use crate::env::*;
use crate::env::execution_helpers::cond;
use crate::ec_loop::h_loop::{limits, ISOLATE, LMI};
use vk::any::*;
use vk::{ensures, reach, requires};

impl ExecutionContext {
    pub fn process_single_callback(&mut self, _: crate::runtime::CallbackMessage) {}
    pub fn pump_and_checkpoint(&mut self) {}
    pub fn trigger_fetch_event(&mut self, f: openworkers_core::FetchInit, _: &TimeoutGuard, c: &Option<CpuEnforcer>) -> Now<Result<HttpResponse, Text>> {
        let r = run(1, f.id, &self.limits, &self.memory_limit_hit, &self.request.aborted, c);
        Now(r.map(|_| HttpResponse { status: any_u16(), headers: vec![], body: ResponseBody::None }))
    }
    pub fn trigger_task_event(&mut self, f: openworkers_core::TaskInit, _: &TimeoutGuard, c: &Option<CpuEnforcer>) -> Now<Result<(), Text>> {
        Now(run(2, f.id, &self.limits, &self.memory_limit_hit, &self.request.aborted, c))
    }
    pub fn await_event_loop(&mut self, _: &TimeoutGuard, c: &Option<CpuEnforcer>, e: EventLoopExit, a: Option<AbortConfig>) -> Now<Result<(), Text>> {
        ensures!("X01.background: background work is awaited until all of it is done", cond(e) == 3 && a.is_none());
        let ab = w().aborted;
        w().aborted = false;
        let r = run(3, 0, &self.limits, &self.memory_limit_hit, &self.request.aborted, c);
        w().aborted |= ab;
        self.request.aborted.store(w().aborted, Ordering::SeqCst);
        Now(r)
    }
}
fn ec() -> ExecutionContext {
    w().pooled = any_bool();
    let lmi: *mut LockerManagedIsolate = if w().pooled { &raw mut LMI } else { std::ptr::null_mut() };
    ExecutionContext::from_cached(&raw mut ISOLATE, lmi, &PLATFORM, limits(), Arc::new(AtomicBool::new(w().memory)), RequestContext::vp(), None)
}
#[kani::proof]
pub fn x01_ec_fetch() {
    start();
    let (given, ab, id) = (any_bool(), w().aborted, any_u32());
    let mut e = ec();
    let r = e.exec(Event::Fetch(if given { Some(openworkers_core::FetchInit::vp(id)) } else { None }));
    finished(&r, 1, id, ab, given);
    std::mem::forget(e);
}
#[kani::proof]
pub fn x01_ec_task() {
    start();
    let (given, ab, id) = (any_bool(), w().aborted, any_u32());
    let mut e = ec();
    let r = e.exec(Event::Task(if given { Some(openworkers_core::TaskInit { id }) } else { None }));
    finished(&r, 2, id, ab, given);
    std::mem::forget(e);
}
#[kani::proof]
pub fn x01_ec_background() {
    start();
    let mut e = ec();
    let r = e.drain_waituntil();
    finished(&r, 3, 0, false, true);
    std::mem::forget(e);
}
