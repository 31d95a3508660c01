//! X01: an execution's guards and verdict (own isolate).
use super::*;
use crate::env::*;
use crate::wk_loop::h_wloop::any_rt;
use vk::any::*;
use vk::{ensures, reach, requires};
use std::marker::PhantomData;

impl Worker {
    pub fn trigger_fetch_event(&mut self, f: openworkers_core::FetchInit, _: &TimeoutGuard, c: &Option<CpuEnforcer>) -> Now<Result<HttpResponse, Text>> {
        let r = run(1, f.id, &self.runtime.limits, &self.runtime.memory_limit_hit, &self.aborted, c);
        Now(r.map(|_| HttpResponse { status: any_u16(), headers: vec![], body: ResponseBody::None }))
    }
    pub fn trigger_task_event(&mut self, f: openworkers_core::TaskInit, _: &TimeoutGuard, c: &Option<CpuEnforcer>) -> Now<Result<(), Text>> {
        Now(run(2, f.id, &self.runtime.limits, &self.runtime.memory_limit_hit, &self.aborted, c))
    }
}
fn wk() -> Worker { Worker { runtime: any_rt(), _event_loop_handle: AbortOnDropHandle(PhantomData), aborted: Arc::new(AtomicBool::new(w().aborted)), _cancel_guard: DropGuard } }
#[kani::proof]
pub fn x01_worker_fetch() {
    start();
    let (given, ab, id) = (any_bool(), w().aborted, any_u32());
    let mut k = wk();
    let r = k.exec(Event::Fetch(if given { Some(openworkers_core::FetchInit::vp(id)) } else { None }));
    finished(&r, 1, id, ab, given);
    std::mem::forget(k);
}
#[kani::proof]
pub fn x01_worker_task() {
    start();
    let (given, ab, id) = (any_bool(), w().aborted, any_u32());
    let mut k = wk();
    let r = k.exec(Event::Task(if given { Some(openworkers_core::TaskInit { id }) } else { None }));
    finished(&r, 2, id, ab, given);
    std::mem::forget(k);
}
