//! E02: the exit check, for every state of the page.
use super::*;
use crate::env::*;
use crate::env::execution_helpers::{of_cond, round_exit};
use crate::ec_loop::h_loop::{config, limits, ISOLATE, LMI};
use vk::any::*;
use vk::{ensures, reach, requires};

impl ExecutionContext {
    pub fn process_single_callback(&mut self, _: crate::runtime::CallbackMessage) {}
    pub fn pump_and_checkpoint(&mut self) {}
}
#[kani::proof]
pub fn e02_ec_check() {
    let (c, a) = config();
    let s = w();
    s.pooled = any_bool();
    s.locked = s.pooled;
    let lmi: *mut LockerManagedIsolate = if s.pooled { &raw mut LMI } else { std::ptr::null_mut() };
    let mut ec = ExecutionContext::from_cached(&raw mut ISOLATE, lmi, &PLATFORM, limits(), Arc::new(AtomicBool::new(false)), RequestContext::vp(), None);
    let before: Option<u64> = if any_bool() { let t = any_u64(); requires!(t <= vk::model::time::clock()); Some(t) } else { None };
    s.ever_signaled = before.is_some();
    s.signaled_at = before.unwrap_or(0);
    crate::env::execution_helpers::new_round();
    let mut slot = before.map(vk::model::time::Instant);
    let r = ec.check_exit_with_abort(c, &a, &mut slot);
    ensures!("E02.check_exit: done exactly when the condition holds, or the client is gone, the request complete and the grace period over", r == s.exit);
    ensures!("E02.check_slot: the time of the disconnect is recorded once", slot.map(|i| i.0) == if s.ever_signaled { Some(s.signaled_at) } else { None });
    ensures!("E02.check_signal: JS is told of the disconnect exactly then", s.signals_done == s.signals);
    reach!("E02.check_base", r && s.base);
    reach!("E02.check_grace", r && !s.base && before.is_some());
    reach!("E02.check_signalled", !r && s.signals == 1);
    std::mem::forget(ec);
}
