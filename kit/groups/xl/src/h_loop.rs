//! E02: the event loop of an execution in a pooled isolate, poll by poll.
use super::*;
use crate::env::*;
use crate::env::execution_helpers::{cond, of_cond};
use vk::any::*;
use vk::{ensures, reach, requires};
use std::marker::PhantomData;

pub static mut ISOLATE: v8::Isolate = v8::Isolate { id: ISO };
pub static mut LMI: LockerManagedIsolate = LockerManagedIsolate { isolate: v8::Isolate { id: ISO } };
pub fn limits() -> RuntimeLimits { RuntimeLimits { max_cpu_time_ms: any_u64(), max_wall_clock_time_ms: any_u64(), ..Default::default() } }

impl ExecutionContext {
    /// by contract (E02.check_*): evaluates the exit condition and remembers a disconnect
    pub fn check_exit_with_abort(&mut self, exit_condition: EventLoopExit, abort_config: &Option<AbortConfig>, abort_signaled_at: &mut Option<tokio::time::Instant>) -> bool {
        let s = w();
        ensures!("E02.locked: V8 is entered only under the isolate's lock", v8_ok());
        ensures!("E02.condition: it is the phase's own exit condition that is evaluated", cond(exit_condition) == s.cond && abort_config.as_ref().map(|a| a.grace_period.ns) == s.grace);
        ensures!("E02.remember: the time of the disconnect is kept between polls", abort_signaled_at.as_ref().map(|i| i.0) == s.slot_was);
        if s.ever_signaled && s.slot_was.is_none() { s.signals_done += 1; s.slot_was = Some(s.signaled_at); }
        *abort_signaled_at = s.slot_was.map(vk::model::time::Instant);
        s.exit
    }
    pub fn process_single_callback(&mut self, msg: crate::runtime::CallbackMessage) { w().processed += 1; w().msg = msg.id; }
    pub fn pump_and_checkpoint(&mut self) { w().pumped += 1; }
}
pub fn config() -> (EventLoopExit, Option<AbortConfig>) {
    let c: u8 = any_u8();
    requires!(c < 4);
    let g = if any_bool() { let ms = any_u64(); requires!(ms <= MAX_MS); Some(AbortConfig { grace_period: crate::kstd_xl::time::Duration::from_millis(ms) }) } else { None };
    w().cond = c;
    w().grace = g.as_ref().map(|a| a.grace_period.ns);
    let t = any_u64();
    requires!(t < 1 << 40);
    vk::model::time::set_clock(t);
    (of_cond(c), g)
}
pub fn any_ec() -> ExecutionContext {
    let s = w();
    s.pooled = any_bool();
    s.queued = s.pooled && any_bool();
    let lmi: *mut LockerManagedIsolate = if s.pooled { &raw mut LMI } else { std::ptr::null_mut() };
    let waiter = if s.queued { Some(Arc::new(AsyncWaiter { id: 4 })) } else { None };
    ExecutionContext::from_cached(&raw mut ISOLATE, lmi, &PLATFORM, limits(), Arc::new(AtomicBool::new(false)), RequestContext::vp(), waiter)
}

#[kani::proof]
#[kani::unwind(7)]
pub fn e02_ec_poll() {
    let (c, a) = config();
    let mut ec = any_ec();
    let wall = TimeoutGuard::vp();
    let cpu = if any_bool() { Some(CpuEnforcer::vp()) } else { None };
    if cpu.is_none() { w().cpu_some = false; } else { w().cpu_some = true; }
    let r = ec.await_event_loop(&wall, &cpu, c, a);
    reach!("E02.ec_exit", r.is_ok());
    reach!("E02.ec_second", w().polls == 2 && w().drains == 4 && r.is_ok());
    reach!("E02.ec_failed", r.is_err() && w().polls == 2 && w().drains == 2);
    std::mem::forget(ec);
    std::mem::forget(wall);
    std::mem::forget(cpu);
}

/// callbacks go to the request's own handlers
#[kani::proof]
pub fn e02_ec_runtime() {
    use crate::event_loop::EventLoopRuntime;
    let mut ec = any_ec();
    w().pumped = 0;
    w().processed = 0;
    let id = any_u32();
    ensures!("E02.own_channel: the request's own channel", EventLoopRuntime::callback_rx_mut(&mut ec).id == CHAN);
    EventLoopRuntime::process_callback(&mut ec, runtime::CallbackMessage { id, n: 1 });
    ensures!("E02.process: a callback is delivered once", w().processed == 1 && w().msg == id && w().pumped == 0);
    EventLoopRuntime::pump_and_checkpoint(&mut ec);
    ensures!("E02.pump: V8's own work is run once", w().pumped == 1 && w().processed == 1);
    std::mem::forget(ec);
}
