//! D01 for executions in pooled isolates.
use super::*;
use crate::env::*;
use crate::d01::*;
use std::marker::PhantomData;
use vk::any::*;
use vk::{ensures, reach, requires};

pub static mut ISOLATE: v8::Isolate = v8::Isolate { id: ISO };
pub static mut LMI: LockerManagedIsolate = LockerManagedIsolate { isolate: v8::Isolate { id: ISO } };
impl ExecutionContext {
    pub fn pump_and_checkpoint(&mut self) { crate::js::heap().pumps += 1; crate::js::heap().microtasks += 1; }
}
fn ec(m: &Maps) -> ExecutionContext {
        w().locked = w().pooled;
    let lmi: *mut LockerManagedIsolate = if w().pooled { &raw mut LMI } else { std::ptr::null_mut() };
    ExecutionContext::from_cached(&raw mut ISOLATE, lmi, &PLATFORM, RuntimeLimits::default(), Arc::new(AtomicBool::new(false)), RequestContext::vp(m), None)
}
fn one(kind: u8) {
    let m = maps();
    let mut e = ec(&m);
    w().maps = &m;
    e.process_single_callback(message(kind));
    check(&m);
    let never = kind < 2 && (d().timer_throws || d().fn_kind != crate::js::FUNC);
    reach!("D01.called", never || crate::js::heap().calls == 1);
    reach!("D01.unknown", kind < 2 || crate::js::heap().calls == 0);
    std::mem::forget(e);
    std::mem::forget(m);
}
fn all() {
    let m = maps();
    let mut e = ec(&m);
    w().maps = &m;
    e.process_callbacks();
    ensures!("D01.all: every message there is processed, then V8's own work and the microtasks", d().kind == 99 && crate::js::heap().pumps == 1 && crate::js::heap().microtasks == 1);
    reach!("end", true);
    std::mem::forget(e);
    std::mem::forget(m);
}
macro_rules! cases { ($($n:ident $all:literal ($k:literal $k2:literal) $pooled:literal $fk:ident $thr:literal $ws:literal;)*) => { $( #[kani::proof] #[kani::unwind(32)] pub fn $n() { w().pooled = $pooled; let s = d(); s.fn_kind = crate::js::$fk; s.timer_throws = $thr; s.ws = $ws; if $all { s.kinds = ($k, $k2); all() } else { one($k) } } )* } }
cases! {
    d01_ec_timer false (0 99) true FUNC false 0;
    d01_ec_interval false (1 99) true FUNC false 0;
    d01_ec_notimer false (0 99) true UNDEF false 0;
    d01_ec_oddtimer false (0 99) true OBJ false 0;
    d01_ec_throwtimer false (1 99) true FUNC true 0;
    d01_ec_fetcherr false (2 99) true FUNC false 0;
    d01_ec_fetch false (3 99) true FUNC false 0;
    d01_ec_chunk false (4 99) true FUNC false 0;
    d01_ec_storage false (5 99) true FUNC false 0;
    d01_ec_kv false (6 99) true FUNC false 0;
    d01_ec_db false (7 99) true FUNC false 0;
    d01_ec_wsconn false (8 99) true FUNC false 0;
    d01_ec_wsconnerr false (9 99) true FUNC false 0;
    d01_ec_storageerr false (10 99) true FUNC false 0;
    d01_ec_kverr false (11 99) true FUNC false 0;
    d01_ec_dberr false (12 99) true FUNC false 0;
    d01_ec_wstext false (13 99) true FUNC false 0;
    d01_ec_wsbin false (13 99) true FUNC false 1;
    d01_ec_wsclose false (13 99) true FUNC false 2;
    d01_ec_wserr false (13 99) true FUNC false 3;
    d01_ec_own0 false (0 99) false FUNC false 0;
    d01_ec_own5 false (5 99) false FUNC false 0;
    d01_ec_own13 false (13 99) false FUNC false 0;
    d01_ec_all1 true (8 4) true FUNC false 0;
    d01_ec_all2 true (4 10) true FUNC false 0;
    d01_ec_all3 true (99 99) true FUNC false 0;
}
