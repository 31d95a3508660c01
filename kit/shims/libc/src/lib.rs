//! The real libc types and constants; the calls are recorded and answered by the harness (symbolic).
#![allow(static_mut_refs, non_camel_case_types)]
pub use real_libc::*;

#[derive(Clone, Copy)]
pub struct TimerRec { pub created: bool, pub deleted: u32, pub clock: clockid_t, pub notify: c_int, pub signo: c_int, pub value: usize,
    pub set_calls: u32, pub flags: c_int, pub sec: i64, pub nsec: i64, pub isec: i64, pub insec: i64, pub null_old: bool, pub armed: bool }
pub const NT: TimerRec = TimerRec { created: false, deleted: 0, clock: -1, notify: -1, signo: -1, value: usize::MAX, set_calls: 0, flags: -1, sec: -1, nsec: -1, isec: -1, insec: -1, null_old: false, armed: false };
pub struct Os { pub magic: u64, pub n: usize, pub t: [TimerRec; 3], pub create_ret: [c_int; 3], pub settime_ret: c_int, pub bad_call: u32,
    pub on_settime: Option<fn(usize)>, pub clock_ret: c_int, pub clock_id: clockid_t, pub clock_sec: i64, pub clock_nsec: i64, pub clock_calls: u32, pub create_calls: u32 }
pub static mut OS: Os = Os { magic: 0x05_0505_0000_0001, n: 0, t: [NT; 3], create_ret: [0; 3], settime_ret: 0, bad_call: 0, on_settime: None, clock_ret: 0, clock_id: -1, clock_sec: 0, clock_nsec: 0, clock_calls: 0, create_calls: 0 };
pub fn os() -> &'static mut Os { unsafe { &mut *(&raw mut OS) } }

pub unsafe fn timer_create(clock: clockid_t, sev: *mut sigevent, out: *mut timer_t) -> c_int {
    let o = os();
    o.create_calls += 1;
    let i = o.n;
    assert!(i < 3, "MODEL: timers");
    if o.create_ret[i] != 0 { return o.create_ret[i]; }
    o.n = i + 1;
    let s = unsafe { &*sev };
    o.t[i] = TimerRec { created: true, clock, notify: s.sigev_notify, signo: s.sigev_signo, value: s.sigev_value.sival_ptr as usize, ..NT };
    unsafe { *out = (i + 1) as timer_t };
    0
}
fn idx(t: timer_t) -> Option<usize> {
    let v = t as usize; let o = os();
    if v == 0 || v > o.n { o.bad_call += 1; return None; }
    if o.t[v - 1].deleted > 0 { o.bad_call += 1; return None; }
    Some(v - 1)
}
pub unsafe fn timer_settime(t: timer_t, flags: c_int, new: *const itimerspec, old: *mut itimerspec) -> c_int {
    let Some(i) = idx(t) else { return -1 };
    let o = os();
    let n = unsafe { &*new };
    let r = &mut o.t[i];
    r.set_calls += 1; r.flags = flags; r.sec = n.it_value.tv_sec; r.nsec = n.it_value.tv_nsec; r.isec = n.it_interval.tv_sec; r.insec = n.it_interval.tv_nsec;
    r.null_old = old.is_null();
    if o.settime_ret == 0 { r.armed = r.sec != 0 || r.nsec != 0; }
    if let Some(f) = o.on_settime { f(i) }
    o.settime_ret
}
pub unsafe fn timer_delete(t: timer_t) -> c_int {
    let Some(i) = idx(t) else { return -1 };
    let r = &mut os().t[i];
    r.deleted += 1; r.armed = false;
    0
}
pub unsafe fn clock_gettime(clk: clockid_t, tp: *mut timespec) -> c_int {
    let o = os();
    o.clock_calls += 1; o.clock_id = clk;
    if o.clock_ret != 0 { return o.clock_ret; }
    unsafe { (*tp).tv_sec = o.clock_sec; (*tp).tv_nsec = o.clock_nsec; }
    0
}
