//! Contracts of the CPU-time enforcer (S04, S05) and CPU timer (S06).
use crate::cpu_enforcer::*;
use crate::cpu_timer::*;
use libc::os;
use signal_hook_tokio::sched;
use vk::kstd::time::Duration;
use vk::ghost::g;
use vk::model::thread::{run, table};
use vk::rg::cfg;
use vk::*;

const ALARM: i32 = libc::SIGALRM;

fn exact(i: usize, ms: u64) -> bool {
    let t = &os().t[i];
    t.flags == 0 && t.sec as u64 == ms / 1000 && t.nsec as u64 == (ms % 1000) * 1_000_000 && t.isec == 0 && t.insec == 0
}
/// Deliver signals for the given enforcer values to the handler thread, to completion.
fn deliver(v: &[usize]) {
    let s = sched();
    for i in 0..v.len() { s.queue[i] = v[i]; }
    s.n = v.len();
    s.next = 0;
    run(0);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s04_new() {
    let ms = if any_bool() { 0 } else { 1500 }; // s04_arm_exact: every limit
    cfg().env = true; // other threads create enforcers concurrently
    cfg().budget = 1;
    os().create_ret[0] = if any_bool() { 0 } else { -1 };
    os().settime_ret = if any_bool() { 0 } else { -1 };
    let (cr, sr) = (os().create_ret[0], os().settime_ret);
    let e = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, ms);
    ensures!("S04.new: enforcer exists iff limit > 0 and the timer was created and armed", e.is_some() == (ms > 0 && cr == 0 && sr == 0));
    ensures!("S04.disabled: limit 0 creates no timer", ms > 0 || os().create_calls == 0);
    ensures!("S04.api: only live timers are used", os().bad_call == 0);
    let t = os().t[0];
    match &e {
        Some(e) => {
            ensures!("S04.clock: timer on this thread's CPU time", t.clock == libc::CLOCK_THREAD_CPUTIME_ID);
            ensures!("S04.signal: delivered as the signal the handler listens to", t.notify == libc::SIGEV_SIGNAL && t.signo == ALARM);
            ensures!("S04.arm: armed once, relative, one-shot, exactly the limit", t.set_calls == 1 && t.armed && exact(0, ms));
            ensures!("S04.flag: not terminated at start", !e.was_terminated());
            ensures!("S04.handler: handler thread running", table().spawned == 1);
        }
        None => {
            ensures!("S04.cleanup: no timer left behind", !t.created || t.deleted == 1);
        }
    }
    let made = e.is_some();
    drop(e);
    ensures!("S04.drop: the timer is deleted exactly once", !os().t[0].created || os().t[0].deleted == 1);
    ensures!("S04.api: only live timers are used", os().bad_call == 0);
    if os().t[0].created {
        // a late signal of a gone enforcer (dropped, or never came up) terminates nothing
        deliver(&[t.value]);
        ensures!("S04.gone: a signal after the end terminates nothing", g().term[1] == 0 && g().term[0] == 0);
    }
    reach!("made", made);
    reach!("create failed", ms > 0 && cr != 0);
    reach!("arm failed", ms > 0 && cr == 0 && sr != 0);
    reach!("disabled", ms == 0);
}

/// For every limit (any u64 that fits the kernel's signed seconds field).
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(z3)]
fn s04_arm_exact() {
    let ms = any_u64();
    requires!(ms > 0 && ms < i64::MAX as u64);
    let e = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, ms);
    ensures!("S04.enforced: every limit > 0 is enforced", e.is_some());
    ensures!("S04.arm: armed once, relative, one-shot, exactly the limit", os().t[0].set_calls == 1 && exact(0, ms));
    reach!("large", ms > u32::MAX as u64);
    reach!("sub-second", ms < 1000);
    std::mem::forget(e);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(z3)]
fn s04_reset() {
    let e = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, 50).unwrap();
    let fired = any_bool();
    if fired { deliver(&[os().t[0].value]); }
    ensures!("S05.self: terminated iff its signal came", e.was_terminated() == fired && g().term[1] == fired as u32);
    let ms2 = any_u64();
    requires!(ms2 < i64::MAX as u64);
    os().settime_ret = if any_bool() { 0 } else { -1 };
    let sr = os().settime_ret;
    let r = e.reset(ms2);
    ensures!("S04.reset: reports whether the timer was rearmed", r.is_ok() == (sr == 0));
    std::mem::forget(r);
    ensures!("S04.reset: clears the flag", !e.was_terminated());
    ensures!("S04.reset: rearmed with exactly the new limit, one-shot", os().t[0].set_calls == 2 && exact(0, ms2));
    ensures!("S04.reset: the same timer stays", os().t[0].deleted == 0 && os().n == 1 && os().bad_call == 0);
    drop(e);
    reach!("fired before", fired);
    reach!("rearm failed", sr != 0);
}

/// The end of an enforcer, whether or not its limit was reached.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s04_end() {
    let e = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, 50).unwrap();
    let fired = any_bool();
    let v = os().t[0].value;
    if fired { deliver(&[v]); }
    drop(e);
    ensures!("S04.drop: the timer is deleted exactly once, fired or not", os().t[0].deleted == 1 && os().bad_call == 0);
    deliver(&[v]);
    ensures!("S04.gone: a signal after the end terminates nothing", g().term[1] == fired as u32);
    reach!("S04.end_fired", fired);
    reach!("S04.end_idle", !fired);
}

/// Two live enforcers, arbitrary signals (own, other's, unknown; repeated): each signal touches
/// exactly the enforcer it names, at most once.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s05_signals() {
    cfg().env = true;
    cfg().budget = 2;
    let a = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, 50).unwrap();
    let b = CpuEnforcer::new(v8::IsolateHandle { id: 2 }, 50).unwrap();
    let (va, vb) = (os().t[0].value, os().t[1].value);
    ensures!("S05.ids: every enforcer has its own id", va != vb);
    ensures!("S05.handler: one handler thread serves all", table().spawned == 1);
    let (s1, s2) = (any_usize(), any_usize());
    g().num[2] = 0;
    deliver(&[s1, s2]);
    let (ha, hb) = (s1 == va || s2 == va, s1 == vb || s2 == vb);
    ensures!("S05.listen: the handler listens to the timers' signal", sched().signo == ALARM && os().t[0].signo == ALARM);
    ensures!("S05.a: terminated iff named, exactly once", g().term[1] == ha as u32 && a.was_terminated() == ha);
    ensures!("S05.b: terminated iff named, exactly once", g().term[2] == hb as u32 && b.was_terminated() == hb);
    ensures!("S05.frame: nobody else is terminated", g().term[0] == 0 && g().term[3] == 0);
    ensures!("S05.order: flagged before terminated", !(ha && !hb) || g().num[0] == 1);
    reach!("both", ha && hb);
    reach!("twice a", s1 == va && s2 == va);
    reach!("none", !ha && !hb);
    std::mem::forget(a);
    std::mem::forget(b);
}

/// Dropping one enforcer leaves the other one armed and served.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s05_drop_one() {
    let a = CpuEnforcer::new(v8::IsolateHandle { id: 1 }, 50).unwrap();
    let b = CpuEnforcer::new(v8::IsolateHandle { id: 2 }, 50).unwrap();
    let (va, vb) = (os().t[0].value, os().t[1].value);
    drop(a);
    ensures!("S05.drop: own timer deleted, the other kept", os().t[0].deleted == 1 && os().t[1].deleted == 0 && os().t[1].armed);
    deliver(&[va, vb]);
    ensures!("S05.drop: late signal ignored, the other one served", g().term[1] == 0 && g().term[2] == 1 && b.was_terminated());
    reach!("end", true);
    std::mem::forget(b);
}

#[kani::proof]
#[kani::solver(kissat)]
fn s06_cpu_time() {
    os().clock_ret = if any_bool() { 0 } else { -1 };
    os().clock_sec = any_i64();
    os().clock_nsec = any_i64();
    requires!(os().clock_sec >= 0 && os().clock_nsec >= 0 && os().clock_nsec < 1_000_000_000);
    let d = get_thread_cpu_time();
    ensures!("S06.clock: thread CPU clock", os().clock_id == libc::CLOCK_THREAD_CPUTIME_ID);
    match d {
        Some(d) => {
            ensures!("S06.value: exactly what the clock said", os().clock_ret == 0 && d == Duration::new(os().clock_sec as u64, os().clock_nsec as u32));
        }
        None => ensures!("S06.none: only when the clock failed", os().clock_ret != 0),
    }
    reach!("some", d.is_some());
    reach!("none", d.is_none());
}

#[kani::proof]
#[kani::solver(kissat)]
fn s06_elapsed() {
    let s = |i: usize, o: &mut libc::Os| {
        o.clock_ret = if any_bool() { 0 } else { -1 };
        o.clock_sec = any_i64();
        o.clock_nsec = any_i64();
        requires!(o.clock_sec >= 0 && o.clock_nsec >= 0 && o.clock_nsec < 1_000_000_000);
        (o.clock_ret == 0, vk::model::time::name_duration(i, o.clock_sec as u64, o.clock_nsec as u32))
    };
    let (ok0, t0) = s(0, os());
    let timer = CpuTimer::start();
    let (ok1, t1) = s(1, os());
    let e = timer.elapsed();
    let start = if ok0 { t0 } else { Duration::ZERO };
    let end = if ok1 { t1 } else { start };
    ensures!("S06.elapsed: end - start, never negative, never a panic", e == if end > start { end - start } else { Duration::ZERO });
    reach!("forward", ok0 && ok1 && t1 > t0);
    reach!("backward", ok0 && ok1 && t1 < t0);
}
