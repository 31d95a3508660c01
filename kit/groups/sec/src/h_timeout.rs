//! Contract of the wall-clock watchdog (property S03).
use crate::timeout_guard::*;
use vk::kstd::time::Duration;
use vk::ghost::g;
use vk::model::std_mpsc::waits;
use vk::model::thread::{run, table};
use vk::model::task::{Context, Waker, wakes};
use vk::*;

fn after_drop(terminations: u32) {
    ensures!("S03.cancel: dropping the guard never terminates anything", g().term[1] == terminations);
    ensures!("S03.join: the watchdog is gone when drop returns", table().finished == table().spawned && table().detached == 0);
    ensures!("S03.frame: no other isolate touched", g().term[0] == 0 && g().term[2] == 0);
}

/// Limit 0: no watchdog, never triggered.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s03_disabled() {
    let guard = TimeoutGuard::new(v8::IsolateHandle { id: 1 }, 0);
    ensures!("S03.disabled: no watchdog when the limit is 0", table().spawned == 0);
    ensures!("S03.disabled: never flagged", !guard.was_triggered());
    drop(guard);
    after_drop(0);
    reach!("end", true);
}

/// The full timeout elapses while the guard is alive.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s03_expires() {
    let ms = any_u64();
    requires!(ms > 0);
    let guard = TimeoutGuard::new(v8::IsolateHandle { id: 1 }, ms);
    settle!("S03.new: exactly one watchdog", table().spawned, 1);
    ensures!("S03.new: nothing fired yet", !guard.was_triggered() && g().term[1] == 0);
    g().num[2] = 0;
    table().expire = true;
    run(0);
    table().expire = false;
    settle!("S03.fire: the watchdog ends after firing", table().slot[0].done, true);
    ensures!("S03.fire: terminated exactly once", g().term[1] == 1);
    ensures!("S03.fire: flagged as timeout", guard.was_triggered());
    ensures!("S03.order: flagged before the termination", g().num[0] == 1);
    ensures!("S03.exact: waited exactly the configured time", waits().waited == Duration::from_millis(ms));
    drop(guard);
    after_drop(1);
    reach!("end", ms > 5);
}

/// The guard is dropped before the timeout elapses (the watchdog runs at the latest when joined).
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s03_cancelled() {
    let ms = any_u64();
    requires!(ms > 0);
    let guard = TimeoutGuard::new(v8::IsolateHandle { id: 1 }, ms);
    ensures!("S03.flag: not flagged before it expires", !guard.was_triggered());
    settle!("S03.new: exactly one watchdog", table().spawned, 1);
    drop(guard);
    after_drop(0);
    ensures!("S03.cancel: nothing waited out", waits().recv_timeouts == 0);
    reach!("end", ms > 5);
}

/// A task that waits for the guarded execution is woken when the timeout elapses, once the flag is set.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s03_wakes() {
    let guard = TimeoutGuard::new(v8::IsolateHandle { id: 1 }, 7);
    let a = Waker { id: 41 };
    let b = Waker { id: 42 };
    let twice: bool = vk::any_bool();
    guard.wake_on_timeout(&Context::from_waker(&a));
    if twice { guard.wake_on_timeout(&Context::from_waker(&b)); }
    ensures!("S03.wake: nobody is woken before the timeout", wakes().wakes == 0);
    settle!("S03.new: exactly one watchdog", table().spawned, 1);
    g().num[2] = 0;
    table().expire = true;
    run(0);
    table().expire = false;
    settle!("S03.fire: the watchdog ends after firing", table().slot[0].done, true);
    ensures!("S03.wake: the task that polled last is woken", wakes().wakes >= 1 && wakes().last == if twice { 42 } else { 41 });
    ensures!("S03.wake: the timeout is visible to the woken task", wakes().flagged && guard.was_triggered());
    ensures!("S03.wake: no lock held while waking", wakes().locks == 0);
    drop(guard);
    after_drop(1);
    reach!("one poll", !twice);
    reach!("two polls", twice);
}

/// Without a limit, and without expiry, nobody is woken.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s03_no_wake() {
    let ms: u64 = if vk::any_bool() { 0 } else { 9 };
    let guard = TimeoutGuard::new(v8::IsolateHandle { id: 1 }, ms);
    let a = Waker { id: 41 };
    guard.wake_on_timeout(&Context::from_waker(&a));
    drop(guard);
    after_drop(0);
    ensures!("S03.wake: nobody is woken without a timeout", wakes().wakes == 0);
    reach!("no limit", ms == 0);
    reach!("a limit", ms != 0);
}
