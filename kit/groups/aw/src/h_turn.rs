//! Contract of the turn queue (property L01), through its public operations.
use crate::async_waiter::AsyncWaiter;
use std::task::Context;
use vk::ghost::g;
use vk::rgflag::{turn, waker, wk};
use vk::*;

/// A queue in an arbitrary state: `n` unknown requests already waiting (oldest has ticket 100).
fn any_queue(n: usize) -> AsyncWaiter { g().next_prefix = n; AsyncWaiter::new() }

/// Mutual exclusion and registration, with other requests taking and releasing the turn between any
/// two atomic actions.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn l01_try() {
    let n = any_usize();
    requires!(n < 1 << 40);
    let q = any_queue(n);
    ensures!("L01.new: nobody holds the turn", q.is_free());
    ensures!("L01.new: length", q.queue_len() == n);
    turn().env = true;
    let w = waker(7);
    let got = q.try_lock(&mut Context::from_waker(&w));
    ensures!("L01.exclusive: granted exactly when this request's own action took a free turn", got == turn().mine);
    ensures!("L01.exclusive: a turn held by somebody else is left alone", turn().stolen == 0);
    ensures!("L01.register: a refused request is added once, a granted one is not", q.queue_len() == if got { n } else { n + 1 });
    ensures!("L01.register: trying wakes nobody", wk().wakes == 0);
    if got { ensures!("L01.exclusive: a granted turn is not free", !q.is_free()); }
    ensures!("L01.locks: no internal lock stays held", g().locks == 0);
    reach!("granted", got);
    reach!("refused", !got && n == 5);
    std::mem::forget(q);
}

/// Sequential: the turn is granted if and only if it is free; holding is stable.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn l01_iff_free() {
    let n = any_usize();
    requires!(n < 1 << 40);
    let q = any_queue(n);
    let w = waker(7);
    let x = waker(8);
    ensures!("L01.granted: a free turn is granted", q.try_lock(&mut Context::from_waker(&w)));
    ensures!("L01.refused: a held turn is refused", !q.try_lock(&mut Context::from_waker(&x)));
    ensures!("L01.refused: again", !q.try_lock(&mut Context::from_waker(&w)));
    ensures!("L01.refused: and stays held", !q.is_free() && turn().mine && turn().stolen == 0);
    ensures!("L01.register: both refusals are registered", q.queue_len() == n + 2);
    ensures!("L01.register: trying wakes nobody", wk().wakes == 0);
    reach!("end", n == 3);
    std::mem::forget(q);
}

/// Release: frees the turn, then wakes exactly the oldest waiting request.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn l01_release() {
    let n = any_usize();
    requires!(n < 1 << 40);
    let q = any_queue(n);
    let w = waker(7);
    let x = waker(8);
    let held = q.try_lock(&mut Context::from_waker(&w));
    requires!(held);
    let more = any_bool();
    if more { let r = q.try_lock(&mut Context::from_waker(&x)); requires!(!r); }
    let len = q.queue_len();
    q.unlock();
    ensures!("L01.release: the turn is free again", q.is_free() && !turn().mine && turn().releases == 1);
    ensures!("L01.release: wakes one request if any waits, else none", wk().wakes == (len > 0) as u32);
    ensures!("L01.release: exactly that one leaves the line", q.queue_len() == if len > 0 { len - 1 } else { 0 });
    if len > 0 {
        ensures!("L01.fifo: the longest-waiting request is woken", wk().last == if n > 0 { 100 } else { 8 });
        ensures!("L01.release: the turn was free before the wake", !wk().mine_at_wake);
        ensures!("L01.release: no internal lock is held during the wake, the woken request may try at once", wk().locks_at_wake == 0);
    }
    let y = waker(9);
    ensures!("L01.release: the turn can be taken at once", q.try_lock(&mut Context::from_waker(&y)));
    reach!("nobody waits", len == 0);
    reach!("only others wait", n > 3 && !more);
    std::mem::forget(q);
}

/// Order of wakes over several releases, with a concrete number of earlier requests.
fn order(n: usize) {
    wk().wakes = 0;
    let q = any_queue(n);
    let (w, x, y) = (waker(7), waker(8), waker(9));
    requires!(q.try_lock(&mut Context::from_waker(&w)));
    q.try_lock(&mut Context::from_waker(&x));
    q.try_lock(&mut Context::from_waker(&y));
    let mut i = 0;
    while i < n {
        q.unlock();
        ensures!("L01.fifo: earlier requests first, in order", wk().last == 100 + i as u64);
        i += 1;
        let z = waker(6);
        ensures!("L01.release: the turn can be taken", q.try_lock(&mut Context::from_waker(&z)));
    }
    q.unlock();
    ensures!("L01.fifo: then in order of refusal (first)", wk().last == 8);
    q.unlock();
    ensures!("L01.fifo: then in order of refusal (second)", wk().last == 9);
    ensures!("L01.release: one wake per release", wk().wakes as usize == n + 2);
    q.unlock();
    ensures!("L01.release: none is left to wake", wk().wakes as usize == n + 2 && q.queue_len() == 0);
    turn().mine = false;
    std::mem::forget(q);
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn l01_order() { order(0); order(1); order(2); reach!("end", true); }
