//! Contract of the deferred-destruction queue (property G01), through its public operations.
//! `env`: any number of other threads defer handles at any point between two atomic actions.
use crate::gc::DeferredDestructionQueue;
use vk::envq::envq;
use vk::ghost::g;
use vk::*;

fn destroyed() -> u64 { g().globals_dropped as u64 + g().num[3] }

/// defer, then process_all, in an arbitrary state (the earlier defers of others) and with arbitrary
/// concurrent defers.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g01_concurrent() { concurrent(3) }
fn concurrent(many: u64) {
    let q = DeferredDestructionQueue::new();
    envq().on = envq().exists;
    q.defer(v8::Global::<v8::Function>::vp_new(7, 1));
    ensures!("G01.defer: nothing is destroyed by deferring", destroyed() == 0);
    let complete0 = 1 + (envq().pushed - envq().uncounted);
    ensures!("G01.pending: a deferred handle is pending", q.has_pending());
    reach!("others are in the middle of deferring", envq().uncounted > 0);
    q.process_all();
    settle!("G01.own: a deferred handle is destroyed once by the next processing", g().globals_dropped, 1);
    ensures!("G01.all: every handle deferred before the processing began is destroyed", destroyed() >= complete0);
    // the other threads finish
    envq().on = false; envq().settle = true;
    let total = 1 + envq().pushed;
    ensures!("G01.once: none is destroyed twice", destroyed() <= total);
    let left = total - destroyed();
    ensures!("G01.count: the pending count is what remains", q.len() == left);
    reach!("end", total >= many);
    std::mem::forget(q);
}
/// bounded stand-in (at most one handle of others), for code that takes handles out one by one
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn g01_concurrent_b() { envq().bound = 1; concurrent(2) }
impl vk::envq::Fab for crate::gc::deferred_destruction::DeferredHandle { fn vp_fab() -> Self { g().num[3] += 1; g().globals_dropped = g().globals_dropped.wrapping_sub(1); Self::new(v8::Global::<v8::Function>::vp_new(9, 1)) } }

/// Others' handles are pending and keep being deferred; processing when nothing of ours is there.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g01_drain() { drained(3) }
/// bounded stand-in
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn g01_drain_b() { envq().bound = 1; drained(2) }
fn drained(many: u64) {
    let q = DeferredDestructionQueue::new();
    envq().on = envq().exists;
    q.defer(v8::Global::<v8::Function>::vp_new(7, 1));
    envq().on = false; envq().settle = true;
    let total = 1 + envq().pushed;
    ensures!("G01.len: every completed defer is counted", q.len() == total && q.has_pending() && !q.is_empty());
    q.process_all();
    ensures!("G01.quiet: a processing without concurrent defers empties the queue", destroyed() == total && q.len() == 0 && !q.has_pending() && q.is_empty());
    ensures!("G01.own: a deferred handle is destroyed once by the next processing", g().globals_dropped == 1);
    q.process_all();
    ensures!("G01.quiet: and the next one does nothing", destroyed() == total && q.len() == 0);
    reach!("end", total >= many);
    std::mem::forget(q);
}

/// Handles of different types, deferred over several rounds (sequential).
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g01_rounds() {
    let q = DeferredDestructionQueue::new();
    ensures!("G01.new: empty", q.len() == 0 && q.is_empty() && !q.has_pending());
    q.process_all();
    q.defer(v8::Global::<v8::Function>::vp_new(1, 1));
    ensures!("G01.len: counts the deferred handles", q.len() == 1);
    q.defer(v8::Global::<v8::Object>::vp_new(2, 1));
    ensures!("G01.len: counts the deferred handles", q.len() == 2 && q.has_pending() && !q.is_empty());
    settle!("G01.defer: nothing is destroyed by deferring", g().globals_dropped, 0);
    q.process_all();
    settle!("G01.exact: exactly those are destroyed", g().dropped_ids, 6);
    settle!("G01.exact: once each", g().globals_dropped, 2);
    ensures!("G01.len: none is left", q.len() == 0 && !q.has_pending());
    q.defer(v8::Global::<v8::Value>::vp_new(3, 1));
    ensures!("G01.len: counts again", q.len() == 1);
    settle!("G01.defer: nothing is destroyed by deferring again", g().globals_dropped, 2);
    drop(q);
    ensures!("G01.dispose: disposing of the queue destroys what is left, once", g().globals_dropped == 3 && g().global_drop_bad == 0 && g().dropped_ids == 14);
    reach!("end", true);
}
