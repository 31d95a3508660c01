//! Contract of the near-heap-limit protection (property S02), through `install_heap_limit_callback`.
use crate::heap_limit::*;
use std::sync::Arc;
use vk::kstd::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use vk::ghost::g;
use vk::*;

const HEADROOM: usize = 2 * 1024 * 1024;

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s02_callback() {
    let f0 = any_bool();
    let flag = Arc::new(AtomicBool::new(f0));
    let max = any_usize();
    let id = if any_bool() { 1usize } else { 2 };
    let mut iso = v8::Isolate::vp_new(id);
    let state = install_heap_limit_callback(&mut iso, flag.clone(), max);
    ensures!("S02.install: callback installed once", iso.near_installs == 1 && iso.near.is_some());
    ensures!("S02.install: OOM handler installed", iso.oom.is_some());
    ensures!("S02.install: installing does not trip anything", flag.load(Ordering::SeqCst) == f0 && g().term[id] == 0);
    let moved = state; // the caller moves the box; the registered pointer must stay valid
    moved.invocation_count.store(any_u32(), Ordering::SeqCst); // any number of earlier calls
    let c0 = moved.invocation_count.load(Ordering::SeqCst);
    g().num[2] = 0;
    let (cb, data) = iso.near.unwrap();
    let cur = any_usize();
    let init = any_usize();
    requires!(cur <= usize::MAX - HEADROOM);
    let new = unsafe { cb(data, cur, init) };
    ensures!("S02.headroom: the returned limit is strictly above the current one", new > cur);
    ensures!("S02.headroom: by at least 2 MiB", new - cur >= HEADROOM);
    ensures!("S02.headroom: and by a bounded amount", new - cur <= 16 * HEADROOM);
    ensures!("S02.flag: memory limit recorded", flag.load(Ordering::SeqCst));
    ensures!("S02.terminate: this isolate is terminated, once per call", g().term[id] == 1);
    ensures!("S02.terminate: no other isolate is", g().term[3 - id] == 0 && g().term[0] == 0 && g().term[3] == 0);
    ensures!("S02.order: the reason is recorded before the termination", g().num[0] >= 1);
    ensures!("S02.count: invocation counted", moved.invocation_count.load(Ordering::SeqCst) == c0.wrapping_add(1));
    reach!("later invocation", c0 == 5);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn s02_new_state() {
    let f0 = any_bool();
    let flag = Arc::new(AtomicBool::new(f0));
    let max = any_usize();
    let s = HeapLimitState::new(v8::IsolateHandle { id: 1 }, flag.clone(), max);
    ensures!("S02.new: limits and flag are those given", s.max_heap_bytes == max && s.isolate_handle.id == 1 && Arc::ptr_eq(&s.memory_limit_hit, &flag));
    ensures!("S02.new: nothing tripped", s.invocation_count.load(Ordering::SeqCst) == 0 && flag.load(Ordering::SeqCst) == f0);
    reach!("end", true);
}
