//! execute_pinned against the contracts of acquisition and release (P02 warm reuse, P03 slots).
use super::*;
use crate::env::w;
use vk::any::{any_bool, any_i64, any_u32, any_u64, any_usize};
use vk::model::slab::Inner;
use vk::model::time::Instant as VkInstant;
use vk::{ensures, reach, requires};

fn limits(id: u32) -> RuntimeLimits { RuntimeLimits { id } }
fn config(max_cached: usize) {
    init_pinned_pool(PinnedPoolConfig { max_per_thread: 1, max_per_owner: None, max_concurrent_per_isolate: 2, max_cached_contexts: max_cached, limits: limits(7) });
}
fn id(t: &TaggedIsolate) -> usize { unsafe { (*t.isolate.get()).isolate.i.id } }
impl vk::model::slab::Slab for TaggedIsolate {
    fn place(i: Inner<Self>) -> *const Inner<Self> { panic!("MODEL: an isolate made outside the pool") }
    fn at(p: *const Inner<Self>) -> *const Inner<Self> { let h = stage().home.unwrap() as *const Inner<Self>; assert!(p == h, "P03.one: the request stays on the isolate it acquired"); h }
    fn end(_: &Inner<Self>) { ensures!("P03.outlives: the pool's isolate outlives the request", false); }
}
pub struct Stage { magic: u64, home: Option<&'static Inner<TaggedIsolate>>, refuse: bool, hit: bool, acquired: u32, released: u32 }
pub static mut STAGE: Stage = Stage { magic: 0x57A6E, home: None, refuse: false, hit: false, acquired: 0, released: 0 };
pub fn stage() -> &'static mut Stage { unsafe { &mut *(&raw mut STAGE) } }
/// contract (P01): an isolate of this owner with one of its slots taken, or nothing
pub fn acquire_from_local_pool(owner: &str) -> Option<(Arc<TaggedIsolate>, bool)> {
    let s = stage();
    ensures!("P02.owner: the isolate is acquired for the request's owner", owner == "a");
    if s.refuse { return None; }
    s.acquired += 1;
    Some((Arc::vp_at(s.home.unwrap()), s.hit))
}
/// contract (P03): one slot of this isolate is given back
pub fn release_to_local_pool(t: &TaggedIsolate) {
    let s = stage();
    ensures!("P03.release_own: the slot given back is the one that was taken", s.acquired == 1 && std::ptr::eq(t, s.home.unwrap().vp_ref()));
    s.released += 1;
}
fn cached(iso: &TaggedIsolate) -> CachedContext {
    CachedContext {
        request: RequestContext::vp_new(id(iso)), isolate_ptr: crate::env::execution_context::owned(iso.isolate.get()), worker_id: String::any(), version: vk::any_i32(),
        reuse_count: any_u32(), last_used: VkInstant(any_u64()), ops: OperationsHandle { id: any_u32() }, env_updated_at: any_env(),
    }
}
fn any_env() -> Option<i64> { if any_bool() { Some(any_i64()) } else { None } }

fn request(worker_id: String, version: i32, env: Option<i64>, hook: bool) -> PinnedExecuteRequest {
    PinnedExecuteRequest {
        owner_id: String::of("a"), worker_id, version, script: openworkers_core::Script { id: 41 }, ops: OperationsHandle { id: 42 }, task: openworkers_core::Event { id: 43 },
        on_warm_hit: if hook { Some(Box::new(|o: &OperationsHandle| { w().warm_calls += 1; w().warm_ops = o.id; w().warm_before = w().execs == 0; })) } else { None }, env_updated_at: env,
    }
}

/// execute_pinned on an isolate that caches `n` contexts
fn exec_case(n: usize, hook: bool) {
    let max_cached = any_usize();
    requires!(max_cached <= 2 && n <= max_cached);
    config(max_cached);
    w().max_reuses = if any_bool() { Some(any_u32()) } else { None };
    let home = std::mem::ManuallyDrop::new(Inner::vp_new(TaggedIsolate::new(String::of("a"), limits(7), 2, max_cached)));
    let home: &'static Inner<TaggedIsolate> = unsafe { &*(&*home as *const _) };
    let t = home.vp_ref();
    stage().home = Some(home);
    stage().hit = n > 0;
    let iso = id(t);
    let (wid, ver, env) = (String::any(), vk::any_i32(), any_env());
    let mut fits = [false; 3];
    let mut uses = [0u32; 3];
    let mut cops = [0u32; 3];
    let mut last = [VkInstant(0); 3];
    for i in 0..n {
        let c = cached(t);
        requires!(c.reuse_count < u32::MAX);
        fits[i] = c.worker_id.same(&wid) && c.version == ver && c.env_updated_at == env;
        uses[i] = c.reuse_count;
        cops[i] = c.ops.id;
        last[i] = c.last_used;
        t.inner.vp_peek().cached_contexts.push(c);
    }
    let lmi = unsafe { &*t.isolate.get() };
    lmi.memory_limit_hit.store(any_bool(), Ordering::SeqCst);
    let lim = max_reuses_of();
    let r = execute_pinned(request(wid, ver, env, hook));
    let g = w();
    let warm = g.cached_from == 1;
    ensures!("P02.once: at most one cached and one fresh context are used", g.cached_from <= 1 && g.created <= 1);
    // which cached context was taken (any that fits)
    let mut may_warm = false;
    for i in 0..3 { if i < n { may_warm |= fits[i] && lim.map_or(true, |l| uses[i] < l); } }
    ensures!("P02.warm_iff: a context is reused exactly when one of this worker, version and environment is cached and not worn out", warm == may_warm);
    let used = if warm && g.reset_ok { g.exec_ctx } else if g.created == 1 && g.create_ok { n } else { 99 };
    if warm && g.reset_ok {
        let mut ok = false;
        for i in 0..3 { if i < n && used == i { ok = fits[i] && lim.map_or(true, |l| uses[i] < l); } }
        ensures!("P02.warm_match: a reused context belongs to the same worker, version and environment", ok);
        ensures!("P02.warm_alone: no fresh context is made", g.created == 0);
    } else {
        ensures!("P02.cold: otherwise a fresh context runs this request's script and operations", g.created == 1 && g.script == 41 && g.ops == 42);
    }
    ensures!("P02.reset: a cached context is reset before it runs again", g.resets == warm as u32);
    ensures!("P02.hook: the warm-hit hook is called for a warm hit only, once, with the cached operations, before the execution", g.warm_calls == (warm && hook) as u32 && (g.warm_calls == 0 || (g.warm_before && (used >= n || g.warm_ops == if used == 0 { cops[0] } else if used == 1 { cops[1] } else { cops[2] }))));
    // the task runs exactly once
    ensures!("P02.task: the task is executed exactly once, in that context", used == 99 || (g.execs == 1 && g.exec_ctx == used && g.exec_task == 43));
    ensures!("P02.no_task: a context that could not be made executes nothing", used != 99 || g.execs == 0);
    ensures!("P02.waiter: the execution queues on its own isolate's waiter", used == 99 || (g.exec_iso == iso && g.exec_waiter == t.concurrency.async_waiter().map_or(0, |x| x.id)));
    let code = match &r { Err(e) => Some(e.vp_code()), _ => None };
    ensures!("P02.result: the caller gets the result of its own execution", code == g.exec_err);
    ensures!("P02.drained: background work is drained before the context is kept", g.drains == (used != 99 && g.exec_err.is_none()) as u32);
    // what is cached now
    let keep = used != 99 && g.exec_err.is_none() && g.drain_ok;
    let inner = t.inner.vp_peek();
    let len = inner.cached_contexts.len();
    let mut kept = crate::env::Set(0);
    for j in 0..4 { if j < len {
        let c = &inner.cached_contexts[j];
        let k = c.request.id;
        ensures!("P02.cached_once: a context is cached once", !kept.has(k));
        kept.put(k, true);
        if k == used {
            ensures!("P02.tag: a context is cached under the worker, version and environment it ran for", c.worker_id.same(&wid) && c.version == ver && c.env_updated_at == env);
            let u = if used == 0 { uses[0] } else if used == 1 { uses[1] } else { uses[2] };
            ensures!("P02.count: its use is counted", c.reuse_count == if warm && g.reset_ok { u + 1 } else { 1 });
            ensures!("P02.tag_ops: with the operations it was made with", c.ops.id == if warm && g.reset_ok { if used == 0 { cops[0] } else if used == 1 { cops[1] } else { cops[2] } } else { 42 });
            ensures!("P02.tag_isolate: and its isolate", c.isolate_ptr == crate::env::execution_context::owned(t.isolate.get()));
        }
    } }
    ensures!("P02.bound: never more contexts are cached than configured", len <= max_cached);
    ensures!("P02.no_bad: a context whose execution or background work failed is not reused", keep || !kept.has(used));
    ensures!("P02.keep: one that succeeded is, if anything may be cached", !keep || kept.has(used) || max_cached == 0);
    let all = (1u64 << g.ctxs) - 1;
    ensures!("P02.fate: every context is either cached or destroyed, once", !g.ctx_twice && (kept.0 | g.ctx_dropped.0) == all && kept.0 & g.ctx_dropped.0 == 0);
    ensures!("P02.under_lock: contexts are destroyed under their isolate's lock", g.ctx_unlocked.0 == 0);
    let mut lost = 0;
    for i in 0..3 { if i < n && !kept.has(i) && i != used && !(warm && !g.reset_ok && fits[i]) { lost += 1; } }
    ensures!("P02.others: other cached contexts stay, except one evicted for lack of room", lost <= (keep && used == n && n == max_cached) as usize);
    ensures!("P02.unlocked: the isolate's lock is released", !g.locked.has(iso));
    ensures!("P03.released: the slot is taken once and given back once", stage().acquired == 1 && stage().released == 1);
    reach!("warm", n == 0 || (warm && g.reset_ok));
    reach!("cold", g.created == 1 && g.create_ok);
    reach!("reset fails", n == 0 || (warm && !g.reset_ok));
    reach!("exec fails", used != 99 && g.exec_err.is_some());
    reach!("drain fails", used != 99 && g.exec_err.is_none() && !g.drain_ok);
    reach!("creation fails", used == 99);
}
/// the limit on reuses the configuration yields
fn max_reuses_of() -> Option<u32> { Some(context_max_reuses()) }
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(cadical)]
fn p02_exec_0() { exec_case(0, true) }
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(cadical)]
fn p02_exec_1() { exec_case(1, true) }
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(cadical)]
fn p02_exec_2() { exec_case(2, false) }
