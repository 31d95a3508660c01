//! execute_pinned against the contracts of acquisition and release (P03 slots), suspending and abandoned runs.
use super::*;
use crate::env::w;
use vk::any::{any_bool, any_i64, any_u32, any_u64, any_usize};
use vk::model::slab::Inner;
use vk::model::time::Instant as VkInstant;
use vk::{ensures, reach, requires};

fn limits(id: u32) -> RuntimeLimits { RuntimeLimits { id } }
fn config(max_cached: usize) {
    init_pinned_pool(PinnedPoolConfig { max_per_thread: 1, max_per_owner: None, max_concurrent_per_isolate: 2, max_cached_contexts: max_cached, limits: limits(7) });
}
fn id(t: &TaggedIsolate) -> usize { unsafe { (*t.isolate.get()).isolate.i.id } }
impl vk::model::slab::Slab for TaggedIsolate {
    fn place(i: Inner<Self>) -> *const Inner<Self> { panic!("MODEL: an isolate made outside the pool") }
    fn at(p: *const Inner<Self>) -> *const Inner<Self> { let h = stage().home.unwrap() as *const Inner<Self>; assert!(p == h, "P03.one: the request stays on the isolate it acquired"); h }
    fn end(_: &Inner<Self>) { ensures!("P03.outlives: the pool's isolate outlives the request", false); }
}
pub struct Stage { magic: u64, home: Option<&'static Inner<TaggedIsolate>>, refuse: bool, hit: bool, acquired: u32, released: u32 }
pub static mut STAGE: Stage = Stage { magic: 0x57A6E, home: None, refuse: false, hit: false, acquired: 0, released: 0 };
pub fn stage() -> &'static mut Stage { unsafe { &mut *(&raw mut STAGE) } }
/// contract (P01): an isolate of this owner with one of its slots taken, or nothing
pub fn acquire_from_local_pool(owner: &str) -> Option<(Arc<TaggedIsolate>, bool)> {
    let s = stage();
    ensures!("P02.owner: the isolate is acquired for the request's owner", owner == "a");
    if s.refuse { return None; }
    s.acquired += 1;
    Some((Arc::vp_at(s.home.unwrap()), s.hit))
}
/// contract (P03): one slot of this isolate is given back
pub fn release_to_local_pool(t: &TaggedIsolate) {
    let s = stage();
    ensures!("P03.release_own: the slot given back is the one that was taken", s.acquired == 1 && std::ptr::eq(t, s.home.unwrap().vp_ref()));
    s.released += 1;
}
fn cached(iso: &TaggedIsolate) -> CachedContext {
    CachedContext {
        request: RequestContext::vp_new(id(iso)), isolate_ptr: crate::env::execution_context::owned(iso.isolate.get()), worker_id: String::any(), version: vk::any_i32(),
        reuse_count: any_u32(), last_used: VkInstant(any_u64()), ops: OperationsHandle { id: any_u32() }, env_updated_at: any_env(),
    }
}
fn any_env() -> Option<i64> { if any_bool() { Some(any_i64()) } else { None } }

fn request(worker_id: String, version: i32, env: Option<i64>, hook: bool) -> PinnedExecuteRequest {
    PinnedExecuteRequest {
        owner_id: String::of("a"), worker_id, version, script: openworkers_core::Script { id: 41 }, ops: OperationsHandle { id: 42 }, task: openworkers_core::Event { id: 43 },
        on_warm_hit: if hook { Some(Box::new(|o: &OperationsHandle| { w().warm_calls += 1; w().warm_ops = o.id; w().warm_before = w().execs == 0; })) } else { None }, env_updated_at: env,
    }
}


/// while a request waits, its slot is held
fn held() {
    ensures!("P03.held: the slot is held as long as the request is under way", stage().acquired == 1 && stage().released == 0);
    ensures!("P03.unlocked_wait: no lock of the isolate is held while the request waits", stage().home.unwrap().vp_ref().inner.try_lock().is_ok() && !w().locked.has(id(stage().home.unwrap().vp_ref())));
}
/// execute_pinned, completed (`leave` 0) or abandoned at one of its awaits
fn slot_case(n: usize, leave: u32, refuse: bool) {
    config(1);
    let home = std::mem::ManuallyDrop::new(Inner::vp_new(TaggedIsolate::new(String::of("a"), limits(7), 2, 1)));
    let home: &'static Inner<TaggedIsolate> = unsafe { &*(&*home as *const _) };
    let t = home.vp_ref();
    stage().home = Some(home);
    stage().hit = n > 0;
    stage().refuse = refuse;
    if n == 1 { let mut c = cached(t); c.worker_id = String::of("b"); c.version = 1; c.env_updated_at = None; c.reuse_count = 0; t.inner.vp_peek().cached_contexts.push(c); }
    let p = crate::env_await::plan();
    p.check = held;
    p.leave = leave;
    let r = execute_pinned(request(String::of("b"), 1, None, false));
    ensures!("P03.refused: a request that gets no isolate is refused at once, executing nothing", !refuse || (matches!(r, Err(_)) && w().execs == 0 && w().created == 0 && stage().acquired == 0));
    ensures!("P03.once: a slot is taken once and given back exactly once, however the request ends", stage().released == stage().acquired && stage().acquired == !refuse as u32);
    ensures!("P03.unlocked: afterwards the isolate's bookkeeping and V8 lock are free", t.inner.try_lock().is_ok() && !w().locked.has(id(t)));
    ensures!("P03.keeps: the pool's handle is the only one left", home.n.get() == 1);
    reach!("abandoned or done", refuse || leave == 0 || crate::env_await::plan().left);
    reach!("succeeds", refuse || leave != 0 || r.is_ok());
    reach!("fails", refuse || leave != 0 || r.is_err());
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_refused() { slot_case(0, 0, true) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_cold_done() { slot_case(0, 0, false) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_warm_done() { slot_case(1, 0, false) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_cold_left() { slot_case(0, { let k = any_u32(); requires!(k <= 8 && k > 0); k }, false) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_warm_left() { slot_case(1, { let k = any_u32(); requires!(k <= 8 && k > 0); k }, false) }
