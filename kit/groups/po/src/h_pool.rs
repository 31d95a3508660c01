//! Contracts of the isolate pool (P01 acquisition, P02 warm reuse, P03 slots); included by both builds.
use super::*;
use crate::env::w;
use vk::any::{any_bool, any_u32, any_u64, any_i64, any_usize};
use vk::model::time::Instant as VkInstant;
use vk::{ensures, reach, requires};

// the isolates live in a typed pool
type Slot = Option<vk::model::slab::Inner<TaggedIsolate>>;
struct Slots { magic: u64, n: usize }
static mut SLOTS: Slots = Slots { magic: 0x5107, n: 0 };
static mut S0: (u64, Slot) = (0x51070, None);
static mut S1: (u64, Slot) = (0x51071, None);
static mut S2: (u64, Slot) = (0x51072, None);
static mut S3: (u64, Slot) = (0x51073, None);
static mut S4: (u64, Slot) = (0x51074, None);
fn keep(s: &'static mut Slot, i: vk::model::slab::Inner<TaggedIsolate>) -> *const vk::model::slab::Inner<TaggedIsolate> { unsafe { std::ptr::write(s, Some(i)) }; s.as_ref().unwrap() as *const _ }
impl vk::model::slab::Slab for TaggedIsolate {
    fn place(i: vk::model::slab::Inner<Self>) -> *const vk::model::slab::Inner<Self> {
        let t = unsafe { &mut *(&raw mut SLOTS) };
        let k = t.n;
        t.n = k + 1;
        unsafe { match k { 0 => keep(&mut S0.1, i), 1 => keep(&mut S1.1, i), 2 => keep(&mut S2.1, i), 3 => keep(&mut S3.1, i), 4 => keep(&mut S4.1, i), _ => panic!("MODEL: number of isolates") } }
    }
    // the destructor by the contract `p02_destroy` proves, where a harness says so
    fn end(i: &vk::model::slab::Inner<Self>) {
        let t = unsafe { &mut *i.t.get() };
        if w().drop_by_contract { w().iso_dropped.put(id(t), true); } else { unsafe { std::mem::ManuallyDrop::drop(t) } }
    }
}

fn limits(id: u32) -> RuntimeLimits { RuntimeLimits { id } }
fn config(max_isolates: usize, max_per_owner: Option<usize>, max_concurrent: usize, max_cached: usize) {
    init_pinned_pool(PinnedPoolConfig { max_per_thread: max_isolates, max_per_owner, max_concurrent_per_isolate: max_concurrent, max_cached_contexts: max_cached, limits: limits(7) });
}
/// requests running on an isolate
fn count(t: &TaggedIsolate, mc: usize) -> usize {
    // observed through the operations of the isolate itself
    if t.is_free() { return 0; }
    if !VP_MULTI || mc == 1 { return 1; }
    if t.try_acquire() { t.release(); 1 } else { 2 }
}
fn isolate(mc: usize, max_cached: usize) -> Arc<TaggedIsolate> { Arc::new(TaggedIsolate::new(String::any(), limits(7), mc, max_cached)) }
fn id(t: &TaggedIsolate) -> usize { unsafe { (*t.isolate.get()).isolate.i.id } }
/// any number of running requests up to the capacity
fn occupy(t: &TaggedIsolate) { if any_bool() { t.try_acquire(); } if VP_MULTI && any_bool() { t.try_acquire(); } }

fn any_concurrency() -> usize { if VP_MULTI { if any_bool() { 1 } else { 2 } } else { 1 } }

// ---- P01: acquisition --------------------------------------------------------------------------
fn acquire_case(n: usize) {
    w().drop_by_contract = true;
    let mc = any_concurrency();
    let max = any_usize();
    requires!(max <= 4);
    let per_owner = if any_bool() { let k = any_usize(); requires!(k <= 4); Some(k) } else { None };
    config(max, per_owner, mc, 2);
    let owner = String::any();
    let mut pool = ThreadLocalPool::new(max, per_owner, limits(7));
    let mut same = [false; 3];
    let mut can = [false; 3];
    let mut free = [false; 3];
    let mut cnt = [0usize; 3];
    let mut last = [VkInstant(0); 3];
    let mut ids = [99usize; 3];
    for i in 0..n {
        let a = isolate(mc, 2);
        occupy(&a);
        last[i] = VkInstant(any_u64());
        a.inner.vp_peek().last_used = last[i];
        same[i] = a.owner_id.same(&owner);
        cnt[i] = count(&a, mc);
        can[i] = cnt[i] < (if VP_MULTI { mc } else { 1 });
        free[i] = cnt[i] == 0;
        ids[i] = id(&a);
        pool.isolates.push(a);
    }
    let made = w().isolates;
    let r = pool.acquire(&owner);
    let mut hit = false;
    let mut owned = 0;
    let mut any_free = false;
    for i in 0..3 { if i < n { hit |= same[i] && can[i]; owned += same[i] as usize; any_free |= free[i]; } }
    let refused = !hit && per_owner.map_or(false, |k| owned >= k);
    let evict = !hit && !refused && n >= max && any_free;
    // which of the isolates are still in the pool, and how busy they are
    let mut gone = 0;
    let got = r.as_ref().map_or(98, |r| id(&r.isolate));
    for i in 0..n {
        let mut there = false;
        for j in 0..4 { if j < pool.isolates.len() {
            let t = &pool.isolates[j];
            if id(t) == ids[i] {
                there = true;
                ensures!("P01.others: running requests of other isolates are left alone", count(t, mc) == cnt[i] + (got == ids[i]) as usize);
            }
        } }
        ensures!("P01.busy_kept: an isolate with a running request is never evicted", there || free[i]);
        if !there {
            gone += 1;
            for k in 0..n { ensures!("P01.lru: the evicted isolate is the free one that was used longest ago", !free[k] || last[i] <= last[k]); }
            ensures!("P01.evicted: an evicted isolate is destroyed", w().iso_dropped.has(ids[i]));
        } else {
            ensures!("P01.kept: an isolate of the pool is not destroyed", !w().iso_dropped.has(ids[i]));
        }
    }
    match &r {
        None => {
            ensures!("P01.refused: only an owner at its limit is refused", refused);
            ensures!("P01.refused_frame: a refusal changes nothing", gone == 0 && pool.isolates.len() == n && w().isolates == made);
        }
        Some(r) => {
            ensures!("P01.limit: an owner at its limit gets no further isolate", !refused);
            ensures!("P01.owner: a request runs on an isolate of its own owner", r.isolate.owner_id.same(&owner));
            ensures!("P01.hit: an isolate of the same owner with capacity is used, and only that counts as a hit", r.cache_hit == hit);
            if hit {
                let mut ok = false;
                for i in 0..3 { if i < n && got == ids[i] { ok = same[i] && can[i]; } }
                ensures!("P01.capacity: the isolate had capacity for one more request", ok);
                ensures!("P01.hit_frame: nothing is created or evicted", gone == 0 && pool.isolates.len() == n && w().isolates == made);
            } else {
                ensures!("P01.fresh: otherwise one new isolate is made, with the pool's limits", w().isolates == made + 1 && got == made && w().last_limits == 7);
                ensures!("P01.fresh_slot: the new isolate runs exactly this request", count(&r.isolate, mc) == 1);
                ensures!("P01.evict_iff_full: an isolate is evicted only when the pool is full, and then one", gone == evict as usize);
                ensures!("P01.size: the pool grows past its maximum only when every isolate is busy", pool.isolates.len() == if evict { n } else { n + 1 });
                let mut there = false;
                for j in 0..4 { if j < pool.isolates.len() { there |= id(&pool.isolates[j]) == got; } }
                ensures!("P01.pooled: the new isolate belongs to the pool", there);
            }
        }
    }
    reach!("acquire hit", n == 0 || hit);
    reach!("acquire refused", refused);
    reach!("acquire evicts", n == 0 || evict);
    reach!("acquire grows", !hit && !refused && !evict);
    std::mem::forget(r);
    std::mem::forget(pool);
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_acquire_0() { acquire_case(0) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_acquire_1() { acquire_case(1) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_acquire_2() { acquire_case(2) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_acquire_3() { acquire_case(3) }

fn cleanup_case(n: usize) {
    w().drop_by_contract = true;
    let mc = any_concurrency();
    let max = any_usize();
    requires!(max <= 4);
    config(max, None, mc, 2);
    let mut pool = ThreadLocalPool::new(max, None, limits(7));
    let mut cnt = [0usize; 3];
    let mut ids = [99usize; 3];
    let mut nfree = 0;
    for i in 0..n {
        let a = isolate(mc, 2);
        occupy(&a);
        cnt[i] = count(&a, mc);
        if cnt[i] == 0 { nfree += 1; }
        ids[i] = id(&a);
        pool.isolates.push(a);
    }
    let s = pool.stats();
    ensures!("P01.stats: the statistics are the pool's", s.total == n && s.in_use == n - nfree && s.capacity == max);
    pool.cleanup_overlimit();
    for i in 0..n {
        let mut there = false;
        for j in 0..4 { if j < pool.isolates.len() && id(&pool.isolates[j]) == ids[i] { there = true; ensures!("P01.cleanup_frame: cleaning up changes no running request", count(&pool.isolates[j], mc) == cnt[i]); } }
        ensures!("P01.cleanup_busy: cleaning up removes no isolate in use", there || cnt[i] == 0);
        ensures!("P01.cleanup_destroy: exactly the removed isolates are destroyed", there != w().iso_dropped.has(ids[i]));
    }
    let over = if n > max { n - max } else { 0 };
    let want = n - if over < nfree { over } else { nfree };
    ensures!("P01.cleanup: isolates above the maximum are reclaimed as soon as they are free, no more", pool.isolates.len() == want);
    reach!("cleanup removes", n == 0 || want < n);
    std::mem::forget(pool);
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_cleanup_2() { cleanup_case(2) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p01_cleanup_3() { cleanup_case(3) }

// ---- P02: warm reuse ---------------------------------------------------------------------------
fn cached(iso: &TaggedIsolate) -> CachedContext {
    CachedContext {
        request: RequestContext::vp_new(id(iso)), isolate_ptr: crate::env::execution_context::owned(iso.isolate.get()), worker_id: String::any(), version: vk::any_i32(),
        reuse_count: any_u32(), last_used: VkInstant(any_u64()), ops: OperationsHandle { id: any_u32() }, env_updated_at: any_env(),
    }
}
fn any_env() -> Option<i64> { if any_bool() { Some(any_i64()) } else { None } }

/// an isolate is destroyed under its lock, with the contexts it caches
fn destroy_case(n: usize) {
    let a = isolate(1, 3);
    let k = id(&a);
    for i in 0..n { let c = cached(&a); a.inner.vp_peek().cached_contexts.push(c); }
    drop(a);
    ensures!("P02.destroy: the cached contexts of a destroyed isolate are destroyed once, under its lock", w().ctx_dropped.0 == (1 << n) - 1 && !w().ctx_twice && w().ctx_unlocked.0 == 0);
    ensures!("P02.destroy_deferred: deferred handles are destroyed before the isolate goes", w().drained.has(k));
    ensures!("P02.destroy_lock: the lock is released, and the isolate is gone", !w().locked.has(k) && w().iso_dropped.has(k));
}
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p02_destroy() { destroy_case(2) }

/// TaggedIsolateInner::cache
fn cache_case(n: usize) {
    let max = any_usize();
    requires!(max <= 3 && n <= max);
    let a = isolate(1, max);
    let mut last = [VkInstant(0); 3];
    for i in 0..n { let c = cached(&a); last[i] = c.last_used; a.inner.vp_peek().cached_contexts.push(c); }
    let c = cached(&a);
    let inner = a.inner.vp_peek();
    let out = inner.cache(c);
    let len = inner.cached_contexts.len();
    ensures!("P02.cache_bound: never more contexts are cached than configured", len <= max);
    let mut kept = crate::env::Set(0);
    for j in 0..4 { if j < len { let k = inner.cached_contexts[j].request.id; ensures!("P02.cache_once: a context is cached once", !kept.has(k)); kept.put(k, true); } }
    match &out {
        None => { ensures!("P02.cache_all: no context is lost", n < max && kept.0 == (1 << (n + 1)) - 1); }
        Some(o) => {
            let k = o.request.id;
            ensures!("P02.cache_evicts: a context is handed back only when the cache is full, and the others stay", n == max && !kept.has(k) && (kept.0 | 1 << k) == (1 << (n + 1)) - 1);
            ensures!("P02.cache_new: the context of this request is kept if anything may be kept", max == 0 || k < n);
            for i in 0..n { ensures!("P02.cache_lru: the context evicted is the one used longest ago", k >= n || at3(&last, k) <= last[i]); }
        }
    }
    ensures!("P02.cache_nodrop: nothing is destroyed without the lock", w().ctx_dropped.0 == 0);
    reach!("cache full", out.is_some());
    reach!("cache not full", n == 3 || out.is_none());
    std::mem::forget(out);
    std::mem::forget(a);
}
fn at3(a: &[VkInstant; 3], k: usize) -> VkInstant { if k == 0 { a[0] } else if k == 1 { a[1] } else { a[2] } }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p02_cache_0() { cache_case(0) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p02_cache_1() { cache_case(1) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p02_cache_2() { cache_case(2) }
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p02_cache_3() { cache_case(3) }


// ---- P03: slots --------------------------------------------------------------------------------
/// the capacity of an isolate, over any four operations
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_capacity() {
    let mc = if VP_MULTI { let k = any_usize(); requires!(k >= 1 && k <= 3); k } else { any_usize() };
    let cap = if VP_MULTI { mc } else { 1 };
    let a = isolate(mc, 1);
    let mut n = 0;
    for _ in 0..4 {
        if any_bool() {
            let ok = a.try_acquire();
            ensures!("P03.capacity: a slot is given out exactly while there is capacity", ok == (n < cap));
            if ok { n += 1; }
        } else if n > 0 { a.release(); n -= 1; }
        ensures!("P03.free: an isolate is free exactly when none of its slots is taken", a.is_free() == (n == 0));
    }
    reach!("full", n == cap);
    std::mem::forget(a);
}
/// acquisition and release through the thread's pool
#[kani::proof]
#[kani::unwind(7)]
#[kani::solver(cadical)]
fn p03_release() {
    w().drop_by_contract = true;
    let mc = any_concurrency();
    let max = any_usize();
    requires!(max <= 2);
    config(max, None, mc, 2);
    ensure_pool_initialized();
    let (a, hit) = acquire_from_local_pool("a").expect("first");
    let (b, hit2) = acquire_from_local_pool("b").expect("second");
    ensures!("P03.pool_init: the thread's pool has the configured size and limits", !hit && !hit2 && w().last_limits == 7 && get_local_pool_stats().map_or(false, |s| s.capacity == max && s.in_use == 2 && s.total == 2));
    ensures!("P03.distinct: two owners never share an isolate", id(&a) != id(&b));
    let (ia, ib) = (id(&a), id(&b));
    release_to_local_pool(&a);
    ensures!("P03.released: the slot is given back", a.is_free() && !b.is_free());
    drop(a);
    ensures!("P03.overcommit: an isolate above the maximum goes as soon as it is free", w().iso_dropped.has(ia) == (max < 2) && !w().iso_dropped.has(ib));
    release_to_local_pool(&b);
    drop(b);
    ensures!("P03.overcommit_both: and so does the other", w().iso_dropped.has(ib) == (max < 1));
    ensures!("P03.idle: nothing is in use any more", get_local_pool_stats().map_or(false, |s| s.in_use == 0 && s.total == max));
    reach!("kept", max == 2);
    reach!("reclaimed", max == 0);
}

/// the id shown in logs, for ids of up to ten characters of any width
#[kani::proof]
#[kani::unwind(12)]
#[kani::solver(cadical)]
fn p02_short_id() {
    let mut b = [b'x'; 30];
    let mut n = 0;
    let mut at8 = 0;
    let k = any_usize();
    requires!(k <= 10);
    for i in 0..10 { if i < k {
        if i == 8 { at8 = n; }
        if any_bool() { n += 1; } else { b[n] = 0xC3; b[n + 1] = 0xA9; n += 2; }
    } }
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let r = short_id(s);
    ensures!("P02.short_id: a worker id of any characters can be logged, shortened to eight of them", r.as_ptr() == s.as_ptr() && r.len() == if k > 8 { at8 } else { n });
    reach!("long", k == 10);
    reach!("short", k == 3);
}
