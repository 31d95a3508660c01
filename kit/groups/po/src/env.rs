//! What the pool calls, by contract: each operation records what it was given and checks what it
//! requires; its outcome is unconstrained.
use vk::any::{any_bool, any_u32};
use vk::{ensures, reach};

pub const NI: usize = 6; // isolates
pub const NC: usize = 6; // request contexts
pub struct W {
    magic: u64,
    pub isolates: usize,
    pub locked: Set,
    pub iso_dropped: Set,
    pub last_limits: u32,
    pub drained: Set,
    /// request contexts made so far, destroyed, destroyed twice, their isolates (4 bits each), ready for an execution
    pub ctxs: usize,
    pub ctx_dropped: Set,
    pub ctx_twice: bool,
    pub ctx_unlocked: Set,
    pub ctx_iso: u64,
    pub ctx_ready: Set,
    // the request
    pub created: u32,
    pub create_ok: bool,
    pub cached_from: u32,
    pub resets: u32,
    pub reset_ok: bool,
    pub execs: u32,
    pub exec_ctx: usize,
    pub exec_task: u32,
    pub exec_done: bool,
    pub exec_err: Option<u32>,
    pub drains: u32,
    pub drain_done: bool,
    pub drain_ok: bool,
    pub warm_calls: u32,
    pub warm_ops: u32,
    pub warm_before: bool,
    pub script: u32,
    pub ops: u32,
    pub limits: u32,
    pub pend: u32,
    pub may_pend: bool,
    pub flag: *const crate::kstd_po::sync::atomic::AtomicBool,
    pub max_reuses: Option<u32>,
    pub waiter: usize,
    pub exec_waiter: usize,
    pub exec_iso: usize,
    pub mutex_pends: bool,
    pub drop_by_contract: bool,
}
pub static mut WORLD: W = W {
    magic: 0x90_01, isolates: 0, locked: Set(0), iso_dropped: Set(0), last_limits: 0, drained: Set(0),
    ctxs: 0, ctx_dropped: Set(0), ctx_twice: false, ctx_unlocked: Set(0), ctx_iso: 0, ctx_ready: Set(0),
    created: 0, create_ok: false, cached_from: 0, resets: 0, reset_ok: false, execs: 0, exec_ctx: 99, exec_task: 0, exec_done: false, exec_err: None,
    drains: 0, drain_done: false, drain_ok: false, warm_calls: 0, warm_ops: 0, warm_before: false, script: 0, ops: 0, limits: 0, pend: 0, may_pend: false,
    flag: std::ptr::null(), max_reuses: None, waiter: 0, exec_waiter: 0, exec_iso: 99, mutex_pends: false, drop_by_contract: false,
};
pub fn w() -> &'static mut W { unsafe { &mut *(&raw mut WORLD) } }

/// a set of small numbers
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Set(pub u64);
impl Set {
    pub fn has(&self, k: usize) -> bool { (self.0 >> (k & 63)) & 1 == 1 }
    pub fn put(&mut self, k: usize, b: bool) { let m = 1u64 << (k & 63); self.0 = if b { self.0 | m } else { self.0 & !m }; }
}
/// the isolate a context belongs to
pub fn ctx_iso(k: usize) -> usize { ((w().ctx_iso >> ((k & 15) * 4)) & 15) as usize }

pub mod kstd_po {
    pub use vk::kstd::*;
    pub mod sync {
        pub use vk::kstd::sync::*;
        pub use vk::model::slab::Arc;
    }
    pub mod env {
        pub struct Text(u32);
        pub trait Parsed: Sized { fn of(v: u32) -> Result<Self, ()>; }
        impl Parsed for u32 { fn of(v: u32) -> Result<u32, ()> { Ok(v) } }
        impl Parsed for u64 { fn of(v: u32) -> Result<u64, ()> { Ok(v as u64) } }
        impl Parsed for usize { fn of(v: u32) -> Result<usize, ()> { Ok(v as usize) } }
        impl Text { pub fn parse<T: Parsed>(&self) -> Result<T, ()> { if vk::any_bool() { Err(()) } else { T::of(self.0) } } pub fn trim(&self) -> &Text { self } }
        pub fn var(_: &str) -> Result<Text, ()> { match crate::env::w().max_reuses { Some(v) => Ok(Text(v)), None => Err(()) } }
    }
}

pub mod v8 {
    use super::*;
    pub struct Platform;
    pub struct SharedRef<T>(pub std::marker::PhantomData<T>);
    pub struct Isolate { pub id: usize }
    pub struct UnenteredIsolate { pub i: Isolate }
    pub struct OwnedIsolate { pub i: Isolate }
    /// holding the isolate's lock
    pub struct Locker<'a> { i: &'a mut Isolate }
    impl<'a> Locker<'a> {
        pub fn new(u: &'a mut UnenteredIsolate) -> Self {
            let k = u.i.id;
            assert!(!w().locked.has(k), "P02.lock: the isolate's lock is not taken twice");
            w().locked.put(k, true);
            Locker { i: &mut u.i }
        }
    }
    impl Drop for Locker<'_> { fn drop(&mut self) { w().locked.put(self.i.id, false); } }
    impl std::ops::Deref for Locker<'_> { type Target = Isolate; fn deref(&self) -> &Isolate { self.i } }
    impl std::ops::DerefMut for Locker<'_> { fn deref_mut(&mut self) -> &mut Isolate { self.i } }
}
pub mod async_waiter {
    pub struct AsyncWaiter { pub id: usize }
    impl AsyncWaiter { pub fn new() -> Self { super::w().waiter += 1; AsyncWaiter { id: super::w().waiter } } }
}
pub mod owc {
    use vk::model::text::String;
    #[derive(Clone, Debug, PartialEq)]
    pub struct RuntimeLimits { pub id: u32 }
    #[derive(Clone, Debug)]
    pub struct OperationsHandle { pub id: u32 }
    pub struct Event { pub id: u32 }
    #[derive(Clone)]
    pub struct Script { pub id: u32 }
    #[derive(Clone, Debug, PartialEq)]
    pub enum TerminationReason { CpuTimeLimit, WallClockTimeout, MemoryLimit, Exception(String), InitializationError(String), Terminated, Aborted, MaxIterations, Other(String) }
    impl TerminationReason {
        pub fn vp_of(k: u32) -> Self {
            match k { 0 => Self::CpuTimeLimit, 1 => Self::WallClockTimeout, 2 => Self::MemoryLimit, 3 => Self::Exception(String::new()), 4 => Self::InitializationError(String::new()), 5 => Self::Terminated, 6 => Self::Aborted, 7 => Self::MaxIterations, _ => Self::Other(String::new()) }
        }
        pub fn vp_code(&self) -> u32 {
            match self { Self::CpuTimeLimit => 0, Self::WallClockTimeout => 1, Self::MemoryLimit => 2, Self::Exception(_) => 3, Self::InitializationError(_) => 4, Self::Terminated => 5, Self::Aborted => 6, Self::MaxIterations => 7, Self::Other(_) => 8 }
        }
    }
}
use kstd_po::sync::{Arc, atomic::{AtomicBool, Ordering}};
pub static PLATFORM: v8::SharedRef<v8::Platform> = v8::SharedRef(std::marker::PhantomData);
pub struct Ddq { pub iso: usize }
impl Ddq {
    pub fn process_all(&self) {
        assert!(w().locked.has(self.iso), "P02.ddq: deferred handles are destroyed under the isolate's lock");
        w().drained.put(self.iso, true);
    }
}
pub struct JsLock;
pub struct LockerManagedIsolate {
    pub isolate: v8::UnenteredIsolate,
    pub platform: &'static v8::SharedRef<v8::Platform>,
    pub limits: owc::RuntimeLimits,
    pub memory_limit_hit: Arc<AtomicBool>,
    pub use_snapshot: bool,
    pub deferred_destruction_queue: Arc<Ddq>,
}
impl LockerManagedIsolate {
    pub fn new(limits: owc::RuntimeLimits) -> Self {
        let k = w().isolates;
        assert!(k < NI, "MODEL: number of isolates");
        w().isolates += 1;
        w().last_limits = limits.id;
        LockerManagedIsolate {
            isolate: v8::UnenteredIsolate { i: v8::Isolate { id: k } }, platform: &PLATFORM, limits,
            memory_limit_hit: Arc::new(AtomicBool::new(false)), use_snapshot: any_bool(), deferred_destruction_queue: Arc::new(Ddq { iso: k }),
        }
    }
    pub fn lock(&mut self) -> (v8::Locker<'_>, JsLock) {
        let l = v8::Locker::new(&mut self.isolate);
        self.deferred_destruction_queue.process_all();
        (l, JsLock)
    }
    pub fn memory_limit_hit(&self) -> bool { self.memory_limit_hit.load(Ordering::Relaxed) }
}
impl Drop for LockerManagedIsolate { fn drop(&mut self) { w().iso_dropped.put(self.isolate.i.id, true); } }

pub mod request_context {
    use super::*;
    pub struct RequestContext { pub id: usize }
    impl RequestContext {
        pub fn vp_new(iso: usize) -> Self {
            let id = w().ctxs;
            assert!(id < NC, "MODEL: number of contexts");
            w().ctxs += 1;
            w().ctx_iso |= (iso as u64 & 15) << ((id & 15) * 4);
            RequestContext { id }
        }
    }
    impl Drop for RequestContext {
        fn drop(&mut self) {
            if w().ctx_dropped.has(self.id) { w().ctx_twice = true; }
            w().ctx_dropped.put(self.id, true);
            if !w().locked.has(ctx_iso(self.id)) { w().ctx_unlocked.put(self.id, true); }
        }
    }
}
pub mod execution_context {
    use super::*;
    use super::owc::*;
    use super::request_context::RequestContext;
    use super::async_waiter::AsyncWaiter;
    use vk::model::text::String;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub struct ExecutionContext {
        isolate: *mut v8::OwnedIsolate,
        pub lmi_ptr: *mut LockerManagedIsolate,
        pub platform: &'static v8::SharedRef<v8::Platform>,
        pub limits: RuntimeLimits,
        pub memory_limit_hit: Arc<AtomicBool>,
        pub request: RequestContext,
        pub async_waiter: Option<Arc<AsyncWaiter>>,
    }
    /// the isolate pointer that belongs to an isolate
    pub fn owned(l: *mut LockerManagedIsolate) -> *mut v8::OwnedIsolate { unsafe { &raw mut (*l).isolate.i as *mut v8::OwnedIsolate } }
    fn iso(l: *mut LockerManagedIsolate) -> usize { unsafe { (*l).isolate.i.id } }
    fn flag(l: *mut LockerManagedIsolate) -> *const AtomicBool { unsafe { Arc::as_ptr(&(*l).memory_limit_hit) } }
    impl ExecutionContext {
        pub fn new_with_pooled_isolate(isolate: &mut v8::Isolate, lmi_ptr: *mut LockerManagedIsolate, use_snapshot: bool, platform: &'static v8::SharedRef<v8::Platform>,
            limits: RuntimeLimits, memory_limit_hit: Arc<AtomicBool>, script: Script, ops: OperationsHandle) -> Result<Self, TerminationReason> {
            let k = isolate.id;
            ensures!("P02.fresh_locked: a fresh context is made under its isolate's lock", k == iso(lmi_ptr) && w().locked.has(k));
            ensures!("P02.fresh_isolate: with the isolate's limits, snapshot and memory flag", limits.id == unsafe { (*lmi_ptr).limits.id } && use_snapshot == unsafe { (*lmi_ptr).use_snapshot } && Arc::as_ptr(&memory_limit_hit) == flag(lmi_ptr));
            w().created += 1;
            w().script = script.id;
            w().ops = ops.id;
            w().limits = limits.id;
            let bad = any_bool();
            w().create_ok = !bad;
            if bad {
                let k = any_u32();
                w().exec_err = Some(k.min(8));
                return Err(TerminationReason::vp_of(k));
            }
            let request = RequestContext::vp_new(k);
            w().ctx_ready.put(request.id, true);
            Ok(ExecutionContext { isolate: owned(lmi_ptr), lmi_ptr, platform, limits, memory_limit_hit, request, async_waiter: None })
        }
        pub fn from_cached(isolate: *mut v8::OwnedIsolate, lmi_ptr: *mut LockerManagedIsolate, platform: &'static v8::SharedRef<v8::Platform>, limits: RuntimeLimits,
            memory_limit_hit: Arc<AtomicBool>, request: RequestContext, async_waiter: Option<Arc<AsyncWaiter>>) -> Self {
            ensures!("P02.warm_isolate: a cached context is run on the isolate it belongs to", ctx_iso(request.id) == iso(lmi_ptr) && isolate == owned(lmi_ptr));
            ensures!("P02.warm_limits: with its isolate's limits and memory flag", limits.id == unsafe { (*lmi_ptr).limits.id } && Arc::as_ptr(&memory_limit_hit) == flag(lmi_ptr));
            w().cached_from += 1;
            w().ctx_ready.put(request.id, false);
            ExecutionContext { isolate, lmi_ptr, platform, limits, memory_limit_hit, request, async_waiter }
        }
        pub fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) { (self.request, self.isolate) }
        /// takes the lock itself
        pub fn reset(&mut self) -> Result<(), String> {
            ensures!("P02.reset_unlocked: the lock is free when the context is reset", !w().locked.has(iso(self.lmi_ptr)));
            w().resets += 1;
            let ok = any_bool();
            w().reset_ok = ok;
            if ok { w().ctx_ready.put(self.request.id, true); Ok(()) } else { Err(String::new()) }
        }
        pub fn exec(&mut self, task: Event) -> Exec<'_> { Exec { ec: self, task: task.id, polls: 0 } }
        pub fn drain_waituntil(&mut self) -> Drain<'_> { Drain { ec: self, polls: 0 } }
    }
    pub struct Exec<'a> { ec: &'a mut ExecutionContext, task: u32, polls: u32 }
    impl std::future::Future for Exec<'_> {
        type Output = Result<(), TerminationReason>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            if self.polls == 0 {
                let l = self.ec.lmi_ptr;
                ensures!("P02.exec_ready: user code runs in a context that is fresh or has been reset", w().ctx_ready.has(self.ec.request.id));
                ensures!("P02.exec_unlocked: the lock is free when the execution starts", !w().locked.has(iso(l)));
                ensures!("P02.exec_flag: the memory flag of an earlier request is cleared", !self.ec.memory_limit_hit.load(Ordering::SeqCst));
                w().exec_waiter = self.ec.async_waiter.as_ref().map_or(0, |a| a.id);
                w().exec_iso = iso(l);
                w().ctx_ready.put(self.ec.request.id, false);
                w().execs += 1;
                w().exec_ctx = self.ec.request.id;
                w().exec_task = self.task;
            }
            self.polls += 1;
            if w().may_pend && self.polls == 1 { w().pend += 1; return Poll::Pending; }
            if any_bool() { self.ec.memory_limit_hit.store(true, Ordering::SeqCst); }
            w().exec_done = true;
            if any_bool() { w().exec_err = None; Poll::Ready(Ok(())) } else { let k = any_u32(); w().exec_err = Some(k.min(8)); Poll::Ready(Err(TerminationReason::vp_of(k))) }
        }
    }
    pub struct Drain<'a> { ec: &'a mut ExecutionContext, polls: u32 }
    impl std::future::Future for Drain<'_> {
        type Output = Result<(), TerminationReason>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            if self.polls == 0 {
                w().drains += 1;
                ensures!("P02.drain_order: background work is drained after an execution that succeeded, in the same context", w().exec_done && w().exec_err.is_none() && w().exec_ctx == self.ec.request.id);
            }
            self.polls += 1;
            if w().may_pend && self.polls == 1 { w().pend += 1; return Poll::Pending; }
            w().drain_done = true;
            let ok = any_bool();
            w().drain_ok = ok;
            if ok { Poll::Ready(Ok(())) } else { Poll::Ready(Err(TerminationReason::vp_of(any_u32()))) }
        }
    }
}
pub mod tokio {
    pub mod sync {
        use std::cell::{Cell, UnsafeCell};
        use std::ops::{Deref, DerefMut};
        /// the lock is had at once when it is free (or, like any tokio future, after one more poll)
        pub struct Mutex<T> { magic: u64, held: Cell<bool>, v: UnsafeCell<T> }
        unsafe impl<T> Sync for Mutex<T> {}
        unsafe impl<T> Send for Mutex<T> {}
        pub struct MutexGuard<'a, T> { m: &'a Mutex<T> }
        pub struct Lock<'a, T> { m: &'a Mutex<T>, polled: bool }
        impl<T> Mutex<T> {
            pub const fn new(t: T) -> Self { Mutex { magic: 0x70C, held: Cell::new(false), v: UnsafeCell::new(t) } }
            pub fn lock(&self) -> Lock<'_, T> { Lock { m: self, polled: false } }
            pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, ()> { if self.held.get() { Err(()) } else { self.held.set(true); Ok(MutexGuard { m: self }) } }
            pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
            pub fn into_inner(self) -> T { self.v.into_inner() }
            pub fn vp_peek(&self) -> &mut T { unsafe { &mut *self.v.get() } }
        }
        impl<'a, T> std::future::Future for Lock<'a, T> {
            type Output = MutexGuard<'a, T>;
            fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
                assert!(!self.m.held.get(), "P03.deadlock: an isolate's bookkeeping is locked while the same flow holds it");
                if crate::env::w().mutex_pends && !self.polled { self.polled = true; crate::env::w().pend += 1; return std::task::Poll::Pending; }
                self.m.held.set(true);
                std::task::Poll::Ready(MutexGuard { m: self.m })
            }
        }
        impl<T> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.m.held.set(false); } }
        impl<T> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
        impl<T> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
    }
}

/// a future that is ready at once
pub trait VpNow: std::future::Future + Sized {
    fn vp_now(self) -> Self::Output {
        let mut f = std::pin::pin!(self);
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => v, std::task::Poll::Pending => panic!("MODEL: pending in a run without suspensions") }
    }
}
impl<F: std::future::Future> VpNow for F {}
