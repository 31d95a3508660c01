//! What the event loop and the execution entry points call, by contract: each operation records
//! that it happened and checks what it requires; its outcome is unconstrained.
use vk::any::{any_bool, any_u32, any_u64, any_usize};
use vk::{ensures, reach};
use std::marker::PhantomData;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Out { Pending, Exited, Failed }
pub const ISO: u32 = 41; // the request's isolate
pub const CTX: u32 = 42; // its context
pub const CHAN: u32 = 43; // its callback channel
pub const MAX_MS: u64 = 5_000_000;

pub struct W {
    magic: u64,
    // configuration of the run
    pub pooled: bool,
    pub queued: bool,
    // the current poll
    pub my_turn: bool,
    pub term_iso: bool,
    pub term_wall: bool,
    pub term_cpu: bool,
    // what is held
    pub turn: bool,
    pub locked: bool,
    // what happened in this poll
    pub tried: bool,
    pub drains: u32,
    pub last_drain_ok: bool,
    pub drain_err: u32,
    pub exit: bool,
    pub chan_waker: bool,
    pub wall_waker: bool,
    pub polls: u32,
    // the exit check by contract
    pub cond: u8,
    pub grace: Option<u128>,
    // the parts of the exit check
    pub base: bool,
    pub complete: bool,
    pub streams: u32,
    pub stream_id: Option<u64>,
    pub sender: bool,
    pub signals: u32,
    pub signals_done: u32,
    pub slot_was: Option<u64>,
    pub base_calls: u32,
    pub ever_signaled: bool,
    pub clock: u64,
    pub signaled_at: u64,
    // executions
    pub aborted: bool,
    pub handles: u32,
    pub wall_new: u32,
    pub cpu_new: u32,
    pub wall_ms: u64,
    pub cpu_ms: u64,
    pub cpu_some: bool,
    pub wall_live: bool,
    pub cpu_live: bool,
    pub runs: u32,
    pub run_kind: u8,
    pub run_id: u32,
    pub run_err: Option<Text>,
    pub memory: bool,
    pub pumped: u32,
    pub processed: u32,
    pub msg: u32,
    // the channel of the drain
    pub sent: u32,
    pub taken: u32,
    pub closed: bool,
    pub bursts: u32,
    pub next: u32,
    pub pumped_at: u32,
    pub idle_polled: bool,
    // the phases of a fetch request
    pub fetch: bool,
    pub phase: u8,
    pub worked: u32,
    pub init: u32,
    pub body: u8,
    pub pumped_id: Option<u64>,
    pub status: u16,
    pub answer: u32,
    pub sent_id: Option<u32>,
    pub buffer: usize,
    pub fail: Option<Text>,
}
pub static mut WORLD: W = W {
    magic: 0xE02_E02, pooled: false, queued: false, my_turn: false, term_iso: false, term_wall: false, term_cpu: false, turn: false, locked: false,
    tried: false, drains: 0, last_drain_ok: false, drain_err: 0, exit: false, chan_waker: false, wall_waker: false, polls: 0,
    cond: 0, grace: None, base: false, complete: false, streams: 0, stream_id: None, sender: false, signals: 0, signals_done: 0, slot_was: None, base_calls: 0, ever_signaled: false, clock: 0, signaled_at: 0,
    aborted: false, handles: 0, wall_new: 0, cpu_new: 0, wall_ms: 0, cpu_ms: 0, cpu_some: false, wall_live: false, cpu_live: false, runs: 0, run_kind: 0, run_id: 0, run_err: None,
    memory: false, pumped: 0, processed: 0, msg: 0, sent: 0, taken: 0, closed: false, bursts: 0, next: 0, pumped_at: 0, idle_polled: false,
    fetch: false, phase: 0, worked: 0, init: 0, body: 0, pumped_id: None, status: 0, answer: 0, sent_id: None, buffer: 0, fail: None,
};
pub fn w() -> &'static mut W { unsafe { &mut *(&raw mut WORLD) } }

/// may V8 be touched?
pub fn v8_ok() -> bool { !w().pooled || w().locked }

// ---- the task's waker ------------------------------------------------------------------------------
static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| {}, |_| {}, |_| {});
pub fn task_waker(id: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(std::ptr::without_provenance(id), &VT)) } }
pub fn ours(cx: &Context<'_>) -> bool { cx.waker().data() as usize == 7 }

// ---- texts -----------------------------------------------------------------------------------------
/// A text that is passed on; `max` says whether it mentions the iteration limit.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Text { pub id: u32, pub max: bool }
pub const LIT: u32 = 1;
pub const NOT_READY: u32 = 2;
impl Text {
    pub const fn new() -> Self { Text { id: 0, max: false } }
    pub fn contains(&self, p: &str) -> bool { if p == "Max event loop iterations" { self.max } else { any_bool() } }
    pub fn any() -> Self { let id = any_u32(); vk::any::assume(id > 9); Text { id, max: any_bool() } }
}
impl From<&str> for Text { fn from(_: &str) -> Self { Text { id: LIT, max: false } } }
impl std::fmt::Display for Text { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub trait VpText { fn vp_to_string(&self) -> Text; fn vp_to_owned(&self) -> Text { self.vp_to_string() } }
impl VpText for str { fn vp_to_string(&self) -> Text { Text { id: LIT, max: false } } }
impl VpText for Text { fn vp_to_string(&self) -> Text { *self } }

// ---- std ---------------------------------------------------------------------------------------------
pub mod kstd_xl {
    pub use vk::kstd::*;
    pub mod sync { pub use vk::kstd::sync::*; pub use vk::model::slab::Arc; pub mod atomic { pub use ::std::sync::atomic::*; } }
    pub mod rc { pub use vk::model::slab::Arc as Rc; pub use vk::model::slab::Arc; }
    pub mod collections { pub use ::std::collections::*; }
    pub mod future {
        pub use ::std::future::*;
        pub struct PollFn<F>(pub F);
        pub fn poll_fn<T, F: FnMut(&mut ::std::task::Context<'_>) -> ::std::task::Poll<T>>(f: F) -> PollFn<F> { PollFn(f) }
    }
}
/// The outcome of a future that is polled until the harness stops (`pending`: it was left unfinished).
pub trait Outcome: Sized { fn pending() -> Self; fn kind(&self) -> Out; }
impl Outcome for Result<(), Text> {
    fn pending() -> Self { Err(Text { id: NOT_READY, max: false }) }
    fn kind(&self) -> Out { if self.is_ok() { Out::Exited } else { Out::Failed } }
}
impl Outcome for Result<(u16, owc::HttpResponse), Text> {
    fn pending() -> Self { Err(Text { id: NOT_READY, max: false }) }
    fn kind(&self) -> Out { if self.is_ok() { Out::Exited } else { Out::Failed } }
}
pub const POLLS: u32 = 2;
impl<F> kstd_xl::future::PollFn<F> {
    /// polls twice (unless it is ready at once); every poll is checked on its own
    pub fn vp_now<T: Outcome>(mut self) -> T where F: FnMut(&mut Context<'_>) -> Poll<T> {
        let wk = task_waker(7);
        let mut cx = Context::from_waker(&wk);
        before_poll();
        if let Poll::Ready(r) = (self.0)(&mut cx) { after_poll(r.kind()); return r; }
        after_poll(Out::Pending);
        before_poll();
        if let Poll::Ready(r) = (self.0)(&mut cx) { after_poll(r.kind()); return r; }
        after_poll(Out::Pending);
        T::pending()
    }
}
/// between polls anything may have happened
pub fn before_poll() {
    let s = w();
    if s.fetch { return before_step(); }
    s.polls += 1;
    s.my_turn = !s.queued || any_bool();
    s.term_iso = any_bool();
    s.term_wall |= any_bool();
    s.term_cpu |= s.cpu_some && any_bool();
    s.tried = false;
    s.drains = 0;
    s.last_drain_ok = false;
    s.exit = false;
    s.chan_waker = false;
    s.wall_waker = false;
}
pub fn stopped() -> bool { w().term_iso || w().term_wall || w().term_cpu }
/// a poll of one of the short steps of a request: the turn comes in the end (L01), and a poll out of turn
/// changes nothing, so that one of them stands for any number
pub fn before_step() {
    let s = w();
    let waited = s.tried && !s.my_turn;
    s.my_turn = !s.queued || waited || any_bool();
    s.tried = false;
    s.worked = 0;
}
pub fn after_step(k: Out) {
    let s = w();
    ensures!("E03.released: the turn and the V8 lock are given back on every path", !s.turn && !s.locked);
    if !s.my_turn {
        ensures!("E03.wait_turn: out of turn the step does nothing and waits", k == Out::Pending && s.tried && s.worked == 0);
    } else {
        ensures!("E03.step: in turn the step is taken, once", k != Out::Pending && s.worked == 1);
    }
}
/// the obligations on one poll
pub fn after_poll(k: Out) {
    let s = w();
    if s.fetch { return after_step(k); }
    ensures!("E02.released: the turn and the V8 lock are given back on every path", !s.turn && !s.locked);
    if !s.my_turn {
        ensures!("E02.wait_turn: out of turn the poll does nothing and waits", k == Out::Pending && s.tried && s.drains == 0);
        return;
    }
    if stopped() {
        ensures!("E02.stop: a terminated execution fails at once, without running any more callbacks", k == Out::Failed && s.drains == 0);
        return;
    }
    ensures!("E02.work: callbacks are processed in each poll", s.drains >= 1);
    if !s.last_drain_ok {
        ensures!("E02.closed: a lost event loop ends the wait with an error", k == Out::Failed);
        return;
    }
    ensures!("E02.signal: a disconnect is signalled to JS once, when it is seen", s.signals_done == s.signals);
    ensures!("E02.exit: the wait ends successfully exactly when the exit condition holds", (k == Out::Exited) == s.exit && k != Out::Failed);
    if k == Out::Pending {
        ensures!("E02.wake_channel: a waiting request is woken by callbacks", s.chan_waker);
        ensures!("E02.wake_timeout: a waiting request is woken by its wall-clock timeout", s.wall_waker);
    }
}

pub mod owc {
    use super::Text as String;
    use super::Text;
    #[derive(Clone, Debug)]
    pub struct RuntimeLimits { pub max_cpu_time_ms: u64, pub max_wall_clock_time_ms: u64, pub stream_buffer_size: usize, pub heap_initial_mb: usize, pub heap_max_mb: usize }
    impl Default for RuntimeLimits { fn default() -> Self { RuntimeLimits { max_cpu_time_ms: 50, max_wall_clock_time_ms: 30_000, stream_buffer_size: 8, heap_initial_mb: 1, heap_max_mb: 128 } } }
    #[derive(Clone, Debug)]
    pub struct OperationsHandle { pub id: u32 }
    #[derive(Clone)]
    pub struct Script { pub id: u32 }
    #[derive(Clone)]
    pub enum WorkerCode { JavaScript(String) }
    pub struct FetchInit { pub id: u32, pub req: HttpRequest, pub res_tx: super::tokio::sync::oneshot::Sender<HttpResponse> }
    impl FetchInit { pub fn vp(id: u32) -> Self { FetchInit { id, req: HttpRequest { url: Text { id: id.wrapping_add(1), max: false }, method: Method { id: id.wrapping_add(2) }, headers: Headers { id: id.wrapping_add(3) }, body: RequestBody::None }, res_tx: super::tokio::sync::oneshot::Sender(super::PhantomData) } } }
    /// the parts of a request, known by identity
    pub struct HttpRequest { pub url: String, pub method: Method, pub headers: Headers, pub body: RequestBody }
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Method { pub id: u32 }
    impl Method { pub fn as_str(&self) -> Text { Text { id: self.id, max: false } } }
    #[derive(Clone, PartialEq, Debug)]
    pub struct Headers { pub id: u32 }
    #[derive(Debug, PartialEq)]
    pub struct BodyRx { pub id: u32 }
    #[derive(Debug, PartialEq)]
    pub struct BodyBytes { pub id: u32 }
    pub struct TaskInit { pub id: u32 }
    pub enum Event { Fetch(Option<FetchInit>), Task(Option<TaskInit>) }
    #[derive(Debug, Default, PartialEq)]
    pub enum RequestBody { #[default] None, Bytes(BodyBytes), Stream(BodyRx) }
    pub enum ResponseBody { None, Other(u32) }
    pub struct HttpResponse { pub status: u16, pub headers: std::vec::Vec<(String, String)>, pub body: ResponseBody }
    #[derive(Clone, Debug, PartialEq)]
    pub enum TerminationReason { CpuTimeLimit, WallClockTimeout, MemoryLimit, Exception(String), InitializationError(String), Terminated, Aborted, MaxIterationsReached, Other(String) }
}
pub mod v8 {
    use super::*;
    use std::pin::Pin;
    pub struct Platform;
    pub struct SharedRef<T>(pub PhantomData<T>);
    pub struct IsolateHandle { pub iso: u32 }
    impl Clone for IsolateHandle { fn clone(&self) -> Self { IsolateHandle { iso: self.iso } } }
    pub struct Isolate { pub id: u32 }
    pub type OwnedIsolate = Isolate;
    impl Isolate {
        pub fn is_execution_terminating(&self) -> bool { assert!(self.id == ISO); w().term_iso }
        pub fn thread_safe_handle(&self) -> IsolateHandle { w().handles += 1; IsolateHandle { iso: self.id } }
        pub fn terminate_execution(&self) -> bool { true }
        pub fn cancel_terminate_execution(&self) -> bool { true }
    }
    pub struct Locker<'a>(pub PhantomData<&'a ()>);
    impl Drop for Locker<'_> { fn drop(&mut self) { w().locked = false; } }
    pub struct Context;
    pub struct Object;
    pub struct Value;
    pub struct Function;
    pub struct Global<T> { pub id: u32, pub p: PhantomData<T> }
    pub struct Local<'a, T> { pub id: u32, pub p: PhantomData<&'a T> }
    impl<T> Clone for Local<'_, T> { fn clone(&self) -> Self { *self } }
    impl<T> Copy for Local<'_, T> {}
    impl<'a, T> Local<'a, T> {
        pub fn new<S: Scoped>(s: &S, g: &Global<T>) -> Local<'a, T> {
            ensures!("E02.scope: V8 is entered on this request's isolate, under its lock", s.iso() == ISO && v8_ok());
            Local { id: g.id, p: PhantomData }
        }
    }
    impl<'a> Local<'a, Context> { pub fn global<S: Scoped>(&self, _: &S) -> Local<'a, Object> { Local { id: self.id, p: PhantomData } } }
    pub trait Scoped { fn iso(&self) -> u32; fn ctx(&self) -> u32; }
    pub struct HandleScope<'a, C = ()> { iso: u32, p: PhantomData<(&'a (), C)> }
    impl<'a> HandleScope<'a> {
        pub fn new(i: &'a mut Isolate) -> Self {
            ensures!("E02.locked: V8 is entered only under the isolate's lock", i.id == ISO && v8_ok());
            HandleScope { iso: i.id, p: PhantomData }
        }
    }
    impl<'a> HandleScope<'a> { pub fn init(self: Pin<&mut Self>) -> HandleScope<'a> { HandleScope { iso: self.iso, p: PhantomData } } }
    impl<C> Scoped for HandleScope<'_, C> { fn iso(&self) -> u32 { self.iso } fn ctx(&self) -> u32 { 0 } }
    pub struct ContextScope<'s, P> { iso: u32, ctx: u32, p: PhantomData<&'s mut P> }
    impl<'s, P: Scoped> ContextScope<'s, P> {
        pub fn new(s: &'s mut P, c: Local<'_, Context>) -> Self { ContextScope { iso: s.iso(), ctx: c.id, p: PhantomData } }
    }
    impl<P> Scoped for ContextScope<'_, P> { fn iso(&self) -> u32 { self.iso } fn ctx(&self) -> u32 { self.ctx } }
}
use v8::Scoped;
pub static PLATFORM: v8::SharedRef<v8::Platform> = v8::SharedRef(PhantomData);
pub mod gc {
    pub struct JsLock;

}
pub struct LockerManagedIsolate { pub isolate: v8::Isolate }
impl LockerManagedIsolate {
    pub fn lock(&mut self) -> (v8::Locker<'static>, gc::JsLock) {
        ensures!("E02.own_isolate: it is this request's isolate that is locked", self.isolate.id == ISO);
        ensures!("E02.no_relock: the isolate is not locked twice", !w().locked);
        ensures!("E02.turn: with requests sharing the isolate, V8 is locked only in turn", !w().queued || w().turn);
        w().locked = true;
        (v8::Locker(PhantomData), gc::JsLock)
    }
}
pub mod async_waiter {
    use super::*;
    pub struct AsyncWaiter { pub id: u32 }
    impl AsyncWaiter {
        pub fn try_lock(&self, cx: &mut Context<'_>) -> bool {
            ensures!("E02.waker: the poll's own waker is queued", ours(cx));
            ensures!("E02.turn_once: the turn is not taken twice", !w().turn);
            w().tried = true;
            w().turn = w().my_turn;
            w().turn
        }
        pub fn unlock(&self) {
            ensures!("E02.unlock: only a turn that is held is given back", w().turn);
            w().turn = false;
        }
    }
}
pub mod security {
    use super::*;
    pub struct TimeoutGuard { magic: u32 }
    impl TimeoutGuard {
        pub fn vp() -> Self { TimeoutGuard { magic: 5 } }
        pub fn new(h: v8::IsolateHandle, ms: u64) -> Self {
            ensures!("X01.wall_isolate: the wall-clock guard terminates this request's isolate", h.iso == ISO);
            w().wall_new += 1;
            w().wall_ms = ms;
            w().wall_live = true;
            TimeoutGuard { magic: 5 }
        }
        pub fn was_triggered(&self) -> bool { w().term_wall }
        pub fn wake_on_timeout(&self, cx: &Context<'_>) { if ours(cx) { w().wall_waker = true; } }
    }
    impl Drop for TimeoutGuard { fn drop(&mut self) { w().wall_live = false; } }
    pub struct CpuEnforcer { magic: u32 }
    impl CpuEnforcer {
        pub fn vp() -> Self { CpuEnforcer { magic: 6 } }
        pub fn new(h: v8::IsolateHandle, ms: u64) -> Option<Self> {
            ensures!("X01.cpu_isolate: the CPU guard terminates this request's isolate", h.iso == ISO);
            w().cpu_new += 1;
            w().cpu_ms = ms;
            if w().cpu_some { w().cpu_live = true; Some(CpuEnforcer { magic: 6 }) } else { None }
        }
        pub fn was_terminated(&self) -> bool { w().term_cpu }
    }
    impl Drop for CpuEnforcer { fn drop(&mut self) { w().cpu_live = false; } }
}
pub mod tokio {
    pub mod time { pub use crate::kstd_xl::time::{Duration, Instant}; }
    pub mod sync {
        pub struct Notify;
        pub mod mpsc {
            use std::task::{Context, Poll};
            use crate::env::*;
            pub struct UnboundedReceiver<T> { pub id: u32, pub p: std::marker::PhantomData<T> }
            pub struct UnboundedSender<T> { pub id: u32, pub p: std::marker::PhantomData<T> }
            impl UnboundedReceiver<runtime::CallbackMessage> {
                pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<runtime::CallbackMessage>> {
                    ensures!("E01.waker: the poll's own waker is registered", ours(cx));
                    w().idle_polled = false;
                    if w().bursts > 0 && w().taken < w().sent {
                        let k = any_u32();
                        vk::any::assume(k >= 1 && k <= w().sent - w().taken);
                        w().bursts -= 1;
                        if w().bursts == 0 { vk::any::assume(k == w().sent - w().taken); }
                        let id = w().taken;
                        w().taken += k;
                        return Poll::Ready(Some(runtime::CallbackMessage { id, n: k }));
                    }
                    if w().closed { return Poll::Ready(None); }
                    w().idle_polled = true;
                    Poll::Pending
                }
            }
        }
        pub mod oneshot {
            pub struct Sender<T>(pub std::marker::PhantomData<T>);
            pub struct Receiver<T>(pub std::marker::PhantomData<T>);
            pub fn channel<T>() -> (Sender<T>, Receiver<T>) { (Sender(std::marker::PhantomData), Receiver(std::marker::PhantomData)) }
            impl Sender<crate::env::owc::HttpResponse> {
                /// the client may be gone: then the response comes back
                pub fn send(self, r: crate::env::owc::HttpResponse) -> Result<(), crate::env::owc::HttpResponse> {
                    use crate::env::*;
                    let s = w();
                    ensures!("E03.sent_after: the response is sent when it has been read, before its streams are awaited", s.phase == 3 && s.fail.is_none());
                    ensures!("E03.sent_once: the response is sent once", s.sent_id.is_none());
                    let id = match &r.body { owc::ResponseBody::Other(i) => *i, _ => 0 };
                    ensures!("E03.sent_own: the response sent is the one the handler gave, unaltered", id == s.answer && r.status == s.status && r.headers.len() == 0);
                    s.sent_id = Some(id);
                    s.phase = 4;
                    if any_bool() { Ok(()) } else { Err(r) }
                }
            }
        }
    }
}
pub mod tokio_util {
    pub mod sync { pub struct CancellationToken; pub struct DropGuard; }
    pub mod task { pub struct AbortOnDropHandle<T>(pub std::marker::PhantomData<T>); }
}
pub mod runtime {
    use super::*;
    /// `n` messages in a row, the first numbered `id` (receivers treat messages alike, so a run of them is
    /// received, kept and handled as one)
    pub struct CallbackMessage { pub id: u32, pub n: u32 }
    pub fn run_event_loop() {}
    pub mod bindings {}
    pub mod crypto {}
    pub mod streams {}
    pub mod text_encoding {}
    pub mod stream_manager {
        use super::*;
        pub struct StreamManager { pub id: u32 }
        impl StreamManager {
            pub fn pump_request_body(&self, rx: owc::BodyRx) -> u64 {
                ensures!("E03.pump: a streamed request body is pumped into this request's streams, once, before the handler runs", w().phase == 0 && w().pumped_id.is_none() && w().body == 2 && rx.id == w().init && self.id == 3);
                let id = any_u64();
                w().pumped_id = Some(id);
                id
            }
            pub fn has_sender(&self, id: u64) -> bool {
                ensures!("E02.response_stream: it is the response's stream whose client is looked at", w().stream_id == Some(id));
                w().sender
            }
        }
    }
    /// the parts of a `Runtime` the worker's event loop uses
    pub struct Runtime {
        pub isolate: v8::Isolate,
        pub context: v8::Global<v8::Context>,
        pub stream_manager: crate::kstd_xl::sync::Arc<stream_manager::StreamManager>,
        pub memory_limit_hit: crate::kstd_xl::sync::Arc<std::sync::atomic::AtomicBool>,
        pub limits: owc::RuntimeLimits,
        pub callback_rx: tokio::sync::mpsc::UnboundedReceiver<CallbackMessage>,
        pub fetch_response_tx: crate::kstd_xl::rc::Rc<std::cell::RefCell<Option<tokio::sync::oneshot::Sender<Text>>>>,
    }
    impl event_loop::EventLoopRuntime for Runtime {
        fn callback_rx_mut(&mut self) -> &mut tokio::sync::mpsc::UnboundedReceiver<CallbackMessage> { &mut self.callback_rx }
        fn process_callback(&mut self, _: CallbackMessage) {}
        fn pump_and_checkpoint(&mut self) {}
    }
}
pub mod request_context {
    use super::*;
    pub struct RequestContext {
        pub context: v8::Global<v8::Context>,
        pub callback_rx: tokio::sync::mpsc::UnboundedReceiver<runtime::CallbackMessage>,
        pub stream_manager: crate::kstd_xl::sync::Arc<runtime::stream_manager::StreamManager>,
        pub aborted: crate::kstd_xl::sync::Arc<std::sync::atomic::AtomicBool>,
        pub fetch_response_tx: crate::kstd_xl::rc::Rc<std::cell::RefCell<Option<tokio::sync::oneshot::Sender<Text>>>>,
    }
    impl RequestContext {
        pub fn vp() -> Self {
            RequestContext {
                context: v8::Global { id: CTX, p: PhantomData },
                callback_rx: tokio::sync::mpsc::UnboundedReceiver { id: CHAN, p: PhantomData },
                stream_manager: crate::kstd_xl::sync::Arc::new(runtime::stream_manager::StreamManager { id: 3 }),
                aborted: crate::kstd_xl::sync::Arc::new(std::sync::atomic::AtomicBool::new(w().aborted)),
                fetch_response_tx: crate::kstd_xl::rc::Rc::new(std::cell::RefCell::new(None)),
            }
        }
    }
}
pub mod event_loop {
    use super::*;
    use runtime::CallbackMessage;
    pub trait EventLoopRuntime {
        fn callback_rx_mut(&mut self) -> &mut tokio::sync::mpsc::UnboundedReceiver<CallbackMessage>;
        fn process_callback(&mut self, msg: CallbackMessage);
        fn pump_and_checkpoint(&mut self);
    }
    /// by contract (E01): all messages there are processed; on success the poll's waker is registered
    /// with the channel
    pub fn drain_and_process<R: EventLoopRuntime>(cx: &mut Context<'_>, runtime: &mut R, _pending: &mut Vec<CallbackMessage>) -> Result<usize, Text> {
        ensures!("E02.drain_own: it is this request's channel that is drained", runtime.callback_rx_mut().id == CHAN);
        ensures!("E02.drain_locked: callbacks run only under the V8 lock and in turn", v8_ok() && (!w().queued || w().turn));
        ensures!("E02.drain_live: no callback runs once the execution is terminated", !stopped());
        ensures!("E02.round: the exit condition is evaluated between rounds, and ends the loop", !w().exit && (w().drains == 0 || w().last_drain_ok));
        w().drains += 1;
        if any_bool() {
            w().last_drain_ok = false;
            return Err(Text::any());
        }
        w().last_drain_ok = true;
        if ours(cx) { w().chan_waker = true; }
        ensures!("E02.signal: a disconnect is signalled to JS once, when it is seen", w().signals_done == w().signals);
        execution_helpers::new_round();
        Ok(any_usize())
    }
}
pub mod execution_helpers {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum EventLoopExit { ResponseReady, HandlerComplete, StreamsComplete, FullyComplete }
    #[derive(Clone)]
    pub struct AbortConfig { pub grace_period: tokio::time::Duration }
    impl AbortConfig { pub fn new(ms: u64) -> Self { AbortConfig { grace_period: tokio::time::Duration::from_millis(ms) } } }
    impl Default for AbortConfig { fn default() -> Self { Self::new(100) } }
    pub fn cond(c: EventLoopExit) -> u8 { match c { EventLoopExit::ResponseReady => 0, EventLoopExit::HandlerComplete => 1, EventLoopExit::StreamsComplete => 2, EventLoopExit::FullyComplete => 3 } }
    pub fn of_cond(c: u8) -> EventLoopExit { match c { 0 => EventLoopExit::ResponseReady, 1 => EventLoopExit::HandlerComplete, 2 => EventLoopExit::StreamsComplete, _ => EventLoopExit::FullyComplete } }
    fn here<P>(s: &v8::ContextScope<P>) {
        ensures!("E02.context: the conditions are read in this request's context, under the lock", s.iso() == ISO && s.ctx() == CTX && v8_ok());
    }
    pub fn check_exit_condition<P>(s: &mut v8::ContextScope<P>, g: v8::Local<v8::Object>, c: EventLoopExit) -> bool {
        here(s);
        ensures!("E02.condition: it is the phase's own exit condition that is evaluated", cond(c) == w().cond && g.id == CTX);
        w().base_calls += 1;
        w().base
    }
    /// time passes; what the round must come to
    pub fn new_round() {
        let s = w();
        s.base = any_bool(); s.complete = any_bool(); s.streams = any_u32();
        s.stream_id = if any_bool() { Some(any_u64()) } else { None };
        s.sender = any_bool();
        round_exit();
    }
    pub fn round_exit() {
        let s = w();
        let t = vk::model::time::clock();
        let t2 = any_u64();
        vk::any::assume(t2 >= t && t2 < 1 << 60);
        vk::model::time::set_clock(t2);
        s.clock = t2;
        let armed = s.grace.is_some() && s.streams > 0 && !s.ever_signaled && s.stream_id.is_some() && !s.sender;
        if armed { s.ever_signaled = true; s.signaled_at = t2; s.signals += 1; }
        let over = match s.grace { Some(g) => s.ever_signaled && ((t2 - s.signaled_at) as u128) > g, None => false };
        s.exit = s.base || (s.grace.is_some() && s.complete && over);
    }
    pub fn get_completion_state<P>(s: &mut v8::ContextScope<P>, g: v8::Local<v8::Object>) -> (bool, u32) { here(s); assert!(g.id == CTX); (w().complete, w().streams) }
    pub fn get_response_stream_id<P>(s: &mut v8::ContextScope<P>, g: v8::Local<v8::Object>) -> Option<u64> { here(s); assert!(g.id == CTX); w().stream_id }
    pub fn signal_client_disconnect<P>(s: &mut v8::ContextScope<P>) { here(s); w().signals_done += 1; }
    fn step<P>(s: &v8::ContextScope<P>) {
        ensures!("E03.context: V8 is used in this request's context, under the lock and in turn", s.iso() == ISO && s.ctx() == CTX && v8_ok() && (!w().queued || w().turn));
        w().worked += 1;
    }
    /// by contract: makes the Request and calls the handler; fails when it was terminated
    pub fn trigger_fetch_handler<P>(s: &mut v8::ContextScope<P>, url: &Text, method: Text, headers: &owc::Headers, body: &mut owc::RequestBody, stream: Option<u64>) -> Result<(), Text> {
        step(s);
        let g = w();
        ensures!("E03.trigger: the handler is called once, first", g.phase == 0);
        ensures!("E03.request: with this request's address, method, headers and body", url.id == g.init + 1 && method.id == g.init + 2 && headers.id == g.init + 3 && (g.body != 1 || *body == owc::RequestBody::Bytes(owc::BodyBytes { id: g.init })));
        ensures!("E03.stream: a streamed body is reached by its own stream, any other by none", stream == g.pumped_id && stream.is_some() == (g.body == 2));
        if let owc::RequestBody::Bytes(_) = body { let b = std::mem::take(body); std::mem::forget(b); }
        g.phase = 1;
        may_fail()
    }
    pub fn may_fail() -> Result<(), Text> {
        if any_bool() { let e = Text::any(); w().fail = Some(e); return Err(e); }
        Ok(())
    }
    /// by contract: reads the response the handler left
    pub fn read_response_object<P>(s: &mut v8::ContextScope<P>, m: &crate::kstd_xl::sync::Arc<runtime::stream_manager::StreamManager>, buffer: usize) -> Result<(u16, owc::HttpResponse), Text> {
        step(s);
        let g = w();
        ensures!("E03.read: the response is read once, when it is ready", g.phase == 2 && g.fail.is_none());
        ensures!("E03.read_streams: its stream is this request's, with the configured bound", m.id == 3 && buffer == g.buffer);
        g.phase = 3;
        may_fail()?;
        Ok((g.status, owc::HttpResponse { status: g.status, headers: vec![], body: owc::ResponseBody::Other(g.answer) }))
    }
}

// ---- executions ------------------------------------------------------------------------------------
/// the result of a callee given by contract
pub struct Now<T>(pub T);
impl<T> Now<T> { pub fn vp_now(self) -> T { self.0 } }
/// the request's own code runs: anything may happen to it
pub fn run(kind: u8, id: u32, limits: &owc::RuntimeLimits, memory: &std::sync::atomic::AtomicBool, aborted: &std::sync::atomic::AtomicBool, cpu: &Option<security::CpuEnforcer>) -> Result<(), Text> {
    use std::sync::atomic::Ordering::SeqCst;
    let s = w();
    ensures!("X01.aborted_first: nothing runs once the request was aborted", !s.aborted);
    ensures!("X01.guarded: code runs under a wall-clock guard and, where there are any, a CPU guard", s.wall_live && s.wall_new == 1 && s.cpu_new == 1 && s.cpu_live == s.cpu_some && cpu.is_some() == s.cpu_some);
    ensures!("X01.limits: armed with the isolate's limits", s.wall_ms == limits.max_wall_clock_time_ms && s.cpu_ms == limits.max_cpu_time_ms);
    s.runs += 1;
    s.run_kind = kind;
    s.run_id = id;
    s.term_wall = any_bool();
    s.term_cpu = s.cpu_some && any_bool();
    s.memory = s.memory || any_bool();
    memory.store(s.memory, SeqCst);
    s.aborted = any_bool();
    aborted.store(s.aborted, SeqCst);
    s.run_err = if any_bool() { Some(Text::any()) } else { None };
    match s.run_err { None => Ok(()), Some(e) => Err(e) }
}
/// what the caller of the execution must be told
pub fn verdict() -> Result<(), owc::TerminationReason> {
    use owc::TerminationReason::*;
    let s = w();
    if s.term_cpu { return Err(CpuTimeLimit); }
    if s.term_wall { return Err(WallClockTimeout); }
    if s.memory { return Err(MemoryLimit); }
    if s.aborted { return Err(Aborted); }
    match s.run_err { None => Ok(()), Some(e) => Err(if e.max { MaxIterationsReached } else { Exception(e) }) }
}
pub fn same(a: &Result<(), owc::TerminationReason>, b: &Result<(), owc::TerminationReason>) -> bool { a == b }
pub fn finished(r: &Result<(), owc::TerminationReason>, kind: u8, id: u32, aborted: bool, given: bool) {
    use owc::TerminationReason::*;
    let s = w();
    ensures!("X01.disarmed: no guard outlives the execution", !s.wall_live && !s.cpu_live);
    if aborted {
        ensures!("X01.aborted: an aborted request is refused as aborted", *r == Err(Aborted) && s.runs == 0);
    } else if !given {
        ensures!("X01.consumed: an event without its request is an error", matches!(r, Err(Other(_))) && s.runs == 0);
    } else {
        ensures!("X01.run: the event given is run, once", s.runs == 1 && s.run_kind == kind && s.run_id == id);
        ensures!("X01.reason: CPU limit, then wall clock, then memory, then abort, then the error itself; success only without any of them", *r == verdict());
        reach!("X01.ok", r.is_ok());
        reach!("X01.memory", *r == Err(MemoryLimit));
        reach!("X01.exception", matches!(r, Err(Exception(_))));
    }
}
pub fn start() {
    let s = w();
    s.aborted = any_bool();
    s.memory = any_bool();
    s.cpu_some = any_bool();
}

/// the phases of a fetch request: what awaiting the event loop is
pub fn phase_wait(e: execution_helpers::EventLoopExit, abort: bool, last: u8, own_guards: bool) -> Result<(), Text> {
    use execution_helpers::cond;
    let s = w();
    ensures!("E03.guards: the event loop is awaited under the execution's own guards", own_guards);
    ensures!("E03.failed: a request that failed goes no further", s.fail.is_none());
    ensures!("E03.unlocked: the event loop is awaited without lock and turn", !s.turn && !s.locked);
    if s.phase == 1 {
        ensures!("E03.ready: after the handler was called its response is awaited, whoever listens", cond(e) == 0 && !abort);
        s.phase = 2;
    } else {
        ensures!("E03.order: the streams are awaited once the response was sent", s.phase == 4);
        ensures!("E03.streams: then what is left of the request is awaited, minding a client that leaves", cond(e) == last && abort);
        s.phase = 5;
    }
    execution_helpers::may_fail()
}
pub fn fetch_start(pooled: bool) -> owc::FetchInit {
    let s = w();
    s.fetch = true;
    s.pooled = pooled;
    s.queued = pooled && any_bool();
    s.init = any_u32();
    vk::any::assume(s.init > 9 && s.init < 1 << 30);
    s.body = if any_bool() { 0 } else if any_bool() { 1 } else { 2 };
    s.status = vk::any::any_u16();
    s.answer = any_u32();
    let mut f = owc::FetchInit::vp(s.init);
    f.req.body = match s.body { 0 => owc::RequestBody::None, 1 => owc::RequestBody::Bytes(owc::BodyBytes { id: s.init }), _ => owc::RequestBody::Stream(owc::BodyRx { id: s.init }) };
    f
}
pub fn fetch_end(r: &Result<owc::HttpResponse, Text>) {
    let s = w();
    ensures!("E03.released: the turn and the V8 lock are given back on every path", !s.turn && !s.locked);
    match s.fail {
        Some(e) => ensures!("E03.error: a failure is reported as it is", matches!(r, Err(x) if *x == e)),
        None => {
            ensures!("E03.done: a request succeeds when every phase was gone through", s.phase == 5 && s.sent_id == Some(s.answer));
            ensures!("E03.status: the status reported is the response's", matches!(r, Ok(h) if h.status == s.status));
        }
    }
    reach!("E03.ok", r.is_ok());
    reach!("E03.no_response", r.is_err() && s.sent_id.is_none());
    reach!("E03.late", r.is_err() && s.sent_id.is_some());
}

/// a sequence of runs of messages
pub mod seq {
    use super::runtime::CallbackMessage as M;
    pub const CAP: usize = 4;
    pub struct Vec<T> { m: [(u32, u32); CAP], a: usize, b: usize, p: std::marker::PhantomData<T> }
    impl Vec<M> {
        pub fn new() -> Self { Vec { m: [(0, 0); CAP], a: 0, b: 0, p: std::marker::PhantomData } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        pub fn push(&mut self, m: M) { assert!(self.b < CAP, "MODEL: number of runs"); self.m[self.b] = (m.id, m.n); self.b += 1; std::mem::forget(m); }
        pub fn len(&self) -> usize { let mut n = 0; for i in 0..CAP { if i >= self.a && i < self.b { n += self.m[i].1 as usize; } } n }
        pub fn is_empty(&self) -> bool { self.a == self.b }
        pub fn clear(&mut self) { self.a = self.b; }
        pub fn reserve(&mut self, _: usize) {}
        pub fn capacity(&self) -> usize { 16 }
        pub fn pop(&mut self) -> Option<M> { if self.a == self.b { None } else { self.b -= 1; let (id, n) = self.m[self.b]; Some(M { id: id + n - 1, n: 1 }) } }
        pub fn drain<R>(&mut self, _: R) -> Iter { let r = Iter { m: self.m, a: self.a, b: self.b }; self.a = 0; self.b = 0; r }
        pub fn append(&mut self, o: &mut Self) { for m in o.drain(..) { self.push(m); } }
        pub fn extend<I: Iterator<Item = M>>(&mut self, i: I) { for m in i { self.push(m); } }
    }
    impl Default for Vec<M> { fn default() -> Self { Self::new() } }
    pub struct Iter { m: [(u32, u32); CAP], a: usize, b: usize }
    impl Iterator for Iter { type Item = M; fn next(&mut self) -> Option<M> { if self.a == self.b { None } else { let (id, n) = self.m[self.a]; self.a += 1; Some(M { id, n }) } } }
    impl DoubleEndedIterator for Iter { fn next_back(&mut self) -> Option<M> { if self.a == self.b { None } else { self.b -= 1; let (id, n) = self.m[self.b]; Some(M { id: id + n - 1, n: 1 }) } } }
    impl IntoIterator for Vec<M> { type Item = M; type IntoIter = Iter; fn into_iter(mut self) -> Iter { self.drain(..) } }
}
