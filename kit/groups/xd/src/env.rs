//! What the delivery of results calls, by contract.
use vk::any::*;
use vk::{ensures, reach, requires};
use std::marker::PhantomData;
use crate::js::{self, Val, heap};
pub use vk::model::string::String as Text;

pub const ISO: u32 = 41; // the request's isolate
pub const CTX: u32 = 42; // its context (and global object)
pub const CHAN: u32 = 43; // its callback channel

pub struct W {
    magic: u32,
    pub pooled: bool,
    pub queued: bool,
    pub locked: bool,
    pub turn: bool,
    /// functions registered while a function runs
    pub registers: bool,
    pub new_id: u64,
    pub maps: *const Maps,
    /// filled objects: by which handler, which one, from what
    pub filled: u32,
    pub fill_kind: u8,
    pub fill_obj: u32,
    pub fill_id: u32,
    pub fill_stream: u64,
    pub throws: bool,
    /// the channel
    pub left: u32,
    pub recvs: u32,
    pub last: u8,
    /// what a called function gives back, if that matters
    pub ret: Option<Val>,
    pub ret_none: bool,
    pub made: bool,
}
pub static mut WORLD: W = W { magic: 0xD01, pooled: false, queued: false, locked: false, turn: false, registers: false, new_id: 0, maps: std::ptr::null(), filled: 0, fill_kind: 0, fill_obj: 0, fill_id: 0, fill_stream: 0, throws: false, left: 0, recvs: 0, last: 0, ret: None, ret_none: false, made: false };
pub fn w() -> &'static mut W { unsafe { &mut *(&raw mut WORLD) } }
pub fn v8_ok() -> bool { !w().pooled || w().locked }

// ---- std ---------------------------------------------------------------------------------------
pub mod kstd_xd {
    pub use vk::kstd::*;
    pub mod sync { pub use vk::kstd::sync::*; pub use vk::model::slab::Arc; pub mod atomic { pub use ::std::sync::atomic::*; } }
    pub mod rc { pub use vk::model::slab::Arc as Rc; pub use vk::model::slab::Arc; }
    pub mod collections { pub use ::std::collections::*; pub use crate::env::HashMap; }
    pub mod future {
        pub use ::std::future::*;
        pub struct PollFn<F>(pub F);
        pub fn poll_fn<T, F: FnMut(&mut ::std::task::Context<'_>) -> ::std::task::Poll<T>>(f: F) -> PollFn<F> { PollFn(f) }
    }
}
/// A map of which a few entries are known (the operations under contract touch no others).
pub const NE: usize = 3;
pub struct HashMap<K, V> { magic: u32, pub on: [bool; NE], pub k: [K; NE], pub v: [V; NE] }
impl<K: Copy + Eq + Default, V: Copy + Default> HashMap<K, V> {
    pub fn new() -> Self { HashMap { magic: 0xAA, on: [false; NE], k: [K::default(); NE], v: [V::default(); NE] } }
    fn pos(&self, k: &K) -> usize { for i in 0..NE { if self.on[i] && self.k[i] == *k { return i; } } NE }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        for i in 0..NE { if self.on[i] && self.k[i] == k { let o = self.v[i]; self.v[i] = v; return Some(o); } }
        for i in 0..NE { if !self.on[i] { self.on[i] = true; self.k[i] = k; self.v[i] = v; return None; } }
        panic!("MODEL: too many entries")
    }
    /// a new key
    pub fn put2(&mut self, k: K, v: V) { self.on[2] = true; self.k[2] = k; self.v[2] = v; }
    pub fn get(&self, k: &K) -> Option<&V> { for i in 0..NE { if self.on[i] && self.k[i] == *k { return Some(&self.v[i]); } } None }
    pub fn contains_key(&self, k: &K) -> bool { self.get(k).is_some() }
    pub fn remove(&mut self, k: &K) -> Option<V> { let mut r = None; for i in 0..NE { if self.on[i] && self.k[i] == *k { self.on[i] = false; r = Some(self.v[i]); } } r }
    pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> { self.remove(k).map(|v| (*k, v)) }
    pub fn len(&self) -> usize { let mut n = 0; for i in 0..NE { if self.on[i] { n += 1; } } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&mut self) { self.on = [false; NE]; }
}
/// every entry, once
pub struct Entries<'a, K, V> { m: &'a HashMap<K, V>, i: usize }
impl<'a, K, V> Iterator for Entries<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<(&'a K, &'a V)> { while self.i < NE { let i = self.i; self.i += 1; if self.m.on[i] { return Some((&self.m.k[i], &self.m.v[i])); } } None } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Entries<'a, K, V>; fn into_iter(self) -> Entries<'a, K, V> { Entries { m: self, i: 0 } } }
impl<K, V> HashMap<K, V> { pub fn iter(&self) -> Entries<'_, K, V> { Entries { m: self, i: 0 } } pub fn vp(on: [bool; NE], k: [K; NE], v: [V; NE]) -> Self { HashMap { magic: 0xAA, on, k, v } } }
impl<K: Copy + Eq + Default, V: Copy + Default> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
use std::cell::RefCell;
pub type Cb = kstd_xd::rc::Rc<RefCell<HashMap<u64, js::Global<js::Function>>>>;
pub struct Maps { pub resolve: Cb, pub reject: Cb, pub stream: Cb, pub ws: Cb }
impl Clone for Maps { fn clone(&self) -> Self { Maps { resolve: self.resolve.clone(), reject: self.reject.clone(), stream: self.stream.clone(), ws: self.ws.clone() } } }

/// The callback message's own number, another one, one that JS registers while it runs.
pub struct Ids { pub k: u64, pub o: u64, pub n: u64 }
/// functions by map and owner
pub const F_RES: u32 = 10; pub const F_REJ: u32 = 20; pub const F_STR: u32 = 30; pub const F_WS: u32 = 40; pub const TIMER: u32 = 50;
pub fn map_of(ids: &Ids, base: u32) -> (Cb, bool, bool) {
    let (a, b) = (any_bool(), any_bool());
    let m = HashMap { magic: 0xAA, on: [a, b, false], k: [ids.k, ids.o, 0], v: [js::Global { id: base + 1, p: PhantomData }, js::Global { id: base + 2, p: PhantomData }, js::Global { id: 0, p: PhantomData }] };
    (kstd_xd::rc::Rc::new(RefCell::new(m)), a, b)
}
pub fn entry(m: &Cb, k: u64) -> u32 { match m.borrow().get(&k) { Some(g) => g.id, None => 0 } }
/// JavaScript runs: it may start operations of its own, which register callbacks
pub fn js_runs() {
    let s = w();
    if s.maps.is_null() { return; }
    let m = unsafe { &*s.maps };
    ensures!("D01.reentrant: no callback table is in use while JavaScript runs (its natives use them)", m.resolve.try_borrow_mut().is_ok() && m.reject.try_borrow_mut().is_ok() && m.stream.try_borrow_mut().is_ok() && m.ws.try_borrow_mut().is_ok());
    if s.registers {
        s.registers = false;
        m.resolve.borrow_mut().put2(s.new_id, js::Global { id: 13, p: PhantomData });
        m.reject.borrow_mut().put2(s.new_id, js::Global { id: 23, p: PhantomData });
    }
}
pub fn called(_f: u32) -> Option<Val> { js_runs(); if w().ret_none { return None; } if w().ret.is_some() { return w().ret; } if any_bool() { None } else { Some(js::UNDEFINED) } }
pub fn constructed() -> Option<Val> { if w().made { return Some(js::vobj(js::OBJ, 99)); } if any_bool() { None } else { Some(js::vobj(js::OBJ, 99)) } }

// ---- dependencies ------------------------------------------------------------------------------
pub mod owc {
    use super::Text as String;
    #[derive(Clone, Debug)]
    pub struct RuntimeLimits { pub max_cpu_time_ms: u64, pub max_wall_clock_time_ms: u64, pub stream_buffer_size: usize, pub heap_initial_mb: usize, pub heap_max_mb: usize }
    impl Default for RuntimeLimits { fn default() -> Self { RuntimeLimits { max_cpu_time_ms: 50, max_wall_clock_time_ms: 30_000, stream_buffer_size: 8, heap_initial_mb: 1, heap_max_mb: 128 } } }
    #[derive(Clone, Debug)]
    pub struct OperationsHandle { pub id: u32 }
    pub struct Script { pub id: u32 }
    pub enum WorkerCode { JavaScript(String) }
    pub struct FetchInit { pub id: u32 }
    pub struct TaskInit { pub id: u32 }
    pub enum Event { Fetch(Option<FetchInit>), Task(Option<TaskInit>) }
    #[derive(Debug, Default)]
    pub enum RequestBody { #[default] None, Bytes(crate::js::Bin), Stream(u32) }
    pub enum ResponseBody { None, Other, Bytes(crate::js::Bin), Stream(crate::env::eh_sm::BodyRx) }
    pub struct HttpResponse { pub status: u16, pub headers: std::vec::Vec<(String, String)>, pub body: ResponseBody }
    #[derive(Clone, Debug, PartialEq)]
    pub enum TerminationReason { Other(String) }
    pub type WebSocketId = u64;
    pub struct HttpResponseMeta { pub id: u32 }
    pub enum StorageResult { Error(String), Other(u32) }
    pub enum KvResult { Error(String), Other(u32) }
    pub enum DatabaseResult { Error(String), Other(u32) }
    pub enum WebSocketIncoming { Text(String), Binary(crate::js::Bin), Closed { code: u16, reason: String }, Error(String) }
}
pub static PLATFORM: js::SharedRef<js::Platform> = js::SharedRef(PhantomData);
pub mod gc { pub struct JsLock; }
pub struct LockerManagedIsolate { pub isolate: js::Isolate }
pub mod async_waiter { pub struct AsyncWaiter { pub id: u32 } }
pub mod security {
    pub struct TimeoutGuard; pub struct CpuEnforcer; pub struct HeapLimitState { pub magic: u32 } pub struct CustomAllocator;
    pub fn install_heap_limit_callback() {}
}
pub mod tokio {
    pub mod time { pub use crate::env::kstd_xd::time::{Duration, Instant}; }
    pub mod sync {
        #[derive(Default)]
        pub struct Notify;
        impl Notify { pub fn new() -> Self { Notify } pub fn notify_one(&self) {} }
        pub mod mpsc {
            use crate::env::*;
            pub use crate::env::eh_sm::channel;
            pub struct UnboundedReceiver<T> { pub id: u32, pub p: PhantomData<T> }
            pub struct UnboundedSender<T> { pub id: u32, pub p: PhantomData<T> }
            impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { UnboundedSender { id: self.id, p: PhantomData } } }
            impl<T> UnboundedSender<T> { pub fn send(&self, t: T) -> Result<(), error::SendError<T>> { std::mem::forget(t); Ok(()) } }
            pub mod error { pub struct SendError<T>(pub T); #[derive(Debug)] pub enum TryRecvError { Empty, Disconnected } }
            impl UnboundedReceiver<crate::runtime::CallbackMessage> {
                pub fn try_recv(&mut self) -> Result<crate::runtime::CallbackMessage, error::TryRecvError> {
                    ensures!("D01.channel: the request's own channel", self.id == CHAN);
                    w().recvs += 1;
                    crate::d01::round(w().recvs)
                }
            }
        }
        pub mod oneshot { pub struct Sender<T>(pub std::marker::PhantomData<T>); }
    }
    pub use crate::vp_select as select;
    /// the task runs, as far as it gets
    pub fn spawn<F: FnOnce()>(f: F) { crate::env::eh_sm::e().spawned += 1; f() }
}
/// both branches are awaited; the one that is ready is taken (either, when both are)
#[macro_export] macro_rules! vp_select { ($p:pat = $e:expr => $b:block $(,)? $q:pat = $f:expr => $c:block $(,)?) => {{ let (a, b) = ($e, $f); if crate::env::eh_sm::first(&a, &b) { let $p = a.vp_now(); $b } else { let $q = b.vp_now(); $c } }} }
/// the response's stream and the task that forwards it
pub mod eh_sm {
    use super::*;
    pub struct E { magic: u32, pub id: u64, pub has: bool, pub taken: u32, pub spawned: u32, pub cap: usize, pub chans: u32, pub gone: bool, pub recvd: u32, pub left: u32, pub end: u8, pub ended: bool, pub sent: u32, pub errs: u32, pub dropped: u32, pub closed: u32, pub pending: bool, pub first: u32 }
    pub static mut EH: E = E { magic: 0xE4, id: 0, has: false, taken: 0, spawned: 0, cap: 0, chans: 0, gone: false, recvd: 0, left: 0, end: 0, ended: false, sent: 0, errs: 0, dropped: 0, closed: 0, pending: false, first: 0 };
    pub fn e() -> &'static mut E { unsafe { &mut *(&raw mut EH) } }
    pub const REASON: &str = "broken";
    pub enum StreamChunk { Data(js::Bin), Done, Error(Text) }
    pub struct StreamManager { pub id: u32 }
    impl StreamManager {
        pub fn take_receiver(&self, id: u64) -> Option<Receiver> {
            let s = e();
            ensures!("E04.stream: the body is the response's own stream", id == s.id && self.id == 3);
            s.taken += 1;
            if s.has && s.taken == 1 { Some(Receiver { magic: 9 }) } else { None }
        }
        pub fn close_stream(&self, id: u64) {
            let s = e();
            ensures!("E04.close: a stream is closed only when its client is gone, and only that one", id == s.id && s.gone && self.id == 3);
            s.closed += 1;
        }
    }
    pub struct Receiver { magic: u32 }
    pub struct Recv;
    impl Receiver { pub fn recv(&mut self) -> Recv { Recv } }
    impl Recv {
        pub fn vp_now(self) -> Option<StreamChunk> {
            let s = e();
            ensures!("E04.end: nothing is read past the end", !s.ended);
            leave();
            if s.left > 0 { s.left -= 1; s.recvd += 1; s.pending = true; return Some(StreamChunk::Data(js::Bin { id: s.first + s.recvd, n: 3 })); }
            s.ended = true;
            match s.end { 0 => Some(StreamChunk::Done), 1 => { s.pending = true; Some(StreamChunk::Error(Text::lit(REASON))) } _ => None }
        }
    }
    /// the client may leave at any time
    pub fn leave() { let s = e(); s.gone = s.gone || any_bool(); }
    pub fn first(_: &Recv, _: &Closed) -> bool { leave(); if e().gone { any_bool() } else { true } }
    pub struct BodyRx { pub magic: u32 }
    pub struct Sender { magic: u32 }
    pub struct Closed;
    pub struct Send(Result<js::Bin, Text>);
    impl Sender {
        pub fn send(&self, m: Result<js::Bin, Text>) -> Send { Send(m) }
        pub fn closed(&self) -> Closed { Closed }
    }
    impl Drop for Sender { fn drop(&mut self) { e().dropped += 1; } }
    impl Closed { pub fn vp_now(self) { assert!(e().gone, "MODEL: select"); } }
    impl Send {
        pub fn vp_now(self) -> Result<(), SendError> {
            let s = e();
            leave();
            if s.gone { s.pending = false; return Err(SendError); }
            match self.0 {
                Ok(b) => { ensures!("E04.chunks: chunks go out in order, each once and unaltered", s.pending && b.id == s.first + s.sent + 1 && b.n == 3 && s.recvd == s.sent + 1 && s.errs == 0); s.sent += 1; }
                Err(t) => { ensures!("E04.error: a broken stream is passed on as broken, once", s.pending && s.ended && s.end == 1 && t.as_bytes().as_ptr() == REASON.as_ptr() && s.errs == 0); s.errs += 1; }
            }
            s.pending = false;
            Ok(())
        }
    }
    #[derive(Debug)]
    pub struct SendError;
    pub fn channel(n: usize) -> (Sender, BodyRx) { let s = e(); s.chans += 1; s.cap = n; (Sender { magic: 8 }, BodyRx { magic: 8 }) }
}
pub mod v8_helpers { use super::js; pub fn create_array_buffer_from_vec<'s>(_s: &mut js::PinScope<'s, '_>, v: js::Bin) -> js::Local<'s, js::ArrayBuffer> { js::loc(Val { kind: js::ABUF, id: v.id, n: v.n, ..js::UNDEFINED }) } use super::Val; }
pub mod tokio_util {
    pub mod sync { pub struct CancellationToken; pub struct DropGuard; }
    pub mod task { pub struct AbortOnDropHandle<T>(pub std::marker::PhantomData<T>); }
}
/// the submodules of `runtime`
pub mod rt {
    use super::*;
    pub mod bindings { pub type LogCallback = u32; pub fn setup_security_restrictions() {} }
    pub mod crypto {}
    pub mod streams {}
    pub mod text_encoding {}
    pub mod stream_manager { pub type StreamId = u64; pub struct StreamChunk { pub id: u32 } pub struct StreamManager { pub id: u32 } }
    pub mod scheduler {
        use super::*;
        use owc::*;
        use Text as String;
        pub type CallbackId = u64;
        pub struct CallbackSender; pub enum SchedulerMessage { Shutdown } pub fn run_event_loop() {}
        pub enum CallbackMessage {
            ExecuteTimeout(CallbackId),
            ExecuteInterval(CallbackId),
            FetchError(CallbackId, String),
            FetchStreamingSuccess(CallbackId, HttpResponseMeta, stream_manager::StreamId),
            StreamChunk(CallbackId, stream_manager::StreamChunk),
            StorageResult(CallbackId, StorageResult),
            KvResult(CallbackId, KvResult),
            DatabaseResult(CallbackId, DatabaseResult),
            WebSocketConnected(CallbackId, WebSocketId),
            WebSocketConnectError(CallbackId, String),
            WebSocketEvent(WebSocketId, WebSocketIncoming),
        }
    }
    /// by contract: the object describes the result it was given
    pub mod callback_handlers {
        use super::*;
        use js::{Local, Object, PinScope};
        fn fill(kind: u8, o: Local<'_, Object>, id: u32, stream: u64) { let s = w(); s.filled += 1; s.fill_kind = kind; s.fill_obj = o.v.id; s.fill_id = id; s.fill_stream = stream; }
        pub fn populate_fetch_meta(_: &mut PinScope, o: Local<Object>, m: &owc::HttpResponseMeta, s: u64) { fill(3, o, m.id, s) }
        pub fn populate_stream_chunk_result(_: &mut PinScope, o: Local<Object>, c: stream_manager::StreamChunk) { fill(4, o, c.id, 0) }
        pub fn populate_storage_result(_: &mut PinScope, o: Local<Object>, r: owc::StorageResult, m: &kstd_xd::sync::Arc<stream_manager::StreamManager>) { fill(5, o, match r { owc::StorageResult::Other(i) => i, _ => 0 }, m.id as u64) }
        pub fn populate_kv_result(_: &mut PinScope, o: Local<Object>, r: owc::KvResult) { fill(6, o, match r { owc::KvResult::Other(i) => i, _ => 0 }, 0) }
        pub fn populate_database_result(_: &mut PinScope, o: Local<Object>, r: owc::DatabaseResult) { fill(7, o, match r { owc::DatabaseResult::Other(i) => i, _ => 0 }, 0) }
    }
}
pub mod request_context {
    use super::*;
    use crate::runtime::*;
    pub struct RequestContext {
        pub context: js::Global<js::Context>,
        pub callback_rx: tokio::sync::mpsc::UnboundedReceiver<CallbackMessage>,
        pub fetch_callbacks: Cb,
        pub fetch_error_callbacks: Cb,
        pub stream_callbacks: Cb,
        pub ws_event_callbacks: Cb,
        pub stream_manager: kstd_xd::sync::Arc<rt::stream_manager::StreamManager>,
        pub aborted: kstd_xd::sync::Arc<std::sync::atomic::AtomicBool>,
    }
    impl RequestContext {
        pub fn vp(m: &Maps) -> Self {
            RequestContext {
                context: js::Global { id: CTX, p: PhantomData },
                callback_rx: tokio::sync::mpsc::UnboundedReceiver { id: CHAN, p: PhantomData },
                fetch_callbacks: m.resolve.clone(), fetch_error_callbacks: m.reject.clone(), stream_callbacks: m.stream.clone(), ws_event_callbacks: m.ws.clone(),
                stream_manager: kstd_xd::sync::Arc::new(rt::stream_manager::StreamManager { id: 3 }),
                aborted: kstd_xd::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)),
            }
        }
    }
}
pub mod event_loop {
    pub trait EventLoopRuntime {
        fn callback_rx_mut(&mut self) -> &mut super::tokio::sync::mpsc::UnboundedReceiver<crate::runtime::CallbackMessage>;
        fn process_callback(&mut self, msg: crate::runtime::CallbackMessage);
        fn pump_and_checkpoint(&mut self);
    }
}
pub mod execution_helpers {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum EventLoopExit { ResponseReady, HandlerComplete, StreamsComplete, FullyComplete }
    #[derive(Clone)]
    pub struct AbortConfig;
    pub fn check_exit_condition() {}
    pub fn get_completion_state() {}
    pub fn get_response_stream_id() {}
    pub fn signal_client_disconnect() {}
    pub fn read_response_object() {}
    pub fn trigger_fetch_handler() {}
}
