//! D01 for a worker's own runtime.
use super::*;
use crate::env::*;
use crate::d01::*;
use std::marker::PhantomData;
use vk::any::*;
use vk::{ensures, reach, requires};

fn rt(m: &Maps) -> Runtime {
    w().pooled = false;
    Runtime {
        isolate: v8::Isolate { id: ISO },
        context: v8::Global { id: CTX, p: PhantomData },
        scheduler_tx: mpsc::UnboundedSender { id: 7, p: PhantomData },
        callback_rx: mpsc::UnboundedReceiver { id: CHAN, p: PhantomData },
        fetch_callbacks: m.resolve.clone(), fetch_error_callbacks: m.reject.clone(), stream_callbacks: m.stream.clone(), ws_event_callbacks: m.ws.clone(),
        _next_callback_id: Rc::new(RefCell::new(1)),
        fetch_response_tx: Rc::new(RefCell::new(None)),
        platform: &PLATFORM,
        stream_manager: Arc::new(stream_manager::StreamManager { id: 3 }),
        memory_limit_hit: Arc::new(AtomicBool::new(false)),
        limits: RuntimeLimits::default(),
        callback_notify: Arc::new(Notify::new()),
        _heap_limit_state: Box::new(HeapLimitState { magic: 1 }),
    }
}
fn one(kind: u8) {
    let m = maps();
    let mut e = rt(&m);
    w().maps = &m;
    e.process_single_callback(message(kind));
    check(&m);
    let never = kind < 2 && (d().timer_throws || d().fn_kind != crate::js::FUNC);
    reach!("D01.called", never || crate::js::heap().calls == 1);
    reach!("D01.unknown", kind < 2 || crate::js::heap().calls == 0);
    std::mem::forget(e);
    std::mem::forget(m);
}
fn all() {
    let m = maps();
    let mut e = rt(&m);
    w().maps = &m;
    e.process_callbacks();
    ensures!("D01.all: every message there is processed, then the microtasks", d().kind == 99 && crate::js::heap().pumps >= 1 && crate::js::heap().microtasks == 1);
    reach!("end", true);
    std::mem::forget(e);
    std::mem::forget(m);
}
macro_rules! cases { ($($n:ident $all:literal ($k:literal $k2:literal) $pooled:literal $fk:ident $thr:literal $ws:literal;)*) => { $( #[kani::proof] #[kani::unwind(32)] pub fn $n() { w().pooled = $pooled; let s = d(); s.fn_kind = crate::js::$fk; s.timer_throws = $thr; s.ws = $ws; if $all { s.kinds = ($k, $k2); all() } else { one($k) } } )* } }
cases! {
    d01_rt_timer false (0 99) false FUNC false 0;
    d01_rt_interval false (1 99) false FUNC false 0;
    d01_rt_notimer false (0 99) false UNDEF false 0;
    d01_rt_oddtimer false (0 99) false OBJ false 0;
    d01_rt_throwtimer false (1 99) false FUNC true 0;
    d01_rt_fetcherr false (2 99) false FUNC false 0;
    d01_rt_fetch false (3 99) false FUNC false 0;
    d01_rt_chunk false (4 99) false FUNC false 0;
    d01_rt_storage false (5 99) false FUNC false 0;
    d01_rt_kv false (6 99) false FUNC false 0;
    d01_rt_db false (7 99) false FUNC false 0;
    d01_rt_wsconn false (8 99) false FUNC false 0;
    d01_rt_wsconnerr false (9 99) false FUNC false 0;
    d01_rt_storageerr false (10 99) false FUNC false 0;
    d01_rt_kverr false (11 99) false FUNC false 0;
    d01_rt_dberr false (12 99) false FUNC false 0;
    d01_rt_wstext false (13 99) false FUNC false 0;
    d01_rt_wsbin false (13 99) false FUNC false 1;
    d01_rt_wsclose false (13 99) false FUNC false 2;
    d01_rt_wserr false (13 99) false FUNC false 3;
    d01_rt_all_timer true (0 99) false FUNC false 0;
    d01_rt_all_interval true (1 99) false FUNC false 0;
    d01_rt_all_notimer true (0 99) false UNDEF false 0;
    d01_rt_all_oddtimer true (0 99) false OBJ false 0;
    d01_rt_all_throwtimer true (1 99) false FUNC true 0;
    d01_rt_all_fetcherr true (2 99) false FUNC false 0;
    d01_rt_all_fetch true (3 99) false FUNC false 0;
    d01_rt_all_chunk true (4 99) false FUNC false 0;
    d01_rt_all_storage true (5 99) false FUNC false 0;
    d01_rt_all_kv true (6 99) false FUNC false 0;
    d01_rt_all_db true (7 99) false FUNC false 0;
    d01_rt_all_wsconn true (8 99) false FUNC false 0;
    d01_rt_all_wsconnerr true (9 99) false FUNC false 0;
    d01_rt_all_storageerr true (10 99) false FUNC false 0;
    d01_rt_all_kverr true (11 99) false FUNC false 0;
    d01_rt_all_dberr true (12 99) false FUNC false 0;
    d01_rt_all_wstext true (13 99) false FUNC false 0;
    d01_rt_all_wsbin true (13 99) false FUNC false 1;
    d01_rt_all_wsclose true (13 99) false FUNC false 2;
    d01_rt_all_wserr true (13 99) false FUNC false 3;
    d01_rt_all1 true (8 4) false FUNC false 0;
    d01_rt_all2 true (4 10) false FUNC false 0;
    d01_rt_all3 true (99 99) false FUNC false 0;
}
