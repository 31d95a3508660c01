//! E04: requests and responses between the host and JavaScript.
use super::*;
use crate::env::*;
use crate::env::eh_sm::e;
use crate::js::{self, hash, heap, loc, prop, nprops, vobj, vnum, vset, vtext, Val, UNDEFINED};
use vk::any::*;
use vk::{ensures, reach, requires};
use std::pin::pin;

static mut ISOLATE: js::Isolate = js::Isolate { id: ISO };
macro_rules! scope { ($s:ident) => {
    let p = pin!(js::HandleScope::new(unsafe { &mut *(&raw mut ISOLATE) }));
    let mut p = p.init();
    let c = js::Local::new(&p, &js::Global { id: CTX, p: std::marker::PhantomData });
    let mut $s = js::ContextScope::new(&mut p, c);
} }
fn g() -> js::Local<'static, js::Object> { loc(vobj(js::OBJ, CTX)) }
fn boolean(b: bool) -> Val { Val { kind: js::BOOL, b, ..UNDEFINED } }
fn num(u: u32) -> Val { Val { kind: js::NUM, u, num: u as f64, ..UNDEFINED } }
pub struct Page { last: Val, complete: Val, streams: Val, status: bool }
fn page() -> Page {
    let last = if any_bool() { UNDEFINED } else if any_bool() { Val { kind: js::NULL, ..UNDEFINED } } else if any_bool() { vobj(js::PROMISE, 70) } else { vobj(js::OBJ, 70) };
    let status = any_bool();
    js::global("__lastResponse", last, false);
    vset(70, hash(b"status"), num(any_u32()), false);
    let complete = if any_bool() { UNDEFINED } else { boolean(any_bool()) };
    js::global("__requestComplete", complete, false);
    let streams = num(any_u32());
    js::global("__activeResponseStreams", streams, false);
    Page { last, complete, streams, status }
}
#[kani::proof]
#[kani::unwind(32)]
pub fn e04_conditions() {
    let p = page();
    scope!(s);
    let (done, idle) = (p.complete.kind == js::BOOL && p.complete.b, p.streams.u == 0);
    ensures!("E04.ready: a response is ready exactly when the handler left a response, not a promise of one", check_exit_condition(&mut s, g(), EventLoopExit::ResponseReady) == (p.last.kind == js::OBJ));
    ensures!("E04.handler: the handler is complete exactly when it says so", check_exit_condition(&mut s, g(), EventLoopExit::HandlerComplete) == done);
    ensures!("E04.streams: the streams are complete exactly when none is active", check_exit_condition(&mut s, g(), EventLoopExit::StreamsComplete) == idle);
    ensures!("E04.fully: everything is complete exactly when both are", check_exit_condition(&mut s, g(), EventLoopExit::FullyComplete) == (done && idle));
    let (c, n) = get_completion_state(&mut s, g());
    ensures!("E04.state: the completion state is the page's", c == done && n == p.streams.u);
    reach!("E04.cond", done && idle && p.last.kind == js::OBJ);
}
#[kani::proof]
#[kani::unwind(32)]
pub fn e04_stream_id() {
    let v = if any_bool() { UNDEFINED } else if any_bool() { Val { kind: js::NULL, ..UNDEFINED } } else { num(any_u32()) };
    js::global("__lastResponseStreamId", v, false);
    scope!(s);
    ensures!("E04.stream_id: the response's stream is the one JavaScript names, if any", get_response_stream_id(&mut s, g()) == if v.kind == js::NUM { Some(v.u as u64) } else { None });
    reach!("E04.stream_id", v.kind == js::NUM);
}
#[kani::proof]
#[kani::unwind(32)]
pub fn e04_disconnect() {
    js::global("__signalClientDisconnect", vobj(js::FUNC, 60), false);
    heap().calls = 0;
    scope!(s);
    signal_client_disconnect(&mut s);
    ensures!("E04.disconnect: JavaScript is told of the disconnect, once", heap().calls == 1 && heap().call.f == 60 && heap().call.recv.id == CTX);
}

const URL: &str = "https://a.example/x";
const K0: &str = "k-one";
const V0: &str = "value one";
const K1: &str = "k-two";
const V1: &str = "value two";
fn headers_are(o: Val, h0: bool, h1: bool) -> bool {
    o.kind == js::OBJ && nprops(o.id) == h0 as usize + h1 as usize && (!h0 || prop(o.id, K0).is_text(V0)) && (!h1 || prop(o.id, K1).is_text(V1))
}
fn trigger(ctor: u8, body: u8, handler: bool, h0: bool, h1: bool) {
    js::global("Request", if ctor == 0 { UNDEFINED } else { vobj(js::FUNC, 61) }, false);
    js::global("__triggerFetch", if handler { vobj(js::FUNC, 62) } else { UNDEFINED }, false);
    let m = HashMap::vp([h0, h1, false], [Text::lit(K0), Text::lit(K1), Text::new()], [Text::lit(V0), Text::lit(V1), Text::new()]);
    let bin = js::Bin { id: any_u32(), n: any_usize() };
    requires!(bin.id != 0 && bin.n < 1 << 40);
    let sid = any_u64();
    requires!(sid < 1 << 53);
    // a streamed body was taken out of the request when its pump was started
    let mut b = match body { 0 | 2 => RequestBody::None, _ => RequestBody::Bytes(bin) };
    let stream = if body == 2 { Some(sid) } else { None };
    w().ret_none = any_bool();
    w().ret = Some(UNDEFINED);
    w().made = true;
    heap().calls = 0;
    heap().news = 0;
    scope!(s);
    let r = trigger_fetch_handler(&mut s, URL, "PUT", &m, &mut b, stream);
    let h = heap();
    if !handler {
        ensures!("E04.no_handler: without a handler nothing is called", h.calls == 0 && r.is_ok());
        return;
    }
    ensures!("E04.called: the handler is called once, with the request", h.calls == 1 && h.call.f == 62 && h.call.recv.id == CTX && h.call.argc == 1);
    ensures!("E04.terminated: a handler that was terminated is an error, and nothing else", r.is_err() == w().ret_none);
    if ctor == 0 {
        let o = h.call.a[0];
        ensures!("E04.plain: the request carries its address, method and headers", o.kind == js::OBJ && prop(o.id, "url").is_text(URL) && prop(o.id, "method").is_text("PUT") && headers_are(prop(o.id, "headers"), h0, h1));
    } else {
        ensures!("E04.made: the request is made once, from its address, and given to the handler", h.news == 1 && h.made.f == 61 && h.made.argc == 2 && h.made.a[0].is_text(URL) && h.call.a[0].id == 99);
        let i = h.made.a[1].id;
        ensures!("E04.method: with its method", prop(i, "method").is_text("PUT"));
        ensures!("E04.headers: with exactly its headers", headers_are(prop(i, "headers"), h0, h1));
        let (st, by) = (prop(i, "_bodyStreamId"), prop(i, "body"));
        ensures!("E04.body_stream: a streamed body is reached by its own stream", if body == 2 { st.kind == js::NUM && st.num == sid as f64 } else { st.kind == js::UNDEF });
        ensures!("E04.body: a buffered body is there, completely and unaltered", if body == 1 && bin.n > 0 { by.kind == js::U8A && by.id == bin.id && by.u == 0 && by.n == bin.n } else { by.kind == js::UNDEF });
    }
    reach!("E04.triggered", r.is_ok());
}
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_plain() { trigger(0, 0, true, true, true) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_none() { trigger(1, 0, true, true, true) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_bare() { trigger(1, 0, true, false, false) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_nohandler() { trigger(1, 0, false, false, true) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_bytes() { trigger(1, 1, true, false, true) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_trigger_stream() { trigger(1, 2, true, true, false) }

/// the response: status, headers (`h`: 0 none, 1 a Headers object, 2 with a repeated one, 3 a plain object), body (0 stream, 1 raw, 2 none)
fn response(h: u8, body: u8) {
    let st = any_u16();
    js::global("__lastResponse", vobj(js::OBJ, 70), false);
    vset(70, hash(b"status"), num(st as u32), false);
    let ea = e();
    ea.id = any_u32() as u64;
    if body == 0 { vset(70, hash(b"_responseStreamId"), num(ea.id as u32), false); } else { vset(70, hash(b"_responseStreamId"), Val { kind: if h == 1 { js::NULL } else { js::UNDEF }, ..UNDEFINED }, false); }
    let bin = js::Bin { id: any_u32(), n: any_usize() };
    requires!(bin.id != 0 && bin.n < 1 << 40);
    if body == 1 { vset(70, hash(b"_getRawBody"), vobj(js::FUNC, 63), false); w().ret = Some(Val { kind: js::U8A, id: bin.id, n: bin.n, ..UNDEFINED }); }
    match h {
        0 => {}
        1 | 2 => {
            vset(70, hash(b"headers"), vobj(js::OBJ, 71), false);
            vset(71, hash(b"_map"), Val { kind: js::MAP, id: 72, u: 4, ..UNDEFINED }, false);
            vset(72, js::elem(0), vtext(K0), false);
            vset(72, js::elem(1), if h == 1 { vtext(V0) } else { Val { kind: js::ARR, id: 73, u: 2, ..UNDEFINED } }, false);
            vset(72, js::elem(2), vtext(K1), false);
            vset(72, js::elem(3), vtext(V1), false);
            if h == 2 { vset(73, js::elem(0), vtext(V0), false); vset(73, js::elem(1), vtext(V1), false); }
        }
        _ => {
            vset(70, hash(b"headers"), vobj(js::OBJ, 71), false);
            vset(1071, 7, num(2), false);
            vset(1071, js::elem(0), vtext(K0), false);
            vset(1071, js::elem(1), vtext(K1), false);
            vset(71, hash(K0.as_bytes()), vtext(V0), false);
            vset(71, hash(K1.as_bytes()), vtext(V1), false);
        }
    }
    ea.has = any_bool();
    ea.left = any_u32();
    requires!(ea.left <= 2);
    let n = ea.left;
    ea.first = any_u32();
    requires!(ea.first < 1 << 20);
    ea.end = any_u8();
    requires!(ea.end <= 2);
    let sm = kstd_xd::sync::Arc::new(eh_sm::StreamManager { id: 3 });
    let cap = any_usize();
    scope!(s);
    let r = read_response_object(&mut s, &sm, cap);
    let Ok((status, resp)) = &r else { ensures!("E04.read: a response that is there is read", false); return; };
    ensures!("E04.status: with its own status", *status == st && resp.status == st);
    let hs = &resp.headers;
    let is = |i: usize, k: &str, v: &str| { let (a, b) = &hs[i]; a.as_bytes().as_ptr() == k.as_ptr() && a.len() == k.len() && b.as_bytes().as_ptr() == v.as_ptr() && b.len() == v.len() };
    match h {
        0 => ensures!("E04.no_headers", hs.len() == 0),
        2 => ensures!("E04.repeated: a repeated header stays repeated, in order", hs.len() == 3 && is(0, K0, V0) && is(1, K0, V1) && is(2, K1, V1)),
        _ => ensures!("E04.out_headers: with exactly its headers", hs.len() == 2 && is(0, K0, V0) && is(1, K1, V1)),
    }
    match &resp.body {
        ResponseBody::Stream(b) => {
            ensures!("E04.out_stream: a streamed body is that of the response's own stream, behind the configured bound", body == 0 && ea.has && ea.taken == 1 && ea.chans == 1 && ea.cap == cap && ea.spawned == 1);
            ensures!("E04.forward: everything is passed on until the end, unless the client is gone", ea.gone || (ea.sent == n && ea.ended && ea.errs == (ea.end == 1) as u32));
            ensures!("E04.finish: the body ends, and the stream of a client that left is closed", ea.dropped == 1 && (ea.ended || ea.closed == 1));
            reach!("E04.all", ea.sent == 2 && ea.end == 0);
            reach!("E04.left", ea.closed == 1);
        }
        ResponseBody::None => ensures!("E04.no_stream: a response without its stream has no body", body == 0 && !ea.has),
        ResponseBody::Bytes(b) => ensures!("E04.out_body: a buffered body is there, completely and unaltered", body != 0 && if body == 1 { *b == bin || (bin.n == 0 && b.n == 0) } else { b.n == 0 }),
        _ => ensures!("E04.kind", false),
    }
    reach!("E04.read", true);
    std::mem::forget(r);
    std::mem::forget(sm);
}
#[kani::proof] #[kani::unwind(32)] pub fn e04_response_stream() { response(0, 0) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_response_bytes() { response(0, 1) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_response_none() { response(1, 2) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_response_repeated() { response(2, 1) }
#[kani::proof] #[kani::unwind(32)] pub fn e04_response_plain() { response(3, 1) }
