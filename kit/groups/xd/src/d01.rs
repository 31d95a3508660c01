//! D01: one callback message, delivered.
use crate::env::*;
use crate::js::{self, heap, Val};
use crate::runtime::CallbackMessage;
use crate::env::owc::*;
use crate::env::rt::stream_manager::StreamChunk;
use vk::any::*;
use vk::{ensures, reach, requires};

pub struct D { magic: u32, pub k: u64, pub o: u64, pub kind: u8, pub payload: u32, pub stream: u64, pub has: [bool; 8], pub ws: u8, pub fn_kind: u8, pub timer_throws: bool, pub kinds: (u8, u8), pub reg: bool, pub m: Option<&'static Maps> }
pub static mut D01: D = D { magic: 0xD0, k: 0, o: 0, kind: 0, payload: 0, stream: 0, has: [false; 8], ws: 0, fn_kind: 0, timer_throws: false, kinds: (0, 0), reg: false, m: None };
pub fn d() -> &'static mut D { unsafe { &mut *(&raw mut D01) } }
const MSG: &str = "the reason";
pub const KINDS: u8 = 14;

pub fn maps() -> Maps {
    let s = d();
    s.k = any_u64();
    s.o = any_u64();
    w().new_id = any_u64();
    requires!(s.k != s.o && w().new_id != s.k && w().new_id != s.o && s.k < 1 << 53);
    let ids = Ids { k: s.k, o: s.o, n: w().new_id };
    let (resolve, a, b) = map_of(&ids, F_RES);
    let (reject, c, e) = map_of(&ids, F_REJ);
    let (stream, f, g) = map_of(&ids, F_STR);
    let (ws, h, i) = map_of(&ids, F_WS);
    s.has = [a, b, c, e, f, g, h, i];
    Maps { resolve, reject, stream, ws }
}
/// a message of the given kind for callback k
pub fn message(kind: u8) -> CallbackMessage {
    let s = d();
    s.kind = kind;
    s.payload = any_u32();
    requires!(s.payload != 0);
    s.stream = any_u64();
    requires!(s.stream < 1 << 53);
    w().filled = 0;
    w().registers = true;
    s.reg = w().registers;
    heap().calls = 0;
    if kind < 2 { js::global("__executeTimer", js::vobj(s.fn_kind, TIMER), s.timer_throws); }
    let m = Text::lit(MSG);
    match kind {
        0 => CallbackMessage::ExecuteTimeout(s.k),
        1 => CallbackMessage::ExecuteInterval(s.k),
        2 => CallbackMessage::FetchError(s.k, m),
        3 => CallbackMessage::FetchStreamingSuccess(s.k, HttpResponseMeta { id: s.payload }, s.stream),
        4 => CallbackMessage::StreamChunk(s.k, StreamChunk { id: s.payload }),
        5 => CallbackMessage::StorageResult(s.k, StorageResult::Other(s.payload)),
        6 => CallbackMessage::KvResult(s.k, KvResult::Other(s.payload)),
        7 => CallbackMessage::DatabaseResult(s.k, DatabaseResult::Other(s.payload)),
        8 => CallbackMessage::WebSocketConnected(s.k, s.stream),
        9 => CallbackMessage::WebSocketConnectError(s.k, m),
        10 => CallbackMessage::StorageResult(s.k, StorageResult::Error(m)),
        11 => CallbackMessage::KvResult(s.k, KvResult::Error(m)),
        12 => CallbackMessage::DatabaseResult(s.k, DatabaseResult::Error(m)),
        _ => CallbackMessage::WebSocketEvent(s.k, match s.ws { 0 => WebSocketIncoming::Text(m), 1 => WebSocketIncoming::Binary(js::Bin { id: s.payload, n: 5 }), 2 => WebSocketIncoming::Closed { code: s.stream as u16, reason: m }, _ => WebSocketIncoming::Error(m) }),
    }
}
/// What must have happened to callback k, and to nothing else.
pub fn check(m: &Maps) {
    let s = d();
    let (c, h) = (heap().call, heap());
    let undef = c.recv.kind == js::UNDEF;
    let reg = s.reg && h.calls > 0;
    let other = entry(&m.resolve, s.o) == if s.has[1] { F_RES + 2 } else { 0 } && entry(&m.reject, s.o) == if s.has[3] { F_REJ + 2 } else { 0 }
        && entry(&m.stream, s.o) == if s.has[5] { F_STR + 2 } else { 0 } && entry(&m.ws, s.o) == if s.has[7] { F_WS + 2 } else { 0 };
    ensures!("D01.others: other pending operations keep their callbacks", other);
    ensures!("D01.new: operations started meanwhile keep their callbacks", entry(&m.resolve, w().new_id) == if reg { 13 } else { 0 } && entry(&m.reject, w().new_id) == if reg { 23 } else { 0 });
    let settles = s.kind >= 2 && s.kind <= 12 && s.kind != 4;
    let (r, e, st, ws) = (entry(&m.resolve, s.k), entry(&m.reject, s.k), entry(&m.stream, s.k), entry(&m.ws, s.k));
    if settles {
        ensures!("D01.once: a settled operation keeps neither of its callbacks", r == 0 && e == 0);
    } else {
        ensures!("D01.keep: only a settled operation gives up its promise callbacks", r == if s.has[0] { F_RES + 1 } else { 0 } && e == if s.has[2] { F_REJ + 1 } else { 0 });
    }
    ensures!("D01.chunk_once: a stream read is completed at most once", st == if s.has[4] && s.kind != 4 { F_STR + 1 } else { 0 });
    ensures!("D01.socket: a socket's listener stays until the socket is closed", ws == if s.has[6] && !(s.kind == 13 && s.ws == 2) { F_WS + 1 } else { 0 });
    let obj = s.kind >= 3 && s.kind <= 7;
    let expect = match s.kind {
        0 | 1 => if !s.timer_throws && s.fn_kind == js::FUNC { TIMER } else { 0 },
        2 | 9 | 10 | 11 | 12 => if s.has[2] { F_REJ + 1 } else { 0 },
        3 | 5 | 6 | 7 | 8 => if s.has[0] { F_RES + 1 } else { 0 },
        4 => if s.has[4] { F_STR + 1 } else { 0 },
        _ => if s.has[6] { F_WS + 1 } else { 0 },
    };
    ensures!("D01.calls: the right function is called, once; none where the operation is unknown", h.calls == if expect != 0 { 1 } else { 0 } && (expect == 0 || c.f == expect));
    if expect == 0 { return; }
    match s.kind {
        0 | 1 => ensures!("D01.timer: the timer is run by its own number", c.recv.kind == js::OBJ && c.recv.id == CTX && c.argc == 1 && c.a[0].kind == js::NUM && c.a[0].num == s.k as f64),
        2 | 9 | 10 | 11 | 12 => ensures!("D01.error: a failure reaches the operation's own reject, with its reason", undef && c.argc == 1 && c.a[0].kind == js::ERR && c.a[0].id == 1 && c.a[0].key == js::hash(MSG.as_bytes())),
        8 => ensures!("D01.connected: the socket's number", undef && c.argc == 1 && c.a[0].kind == js::NUM && c.a[0].num == s.stream as f64),
        13 => {
            ensures!("D01.socket_recv: no receiver", undef);
            match s.ws {
                0 => ensures!("D01.socket_text: text frames", c.argc == 2 && c.a[0].is_text("message") && c.a[1].is_text(MSG)),
                1 => ensures!("D01.socket_binary: binary frames", c.argc == 2 && c.a[0].is_text("message") && c.a[1].kind == js::ABUF && c.a[1].id == s.payload && c.a[1].n == 5),
                2 => ensures!("D01.socket_close: close code and reason", c.argc == 3 && c.a[0].is_text("close") && c.a[1].kind == js::NUM && c.a[1].num == (s.stream as u16) as f64 && c.a[2].is_text(MSG)),
                _ => ensures!("D01.socket_error: errors", c.argc == 2 && c.a[0].is_text("error") && c.a[1].is_text(MSG)),
            }
        }
        _ => {
            ensures!("D01.value: the operation is settled with its own result", undef && c.argc == 1 && c.a[0].kind == js::OBJ && w().filled == 1 && c.a[0].id == w().fill_obj && w().fill_kind == s.kind && w().fill_id == s.payload);
            ensures!("D01.stream: with the body's stream, the request's stream table", w().fill_stream == match s.kind { 3 => s.stream, 5 => 3, _ => 0 });
        }
    }
}
/// `process_callbacks`: the messages of the channel, one by one
pub fn round(n: u32) -> Result<CallbackMessage, crate::env::tokio::sync::mpsc::error::TryRecvError> {
    use crate::env::tokio::sync::mpsc::error::TryRecvError as E;
    let s = d();
    let m = unsafe { &*w().maps };
    if n > 1 { check(m); refresh(m); }
    let k = if n == 1 { s.kinds.0 } else if n == 2 { s.kinds.1 } else { 99 };
    if k >= KINDS { s.kind = 99; return Err(if any_bool() { E::Empty } else { E::Disconnected }); }
    Ok(message(k))
}
/// the tables as the next message finds them
fn refresh(m: &Maps) {
    let s = d();
    let (a, b) = (|c: &Cb| entry(c, s.k) != 0, |c: &Cb| entry(c, s.o) != 0);
    s.has = [a(&m.resolve), b(&m.resolve), a(&m.reject), b(&m.reject), a(&m.stream), b(&m.stream), a(&m.ws), b(&m.ws)];
    m.resolve.borrow_mut().on[2] = false;
    m.reject.borrow_mut().on[2] = false;
}
