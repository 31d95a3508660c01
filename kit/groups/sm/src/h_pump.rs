//! Property M03: pump_request_body forwards the body in order, once, with one end marker.
use crate::sm_pump::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::sync::mpsc;
use vk::ghost::g;
use vk::model::arc::Arc;
use vk::model::string::String;
use vk::*;

type Item = Result<bytes::Bytes, String>;
impl vk::model::deque::Fab for StreamChunk { fn vp_fab(t: u64) -> Self { StreamChunk::Data(bytes::Bytes::vp_opaque(t, 1 + t as usize)) } }
static mut LEN: [usize; 3] = [0x1E4, 0, 0];
/// chunks have any length, none included
fn chunk(t: u64) -> Item { let n = any_usize(); vk::any::assume(n < 1 << 40); unsafe { LEN[t as usize - 9] = n; } Ok(bytes::Bytes::vp_opaque(t, n)) }

#[derive(Clone, Copy, PartialEq)]
enum Case { Forward, Error, Back, Slow, Gone }
struct Env { magic: u64, case: Case, late: bool, m: *const Arc<StreamManager>, tx: *const Option<mpsc::Sender<Item>>, id: StreamId, spawned: u64 }
static mut ENV: Env = Env { magic: 0x9A, case: Case::Forward, late: false, m: std::ptr::null(), tx: std::ptr::null(), id: 99, spawned: 0 };
fn env() -> &'static mut Env { unsafe { &mut *(&raw mut ENV) } }

fn read(m: &StreamManager, id: StreamId) -> Option<Result<StreamChunk, String>> {
    let mut f = m.read_chunk(id);
    let r = match unsafe { Pin::new_unchecked(&mut f) }.poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(r) => Some(r), Poll::Pending => None };
    std::mem::forget(f);
    r
}
fn is_data(r: &Option<Result<StreamChunk, String>>, t: u64) -> bool { matches!(r, Some(Ok(StreamChunk::Data(b))) if b.tag == t && b.len() == unsafe { LEN[t as usize - 9] }) }
fn is_err<T>(r: &Option<Result<T, String>>) -> bool { matches!(r, Some(Err(_))) }

/// Runs when the pump task has been spawned; `step` polls it once and tells whether it has ended.
pub fn scenario(step: &mut dyn FnMut() -> bool) {
    let e = env();
    e.spawned += 1;
    let m: &StreamManager = unsafe { &**e.m };
    let mut id = 99;
    for i in 0..8 { if m.has_sender(i) { id = i; } }
    ensures!("M03.start: the stream exists before the task runs", id != 99 && m.active_count() == 1);
    e.id = id;
    let tx = unsafe { &mut *(e.tx as *mut Option<mpsc::Sender<Item>>) };
    let mut step = || { let r = step(); ensures!("M03.locks: no internal lock is held while waiting", g().locks == 0); r };
    match e.case {
        Case::Forward | Case::Error => {
            ensures!("M03.wait: with nothing to forward the pump waits", !step());
            tx.as_ref().unwrap().try_send(chunk(10)).ok().unwrap();
            if e.late { ensures!("M03.wait: waits for more", !step()); }
            tx.as_ref().unwrap().try_send(chunk(11)).ok().unwrap();
            if e.case == Case::Error { tx.as_ref().unwrap().try_send(Err(String::new())).ok().unwrap(); } else { *tx = None; }
            ensures!("M03.end: the pump ends with the body", step());
            ensures!("M03.order: first chunk, unaltered", is_data(&read(m, id), 10));
            ensures!("M03.order: second chunk, unaltered", is_data(&read(m, id), 11));
            let r = read(m, id);
            if e.case == Case::Error { ensures!("M03.end: the consumer sees that the body failed", matches!(r, Some(Ok(StreamChunk::Error(_))))); }
            else { ensures!("M03.end: the consumer sees that the body is complete", matches!(r, Some(Ok(StreamChunk::Done)))); }
            ensures!("M03.end: and nothing after", is_err(&read(m, id)));
        }
        Case::Back => {
            let t = tx.as_ref().unwrap();
            t.try_send(chunk(10)).ok().unwrap();
            t.try_send(chunk(11)).ok().unwrap();
            ensures!("M03.wait: held back by a slow consumer", !step());
            ensures!("M03.bound: the rest of the body is not read ahead by more than one chunk", t.capacity() >= 3);
            ensures!("M03.wait: still held back", !step());
            ensures!("M03.order: first chunk", is_data(&read(m, id), 10));
            ensures!("M03.wait: goes on", !step());
            *tx = None;
            ensures!("M03.order: second chunk", is_data(&read(m, id), 11));
            ensures!("M03.end: the pump ends", step());
            ensures!("M03.end: with the end marker", matches!(read(m, id), Some(Ok(StreamChunk::Done))));
        }
        Case::Slow => {
            // the end (or the failure) comes while the consumer's bound is used up
            tx.as_ref().unwrap().try_send(chunk(10)).ok().unwrap();
            if e.late { tx.as_ref().unwrap().try_send(Err(String::new())).ok().unwrap(); } else { *tx = None; }
            ensures!("M03.wait: held back by a slow consumer", !step());
            ensures!("M03.order: first chunk", is_data(&read(m, id), 10));
            let ended = step();
            let r = read(m, id);
            if e.late {
                ensures!("M03.end: the consumer sees that the body failed", matches!(r, Some(Ok(StreamChunk::Error(_)))));
                if !ended { ensures!("M03.end: the pump ends", step()); }
            } else {
                ensures!("M03.end: the consumer sees that the body is complete", matches!(r, Some(Ok(StreamChunk::Done))));
                ensures!("M03.end: the pump ends", ended);
            }
            ensures!("M03.end: and nothing after", is_err(&read(m, id)));
        }
        Case::Gone => {
            let t = tx.as_ref().unwrap();
            t.try_send(chunk(10)).ok().unwrap();
            t.try_send(chunk(11)).ok().unwrap();
            ensures!("M03.wait: held back", !step());
            if e.late { m.close_stream(id); } else { drop(m.take_receiver(id)); }
            ensures!("M03.gone: the pump ends", step());
            ensures!("M03.gone: the stream is over", !m.has_sender(id));
        }
    }
}
fn run(case: Case, late: bool, h: usize) {
    let m = Arc::new(StreamManager::with_high_water_mark(h));
    let (tx, rx) = mpsc::channel::<Item>(4);
    let tx = Some(tx);
    let e = env();
    e.case = case; e.late = late; e.m = &m; e.tx = &tx;
    let id = m.pump_request_body(rx);
    ensures!("M03.start: one task serves the stream whose id is returned", e.spawned == 1 && id == e.id);
    reach!("end", true);
    std::mem::forget((m, tx));
}
macro_rules! cases { ($($n:ident $c:ident $l:literal $h:literal;)*) => { $( #[kani::proof] #[kani::unwind(10)] #[kani::solver(kissat)] fn $n() { run(Case::$c, $l, $h) } )* } }
cases! { m03_forward Forward false 4; m03_forward_late Forward true 4; m03_error Error false 4; m03_error_late Error true 4; m03_backpressure Back false 1; m03_slow_done Slow false 1; m03_slow_error Slow true 1; m03_closed Gone true 1; m03_left Gone false 1; }
