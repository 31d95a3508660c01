//! Property M01: identity and isolation of streams.
use vk::model::string::String;
use crate::stream_manager::*;
use crate::util::*;
use vk::envq::envid;
use vk::ghost::g;
use vk::*;

/// Ids are fresh whatever others allocate at the same time, and never come back after `clear`.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_fresh_ids() {
    let m = StreamManager::with_high_water_mark(4);
    envid().on = true;
    let a = m.create_stream(String::new());
    let b = m.create_stream(String::new());
    ensures!("M01.fresh: ids differ", a != b);
    let cleared = any_bool();
    if cleared { m.clear(); }
    let c = m.create_stream(String::new());
    envid().on = false;
    ensures!("M01.fresh: never an id used before, not even before a clear", c != a && c != b);
    ensures!("M01.fresh: never an id somebody else got", !envid().taken(a) && !envid().taken(b) && !envid().taken(c));
    ensures!("M01.create: the new stream exists", m.has_sender(c) && m.get_stream_info(c).is_some());
    ensures!("M01.create: earlier ones exist unless cleared", m.has_sender(a) == !cleared && m.has_sender(b) == !cleared);
    ensures!("M01.count: active streams", m.active_count() == if cleared { 1 } else { 3 });
    ensures!("M01.locks: none stays held", g().locks == 0);
    reach!("cleared", cleared && a > 7);
    std::mem::forget(m);
}

/// What is done to one stream is not seen on another.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_isolation() {
    let m = StreamManager::new();
    let a = m.create_stream(String::from("a"));
    let b = m.create_stream(String::from("b"));
    ensures!("M01.write: accepted", is_ok(&now(m.write_chunk(a, data(10)))));
    ensures!("M01.isolated: nothing arrives on the other stream", { let mut f = m.read_chunk(b); let r = poll(&mut f); std::mem::forget(f); r.is_pending() });
    ensures!("M01.isolated: the chunk arrives on its own stream", is(&now(m.read_chunk(a)), 10));
    ensures!("M01.info: each has its own", m.get_stream_info(a).as_deref() == Some("a") && m.get_stream_info(b).as_deref() == Some("b"));
    std::mem::forget(m);
    reach!("end", true);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_close_one() {
    let m = StreamManager::new();
    let a = m.create_stream(String::new());
    let b = m.create_stream(String::new());
    ensures!("M01.write: accepted", m.try_write_chunk(a, data(10)).is_ok());
    ensures!("M01.write: accepted", m.try_write_chunk(b, data(20)).is_ok());
    m.close_stream(a);
    ensures!("M01.closed: no sender, no receiver, no record", !m.has_sender(a) && m.take_receiver(a).is_none() && m.get_stream_info(a).is_none());
    ensures!("M01.closed: writes fail", is_err(&now(m.write_chunk(a, data(11)))) && m.try_write_chunk(a, data(11)).is_err());
    ensures!("M01.closed: reads fail", is_err(&now(m.read_chunk(a))));
    ensures!("M01.isolated: the other stream is intact", m.has_sender(b) && m.active_count() == 1 && m.get_stream_info(b).is_some());
    ensures!("M01.isolated: and delivers its own chunk", is(&now(m.read_chunk(b)), 20));
    ensures!("M01.unknown: an id never given is refused", m.try_write_chunk(77, data(12)).is_err() && is_err(&now(m.read_chunk(77))) && !m.has_sender(77));
    std::mem::forget(m);
    reach!("end", true);
}

/// After clear, an old id reaches nothing, in particular not a later request's stream.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_clear() {
    let m = StreamManager::new();
    let a = m.create_stream(String::new());
    ensures!("M01.write: accepted", m.try_write_chunk(a, data(10)).is_ok());
    m.clear();
    ensures!("M01.clear: nothing is left", m.active_count() == 0 && !m.has_sender(a) && m.get_stream_info(a).is_none() && m.take_receiver(a).is_none());
    let n = m.create_stream(String::new());
    ensures!("M01.clear: a late write of the earlier request fails", m.try_write_chunk(a, data(11)).is_err() && is_err(&now(m.write_chunk(a, data(11)))));
    ensures!("M01.clear: a late read of the earlier request fails", is_err(&now(m.read_chunk(a))));
    m.close_stream(a);
    ensures!("M01.clear: a late close of the earlier request closes nothing", m.has_sender(n) && m.get_stream_info(n).is_some());
    ensures!("M01.clear: the new stream works", m.try_write_chunk(n, data(30)).is_ok() && is(&now(m.read_chunk(n)), 30));
    std::mem::forget(m);
    reach!("end", true);
}

/// A read in flight across close/clear does not revive its stream.
fn inflight(clear: bool) {
    let m = StreamManager::new();
    let a = m.create_stream(String::new());
    let mut rd = m.read_chunk(a);
    ensures!("M01.read: waits", poll(&mut rd).is_pending());
    // a producer is about to write: it holds its own sender
    let early = any_bool();
    if early { ensures!("M01.write: accepted", m.try_write_chunk(a, data(10)).is_ok()); }
    if clear { m.clear(); } else { m.close_stream(a); }
    let n = m.create_stream(String::new());
    ensures!("M01.write: accepted on the new stream", m.try_write_chunk(n, data(20)).is_ok());
    let r = poll(&mut rd);
    ensures!("M01.inflight: the old read ends, with its own chunk or an error", match &r { std::task::Poll::Ready(Ok(c)) => early && tag(c) == 10, std::task::Poll::Ready(Err(_)) => !early, _ => false });
    std::mem::forget(rd);
    ensures!("M01.inflight: the old stream stays gone", m.take_receiver(a).is_none() && is_err(&now(m.read_chunk(a))) && !m.has_sender(a));
    ensures!("M01.inflight: the new stream is untouched", is(&now(m.read_chunk(n)), 20));
    reach!("early", early);
    std::mem::forget(m);
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_inflight_close() { inflight(false) }
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m01_inflight_clear() { inflight(true) }
