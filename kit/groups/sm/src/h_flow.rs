//! Property M02: order, backpressure, single reader, termination.
use vk::model::string::String;
use crate::stream_manager::*;
use crate::util::*;
use std::task::Poll;
use vk::ghost::g;
use vk::*;

/// A stream of any high-water mark `h` with any number `n <= h` of earlier chunks (tickets from 100).
fn any_stream() -> (StreamManager, StreamId, usize, usize) {
    let h = any_usize();
    let n = any_usize();
    requires!(h >= 1 && h <= 1 << 40 && n <= h);
    let m = StreamManager::with_high_water_mark(h);
    g().next_prefix = n;
    let a = m.create_stream(String::new());
    (m, a, h, n)
}

/// Non-waiting write: accepted exactly while fewer than `h` chunks are buffered.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_try_write() {
    let (m, a, h, n) = any_stream();
    let r = m.try_write_chunk(a, data(10));
    ensures!("M02.bound: accepted exactly below the high-water mark", r.is_ok() == (n < h));
    ensures!("M02.bound: a refused writer keeps its stream", m.has_sender(a) && m.active_count() == 1 && m.get_stream_info(a).is_some());
    let rx = m.take_receiver(a);
    ensures!("M02.bound: exactly the accepted chunks are buffered", rx.is_some());
    let mut rx = rx.unwrap();
    ensures!("M02.bound: exactly the accepted chunks are buffered", rx.len() == n + r.is_ok() as usize && rx.len() <= h);
    ensures!("M02.taken: the receiver can be taken once", m.take_receiver(a).is_none() && is_err(&now(m.read_chunk(a))));
    if rx.len() > 0 {
        let c = rx.try_recv();
        ensures!("M02.fifo: the oldest chunk comes first", matches!(&c, Ok(c) if tag(c) == if n > 0 { 100 } else { 10 }));
    }
    reach!("full", n == h && h > 3);
    reach!("room", n == 0);
    std::mem::forget((m, rx));
}

/// Waiting write: waits exactly while full, then appends once.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_write_waits() {
    let (m, a, h, n) = any_stream();
    let mut w = m.write_chunk(a, data(10));
    let p = poll(&mut w);
    ensures!("M02.wait: a writer waits exactly while the buffer is full", p.is_pending() == (n == h));
    if p.is_pending() {
        ensures!("M02.wait: still waiting while nothing is read", poll(&mut w).is_pending());
        ensures!("M02.fifo: the reader gets the oldest chunk", is(&now(m.read_chunk(a)), 100));
        ensures!("M02.wait: then the writer goes on", matches!(poll(&mut w), Poll::Ready(Ok(()))));
    }
    std::mem::forget(w);
    let rx = m.take_receiver(a).unwrap();
    ensures!("M02.bound: the chunk is buffered once", rx.len() == if n == h { n } else { n + 1 });
    reach!("full", n == h && h > 3);
    std::mem::forget((m, rx));
}

/// Order and content, with a concrete number of earlier chunks; termination.
fn order(n: usize) {
    let m = StreamManager::with_high_water_mark(4);
    g().next_prefix = n;
    let a = m.create_stream(String::new());
    ensures!("M02.write: accepted", is_ok(&now(m.write_chunk(a, data(10)))));
    ensures!("M02.write: accepted", m.try_write_chunk(a, data(11)).is_ok());
    let by_error = any_bool();
    ensures!("M02.write: accepted", is_ok(&now(m.write_chunk(a, if by_error { StreamChunk::Error(String::new()) } else { StreamChunk::Done }))));
    let mut i = 0;
    while i < n { ensures!("M02.fifo: earlier chunks first, in order", is(&now(m.read_chunk(a)), 100 + i as u64)); i += 1; }
    let r = now(m.read_chunk(a));
    ensures!("M02.fifo: then the next, unaltered", matches!(&r, Some(Ok(StreamChunk::Data(b))) if b.tag == 10 && b.len() == last_len()));
    ensures!("M02.fifo: then the next", is(&now(m.read_chunk(a)), 11));
    ensures!("M02.end: then the end marker", is(&now(m.read_chunk(a)), 1 + by_error as u64));
    ensures!("M02.end: after the end nothing can be read", is_err(&now(m.read_chunk(a))) && m.take_receiver(a).is_none());
    ensures!("M02.end: nor written", m.try_write_chunk(a, data(12)).is_err() && is_err(&now(m.write_chunk(a, data(12)))));
    ensures!("M02.end: and the writing side is told so", !m.has_sender(a));
    reach!("error", by_error);
    std::mem::forget(m);
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_order0() { order(0) }
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_order1() { order(1) }

/// One reader at a time; a refused reader disturbs nothing.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_single_reader() {
    let m = StreamManager::new();
    let a = m.create_stream(String::new());
    let mut r1 = m.read_chunk(a);
    ensures!("M02.read: waits for a chunk", poll(&mut r1).is_pending());
    ensures!("M02.single: a second reader is refused", is_err(&now(m.read_chunk(a))) && m.take_receiver(a).is_none());
    ensures!("M02.write: accepted", is_ok(&now(m.write_chunk(a, data(10)))));
    ensures!("M02.single: the chunk goes to the first reader", matches!(poll(&mut r1), Poll::Ready(Ok(c)) if tag(&c) == 10));
    std::mem::forget(r1);
    ensures!("M02.write: accepted", m.try_write_chunk(a, data(11)).is_ok());
    ensures!("M02.single: afterwards the stream can be read again", is(&now(m.read_chunk(a)), 11));
    std::mem::forget(m);
    reach!("end", true);
}

/// The consumer goes away: the writer is told, by an error, and the stream counts as closed.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn m02_disconnect() {
    let (m, a, h, n) = any_stream();
    let waiting = any_bool();
    let mut w = m.write_chunk(a, data(10));
    if waiting { requires!(n == h); ensures!("M02.wait: full", poll(&mut w).is_pending()); }
    let rx = m.take_receiver(a);
    drop(rx);
    if waiting || any_bool() {
        let p = poll(&mut w);
        ensures!("M02.gone: a (waiting) writer gets an error", matches!(p, Poll::Ready(Err(_))));
    } else {
        ensures!("M02.gone: a non-waiting writer gets an error", m.try_write_chunk(a, data(12)).is_err());
    }
    std::mem::forget(w);
    ensures!("M02.gone: the stream has no sender any more", !m.has_sender(a) && m.active_count() == 0);
    reach!("waiting", waiting);
    reach!("room", !waiting && n < h);
    std::mem::forget(m);
}
