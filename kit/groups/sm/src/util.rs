use vk::model::string::String;
use crate::stream_manager::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use vk::ghost::g;
use vk::*;

/// Unknown earlier chunks: data, ticket as identity.
impl vk::model::deque::Fab for StreamChunk { fn vp_fab(t: u64) -> Self { StreamChunk::Data(bytes::Bytes::vp_opaque(t, any_len())) } }

/// one poll of a future that stays where it is (its owner pins it by not moving it)
pub fn poll<F: Future>(f: &mut F) -> Poll<F::Output> {
    let r = unsafe { Pin::new_unchecked(f) }.poll(&mut Context::from_waker(Waker::noop()));
    if r.is_pending() { ensures!("M02.locks: no internal lock is held while waiting", g().locks == 0); }
    r
}
/// run a future expected to finish at once
pub fn now<F: Future>(mut f: F) -> Option<F::Output> {
    match poll(&mut f) { Poll::Ready(r) => Some(r), Poll::Pending => None }
}
/// chunks have any length, none included
pub fn any_len() -> usize { let n = any_usize(); vk::any::assume(n < 1 << 40); n }
pub static mut LEN: [u64; 2] = [0x1E4, 0];
/// the length of the chunk made last
pub fn last_len() -> usize { unsafe { LEN[1] as usize } }
pub fn data(tag: u64) -> StreamChunk { let n = any_len(); if tag == 10 { unsafe { LEN[1] = n as u64; } } StreamChunk::Data(bytes::Bytes::vp_opaque(tag, n)) }
/// identity of a chunk: data -> its tag (checked unaltered), done -> 1, error -> 2
pub fn tag(c: &StreamChunk) -> u64 {
    match c { StreamChunk::Data(b) => b.tag, StreamChunk::Done => 1, StreamChunk::Error(_) => 2 }
}
pub fn is(r: &Option<Result<StreamChunk, String>>, t: u64) -> bool {
    match r { Some(Ok(c)) => tag(c) == t, _ => false }
}
pub fn is_err<T>(r: &Option<Result<T, String>>) -> bool { matches!(r, Some(Err(_))) }
pub fn is_ok<T>(r: &Option<Result<T, String>>) -> bool { matches!(r, Some(Ok(_))) }
