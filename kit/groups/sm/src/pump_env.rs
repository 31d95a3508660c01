//! What surrounds the pump: its task, and write_chunk by contract.
use crate::sm_pump::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use vk::model::string::String;

pub mod tokio {
    pub use ::tokio::*;
    pub use super::spawn;
    pub mod task { pub use ::tokio::task::*; pub use super::super::spawn; }
}
/// The spawned task stays on this frame while the scenario decides when it is polled.
pub fn spawn<F: Future<Output = ()>>(mut f: F) -> ::tokio::task::JoinHandle<()> {
    crate::h_pump::scenario(&mut || unsafe { Pin::new_unchecked(&mut f) }.poll(&mut Context::from_waker(Waker::noop())).is_ready());
    std::mem::forget(f);
    ::tokio::task::JoinHandle::vp_new()
}
/// Contract of write_chunk (M02): an unknown or closed stream is an error; waits exactly while the
/// buffer is full; then the chunk is appended once.
pub struct Write<'a> { m: &'a StreamManager, id: StreamId, c: StreamChunk }
impl StreamManager { pub fn write_chunk(&self, id: StreamId, c: StreamChunk) -> Write<'_> { Write { m: self, id, c } } }
impl Unpin for Write<'_> {}
impl Future for Write<'_> {
    type Output = Result<(), String>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.m.try_write_chunk(self.id, self.c.clone()) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(e) => if self.m.has_sender(self.id) { Poll::Pending } else { Poll::Ready(Err(e)) },
        }
    }
}
