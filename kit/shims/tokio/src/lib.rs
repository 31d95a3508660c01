//! Model of the parts of tokio the mirrored sources use.
#![allow(static_mut_refs, dead_code)]
pub mod runtime {
    use std::future::Future;
    use std::pin::pin;
    use std::task::{Context, Poll, Waker};
    pub struct Builder;
    impl Builder {
        pub fn new_current_thread() -> Builder { Builder }
        pub fn new_multi_thread() -> Builder { Builder }
        pub fn enable_all(&mut self) -> &mut Self { self }
        pub fn enable_io(&mut self) -> &mut Self { self }
        pub fn enable_time(&mut self) -> &mut Self { self }
        pub fn build(&mut self) -> Result<Runtime, vk::model::io::Error> { Ok(Runtime) }
    }
    pub struct Runtime;
    impl Runtime {
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = pin!(f);
            let mut cx = Context::from_waker(Waker::noop());
            match f.as_mut().poll(&mut cx) { Poll::Ready(v) => v, Poll::Pending => panic!("MODEL: block_on pending") }
        }
    }
}

pub mod sync;
pub mod task;
pub use task::spawn;
