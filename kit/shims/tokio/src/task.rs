//! Spawned tasks are kept for the harness, which decides when each of them is polled.
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
pub struct Tasks { pub magic: u64, pub n: usize, pub t: [Option<Pin<Box<dyn Future<Output = ()>>>>; 4] }
pub static mut TASKS: Tasks = Tasks { magic: 0x7A5C, n: 0, t: [const { None }; 4] };
pub fn tasks() -> &'static mut Tasks { unsafe { &mut *(&raw mut TASKS) } }
pub struct JoinHandle<T> { slot: usize, _t: std::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
    pub fn vp_new() -> Self { JoinHandle { slot: 9, _t: std::marker::PhantomData } }
    pub fn abort(&self) { for i in 0..4 { if i == self.slot { tasks().t[i] = None; } } }
    pub fn is_finished(&self) -> bool { for i in 0..4 { if i == self.slot { return tasks().t[i].is_none(); } } true }
    pub fn abort_handle(&self) -> AbortHandle { AbortHandle { slot: self.slot } }
}
pub struct AbortHandle { slot: usize }
impl AbortHandle { pub fn abort(&self) { for i in 0..4 { if i == self.slot { tasks().t[i] = None; } } } }
fn put<F: Future + 'static>(f: F) -> usize {
    let ts = tasks();
    let slot = ts.n;
    assert!(slot < 4, "MODEL: number of spawned tasks");
    ts.n += 1;
    let b: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move { let _ = f.await; });
    for i in 0..4 { if i == slot { ts.t[i] = Some(b); break; } }
    slot
}
pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> { JoinHandle { slot: put(f), _t: std::marker::PhantomData } }
pub fn spawn_local<F: Future + 'static>(f: F) -> JoinHandle<F::Output> { spawn(f) }
/// ghost: poll task `i` once; true when it has ended
pub fn vp_poll(i: usize) -> bool {
    let ts = tasks();
    let mut done = true;
    if let Some(f) = ts.t[i].as_mut() {
        let mut cx = Context::from_waker(Waker::noop());
        done = f.as_mut().poll(&mut cx).is_ready();
    }
    if done { ts.t[i] = None; }
    done
}
#[allow(dead_code)]
type U = UnsafeCell<()>;
