//! E02: the same loop as a future.
use super::*;
use crate::env::*;
use crate::ec_loop::h_loop::{any_ec, config};
use vk::any::*;
use vk::{ensures, reach, requires};

#[kani::proof]
#[kani::unwind(7)]
pub fn e02_future_poll() {
    let (c, a) = config();
    let s = w();
    let mut ec = any_ec();
    // the caller holds the lock and the turn
    let (pooled, queued) = (s.pooled, s.queued);
    s.pooled = false;
    s.queued = false;
    let wall = TimeoutGuard::vp();
    s.cpu_some = any_bool();
    let cpu = if s.cpu_some { Some(CpuEnforcer::vp()) } else { None };
    let wk = task_waker(7);
    let mut cx = Context::from_waker(&wk);
    let mut f = WorkerFuture::new(&mut ec, &wall, &cpu, c, a);
    for _ in 0..2 {
        before_poll();
        let p = Pin::new(&mut f).poll(&mut cx);
        match p {
            Poll::Pending => after_poll(Out::Pending),
            Poll::Ready(Ok(())) => { after_poll(Out::Exited); reach!("E02.future_exit", s.polls == 2); break }
            Poll::Ready(Err(_)) => { after_poll(Out::Failed); break }
        }
    }
    std::mem::forget(f);
    std::mem::forget(ec);
    std::mem::forget(wall);
    std::mem::forget(cpu);
}
