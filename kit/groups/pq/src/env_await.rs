//! An await that may be the last thing a request does: its future is abandoned there.
use crate::owc::TerminationReason;
pub struct Plan { magic: u64, pub n: u32, pub leave: u32, pub left: bool, pub check: fn() }
fn nothing() {}
pub static mut PLAN: Plan = Plan { magic: 0x91A7, n: 0, leave: 0, left: false, check: nothing };
pub fn plan() -> &'static mut Plan { unsafe { &mut *(&raw mut PLAN) } }
pub trait VpAwait: std::future::Future + Sized {
    fn vp_await(self) -> Result<Self::Output, TerminationReason> {
        let p = plan();
        p.n += 1;
        (p.check)();
        // waiting: the request may be abandoned before the future's first poll or after it
        if p.leave == 2 * p.n - 1 { p.left = true; return Err(TerminationReason::Aborted); }
        let mut f = std::pin::pin!(self);
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => if p.leave == 2 * p.n { p.left = true; Err(TerminationReason::Aborted) } else { Ok(v) },
            std::task::Poll::Pending => panic!("MODEL: pending"),
        }
    }
}
impl<F: std::future::Future> VpAwait for F {}
