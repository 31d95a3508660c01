//! std::sync::mpsc, assumed contract, sequential view; whether a timeout elapses is decided by the
//! scheduler ghost (`thread::table().expire`). At most one message is kept per channel.
use std::cell::{Cell, UnsafeCell};
use super::time::Duration;
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError};

struct Chan<T> { magic: u64, q: UnsafeCell<Option<T>>, n: Cell<u32>, senders: Cell<u32>, rx: Cell<bool> }
type P<T> = *mut Chan<T>;
pub struct Sender<T>(P<T>);
pub struct SyncSender<T>(P<T>);
pub struct Receiver<T>(P<T>);
unsafe impl<T> Send for Sender<T> {}
unsafe impl<T> Sync for Sender<T> {}
unsafe impl<T> Send for Receiver<T> {}
/// ghost: total nanoseconds the running thread let elapse (secs, nanos kept apart: no division)
pub struct Waits { pub magic: u64, pub recv_timeouts: u32, pub waited: Duration, pub blocked: u32 }
pub static mut WAITS: Waits = Waits { magic: 0x3A17_0000_0000_0001, recv_timeouts: 0, waited: Duration::from_nanos(0), blocked: 0 };
pub fn waits() -> &'static mut Waits { unsafe { &mut *(&raw mut WAITS) } }
pub fn elapse(d: Duration, _sleep: bool) {
    let w = waits();
    let t = super::thread::table();
    assert!(t.expire || !t.in_join, "OBLIGATION guard.drop: joining must not have to wait for the timeout");
    if w.recv_timeouts == 0 { w.waited = d; } else { w.waited = w.waited.saturating_add(d); }
    w.recv_timeouts += 1;
}
fn chan<T>() -> P<T> { Box::into_raw(Box::new(Chan { magic: 3, q: UnsafeCell::new(None), n: Cell::new(0), senders: Cell::new(1), rx: Cell::new(true) })) }
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = chan(); (Sender(c), Receiver(c)) }
pub fn sync_channel<T>(_n: usize) -> (SyncSender<T>, Receiver<T>) { let c = chan(); (SyncSender(c), Receiver(c)) }
fn put<T>(c: P<T>, t: T) -> Result<(), SendError<T>> {
    let c = unsafe { &*c };
    if !c.rx.get() { return Err(SendError(t)); }
    if c.n.get() == 0 { unsafe { *c.q.get() = Some(t) }; }
    c.n.set(c.n.get() + 1);
    Ok(())
}
fn take<T>(c: P<T>) -> Option<T> { unsafe { (*(*c).q.get()).take() } }
impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { put(self.0, t) } }
impl<T> SyncSender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { put(self.0, t) } }
fn inc<T>(c: P<T>) { let c = unsafe { &*c }; c.senders.set(c.senders.get() + 1); }
fn dec<T>(c: P<T>) { let c = unsafe { &*c }; c.senders.set(c.senders.get() - 1); }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { inc(self.0); Sender(self.0) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { dec(self.0) } }
impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { inc(self.0); SyncSender(self.0) } }
impl<T> Drop for SyncSender<T> { fn drop(&mut self) { dec(self.0) } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { unsafe { (*self.0).rx.set(false) } } }
impl<T> Receiver<T> {
    fn gone(&self) -> bool { unsafe { (*self.0).senders.get() == 0 } }
    /// If a message is queued: Ok. Else if every sender is gone: Disconnected. Else the call blocks
    /// until the timeout, which is only possible when the scheduler lets `d` elapse.
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let v = take(self.0);
        if let Some(v) = v { return Ok(v); }
        if self.gone() { return Err(RecvTimeoutError::Disconnected); }
        elapse(d, false);
        Err(RecvTimeoutError::Timeout)
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let v = take(self.0);
        if let Some(v) = v { return Ok(v); }
        if self.gone() { return Err(RecvError); }
        panic!("OBLIGATION watchdog: blocks without a timeout");
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let v = take(self.0);
        if let Some(v) = v { return Ok(v); }
        if self.gone() { return Err(TryRecvError::Disconnected); }
        Err(TryRecvError::Empty)
    }
}
