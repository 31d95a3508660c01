//! tokio::sync::mpsc, assumed contract: a FIFO queue with a capacity (exact for an unknown prefix of
//! any length plus a few explicit messages); `recv` ends when every sender is gone and the queue is
//! empty; `send` waits while the queue is full and fails once the receiver is gone.
use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};
use vk::ghost::g;
use vk::model::deque::Fab;

pub const CHANS: usize = 4;
pub const CAP: usize = 4;
/// Channel state lives in a typed pool (what is left in a closed channel is leaked, not dropped):
/// `virt` unknown messages (tickets from `base`), then `n` explicit ones.
pub struct Meta { pub magic: u64, cap: usize, pub virt: usize, base: u64, n: usize, real: [*mut u8; CAP], tx: usize, rx: bool, pub rx_waits: bool, pub tx_waits: bool }
pub struct Pool { magic: u64, n: usize, pub c: [Meta; CHANS] }
const M0: Meta = Meta { magic: 0xC4A, cap: 0, virt: 0, base: 100, n: 0, real: [std::ptr::null_mut(); CAP], tx: 1, rx: true, rx_waits: false, tx_waits: false };
pub static mut POOL: Pool = Pool { magic: 0xC4A1, n: 0, c: [M0; CHANS] };
pub fn pool() -> &'static mut Pool { unsafe { &mut *(&raw mut POOL) } }
struct R<T: 'static>(usize, std::marker::PhantomData<T>);
impl<T: 'static> Clone for R<T> { fn clone(&self) -> Self { R(self.0, self.1) } }
impl<T: 'static> R<T> {
    fn new(cap: usize) -> R<T> {
        let i = pool().n;
        assert!(i < CHANS, "MODEL: number of channels");
        pool().n = i + 1;
        let r = R(i, std::marker::PhantomData);
        r.m().cap = cap;
        r.m().virt = g().next_prefix;
        g().next_prefix = 0;
        r
    }
    fn m(&self) -> &'static mut Meta { &mut pool().c[self.0] }
    fn len(&self) -> usize { self.m().virt + self.m().n }
    fn push(&self, t: T) {
        let m = self.m();
        assert!(m.n < CAP, "MODEL: channel contents");
        m.real[m.n] = Box::into_raw(Box::new(t)) as *mut u8;
        m.n += 1;
        m.rx_waits = false;
    }
    fn pop(&self) -> Option<T> {
        let m = self.m();
        if m.virt > 0 {
            let b = m.base;
            m.base = b + 1;
            m.virt -= 1;
            m.tx_waits = false;
            return Some(T::vp_fab(b));
        }
        if m.n == 0 { return None; }
        let p = m.real[0];
        for i in 1..CAP { m.real[i - 1] = m.real[i]; }
        m.n -= 1;
        m.tx_waits = false;
        Some(unsafe { *Box::from_raw(p as *mut T) })
    }
    fn open(&self) -> bool { self.m().rx }
    fn full(&self) -> bool { self.len() >= self.m().cap }
    fn ended(&self) -> bool { self.m().tx == 0 || !self.m().rx }
    fn recv(&self, _cx: &mut Context<'_>) -> Poll<Option<T>> {
        match self.pop() {
            Some(t) => Poll::Ready(Some(t)),
            None => if self.ended() { Poll::Ready(None) } else { self.m().rx_waits = true; Poll::Pending },
        }
    }
    fn try_recv(&self) -> Result<T, error::TryRecvError> {
        match self.pop() {
            Some(t) => Ok(t),
            None => Err(if self.ended() { error::TryRecvError::Disconnected } else { error::TryRecvError::Empty }),
        }
    }
    fn close(&self) { self.m().rx = false; self.m().tx_waits = false; }
    fn add_tx(&self) { self.m().tx += 1; }
    fn sub_tx(&self) { self.m().tx -= 1; if self.m().tx == 0 { self.m().rx_waits = false; } }
}
// The futures are plain structs: nested compiler-generated ones cost the verifier its constants.
pub struct SendFut<'a, T: 'static> { c: &'a R<T>, full: u64, t: MaybeUninit<T> }
impl<T: 'static> SendFut<'_, T> { fn take(&mut self) -> T { assert!(self.full == 1, "`async fn` resumed after completion"); self.full = 2; unsafe { self.t.assume_init_read() } } }
impl<T: 'static> Unpin for SendFut<'_, T> {}
impl<T: 'static> Future for SendFut<'_, T> {
    type Output = Result<(), error::SendError<T>>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.c.open() { return Poll::Ready(Err(error::SendError(self.take()))) }
        if self.c.full() { self.c.m().tx_waits = true; return Poll::Pending }
        let t = self.take();
        self.c.push(t);
        Poll::Ready(Ok(()))
    }
}
impl<T: 'static> Drop for SendFut<'_, T> { fn drop(&mut self) { if self.full == 1 { unsafe { self.t.assume_init_drop() } } } }
pub struct Recv<'a, T: 'static> { c: &'a R<T> }
impl<T: 'static> Future for Recv<'_, T> { type Output = Option<T>; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { self.c.recv(cx) } }
pub struct Closed<'a, T: 'static> { c: &'a R<T> }
impl<T: 'static> Future for Closed<'_, T> { type Output = (); fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> { if self.c.open() { Poll::Pending } else { Poll::Ready(()) } } }
pub fn channel<T: 'static>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
    assert!(cap <= usize::MAX >> 3, "a semaphore may not have more than MAX_PERMITS permits");
    let c = R::new(cap);
    (Sender { c: c.clone() }, Receiver { c })
}
pub struct Sender<T: 'static> { c: R<T> }
pub struct Receiver<T: 'static> { c: R<T> }
unsafe impl<T: 'static> std::marker::Send for Sender<T> {}
unsafe impl<T: 'static> Sync for Sender<T> {}
unsafe impl<T: 'static> std::marker::Send for Receiver<T> {}
impl<T: 'static> Clone for Sender<T> { fn clone(&self) -> Self { self.c.add_tx(); Sender { c: self.c.clone() } } }
impl<T: 'static> Drop for Sender<T> { fn drop(&mut self) { self.c.sub_tx(); } }
impl<T: 'static> Drop for Receiver<T> { fn drop(&mut self) { self.c.close(); } }
impl<T: 'static> Sender<T> {
    pub fn send(&self, t: T) -> SendFut<'_, T> { SendFut { c: &self.c, full: 1, t: MaybeUninit::new(t) } }
    pub fn try_send(&self, t: T) -> Result<(), error::TrySendError<T>> {
        if !self.c.open() { return Err(error::TrySendError::Closed(t)) }
        if self.c.full() { return Err(error::TrySendError::Full(t)) }
        self.c.push(t);
        Ok(())
    }
    pub fn closed(&self) -> Closed<'_, T> { Closed { c: &self.c } }
    pub fn is_closed(&self) -> bool { !self.c.open() }
    pub fn capacity(&self) -> usize { self.c.m().cap - self.c.len() }
    pub fn max_capacity(&self) -> usize { self.c.m().cap }
    pub fn same_channel(&self, o: &Self) -> bool { self.c.0 == o.c.0 }
}
impl<T: 'static> Receiver<T> {
    pub fn recv(&mut self) -> Recv<'_, T> { Recv { c: &self.c } }
    pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> { self.c.recv(cx) }
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { self.c.try_recv() }
    pub fn close(&mut self) { self.c.close() }
    pub fn len(&self) -> usize { self.c.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn is_closed(&self) -> bool { !self.c.open() || self.c.m().tx == 0 }
    pub fn max_capacity(&self) -> usize { self.c.m().cap }
    pub fn capacity(&self) -> usize { self.c.m().cap - self.c.len() }
}
impl<T: 'static> std::fmt::Debug for Sender<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: 'static> std::fmt::Debug for Receiver<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

pub fn unbounded_channel<T: 'static>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let c = R::new(usize::MAX);
    (UnboundedSender { c: c.clone() }, UnboundedReceiver { c })
}
pub struct UnboundedSender<T: 'static> { c: R<T> }
pub struct UnboundedReceiver<T: 'static> { c: R<T> }
unsafe impl<T: 'static> std::marker::Send for UnboundedSender<T> {}
unsafe impl<T: 'static> Sync for UnboundedSender<T> {}
unsafe impl<T: 'static> std::marker::Send for UnboundedReceiver<T> {}
impl<T: 'static> Clone for UnboundedSender<T> { fn clone(&self) -> Self { self.c.add_tx(); UnboundedSender { c: self.c.clone() } } }
impl<T: 'static> Drop for UnboundedSender<T> { fn drop(&mut self) { self.c.sub_tx(); } }
impl<T: 'static> Drop for UnboundedReceiver<T> { fn drop(&mut self) { self.c.close(); } }
impl<T: 'static> UnboundedSender<T> {
    pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
        if !self.c.open() { return Err(error::SendError(t)) }
        self.c.push(t);
        Ok(())
    }
    pub fn is_closed(&self) -> bool { !self.c.open() }
}
impl<T: 'static> UnboundedReceiver<T> {
    pub fn recv(&mut self) -> Recv<'_, T> { Recv { c: &self.c } }
    pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> { self.c.recv(cx) }
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { self.c.try_recv() }
    pub fn close(&mut self) { self.c.close() }
    pub fn len(&self) -> usize { self.c.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}
impl<T: 'static> std::fmt::Debug for UnboundedSender<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: 'static> std::fmt::Debug for UnboundedReceiver<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

pub mod error {
    pub struct SendError<T>(pub T);
    pub enum TrySendError<T> { Full(T), Closed(T) }
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum TryRecvError { Empty, Disconnected }
    impl<T> TrySendError<T> { pub fn into_inner(self) -> T { match self { TrySendError::Full(t) | TrySendError::Closed(t) => t } } }
    impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<T> std::fmt::Display for TrySendError<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<T> std::error::Error for SendError<T> {}
    impl<T> std::error::Error for TrySendError<T> {}
}
