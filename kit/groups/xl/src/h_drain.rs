//! E01: one drain of the callback channel.
use super::*;
use crate::env::*;
use vk::any::*;
use vk::{ensures, reach, requires};

struct R { rx: mpsc::UnboundedReceiver<CallbackMessage> }
impl EventLoopRuntime for R {
    fn callback_rx_mut(&mut self) -> &mut mpsc::UnboundedReceiver<CallbackMessage> { &mut self.rx }
    fn process_callback(&mut self, m: CallbackMessage) {
        ensures!("E01.order: messages are handled in the order they were sent, each once", m.id == w().next && m.n >= 1);
        ensures!("E01.pump_last: V8's own work comes after the messages", w().pumped == 0);
        w().next += m.n;
    }
    fn pump_and_checkpoint(&mut self) { w().pumped += 1; w().pumped_at = w().next; }
}
#[kani::proof]
#[kani::unwind(7)]
pub fn e01_drain() {
    let s = w();
    s.sent = any_u32();
    requires!(s.sent < 1 << 30);
    s.closed = any_bool();
    s.bursts = 3;
    let wk = task_waker(7);
    let mut cx = Context::from_waker(&wk);
    let mut r = R { rx: mpsc::UnboundedReceiver { id: CHAN, p: std::marker::PhantomData } };
    let mut buf: Vec<CallbackMessage> = Vec::with_capacity(16);
    let out = drain_and_process(&mut cx, &mut r, &mut buf);
    if s.closed {
        ensures!("E01.closed: a closed channel is reported", out.is_err());
    } else {
        ensures!("E01.all: every message there was is handled", out.is_ok() && s.next == s.sent);
        ensures!("E01.count: and counted", out == Ok(s.sent as usize));
        ensures!("E01.pumped: then V8's own work is run, once", s.pumped == 1 && s.pumped_at == s.sent);
        ensures!("E01.waiting: the poll's waker is left registered with the empty channel", s.idle_polled && s.taken == s.sent);
        ensures!("E01.buffer: nothing is left in the buffer for the next poll", buf.is_empty());
    }
    reach!("E01.none", out == Ok(0));
    reach!("E01.many", s.sent > 100 && s.bursts == 0 && out.is_ok());
    std::mem::forget(buf);
}
