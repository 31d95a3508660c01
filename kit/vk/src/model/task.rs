//! Assumed contract of std's task context: a waker names a task, and a wake is recorded.
pub struct Wakes { pub magic: u64, pub wakes: u32, pub last: u64, pub flagged: bool, pub locks: u32 }
pub static mut WAKES: Wakes = Wakes { magic: 0x3A3B, wakes: 0, last: 0, flagged: false, locks: 0 };
pub fn wakes() -> &'static mut Wakes { unsafe { &mut *(&raw mut WAKES) } }
#[derive(Debug)]
pub struct Waker { pub id: u64 }
impl Clone for Waker { fn clone(&self) -> Waker { Waker { id: self.id } } }
impl Waker {
    fn vp_record(&self) { let w = wakes(); w.wakes += 1; w.last = self.id; w.locks = crate::ghost::g().locks as u32; w.flagged = crate::ghost::g().num[2] > 0; }
    pub fn wake(self) { self.vp_record() }
    pub fn wake_by_ref(&self) { self.vp_record() }
    pub fn will_wake(&self, o: &Waker) -> bool { self.id == o.id }
    pub fn clone_from(&mut self, o: &Waker) { self.id = o.id }
}
pub struct Context<'a> { w: &'a Waker }
impl<'a> Context<'a> {
    pub fn from_waker(w: &'a Waker) -> Self { Context { w } }
    pub fn waker(&self) -> &'a Waker { self.w }
}
