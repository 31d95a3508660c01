//! AtomicBool with a ghost counter of the actions that set a flag (num[2]); used to state that a
//! reason is recorded before an isolate is told to stop.
use std::cell::Cell;
use std::sync::atomic::Ordering;
pub struct AtomicBool { v: Cell<bool>, magic: u32 }
unsafe impl Sync for AtomicBool {}
impl AtomicBool {
    pub const fn new(b: bool) -> Self { AtomicBool { v: Cell::new(b), magic: 0xB001 } }
    pub fn load(&self, _: Ordering) -> bool { self.v.get() }
    fn put(&self, b: bool) { if b { crate::ghost::g().num[2] += 1; } self.v.set(b) }
    pub fn store(&self, b: bool, _: Ordering) { self.put(b) }
    pub fn swap(&self, b: bool, _: Ordering) -> bool { let o = self.v.get(); self.put(b); o }
    pub fn fetch_or(&self, b: bool, _: Ordering) -> bool { let o = self.v.get(); self.put(o | b); o }
    pub fn fetch_and(&self, b: bool, _: Ordering) -> bool { let o = self.v.get(); self.v.set(o & b); o }
    pub fn fetch_xor(&self, b: bool, _: Ordering) -> bool { let o = self.v.get(); self.put(o ^ b); o }
    pub fn fetch_not(&self, _: Ordering) -> bool { let o = self.v.get(); self.put(!o); o }
    pub fn compare_exchange(&self, a: bool, b: bool, _: Ordering, _: Ordering) -> Result<bool, bool> {
        let o = self.v.get();
        if o == a { self.put(b); Ok(o) } else { Err(o) }
    }
    pub fn compare_exchange_weak(&self, a: bool, b: bool, x: Ordering, y: Ordering) -> Result<bool, bool> { self.compare_exchange(a, b, x, y) }
}
impl Default for AtomicBool { fn default() -> Self { AtomicBool::new(false) } }
impl std::fmt::Debug for AtomicBool { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
