//! Arc, assumed contract: shared ownership of one value. The value sits in the first handle (so that
//! the verifier keeps its type); clones refer to it. The first handle must outlive its clones and
//! stay where it is from the first clone on (checked: `MODEL`).
use std::cell::Cell;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::Deref;
pub struct Arc<T> { own: ManuallyDrop<T>, at: Cell<*const Arc<T>>, n: Cell<usize> }
impl<T> Arc<T> {
    pub const fn new(t: T) -> Self { Arc { own: ManuallyDrop::new(t), at: Cell::new(std::ptr::null()), n: Cell::new(1) } }
    fn home(&self) -> &Arc<T> { if self.n.get() == 0 { unsafe { &*self.at.get() } } else { self } }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { std::ptr::eq(a.home(), b.home()) }
    pub fn strong_count(a: &Self) -> usize { a.home().n.get() }
    pub fn as_ptr(a: &Self) -> *const T { &**a }
}
impl<T> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T { &self.home().own }
}
impl<T> Clone for Arc<T> {
    fn clone(&self) -> Self {
        let h = self.home();
        if h.n.get() == 1 { h.at.set(h); } else { assert!(std::ptr::eq(h.at.get(), h), "MODEL: Arc moved after a clone"); }
        h.n.set(h.n.get() + 1);
        // a clone holds no value of its own
        #[allow(invalid_value, clippy::uninit_assumed_init)]
        Arc { own: unsafe { MaybeUninit::uninit().assume_init() }, at: Cell::new(h), n: Cell::new(0) }
    }
}
impl<T> Drop for Arc<T> {
    fn drop(&mut self) {
        if self.n.get() == 0 { let h = self.home(); h.n.set(h.n.get() - 1); }
        else { assert!(self.n.get() == 1, "MODEL: the first Arc handle dropped before its clones"); unsafe { ManuallyDrop::drop(&mut self.own) } }
    }
}
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T> From<T> for Arc<T> { fn from(t: T) -> Self { Arc::new(t) } }
impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
unsafe impl<T> Send for Arc<T> {}
unsafe impl<T> Sync for Arc<T> {}
impl<T> std::fmt::Debug for Arc<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
