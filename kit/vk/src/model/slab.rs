//! Arc, assumed contract: shared ownership of one value; the value is destroyed when the last handle
//! goes. Types the harness registers (`impl Slab`) live in a static typed pool, which keeps the
//! verifier's view of them typed; others on the heap.
use std::cell::{Cell, UnsafeCell};
use std::mem::ManuallyDrop;
use std::ops::Deref;
pub struct Inner<T> { pub n: Cell<usize>, pub magic: u32, pub t: UnsafeCell<ManuallyDrop<T>> }
impl<T> Inner<T> { pub fn vp_new(t: T) -> Self { Inner { n: Cell::new(1), magic: 0xA8C, t: UnsafeCell::new(ManuallyDrop::new(t)) } }
    pub fn vp_ref(&self) -> &T { unsafe { &**self.t.get() } } }
pub trait Slab: Sized { fn place(i: Inner<Self>) -> *const Inner<Self>; fn end(i: &Inner<Self>);
    /// the place a handle refers to (a harness with a single value names it, proving that it is the one)
    fn at(p: *const Inner<Self>) -> *const Inner<Self>; }
#[cfg(kani)]
impl<T> Slab for T { default fn place(i: Inner<T>) -> *const Inner<T> { Box::leak(Box::new(i)) } default fn at(p: *const Inner<T>) -> *const Inner<T> { p }
    default fn end(i: &Inner<T>) { unsafe { ManuallyDrop::drop(&mut *i.t.get()) } } }
#[cfg(not(kani))]
impl<T> Slab for T { fn at(p: *const Inner<T>) -> *const Inner<T> { p } fn place(i: Inner<T>) -> *const Inner<T> { Box::leak(Box::new(i)) } fn end(i: &Inner<T>) { unsafe { ManuallyDrop::drop(&mut *i.t.get()) } } }
pub struct Arc<T> { p: *const Inner<T> }
impl<T> Arc<T> {
    pub fn new(t: T) -> Self { Arc { p: <T as Slab>::place(Inner::vp_new(t)) } }
    fn i(&self) -> &Inner<T> { unsafe { &*<T as Slab>::at(self.p) } }
    /// one more handle to a value the harness keeps
    pub fn vp_at(i: &'static Inner<T>) -> Self { i.n.set(i.n.get() + 1); Arc { p: i } }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { std::ptr::eq(a.p, b.p) }
    pub fn strong_count(a: &Self) -> usize { a.i().n.get() }
    pub fn as_ptr(a: &Self) -> *const T { &**a }
    pub fn get_mut(a: &mut Self) -> Option<&mut T> { if a.i().n.get() == 1 { Some(unsafe { &mut *a.i().t.get() }) } else { None } }
}
impl<T> Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.i().t.get() } } }
impl<T> Clone for Arc<T> { fn clone(&self) -> Self { let c = &self.i().n; c.set(c.get() + 1); Arc { p: self.p } } }
impl<T> Drop for Arc<T> {
    fn drop(&mut self) {
        let i = self.i();
        let n = i.n.get();
        i.n.set(n.wrapping_sub(1));
        if n == 1 { <T as Slab>::end(i) }
    }
}
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T> From<T> for Arc<T> { fn from(t: T) -> Self { Arc::new(t) } }
impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
unsafe impl<T> Send for Arc<T> {}
unsafe impl<T> Sync for Arc<T> {}
impl<T> std::fmt::Debug for Arc<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
