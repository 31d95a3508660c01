//! Assumed contracts of std's locks, in the sequential (atomic-action) view: a critical section is
//! one action; re-acquiring a lock that this flow already holds is a self-deadlock and fails.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub struct Mutex<T: ?Sized> { magic: u64, held: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized> Sync for Mutex<T> {}
unsafe impl<T: ?Sized> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { magic: 0x3073, held: Cell::new(false), v: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        assert!(!self.held.get(), "OBLIGATION deadlock: lock taken while the same flow holds it");
        self.held.set(true);
        crate::ghost::g().locks += 1;
        Ok(MutexGuard { m: self })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.held.get() { Err(TryLockError::WouldBlock) } else { self.held.set(true); crate::ghost::g().locks += 1; Ok(MutexGuard { m: self }) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
    pub fn clear_poison(&self) {}
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized> std::fmt::Debug for Mutex<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.m.held.set(false); crate::ghost::g().locks -= 1; } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
#[allow(dead_code)]
type Unused = PoisonError<()>;

pub struct RwLock<T: ?Sized> { m: Mutex<T> }
impl<T> RwLock<T> { pub const fn new(t: T) -> Self { RwLock { m: Mutex::new(t) } } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<MutexGuard<'_, T>> { self.m.lock() }
    pub fn write(&self) -> LockResult<MutexGuard<'_, T>> { self.m.lock() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }

pub struct OnceLock<T> { magic: u64, v: UnsafeCell<Option<T>> }
unsafe impl<T> Sync for OnceLock<T> {}
unsafe impl<T> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { magic: 0x0_0ce2, v: UnsafeCell::new(None) } }
    pub fn get(&self) -> Option<&T> { unsafe { (*self.v.get()).as_ref() } }
    pub fn set(&self, t: T) -> Result<(), T> {
        if self.get().is_some() { Err(t) } else { unsafe { *self.v.get() = Some(t) }; Ok(()) }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.get().is_none() { let t = f(); unsafe { *self.v.get() = Some(t) }; }
        self.get().unwrap()
    }
}

pub struct LazyLock<T, F = fn() -> T> { magic: u64, v: UnsafeCell<Option<T>>, f: Cell<Option<F>> }
unsafe impl<T, F> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { magic: 0x1a27, v: UnsafeCell::new(None), f: Cell::new(Some(f)) } }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        if unsafe { (*this.v.get()).is_none() } {
            let f = this.f.take().expect("LazyLock re-entered");
            let t = f();
            unsafe { *this.v.get() = Some(t) };
        }
        unsafe { (*this.v.get()).as_ref().unwrap() }
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }

pub struct Once { magic: u64, done: Cell<bool> }
unsafe impl Sync for Once {}
impl Once {
    pub const fn new() -> Self { Once { magic: 0x0_0ce1, done: Cell::new(false) } }
    pub fn call_once<F: FnOnce()>(&self, f: F) { if !self.done.get() { self.done.set(true); f() } }
    pub fn is_completed(&self) -> bool { self.done.get() }
}
