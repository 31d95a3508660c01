//! Rely/guarantee models for the deferred-destruction queue and the pending-memory accumulator:
//! other threads act between any two atomic actions of the code under contract.
use crate::ghost::g;
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
use std::sync::atomic::Ordering;
use std::sync::{LockResult, TryLockError, TryLockResult};

/// Other threads' `defer` calls: each pushes (under the mutex), later increments the counter.
pub struct EnvQ { pub magic: u64, pub on: bool, pub exists: bool, pub pushed: u64, pub uncounted: u64, pub settle: bool, pub bound: u64 }
pub static mut ENVQ: EnvQ = EnvQ { magic: 0xE0E0_1234, on: false, exists: false, pushed: 0, uncounted: 0, settle: false, bound: 0 };
pub fn envq() -> &'static mut EnvQ { unsafe { &mut *(&raw mut ENVQ) } }

pub trait EnvStep { fn env_step(&mut self); }
impl<T> EnvStep for T { default fn env_step(&mut self) {} }
impl<T> EnvStep for VecDeque<T> {
    fn env_step(&mut self) {
        let e = envq();
        if e.on {
            let k = crate::any_u32() as u64;
            if e.bound > 0 { crate::any::assume(e.pushed + k <= e.bound); }
            e.pushed += k;
            e.uncounted += k;
            self.tail += k as usize;
            self.merge();
        }
    }
}

/// Others allocate ids: whenever this flow takes the counter's lock (or touches the counter), any
/// number of ids may just have been taken by others.
pub struct EnvId { pub magic: u64, pub on: bool, pub n: usize, pub lo: [u64; 4], pub hi: [u64; 4] }
pub static mut ENVID: EnvId = EnvId { magic: 0xE2E2_5, on: false, n: 0, lo: [0; 4], hi: [0; 4] };
pub fn envid() -> &'static mut EnvId { unsafe { &mut *(&raw mut ENVID) } }
impl EnvId {
    fn step(&mut self, v: u64) -> u64 {
        if !self.on || self.n >= 4 { return v }
        let k = crate::any_u64();
        crate::any::assume(k < 1 << 50);
        let n = self.n;
        for i in 0..4 { if i == n { self.lo[i] = v; self.hi[i] = v.wrapping_add(k); } }
        self.n += 1;
        v.wrapping_add(k)
    }
    /// was `id` given to somebody else?
    pub fn taken(&self, id: u64) -> bool { let mut t = false; for i in 0..4 { if i < self.n && self.lo[i] <= id && id < self.hi[i] { t = true; } } t }
}
impl EnvStep for u64 { fn env_step(&mut self) { *self = envid().step(*self); } }

pub const CAP: usize = 2;
/// A sequence: `virt` unknown elements (pushed by others), at most CAP own ones, `tail` unknown ones.
pub struct VecDeque<T> { virt: usize, real: [Option<Box<T>>; CAP], n: usize, tail: usize }
impl<T> VecDeque<T> {
    pub const fn new() -> Self { VecDeque { virt: 0, real: [const { None }; CAP], n: 0, tail: 0 } }
    pub fn with_capacity(_n: usize) -> Self { envq().exists = true; Self::new() }
    fn merge(&mut self) { if self.n == 0 { self.virt += self.tail; self.tail = 0; } }
    pub fn len(&self) -> usize { self.virt + self.n + self.tail }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn push_back(&mut self, t: T) {
        self.merge();
        assert!(self.tail == 0 && self.n < CAP, "MODEL: deque capacity");
        let n = self.n;
        let mut t = Some(Box::new(t));
        for i in 0..CAP { if i == n { self.real[i] = t.take(); } }
        self.n = n + 1;
    }
    pub fn pop_front(&mut self) -> Option<T> {
        self.merge();
        if self.virt > 0 {
            // in the bounded harnesses the others' elements are fabricated
            assert!(envq().bound > 0, "MODEL: an unknown element taken out singly");
            self.virt -= 1;
            return Some(T::vp_fab());
        }
        if self.n == 0 { return None; }
        let r = self.real[0].take();
        for i in 1..CAP { self.real[i - 1] = self.real[i].take(); }
        self.n -= 1;
        r.map(|b| *b)
    }
    pub fn pop_back(&mut self) -> Option<T> {
        assert!(self.tail == 0, "MODEL: an unknown element taken out singly");
        if self.n == 0 { assert!(self.virt == 0, "MODEL: an unknown element taken out singly"); return None; }
        self.n -= 1;
        for i in 0..CAP { if i == self.n { return self.real[i].take().map(|b| *b); } }
        None
    }
    pub fn clear(&mut self) { let t = std::mem::take(self); drop(t); }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        assert!(matches!((r.start_bound(), r.end_bound()), (std::ops::Bound::Unbounded, std::ops::Bound::Unbounded)), "MODEL: partial drain");
        IntoIter(std::mem::take(self))
    }
    pub fn append(&mut self, o: &mut Self) {
        if self.len() == 0 { std::mem::swap(self, o); return; }
        assert!(o.virt == 0 && o.tail == 0, "MODEL: append of unknown elements");
        for _ in 0..CAP { if let Some(x) = o.pop_front() { self.push_back(x) } }
    }
}
/// An element pushed by somebody else.
pub trait Fab: Sized { fn vp_fab() -> Self; }
impl<T> Fab for T { default fn vp_fab() -> T { panic!("MODEL: unknown element of this type") } }
impl<T> Default for VecDeque<T> { fn default() -> Self { Self::new() } }
impl<T> Drop for VecDeque<T> { fn drop(&mut self) { g().num[3] += (self.virt + self.tail) as u64; } }
pub struct IntoIter<T>(VecDeque<T>);
impl<T> IntoIter<T> {
    pub fn len(&self) -> usize { self.0.len() }
    pub fn collect<B: FromQueue<T>>(self) -> B { B::from_queue(self.0) }
}
/// collecting a whole queue does not look at the elements
pub trait FromQueue<T> { fn from_queue(q: VecDeque<T>) -> Self; }
impl<T> FromQueue<T> for VecDeque<T> { fn from_queue(q: VecDeque<T>) -> Self { q } }
pub type Vec<T> = VecDeque<T>;
impl<T> VecDeque<T> {
    pub fn extend(&mut self, i: IntoIter<T>) { let mut o = i.0; self.append(&mut o); }
    pub fn push(&mut self, t: T) { self.push_back(t) }
    pub fn pop(&mut self) -> Option<T> { self.pop_back() }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.pop_front() }
    // `count`/`for_each` over a whole queue do not look at the elements
    fn count(self) -> usize { self.0.len() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0.len(), Some(self.0.len())) }
}
impl<T> IntoIterator for VecDeque<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }

pub struct Mutex<T> { magic: u64, held: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T> Sync for Mutex<T> {}
unsafe impl<T> Send for Mutex<T> {}
pub struct MutexGuard<'a, T> { m: &'a Mutex<T> }
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { magic: 0x3073, held: Cell::new(false), v: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        assert!(!self.held.get(), "OBLIGATION deadlock: lock taken while the same flow holds it");
        self.held.set(true);
        g().locks += 1;
        unsafe { (*self.v.get()).env_step() };
        Ok(MutexGuard { m: self })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        // the lock may be busy with another thread's push
        if self.held.get() || (envq().on && crate::any_bool()) { return Err(TryLockError::WouldBlock) }
        Ok(self.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.m.held.set(false); g().locks -= 1; } }
impl<T> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }

macro_rules! counter { ($n:ident $t:ty) => {
    /// Counter that other threads' completed pushes increment.
    pub struct $n { magic: u64, v: Cell<$t> }
    unsafe impl Sync for $n {}
    impl $n {
        pub const fn new(v: $t) -> Self { $n { magic: 0xC0C0, v: Cell::new(v) } }
        fn env(&self) {
            let e = envq();
            if e.on && e.uncounted > 0 {
                let c = crate::any_u64();
                crate::any::assume(c <= e.uncounted);
                e.uncounted -= c;
                self.v.set(self.v.get().wrapping_add(c as $t));
            } else if e.settle {
                self.v.set(self.v.get().wrapping_add(e.uncounted as $t));
                e.uncounted = 0;
            }
        }
        pub fn load(&self, _: Ordering) -> $t { self.env(); self.v.get() }
        pub fn store(&self, x: $t, _: Ordering) { self.env(); self.v.set(x) }
        pub fn swap(&self, x: $t, _: Ordering) -> $t { self.env(); let o = self.v.get(); self.v.set(x); o }
        pub fn fetch_add(&self, x: $t, _: Ordering) -> $t { self.env(); let o = self.v.get(); self.v.set(o.wrapping_add(x)); o }
        pub fn fetch_sub(&self, x: $t, _: Ordering) -> $t { self.env(); let o = self.v.get(); self.v.set(o.wrapping_sub(x)); o }
        pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { self.env(); let o = self.v.get(); if o == a { self.v.set(b); Ok(o) } else { Err(o) } }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, x, y) }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> { self.env(); let o = self.v.get(); match f(o) { Some(v) => { self.v.set(v); Ok(o) } None => Err(o) } }
    }
    impl Default for $n { fn default() -> Self { Self::new(0) } }
    impl std::fmt::Debug for $n { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
} }
counter!(CountU64 u64);
counter!(CountUsize usize);

/// Accumulator to which other threads add at any time.
pub struct EnvL { pub magic: u64, pub on: bool }
pub static mut ENVL: EnvL = EnvL { magic: 0xE1E1_77, on: false };
pub fn envl() -> &'static mut EnvL { unsafe { &mut *(&raw mut ENVL) } }
/// value = own contribution of the code under contract + contribution of everybody else
pub struct LedgerI64 { magic: u64, pub own: Cell<i64>, pub others: Cell<i64> }
unsafe impl Sync for LedgerI64 {}
impl LedgerI64 {
    pub const fn new(v: i64) -> Self { LedgerI64 { magic: 0xC1C1, own: Cell::new(v), others: Cell::new(0) } }
    pub fn vp_value(&self) -> i64 { self.own.get().wrapping_add(self.others.get()) }
    fn env(&self) {
        if envl().on {
            let k = crate::any_i64();
            crate::any::assume(k > -(1i64 << 50) && k < (1i64 << 50));
            self.others.set(k);
        }
    }
    fn put(&self, x: i64) { self.own.set(x.wrapping_sub(self.others.get())) }
    pub fn load(&self, _: Ordering) -> i64 { self.env(); self.vp_value() }
    pub fn store(&self, x: i64, _: Ordering) { self.env(); self.put(x) }
    pub fn swap(&self, x: i64, _: Ordering) -> i64 { self.env(); let o = self.vp_value(); self.put(x); o }
    pub fn fetch_add(&self, x: i64, _: Ordering) -> i64 { self.env(); let o = self.vp_value(); self.own.set(self.own.get().wrapping_add(x)); o }
    pub fn fetch_sub(&self, x: i64, _: Ordering) -> i64 { self.env(); let o = self.vp_value(); self.own.set(self.own.get().wrapping_sub(x)); o }
    pub fn fetch_max(&self, x: i64, _: Ordering) -> i64 { self.env(); let o = self.vp_value(); self.put(o.max(x)); o }
    pub fn fetch_min(&self, x: i64, _: Ordering) -> i64 { self.env(); let o = self.vp_value(); self.put(o.min(x)); o }
    pub fn compare_exchange(&self, a: i64, b: i64, _: Ordering, _: Ordering) -> Result<i64, i64> { self.env(); let o = self.vp_value(); if o == a { self.put(b); Ok(o) } else { Err(o) } }
    pub fn compare_exchange_weak(&self, a: i64, b: i64, x: Ordering, y: Ordering) -> Result<i64, i64> { self.compare_exchange(a, b, x, y) }
    pub fn fetch_update<F: FnMut(i64) -> Option<i64>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<i64, i64> { self.env(); let o = self.vp_value(); match f(o) { Some(v) => { self.put(v); Ok(o) } None => Err(o) } }
}
impl Default for LedgerI64 { fn default() -> Self { Self::new(0) } }
impl std::fmt::Debug for LedgerI64 { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

/// Id counter other threads increment.
pub struct IdU64 { magic: u64, v: Cell<u64> }
unsafe impl Sync for IdU64 {}
impl IdU64 {
    pub const fn new(v: u64) -> Self { IdU64 { magic: 0xC2C2, v: Cell::new(v) } }
    fn env(&self) { self.v.set(envid().step(self.v.get())) }
    pub fn load(&self, _: Ordering) -> u64 { self.env(); self.v.get() }
    pub fn store(&self, x: u64, _: Ordering) { self.env(); self.v.set(x) }
    pub fn swap(&self, x: u64, _: Ordering) -> u64 { self.env(); let o = self.v.get(); self.v.set(x); o }
    pub fn fetch_add(&self, x: u64, _: Ordering) -> u64 { self.env(); let o = self.v.get(); self.v.set(o.wrapping_add(x)); o }
    pub fn fetch_sub(&self, x: u64, _: Ordering) -> u64 { self.env(); let o = self.v.get(); self.v.set(o.wrapping_sub(x)); o }
    pub fn compare_exchange(&self, a: u64, b: u64, _: Ordering, _: Ordering) -> Result<u64, u64> { self.env(); let o = self.v.get(); if o == a { self.v.set(b); Ok(o) } else { Err(o) } }
    pub fn fetch_update<F: FnMut(u64) -> Option<u64>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<u64, u64> { self.env(); let o = self.v.get(); match f(o) { Some(v) => { self.v.set(v); Ok(o) } None => Err(o) } }
}
impl Default for IdU64 { fn default() -> Self { Self::new(0) } }
impl std::fmt::Debug for IdU64 { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
