//! Rely/guarantee atomics: every access is one atomic action, preceded by an arbitrary step of the
//! environment that the rely condition permits. This makes the contracts hold under every schedule
//! of other threads doing the same operations, not only sequentially.
use std::cell::Cell;
use std::sync::atomic::Ordering;

/// A shared total = own contribution of the call under contract + contribution of everybody else.
/// Rely: others may change their contribution arbitrarily (below 2^60).
pub struct ShareUsize { magic: u64, pub own: Cell<usize>, pub others: Cell<usize>, pub written: Cell<usize> }
unsafe impl Sync for ShareUsize {}
pub struct Cfg {
    pub magic: u64,
    /// interference on?
    pub env: bool,
    pub n: usize,
    pub max: usize,
    /// since own contribution became `n`: the total (own + others) was <= max at some own action
    pub fits_seen: bool,
    /// at some own action, others + n > max
    pub over_seen: bool,
    /// largest own contribution ever published
    pub own_peak: usize,
    pub accesses: u32,
    /// interference is arbitrary before each of the first `budget` accesses of the call
    pub budget: u32,
    /// without interference: everybody else's contribution
    pub fixed: Option<usize>,
}
pub static mut CFG: Cfg = Cfg { magic: 0xC0FF_0000_0000_0001, env: false, n: 0, max: 0, fits_seen: false, over_seen: false, own_peak: 0, accesses: 0, budget: 4, fixed: None };
pub fn cfg() -> &'static mut Cfg { unsafe { &mut *(&raw mut CFG) } }
pub const LIM: usize = 1 << 60;

impl ShareUsize {
    pub const fn new(v: usize) -> Self { ShareUsize { magic: 0x5a5a, own: Cell::new(0), others: Cell::new(v), written: Cell::new(0) } }
    /// ghost: put the shared total under harness control
    fn env(&self) {
        let c = cfg();
        c.accesses += 1;
        if c.env && c.accesses <= c.budget {
            let o = crate::any_usize();
            crate::any::assume(o < LIM);
            self.others.set(o);
        } else if !c.env {
            if let Some(o) = c.fixed { self.others.set(o); }
        }
    }
    fn total(&self) -> usize { self.own.get().wrapping_add(self.others.get()) }
    fn note(&self) {
        let c = cfg();
        let own = self.own.get();
        if own > c.own_peak && own < LIM { c.own_peak = own; }
        if own == c.n { if self.total() <= c.max { c.fits_seen = true; } } else { c.fits_seen = false; }
        if self.others.get().wrapping_add(c.n) > c.max { c.over_seen = true; }
    }
    fn put(&self, v: usize) { self.own.set(v.wrapping_sub(self.others.get())); }
    pub fn load(&self, _: Ordering) -> usize { self.env(); self.note(); self.total() }
    pub fn store(&self, v: usize, _: Ordering) { self.env(); self.put(v); self.note(); }
    pub fn swap(&self, v: usize, _: Ordering) -> usize { self.env(); let t = self.total(); self.put(v); self.note(); t }
    pub fn fetch_add(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.total(); self.put(t.wrapping_add(n)); self.note(); t }
    pub fn fetch_sub(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.total(); self.put(t.wrapping_sub(n)); self.note(); t }
    pub fn fetch_max(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.total(); self.put(t.max(n)); self.note(); t }
    pub fn fetch_min(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.total(); self.put(t.min(n)); self.note(); t }
    pub fn compare_exchange(&self, old: usize, new: usize, _: Ordering, _: Ordering) -> Result<usize, usize> {
        self.env();
        let t = self.total();
        if t == old { self.put(new); self.note(); Ok(t) } else { self.note(); Err(t) }
    }
    pub fn compare_exchange_weak(&self, old: usize, new: usize, a: Ordering, b: Ordering) -> Result<usize, usize> { self.compare_exchange(old, new, a, b) }
    /// atomic read-modify-write: the retry loop is one atomic action
    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<usize, usize> {
        self.env();
        let t = self.total();
        match f(t) { Some(v) => { self.put(v); self.note(); Ok(t) } None => { self.note(); Err(t) } }
    }
    pub fn try_update(&self, a: Ordering, b: Ordering, f: impl FnMut(usize) -> Option<usize>) -> Result<usize, usize> { self.fetch_update(a, b, f) }
    pub fn get_mut(&mut self) -> &mut usize { panic!("MODEL: get_mut on a shared counter") }
    pub fn into_inner(self) -> usize { self.total() }
}
impl Default for ShareUsize { fn default() -> Self { Self::new(0) } }
impl std::fmt::Debug for ShareUsize { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

/// Monotone id counter.
pub struct MonoUsize { magic: u64, v: Cell<usize> }
unsafe impl Sync for MonoUsize {}
impl MonoUsize {
    pub const fn new(v: usize) -> Self { MonoUsize { magic: 0x3030, v: Cell::new(v) } }
    fn env(&self) {
        let c = cfg();
        c.accesses += 1;
        if c.env && c.accesses <= c.budget { let k = crate::any_usize(); crate::any::assume(k < LIM); self.v.set(self.v.get().wrapping_add(k)); }
    }
    pub fn load(&self, _: Ordering) -> usize { self.env(); self.v.get() }
    pub fn store(&self, v: usize, _: Ordering) { self.env(); assert!(v >= self.v.get() || !cfg().env, "OBLIGATION rely: an id counter must never go back"); self.v.set(v) }
    pub fn fetch_add(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.v.get(); self.v.set(t.wrapping_add(n)); t }
    pub fn fetch_sub(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.v.get(); self.v.set(t.wrapping_sub(n)); t }
    pub fn swap(&self, n: usize, _: Ordering) -> usize { self.env(); let t = self.v.get(); self.v.set(n); t }
    pub fn compare_exchange(&self, o: usize, n: usize, _: Ordering, _: Ordering) -> Result<usize, usize> { self.env(); let t = self.v.get(); if t == o { self.v.set(n); Ok(t) } else { Err(t) } }
    pub fn compare_exchange_weak(&self, o: usize, n: usize, a: Ordering, b: Ordering) -> Result<usize, usize> { self.compare_exchange(o, n, a, b) }
    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<usize, usize> { self.env(); let t = self.v.get(); match f(t) { Some(v) => { self.v.set(v); Ok(t) } None => Err(t) } }
}
