//! Rely/guarantee lock flag and recording wakers.
use std::cell::Cell;
use std::sync::atomic::Ordering;
use std::task::{RawWaker, RawWakerVTable, Waker};

/// One turn flag shared with others. `mine`: this flow's own action took it (false -> true).
/// Rely: others take it when free and release it only when they hold it.
pub struct Turn { pub magic: u64, pub env: bool, pub mine: bool, pub stolen: u32, pub releases: u32, pub budget: u32 }
pub static mut TURN: Turn = Turn { magic: 0x7070_0001, env: false, mine: false, stolen: 0, releases: 0, budget: 6 };
pub fn turn() -> &'static mut Turn { unsafe { &mut *(&raw mut TURN) } }

pub struct TurnBool { v: Cell<bool>, magic: u32 }
unsafe impl Sync for TurnBool {}
impl TurnBool {
    pub const fn new(b: bool) -> Self { TurnBool { v: Cell::new(b), magic: 0xB002 } }
    fn env(&self) {
        let t = turn();
        if t.env && !t.mine && t.budget > 0 { t.budget -= 1; self.v.set(crate::any_bool()); }
    }
    fn put(&self, b: bool) {
        let t = turn();
        let o = self.v.get();
        if b { if o { if !t.mine { t.stolen += 1; } } else { t.mine = true; } }
        else { if o && !t.mine { t.stolen += 1; } if t.mine { t.releases += 1; } t.mine = false; }
        self.v.set(b)
    }
    pub fn vp_raw(&self) -> bool { self.v.get() }
    pub fn load(&self, _: Ordering) -> bool { self.env(); self.v.get() }
    pub fn store(&self, b: bool, _: Ordering) { self.env(); self.put(b) }
    pub fn swap(&self, b: bool, _: Ordering) -> bool { self.env(); let o = self.v.get(); if o != b { self.put(b) } o }
    pub fn fetch_or(&self, b: bool, o: Ordering) -> bool { if b { self.swap(true, o) } else { self.load(o) } }
    pub fn fetch_and(&self, b: bool, o: Ordering) -> bool { if !b { self.swap(false, o) } else { self.load(o) } }
    pub fn compare_exchange(&self, a: bool, b: bool, _: Ordering, _: Ordering) -> Result<bool, bool> {
        self.env();
        let o = self.v.get();
        if o == a { if o != b { self.put(b) } Ok(o) } else { Err(o) }
    }
    pub fn compare_exchange_weak(&self, a: bool, b: bool, x: Ordering, y: Ordering) -> Result<bool, bool> { self.compare_exchange(a, b, x, y) }
    pub fn fetch_update<F: FnMut(bool) -> Option<bool>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<bool, bool> { self.env(); let o = self.v.get(); match f(o) { Some(v) => { if v != o { self.put(v) } Ok(o) } None => Err(o) } }
}
impl Default for TurnBool { fn default() -> Self { Self::new(false) } }
impl std::fmt::Debug for TurnBool { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

/// Wakes recorded: how many, the last id, and the state at the last wake.
pub struct Wk { pub magic: u64, pub wakes: u32, pub last: u64, pub mine_at_wake: bool, pub locks_at_wake: u32, pub made: u32, pub dropped: u32 }
pub static mut WK: Wk = Wk { magic: 0x3A3A, wakes: 0, last: 0, mine_at_wake: false, locks_at_wake: 0, made: 0, dropped: 0 };
pub fn wk() -> &'static mut Wk { unsafe { &mut *(&raw mut WK) } }
fn vclone(p: *const ()) -> RawWaker { wk().made += 1; RawWaker::new(p, &VT) }
fn record(p: *const ()) { let w = wk(); w.wakes += 1; w.last = p as usize as u64; w.mine_at_wake = turn().mine; w.locks_at_wake = crate::ghost::g().locks; }
fn vwake(p: *const ()) { record(p); wk().dropped += 1; }
fn vwake_ref(p: *const ()) { record(p); }
fn vdrop(_: *const ()) { wk().dropped += 1; }
static VT: RawWakerVTable = RawWakerVTable::new(vclone, vwake, vwake_ref, vdrop);
pub fn waker(id: u64) -> Waker { wk().made += 1; unsafe { Waker::from_raw(RawWaker::new(std::ptr::without_provenance(id as usize), &VT)) } }
