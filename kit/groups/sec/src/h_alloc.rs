//! Contracts of the ArrayBuffer allocator callbacks that V8 calls (property S01).
//! The callbacks are taken from the vtable that `into_v8_allocator` hands to V8.
use crate::array_buffer_allocator::*;
use std::ffi::c_void;
use std::sync::Arc;
use vk::kstd::sync::atomic::{AtomicBool, Ordering};
use v8::RustAllocatorVtable;
use vk::rg::cfg;
use vk::*;

type VT = RustAllocatorVtable<CustomAllocator>;
/// V8 never asks for more than v8::ArrayBuffer::kMaxByteLength.
const MAX_BYTE_LENGTH: usize = (1 << 53) - 1;
/// Limits above 1 TiB are out of scope (also keeps the verifier's object size in range).
const MAX_LIMIT: usize = 1 << 40;

struct Rig { a: &'static CustomAllocator, vt: &'static VT, flag: Arc<AtomicBool>, f0: bool, max: usize, n: usize }

fn rig() -> Rig {
    let max = any_usize();
    requires!(max <= MAX_LIMIT);
    let n = any_usize();
    requires!(n <= MAX_BYTE_LENGTH);
    let f0 = any_bool();
    let flag = Arc::new(AtomicBool::new(f0));
    let alloc = CustomAllocator::new(max, flag.clone()).into_v8_allocator();
    let c = cfg();
    c.n = n;
    c.max = max;
    c.fits_seen = false;
    c.over_seen = false;
    c.accesses = 0;
    Rig { a: unsafe { &*(alloc.0.handle as *const CustomAllocator) }, vt: unsafe { &*(alloc.0.vt as *const VT) }, flag, f0, max, n }
}
fn call(r: &Rig, zeroed: bool) -> *mut c_void {
    unsafe { if zeroed { (r.vt.allocate)(r.a, r.n) } else { (r.vt.allocate_uninitialized)(r.a, r.n) } }
}

/// Alone: granted iff live + n <= max; granted adds n, denied changes nothing but the flag.
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(kissat)]
fn s01_allocate_exact() {
    let r = rig();
    let live = any_usize();
    requires!(live <= r.max); // invariant
    cfg().fixed = Some(live);
    let zeroed = any_bool();
    let p = call(&r, zeroed);
    let granted = !p.is_null();
    ensures!("S01.grant: granted exactly when live + n <= limit", granted == (live + r.n <= r.max));
    let after = r.a.current_usage();
    ensures!("S01.count: a grant adds n, a denial adds nothing", after == if granted { live + r.n } else { live });
    ensures!("S01.cap: live total never exceeds the limit", after <= r.max);
    ensures!("S01.flag: set on denial, untouched on a grant", r.flag.load(Ordering::SeqCst) == (r.f0 || !granted));
    reach!("granted", granted && r.n > 0);
    reach!("denied", !granted);
}

/// Under arbitrary interference by other threads: a grant is backed by an action at which
/// own n + everybody else's contribution was within the limit, and the contribution stays n;
/// a denial leaves a net contribution of zero, sets the flag, and had a reason.
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(kissat)]
fn s01_allocate_concurrent() {
    let r = rig();
    cfg().env = true;
    let zeroed = any_bool();
    let p = call(&r, zeroed);
    cfg().env = false;
    let granted = !p.is_null();
    let (fits, over) = (cfg().fits_seen, cfg().over_seen);
    cfg().fixed = Some(0);
    let own = r.a.current_usage(); // own contribution only
    ensures!("S01.rg.count: net contribution is n on a grant, 0 on a denial", own == if granted { r.n } else { 0 });
    ensures!("S01.rg.grant: some action of the call saw own n + others <= limit", !granted || r.n == 0 || fits);
    ensures!("S01.rg.deny: denied only if own n + others exceeded the limit", granted || over);
    ensures!("S01.rg.flag", r.flag.load(Ordering::SeqCst) == (r.f0 || !granted));
    reach!("granted", granted && r.n > 0);
    reach!("denied", !granted);
}

/// The block is n bytes long, owned by the caller, zeroed when asked for, and free returns it.
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(kissat)]
fn s01_block_and_free() {
    let r = rig();
    requires!(r.n <= 1 << 20);
    let live = any_usize();
    requires!(live <= r.max && live + r.n <= r.max);
    cfg().fixed = Some(live);
    let zeroed = any_bool();
    let p = call(&r, zeroed);
    ensures!("S01.block: a fitting request gets memory", !p.is_null());
    if r.n > 0 {
        let i = any_usize();
        requires!(i < r.n);
        let b = p as *mut u8;
        unsafe {
            if zeroed { ensures!("S01.zero: every byte is zero", *b.add(i) == 0); }
            *b.add(i) = 7;
            ensures!("S01.write: every byte is writable", *b.add(i) == 7);
        }
    }
    unsafe { (r.vt.free)(r.a, p, r.n) };
    ensures!("S01.free: the freed bytes leave the account", r.a.current_usage() == live);
    ensures!("S01.free.flag: freeing does not touch the flag", r.flag.load(Ordering::SeqCst) == r.f0);
    reach!("zeroed", zeroed && r.n > 0);
}

/// free under interference removes exactly n.
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(kissat)]
fn s01_free_concurrent() {
    let r = rig();
    requires!(r.n <= r.max && r.n <= 1 << 20);
    let zeroed = any_bool();
    cfg().fixed = Some(0);
    let p = call(&r, zeroed);
    requires!(!p.is_null());
    cfg().accesses = 0;
    cfg().env = true;
    unsafe { (r.vt.free)(r.a, p, r.n) };
    cfg().env = false;
    ensures!("S01.rg.free: net contribution is back to 0", r.a.current_usage() == 0);
    reach!("freed", r.n > 0);
}

/// Destroying the allocator releases exactly the reference that V8 was given.
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(kissat)]
fn s01_drop_releases() {
    let r = rig();
    ensures!("S01.drop.pre", Arc::strong_count(&r.flag) == 2);
    unsafe { (r.vt.drop)(r.a) };
    ensures!("S01.drop: allocator freed once", Arc::strong_count(&r.flag) == 1);
    reach!("end", true);
}
