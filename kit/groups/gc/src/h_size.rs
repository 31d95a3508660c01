//! Contracts of size reporting (property G03): container sizes, the derive macro, Tracked.
use crate::gc::{GcTraceable, JsLock, Tracked, tracked_guard};
use openworkers_runtime_v8_gc_derive::GcTraceable;
use std::rc::Rc;
use std::sync::Arc;
use vk::envq::{LedgerI64, envl};
use vk::ghost::g;
use vk::*;

const LIM: usize = 1 << 40;
fn sz() -> usize { let a = any_usize(); vk::any::assume(a < LIM); a }

/// A value of arbitrary size.
struct Blob(usize);
impl GcTraceable for Blob { fn external_memory_size(&self) -> usize { self.0 } }

#[derive(GcTraceable)]
struct Named { #[gc(track)] a: Blob, b: Blob, #[gc(track)] c: Blob, #[gc(track)] d: Option<Blob>, e: u64 }
#[derive(GcTraceable)]
#[gc(crate_path = "crate")]
struct Tup(Blob, #[gc(track)] Blob, u32, #[gc(track)] Blob);
#[derive(GcTraceable)]
struct Unit;
#[derive(GcTraceable)]
struct NoneTracked { a: Blob }
#[derive(GcTraceable)]
struct Gen<T: GcTraceable> where T: Sized { #[gc(track)] v: T, #[gc(track)] w: Box<T>, u: u8 }
/// attributes of other kinds beside the tracking one
#[derive(GcTraceable)]
struct Attr { #[allow(unused)] #[gc(track)] a: Blob, #[allow(unused)] b: Blob }

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g03_derive() {
    let (a, b, c, d) = (sz(), sz(), sz(), sz());
    let some = any_bool();
    let n = Named { a: Blob(a), b: Blob(b), c: Blob(c), d: if some { Some(Blob(d)) } else { None }, e: 0 };
    ensures!("G03.derive: named fields: exactly the marked ones", n.external_memory_size() == a + c + if some { d } else { 0 });
    let t = Tup(Blob(a), Blob(b), 1, Blob(d));
    ensures!("G03.derive: tuple fields: exactly the marked ones", t.external_memory_size() == b + d);
    ensures!("G03.derive: unit", Unit.external_memory_size() == 0);
    ensures!("G03.derive: none marked", NoneTracked { a: Blob(a) }.external_memory_size() == 0);
    let g = Gen { v: Blob(a), w: Box::new(Blob(b)), u: 0 };
    ensures!("G03.derive: generics", g.external_memory_size() == a + b + std::mem::size_of::<Blob>());
    ensures!("G03.derive: other attributes do not matter", Attr { a: Blob(a), b: Blob(b) }.external_memory_size() == a);
    reach!("end", some);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g03_wrappers() {
    let a = sz();
    let s = std::mem::size_of::<Blob>();
    ensures!("G03.option: none is nothing", None::<Blob>.external_memory_size() == 0);
    ensures!("G03.option: some is the content", Some(Blob(a)).external_memory_size() == a);
    ensures!("G03.box: cell plus content", Box::new(Blob(a)).external_memory_size() == a + s);
    let r = Rc::new(Blob(a));
    ensures!("G03.rc: a sole owner counts cell and content", r.external_memory_size() == a + s);
    let r2 = r.clone();
    ensures!("G03.rc: shared: nobody counts it", r.external_memory_size() == 0 && r2.external_memory_size() == 0);
    drop(r);
    ensures!("G03.rc: sole again", r2.external_memory_size() == a + s);
    let r = Arc::new(Blob(a));
    ensures!("G03.arc: a sole owner counts cell and content", r.external_memory_size() == a + s);
    let r2 = r.clone();
    ensures!("G03.arc: shared: nobody counts it", r.external_memory_size() == 0 && r2.external_memory_size() == 0);
    let n = sz();
    ensures!("G03.bytes: visible length", bytes::Bytes::vp_opaque(1, n).external_memory_size() == n);
    reach!("end", true);
}

/// Capacity-based sizes: small capacities (bounded).
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g03_vec_bounded() {
    if any_bool() { vecs(0) } else if any_bool() { vecs(1) } else { vecs(3) }
}
fn vecs(k: usize) {
    let mut v: Vec<u8> = Vec::with_capacity(k);
    ensures!("G03.vec_u8: capacity, not length", v.external_memory_size() == v.capacity() && v.capacity() >= k);
    if k > 0 { v.push(1); ensures!("G03.vec_u8: capacity after growth", v.external_memory_size() == v.capacity()); }
    let s = String::with_capacity(k);
    ensures!("G03.string: capacity", s.external_memory_size() == s.capacity());
    let (a, b) = (sz(), sz());
    let mut w: Vec<Blob> = Vec::with_capacity(k);
    ensures!("G03.vec: backing store", w.external_memory_size() == w.capacity() * std::mem::size_of::<Blob>());
    w.push(Blob(a));
    w.push(Blob(b));
    ensures!("G03.vec: backing store plus contents", w.external_memory_size() == w.capacity() * std::mem::size_of::<Blob>() + a + b);
    reach!("end", k == 3);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g03_tracked() {
    let mut iso = v8::Isolate::vp_new(1);
    let p = Arc::new(LedgerI64::new(0));
    let (a, b) = (sz(), sz());
    let l = JsLock::new(&mut iso, &p);
    let mut t = Tracked::new(Blob(a));
    ensures!("G03.tracked: charged with the value's size", g().reported[1] == a as i64);
    ensures!("G03.tracked: value is the given one", t.get().0 == a && t.0 == a);
    t.get_mut().0 = b;
    let unlocked = any_bool();
    let mut l = Some(l);
    if unlocked { l = None; }
    t.update_size();
    ensures!("G03.tracked: after update_size, the new size", g().reported[1] + p.vp_value() == b as i64);
    if any_bool() {
        let v = t.into_inner();
        ensures!("G03.tracked: the value comes back", v.0 == b);
    } else {
        drop(t);
    }
    ensures!("G03.tracked: the charge ends with the tracker", g().reported[1] + p.vp_value() == 0);
    drop(l);
    let mut l2 = JsLock::new(&mut iso, &p);
    let gd = tracked_guard(&Blob(a));
    ensures!("G03.guard: tracked_guard charges the size", g().reported[1] + p.vp_value() == a as i64 && gd.amount() == a as i64);
    reach!("end", unlocked);
}
