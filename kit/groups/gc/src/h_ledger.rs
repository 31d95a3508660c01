//! Contract of external-memory accounting (property G02): for every isolate,
//!   reported to the engine + pending accumulator == sum of the amounts of its guards (+ others').
use crate::gc::{ExternalMemoryGuard, JsLock};
use std::sync::Arc;
use vk::envq::{LedgerI64, envl};
use vk::ghost::g;
use vk::*;

const LIM: i64 = 1 << 50;
fn amt() -> i64 { let a = any_i64(); vk::any::assume(a > -LIM && a < LIM); a }

struct W { a: v8::Isolate, b: v8::Isolate, pa: Arc<LedgerI64>, pb: Arc<LedgerI64> }
fn world() -> W {
    let (p, q) = (amt(), amt());
    let w = W { a: v8::Isolate::vp_new(1), b: v8::Isolate::vp_new(2), pa: Arc::new(LedgerI64::new(0)), pb: Arc::new(LedgerI64::new(0)) };
    // arbitrary earlier history: whatever is pending is what others contributed
    w.pa.others.set(p); w.pb.others.set(q);
    w
}
/// contribution of the guards under contract to isolate A / B
fn led(w: &W) -> (i64, i64) {
    (g().reported[1] + w.pa.own.get(), g().reported[2] + w.pb.own.get())
}
/// run `f` with no lock (0), A's lock (1), B's lock (2), A's then B's nested (3)
fn under<R>(w: &mut W, k: u8, f: impl FnOnce() -> R) -> R {
    match k {
        0 => f(),
        1 => { let _l = JsLock::new(&mut w.a, &w.pa); f() }
        2 => { let _l = JsLock::new(&mut w.b, &w.pb); f() }
        _ => { let _l = JsLock::new(&mut w.a, &w.pa); let r = { let _m = JsLock::new(&mut w.b, &w.pb); f() }; r }
    }
}

/// One operation on a guard in an arbitrary state. Guard states are (isolate it belongs to, amount):
/// created under lock state `c` with any amount gives each of them; the operation runs under `u`.
/// (By induction over operations this covers every history of a guard.)
fn op(c: u8, u: u8, kind: u8) {
    let mut w = world();
    g().reported = [0; 4];
    envl().on = true;
    let a0 = amt();
    let mut gd = under(&mut w, c, || ExternalMemoryGuard::new(a0));
    ensures!("G02.new: amount", gd.amount() == a0);
    let owner0 = if c == 0 { 0 } else if c == 1 { 1 } else { 2 };
    let charge = |o: u8, x: i64| match o { 1 => (x, 0), 2 => (0, x), _ => (0, 0) };
    ensures!("G02.new: charged to the isolate whose lock is held, and to no other", led(&w) == charge(owner0, a0));
    // go on from an arbitrary split of that charge between reported and pending
    let (ra, rb) = (amt(), amt());
    let (ca, cb) = charge(owner0, a0);
    g().reported = [0, ra, rb, 0];
    w.pa.own.set(ca - ra); w.pb.own.set(cb - rb);
    match kind {
        0 => {
            under(&mut w, u, || drop(gd));
            ensures!("G02.drop: nothing stays charged", led(&w) == (0, 0));
        }
        k => {
            let d = amt();
            requires!(d != 0);
            under(&mut w, u, || if k == 1 { gd.adjust(d) } else { gd.set(a0 + d) });
            ensures!("G02.adjust: amount", gd.amount() == a0 + d);
            let owner = if owner0 != 0 || u == 0 { owner0 } else if u == 1 { 1 } else { 2 };
            ensures!("G02.adjust: the whole amount is charged to the guard's own isolate, and to no other", led(&w) == charge(owner, a0 + d));
            std::mem::forget(gd);
        }
    }
    ensures!("G02.frame: no further isolate is touched", g().reported[0] == 0 && g().reported[3] == 0);
    reach!("end", a0 > 7);
    std::mem::forget(w);
}
macro_rules! h { ($($n:ident $c:literal $k:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::solver(kissat)]
    fn $n() { op($c, 0, $k); op($c, 1, $k); op($c, 2, $k); op($c, 3, $k); }
)* } }
h! {
    g02_nolock_drop 0 0; g02_nolock_adjust 0 1; g02_nolock_set 0 2;
    g02_a_drop 1 0; g02_a_adjust 1 1; g02_a_set 1 2;
    g02_nested_drop 3 0; g02_nested_adjust 3 1; g02_nested_set 3 2;
}

/// A guard that is empty, or adjusted by nothing, charges nobody.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g02_zero() {
    let mut w = world();
    envl().on = false;
    let (p, q) = (w.pa.vp_value(), w.pb.vp_value());
    let mut gd = under(&mut w, 1, || ExternalMemoryGuard::empty());
    ensures!("G02.empty: amount zero", gd.amount() == 0);
    ensures!("G02.empty: charges nobody", led(&w) == (0, 0));
    let d = amt();
    gd.adjust(d);
    gd.adjust(0);
    ensures!("G02.empty: it belongs to the isolate locked when it was made", led(&w) == (d, 0) && gd.amount() == d);
    drop(gd);
    ensures!("G02.empty: and gives everything back", led(&w) == (0, 0));
    let de = ExternalMemoryGuard::default();
    ensures!("G02.default: amount zero", de.amount() == 0);
    drop(de);
    ensures!("G02.default: charges nobody", led(&w) == (0, 0));
    reach!("end", d > 7);
}

/// Taking a lock applies the pending delta to that isolate, all of it, and nothing else.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn g02_lock_applies() {
    let mut w = world();
    let p = w.pa.vp_value();
    let q = w.pb.vp_value();
    envl().on = false;
    ensures!("G02.none: no lock, no current", JsLock::try_current().is_none());
    {
        let l = JsLock::new(&mut w.a, &w.pa);
        ensures!("G02.apply: everything pending is reported", g().reported[1] == p && w.pa.vp_value() == 0);
        ensures!("G02.apply: other isolates are untouched", g().reported[2] == 0 && w.pb.vp_value() == q && g().reported[0] == 0 && g().reported[3] == 0);
        let cur = JsLock::try_current();
        ensures!("G02.current: the lock is current", cur.is_some());
        let cur = cur.unwrap();
        ensures!("G02.current: with this isolate's accumulator", Arc::ptr_eq(&cur.pending_delta(), &w.pa));
        let d = amt();
        cur.adjust_external_memory(d);
        ensures!("G02.ref: adjusting through the reference reaches this isolate", g().reported[1] == p + d && g().reported[2] == 0);
        let e = amt();
        l.adjust_external_memory(e);
        ensures!("G02.lock: adjusting through the lock reaches this isolate", g().reported[1] == p + d + e && g().reported[2] == 0);
        {
            let _m = JsLock::new(&mut w.b, &w.pb);
            ensures!("G02.nested: inner pending applied to the inner isolate", g().reported[2] == q && w.pb.vp_value() == 0 && g().reported[1] == p + d + e);
            let c2 = JsLock::try_current().unwrap();
            ensures!("G02.nested: the inner lock is current", Arc::ptr_eq(&c2.pending_delta(), &w.pb));
        }
        let c3 = JsLock::try_current();
        ensures!("G02.nested: afterwards the outer lock is current again", c3.is_some() && Arc::ptr_eq(&c3.unwrap().pending_delta(), &w.pa));
    }
    ensures!("G02.none: released", JsLock::try_current().is_none());
    reach!("end", p != 0 && q != 0);
}

