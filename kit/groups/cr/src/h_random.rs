//! Property R04: randomness.
use crate::util::*;
use v8::*;
use vk::model::vbytes::mem;
use vk::*;

#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r04_get_random_values() {
    let (c, _) = setup();
    let a = any_bytes(0x21);
    let n = any_count(2);
    let e = ring::env();
    e.rng_ok = any_bool();
    ensures!("R04.registered: getRandomValues is on crypto", vp_call(c, "getRandomValues", &[a, UNDEFINED][..n]));
    let r = heap().ret;
    let b = mem().buf[a.buf];
    let returned = heap().thrown == 0 && n >= 1;
    ensures!("R04.memory: nothing outside the buffer is touched", !mem().oob);
    ensures!("R04.view: nothing outside the view is touched", b.writes == 0 || (b.woff == a.off && b.wlen == a.n && b.writes == 1));
    if returned {
        ensures!("R04.result: the array passed in", r.kind == a.kind && is_ta(a.kind) && r.buf == a.buf && r.off == a.off && r.n == a.n);
        ensures!("R04.filled: an array that is returned was filled completely by the system generator", a.n == 0 || (b.writes == 1 && b.wterm == ring::RANDOM << 56));
    }
    if n >= 1 && (a.kind == U8A || a.kind == TYPED) && e.rng_ok {
        ensures!("R04.works: succeeds while the system generator works", returned);
    }
    reach!("empty array", n == 1 && a.kind == U8A && a.n == 0);
    reach!("no randomness", n == 1 && a.kind == TYPED && !e.rng_ok && heap().thrown == 1);
    reach!("filled", returned && a.n > 5 && a.off > 3);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r04_random_uuid() {
    let (c, _) = setup();
    ensures!("R04.registered: randomUUID is on crypto", vp_call(c, "randomUUID", &[]));
    let r = heap().ret;
    ensures!("R04.uuid: the text of a fresh version-4 UUID", r.kind == STR && r.n == 36 && r.term == uuid::UUID4);
    reach!("end", true);
}
