//! Property R01: digest.
use crate::util::*;
use v8::*;
use vk::*;

#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r01_digest() {
    let (_, subtle) = setup();
    let name = any_name();
    let d = any_bytes(0x21);
    let n = any_count(3);
    ensures!("R01.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeDigest", &[name, d, UNDEFINED][..n]));
    let h = hash_of(&name);
    let ok = n >= 2 && !name.conv_fails && d.kind == U8A && h != 0;
    let r = heap().ret;
    if ok {
        let len = match h { 1 => 20, 2 => 32, 3 => 48, _ => 64 };
        ensures!("R01.digest: the named hash of exactly the view's bytes", is_buffer(&r, ring::mk(ring::DIGEST, h, 0x21, 0, 0), len));
    } else {
        ensures!("R01.digest: nothing for anything else", is_undef(&r));
    }
    reach!("sha-384", ok && h == 3);
    reach!("other hash", n == 3 && h == 0 && d.kind == U8A);
}
