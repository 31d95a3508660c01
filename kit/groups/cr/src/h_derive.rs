//! Property R03: PBKDF2.
use crate::util::*;
use v8::*;
use vk::model::vbytes::mem;
use vk::*;

#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r03_pbkdf2() {
    let (_, subtle) = setup();
    let (name, pw, salt, it, len) = (any_name(), any_bytes(0x21), any_bytes(0x22), any_bytes(0x31), any_bytes(0x32));
    let n = any_count(5);
    // what views can have; a key is at most 2^32-1 bits (WebCrypto's `unsigned long`)
    mem().can_alloc = i32::MAX as usize;
    mem().biggest = 0;
    ensures!("R03.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativePbkdf2DeriveBits", &[name, pw, salt, it, len][..n]));
    let h = hash_of(&name);
    let ok = n >= 5 && !name.conv_fails && pw.kind == U8A && salt.kind == U8A && !it.conv_fails && !len.conv_fails && h != 0;
    let r = heap().ret;
    let bits = len.num;
    if ok && it.num >= 1.0 && it.num < 4294967296.0 && bits >= 8.0 && bits < 4294967296.0 {
        let want = (bits as u64 / 8) as usize;
        ensures!("R03.derive: length/8 bytes, from exactly this password, salt and hash", is_buffer(&r, ring::mk(ring::KDF, h, 0x22, 0x21, 0), want));
        ensures!("R03.derive: with the iteration count asked for", unsafe { ring::pbkdf2::ITER } == it.num as u64);
    } else if !ok {
        ensures!("R03.derive: nothing for anything else", is_undef(&r));
    }
    if bits >= 4294967296.0 {
        ensures!("R03.length: a length no key can have derives nothing", is_undef(&r));
    }
    reach!("ok", ok && bits == 256.0 && it.num == 1000.0);
    reach!("huge", ok && bits > 1e18);
}
