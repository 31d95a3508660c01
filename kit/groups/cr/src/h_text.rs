//! Property T02: text conversion natives.
use crate::util::*;
use encoding_rs::{dec, env};
use v8::*;
use vk::model::vbytes::{self, mem, GARBAGE};
use vk::*;

fn ready() -> usize {
    let mut s = PinScope::vp_new();
    crate::text_encoding::setup_text_encoding_natives(&mut s);
    1
}
/// any text argument: contents `term`, any UTF-8 length
fn any_text(term: u64) -> Val {
    let n = any_usize();
    requires!(n <= (1 << 29) - 24);
    Val { kind: any_kind(), b: any_bool(), n, s: vbytes::new_cell(term, n), term, conv_fails: any_bool(), ..UNDEFINED }
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn t02_encode() {
    let g = ready();
    let a = any_text(0x41);
    ensures!("T02.registered: __text_encode is on the global object", vp_call(g, "__text_encode", &[a]));
    let r = heap().ret;
    ensures!("T02.encode: a Uint8Array that covers its whole buffer", r.kind == U8A && r.off == 0 && r.n == mem().buf[r.buf].len);
    if !a.conv_fails {
        ensures!("T02.encode: exactly the UTF-8 bytes of the text", r.n == a.n && (r.term == 0x41 || r.n == 0));
    }
    reach!("some", !a.conv_fails && a.n > 3);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn t02_decode() {
    let g = ready();
    let mut a = any_bytes(0x21);
    if a.kind == ABUF {
        // the buffer itself, not a view
        mem().buf[a.buf].term = 0x21;
        a.off = 0;
        a.n = mem().buf[a.buf].len;
        mem().buf[a.buf].vlen = a.n + 1;
    }
    let label = any_text(0x42);
    let fatal = Val { kind: any_kind(), b: any_bool(), ..UNDEFINED };
    let n = any_count(3);
    let e = env();
    e.label = 0x42;
    e.known = any_bool();
    e.errors = any_bool();
    e.out_len = any_usize();
    requires!(e.out_len <= (1 << 29) - 24);
    ensures!("T02.registered: __text_decode is on the global object", vp_call(g, "__text_decode", &[a, label, fatal][..n]));
    let r = heap().ret;
    let h = heap();
    let none = n == 0 || a.kind == UNDEF || a.kind == NULL;
    let src = is_ta(a.kind) || a.kind == ABUF;
    let dflt = n < 2 || label.kind == UNDEF || label.conv_fails;
    let known = dflt || e.known;
    let strict = n == 3 && fatal.b;
    if none {
        ensures!("T02.decode: the empty text for no input", h.thrown == 0 && r.kind == STR && r.n == 0);
    } else if !src {
        ensures!("T02.decode: TypeError for anything that is no buffer", h.thrown == 1 && h.err_kind == 2);
    } else if !known {
        ensures!("T02.label: RangeError for an unknown encoding", h.thrown == 1 && h.err_kind == 3);
    } else if strict && e.errors {
        ensures!("T02.fatal: TypeError for malformed input in fatal mode", h.thrown == 1 && h.err_kind == 2);
    } else {
        let enc = if dflt { 8 } else { 7 };
        ensures!("T02.decode: no error", h.thrown == 0);
        ensures!("T02.decode: exactly the view's bytes, decoded in the encoding asked for", r.kind == STR && r.n == e.out_len && r.term == dec(enc, 0x21));
    }
    reach!("fatal error", strict && e.errors && src && known);
    reach!("whole buffer", a.kind == ABUF && known && n == 2);
    reach!("default", dflt && src && n == 3);
}

/// v8_helpers: both builds
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn t02_buffer_from_vec() {
    let mut s = PinScope::vp_new();
    let n = any_usize();
    requires!(n <= i32::MAX as usize);
    let sandbox = any_bool();
    let v = vbytes::Vec::vp(0x51, n);
    let ab = if sandbox { crate::v8_helpers_sandbox::create_array_buffer_from_vec(&mut s, v) } else { crate::v8_helpers::create_array_buffer_from_vec(&mut s, v) };
    ensures!("T02.buffer: exactly the bytes given, in a buffer of exactly their length", is_buffer(ab.vp(), if n == 0 { vbytes::ZERO } else { 0x51 }, n));
    ensures!("T02.buffer: nothing else is touched", !mem().oob);
    reach!("sandbox", sandbox && n > 4);
    reach!("not sandbox", !sandbox && n > 4);
}
