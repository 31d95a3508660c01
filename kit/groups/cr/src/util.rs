//! Arguments of natives, as V8 may pass them.
use v8::*;
use vk::model::vbytes::{mem, new_buf, GARBAGE};
use vk::*;

/// an argument of any kind; if it is a Uint8Array, a view of any length at any offset of a buffer of
/// any length, with contents `term`
pub fn any_bytes(term: u64) -> Val {
    let (off, n, blen) = (any_usize(), any_usize(), any_usize());
    requires!(n <= i32::MAX as usize && off <= i32::MAX as usize && blen <= i32::MAX as usize && off + n <= blen);
    let b = new_buf(blen, GARBAGE);
    let m = mem();
    m.buf[b].voff = off;
    m.buf[b].vlen = n;
    m.buf[b].vterm = term;
    Val { kind: any_kind(), b: any_bool(), num: any_num(), n, buf: b, off, term, conv_fails: any_bool(), ..UNDEFINED }
}
pub fn any_kind() -> u8 { let k = any_u8(); requires!(k >= 1 && k <= 14); k }
pub fn any_num() -> f64 { f64::from_bits(any_u64()) }

pub struct Names { pub magic: u64, pub t: [u8; 8] }
pub static mut NAME: Names = Names { magic: 0x5EED_0000_9999_0001, t: [0x21; 8] };
/// an argument of any kind whose string conversion is any ASCII text of up to 8 bytes (or throws)
pub fn any_name() -> Val {
    let t = unsafe { &mut *(&raw mut NAME) };
    let mut i = 0;
    while i < 8 { let c = any_u8(); requires!(c < 128); t.t[i] = c; i += 1; }
    let n = any_usize();
    requires!(n <= 8);
    Val { kind: any_kind(), s: t.t.as_ptr(), n, conv_fails: any_bool(), ..UNDEFINED }
}
/// the name, compared without regard to case
pub fn named(v: &Val, want: &[u8]) -> bool {
    let t = unsafe { &*(&raw const NAME) };
    if v.n != want.len() { return false; }
    let mut i = 0;
    while i < want.len() { if t.t[i].to_ascii_uppercase() != want[i] { return false; } i += 1; }
    true
}
/// 1..4 for the four hashes, 0 otherwise
pub fn hash_of(v: &Val) -> u64 {
    if named(v, b"SHA-1") { 1 } else if named(v, b"SHA-256") { 2 } else if named(v, b"SHA-384") { 3 } else if named(v, b"SHA-512") { 4 } else { 0 }
}
/// the `crypto` object and `crypto.subtle`, found the way the JS wrappers find them
pub fn setup() -> (usize, usize) {
    let mut s = PinScope::vp_new();
    crate::crypto::setup_crypto(&mut s);
    let c = vp_get(1, "crypto");
    let st = vp_get(c.id, "subtle");
    (c.id, st.id)
}
pub fn any_count(max: usize) -> usize { let n = any_usize(); requires!(n <= max); n }
/// result is an ArrayBuffer holding exactly `term`, `len` bytes
pub fn is_buffer(v: &Val, term: u64, len: usize) -> bool {
    v.kind == ABUF && v.n == len && mem().buf[v.buf].len == len && mem().buf[v.buf].term == term && term != GARBAGE
}
pub fn is_undef(v: &Val) -> bool { v.kind == UNDEF }
pub fn is_bool(v: &Val, b: bool) -> bool { v.kind == BOOL && v.b == b }
