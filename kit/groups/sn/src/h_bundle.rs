//! C01: code cache bundles.
use crate::snapshot::*;
use crate::utf8;
use vk::{ensures, reach, requires};

/// a byte slice of any length up to 2^40, contents unconstrained
fn any_slice() -> &'static [u8] {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let l = std::alloc::Layout::from_size_align(if n == 0 { 1 } else { n }, 1).unwrap();
    let p = unsafe { std::alloc::alloc(l) };
    unsafe { std::slice::from_raw_parts(p, n) }
}
const MAGIC: [u8; 4] = [0x5E, 0xCA, 0xDE, 0xC0];
fn has_magic(d: &[u8]) -> bool { d.len() >= 8 && d[0] == MAGIC[0] && d[1] == MAGIC[1] && d[2] == MAGIC[2] && d[3] == MAGIC[3] }

#[kani::proof]
#[kani::unwind(10)]
fn c01_pack() {
    let s = any_slice();
    let c = any_slice();
    // a source the length field can hold (V8 texts are below 2^29 characters)
    requires!(s.len() <= u32::MAX as usize);
    let src = unsafe { std::str::from_utf8_unchecked(s) };
    let v = pack_code_cache(src, c);
    ensures!("C01.head: the bundle starts with the magic number", v.hn == 8 && v.head[0] == MAGIC[0] && v.head[1] == MAGIC[1] && v.head[2] == MAGIC[2] && v.head[3] == MAGIC[3]);
    let n = u32::from_le_bytes([v.head[4], v.head[5], v.head[6], v.head[7]]);
    ensures!("C01.length: the length field is the length of the source", n as usize == s.len());
    ensures!("C01.order: the source, then the cache, and nothing else", v.np == 2 && v.p[0] == s.as_ptr() && v.l[0] == s.len() && v.p[1] == c.as_ptr() && v.l[1] == c.len());
    reach!("C01: empty source", s.len() == 0);
    reach!("C01: empty cache", c.len() == 0 && s.len() > 8);
}

#[kani::proof]
#[kani::unwind(10)]
fn c01_unpack() {
    let d = any_slice();
    utf8().valid = kani::any();
    let r = unpack_code_cache(d);
    let m = has_magic(d);
    if !m {
        ensures!("C01.reject-magic: no bundle without the magic number", r.is_none());
        return;
    }
    let n = u32::from_le_bytes([d[4], d[5], d[6], d[7]]) as usize;
    let fits = n <= d.len() - 8;
    if !fits {
        ensures!("C01.reject-short: no bundle shorter than its length field says", r.is_none());
        return;
    }
    match r {
        Some((s, c)) => {
            ensures!("C01.valid-text: the source is valid UTF-8", utf8().calls >= 1 && utf8().valid && utf8().p == s.as_ptr() && utf8().n == s.len());
            ensures!("C01.source: exactly the source bytes", s.as_ptr() as usize == d.as_ptr() as usize + 8 && s.len() == n);
            ensures!("C01.cache: exactly the bytes behind the source", c.len() == d.len() - 8 - n && c.as_ptr() as usize == d.as_ptr() as usize + 8 + n);
            reach!("C01: a bundle with both parts", s.len() > 0 && c.len() > 0);
            reach!("C01: a bundle with an empty cache", c.len() == 0);
        }
        None => {
            ensures!("C01.accept: every well-formed bundle is accepted", !utf8().valid);
            reach!("C01: malformed text", true);
        }
    }
}

#[kani::proof]
#[kani::unwind(10)]
fn c01_is() {
    let d = any_slice();
    ensures!("C01.is: recognised exactly by the magic number and a complete header", is_code_cache(d) == has_magic(d));
    reach!("C01: recognised", is_code_cache(d));
    reach!("C01: too short", d.len() < 8 && d.len() > 4);
}
