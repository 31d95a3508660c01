//! Byte strings of any length, known by identity: a `Vec<u8>` is (cell, length) and the ghost table
//! says what its contents are, as a *term* (uninterpreted). A slice `&[u8]` of it is the genuine fat
//! pointer (address of the cell, length), so slices pass through ordinary Rust code; reading single
//! bytes through it is not possible (the verifier then reports a bounds failure).
#![allow(static_mut_refs)]
use std::ops::{Deref, DerefMut};

pub const NC: usize = 24;
pub const NB: usize = 8;
pub const ZERO: u64 = 0x5a00_0000_0000_0001;
pub const GARBAGE: u64 = 0x6a00_0000_0000_0bad;

/// memory of a JS buffer
#[derive(Clone, Copy)]
pub struct Buf {
    pub base: *mut u8,
    pub len: usize,
    /// contents of the whole buffer
    pub term: u64,
    /// a view known to the harness: contents of [voff, voff+vlen)
    pub voff: usize,
    pub vlen: usize,
    pub vterm: u64,
    /// the one write into it
    pub writes: u32,
    pub woff: usize,
    pub wlen: usize,
    pub wterm: u64,
}
pub struct Mem {
    pub magic: u64,
    pub term: [u64; NC],
    pub len: [usize; NC],
    pub next: usize,
    pub up: bool,
    pub base: *mut u8,
    pub buf: [Buf; NB],
    pub nbuf: usize,
    /// biggest allocation asked for
    pub biggest: usize,
    /// `try_reserve` gives up beyond this
    pub can_alloc: usize,
    pub oob: bool,
}
const NOBUF: Buf = Buf { base: std::ptr::null_mut(), len: 0, term: GARBAGE, voff: 0, vlen: 0, vterm: GARBAGE, writes: 0, woff: 0, wlen: 0, wterm: GARBAGE };
pub static mut MEM: Mem = Mem { magic: 0x5EED_0000_4444_0001, term: [GARBAGE; NC], len: [0; NC], next: 1, up: false, base: std::ptr::null_mut(), buf: [NOBUF; NB], nbuf: 1, biggest: 0, can_alloc: usize::MAX, oob: false };
pub fn mem() -> &'static mut Mem { unsafe { &mut *(&raw mut MEM) } }
/// one huge object, never read or written, in which every byte string has its own region
fn region(k: usize) -> *mut u8 {
    let m = mem();
    if !m.up { m.up = true; let sz = crate::any_usize(); crate::any::assume(sz == 1 << 44); m.base = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(sz, 1)) }; }
    m.base.wrapping_add(k << 37)
}
fn cell_ptr(k: usize) -> *mut u8 { region(k) }

pub fn new_cell(term: u64, len: usize) -> *mut u8 {
    let m = mem();
    let k = m.next;
    assert!(k < NC, "MODEL: too many byte strings");
    m.next = k + 1;
    m.term[k] = term;
    m.len[k] = len;
    if len > m.biggest { m.biggest = len; }
    cell_ptr(k)
}
/// the contents of a slice
pub fn term_of(s: &[u8]) -> u64 {
    let m = mem();
    for k in 1..NC { if s.as_ptr() == cell_ptr(k) as *const u8 { return if s.len() == m.len[k] { m.term[k] } else { GARBAGE }; } }
    for b in 1..NB { if b < m.nbuf { if let Some(t) = buf_read(b, s.as_ptr(), s.len()) { return t; } } }
    GARBAGE
}
pub fn term_of_str(s: &str) -> u64 { term_of(s.as_bytes()) }
pub fn is_cell(p: *const u8) -> bool { for k in 1..NC { if p == cell_ptr(k) as *const u8 { return true; } } false }
/// the whole slice gets new contents
pub fn set_term(s: &mut [u8], t: u64) {
    let m = mem();
    for k in 1..NC { if s.as_ptr() == cell_ptr(k) as *const u8 { m.term[k] = if s.len() == m.len[k] { t } else { GARBAGE }; return; } }
    for b in 1..NB { if b < m.nbuf && buf_write(b, s.as_mut_ptr(), s.len(), t) { return; } }
}
/// A JS buffer of any size
pub fn new_buf(len: usize, term: u64) -> usize {
    let m = mem();
    let b = m.nbuf;
    assert!(b < NB, "MODEL: too many buffers");
    m.nbuf = b + 1;
    let base = region(NC + b);
    m.buf[b] = Buf { base, len, term, ..NOBUF };
    b
}
fn buf_read(b: usize, p: *const u8, n: usize) -> Option<u64> {
    let m = mem();
    let off = (p as usize).wrapping_sub(m.buf[b].base as usize);
    if m.buf[b].base.is_null() || off > m.buf[b].len { return None; }
    if off + n > m.buf[b].len { m.oob = true; return Some(GARBAGE); }
    if off == m.buf[b].voff && n == m.buf[b].vlen { return Some(m.buf[b].vterm); }
    Some(if off == 0 && n == m.buf[b].len { m.buf[b].term } else { GARBAGE })
}
fn buf_write(b: usize, p: *mut u8, n: usize, t: u64) -> bool {
    let m = mem();
    let off = (p as usize).wrapping_sub(m.buf[b].base as usize);
    if m.buf[b].base.is_null() || off > m.buf[b].len { return false; }
    if off + n > m.buf[b].len { m.oob = true; }
    m.buf[b].writes += 1;
    m.buf[b].woff = off;
    m.buf[b].wlen = n;
    m.buf[b].wterm = t;
    m.buf[b].term = if off == 0 && n == m.buf[b].len { t } else { GARBAGE };
    true
}
/// `ptr::copy_nonoverlapping` / `ptr::copy`
pub unsafe fn vp_copy<T>(src: *const T, dst: *mut T, n: usize) {
    assert!(std::mem::size_of::<T>() == 1, "MODEL: copy of bytes only");
    if n == 0 { return; }
    let t = term_of(unsafe { std::slice::from_raw_parts(src as *const u8, n) });
    set_term(unsafe { std::slice::from_raw_parts_mut(dst as *mut u8, n) }, t);
}

/// the same as methods of raw pointers
pub trait VpPtr<T>: Copy {
    unsafe fn vp_copy_from_nonoverlapping(self, src: *const T, n: usize);
    unsafe fn vp_copy_from(self, src: *const T, n: usize);
    unsafe fn vp_copy_to_nonoverlapping(self, dst: *mut T, n: usize);
    unsafe fn vp_copy_to(self, dst: *mut T, n: usize);
}
impl<T> VpPtr<T> for *mut T {
    unsafe fn vp_copy_from_nonoverlapping(self, src: *const T, n: usize) { unsafe { vp_copy(src, self, n) } }
    unsafe fn vp_copy_from(self, src: *const T, n: usize) { unsafe { vp_copy(src, self, n) } }
    unsafe fn vp_copy_to_nonoverlapping(self, dst: *mut T, n: usize) { unsafe { vp_copy(self, dst, n) } }
    unsafe fn vp_copy_to(self, dst: *mut T, n: usize) { unsafe { vp_copy(self, dst, n) } }
}
impl<T> VpPtr<T> for *const T {
    unsafe fn vp_copy_from_nonoverlapping(self, _: *const T, _: usize) { panic!("MODEL: copy to a const pointer") }
    unsafe fn vp_copy_from(self, _: *const T, _: usize) { panic!("MODEL: copy to a const pointer") }
    unsafe fn vp_copy_to_nonoverlapping(self, dst: *mut T, n: usize) { unsafe { vp_copy(self, dst, n) } }
    unsafe fn vp_copy_to(self, dst: *mut T, n: usize) { unsafe { vp_copy(self, dst, n) } }
}
/// and of slices
pub trait VpCopy { fn vp_copy_from_slice(&mut self, src: &[u8]); fn vp_clone_from_slice(&mut self, src: &[u8]); }
impl VpCopy for [u8] {
    fn vp_copy_from_slice(&mut self, src: &[u8]) {
        assert!(self.len() == src.len(), "copy_from_slice: lengths differ");
        if self.len() == 0 { return; }
        let t = term_of(src);
        assert!(tracked(self), "MODEL: copy to memory outside the model");
        set_term(self, t);
    }
    fn vp_clone_from_slice(&mut self, src: &[u8]) { self.vp_copy_from_slice(src) }
}
fn tracked(s: &[u8]) -> bool {
    let m = mem();
    if is_cell(s.as_ptr()) { return true; }
    for b in 1..NB { if b < m.nbuf && !m.buf[b].base.is_null() && (s.as_ptr() as usize).wrapping_sub(m.buf[b].base as usize) <= m.buf[b].len { return true; } }
    false
}

// ---- Vec ---------------------------------------------------------------------------------------
pub struct Vec<T = u8> { p: *mut u8, n: usize, _t: std::marker::PhantomData<T> }
#[derive(Debug)]
pub struct TryReserveError;
impl Vec<u8> {
    pub fn vp(term: u64, n: usize) -> Self { Vec { p: new_cell(term, n), n, _t: std::marker::PhantomData } }
    pub fn new() -> Self { Self::vp(ZERO, 0) }
    pub fn with_capacity(c: usize) -> Self { let m = mem(); if c > m.biggest { m.biggest = c; } Self::new() }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn as_slice(&self) -> &[u8] { self }
    pub fn as_mut_slice(&mut self) -> &mut [u8] { self }
    pub fn as_ptr(&self) -> *const u8 { self.p }
    pub fn as_mut_ptr(&mut self) -> *mut u8 { self.p }
    pub fn try_reserve_exact(&mut self, n: usize) -> Result<(), TryReserveError> {
        let m = mem();
        if n > m.can_alloc { return Err(TryReserveError); }
        Ok(())
    }
    pub fn try_reserve(&mut self, n: usize) -> Result<(), TryReserveError> { self.try_reserve_exact(n) }
    fn re(&mut self, n: usize, t: u64) {
        self.n = n;
        let m = mem();
        for k in 1..NC { if self.p == cell_ptr(k) { m.len[k] = n; m.term[k] = t; } }
    }
    pub fn resize(&mut self, n: usize, _v: u8) { let t = if n == self.n { term_of(self) } else if self.n == 0 { ZERO } else { GARBAGE }; self.re(n, t); }
    pub fn truncate(&mut self, n: usize) { if n < self.n { self.re(n, GARBAGE); } }
    pub fn extend_from_slice(&mut self, o: &[u8]) { if o.len() == 0 { return; } let t = if self.n == 0 { term_of(o) } else { GARBAGE }; self.re(self.n + o.len(), t); }
    pub fn into_boxed_slice(self) -> Self { self }
}
impl Clone for Vec<u8> { fn clone(&self) -> Self { Self::vp(term_of(self), self.n) } }
impl Default for Vec<u8> { fn default() -> Self { Self::new() } }
impl Deref for Vec<u8> { type Target = [u8]; fn deref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } } }
impl DerefMut for Vec<u8> { fn deref_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.p, self.n) } } }
impl AsRef<[u8]> for Vec<u8> { fn as_ref(&self) -> &[u8] { self } }
impl From<&[u8]> for Vec<u8> { fn from(s: &[u8]) -> Self { Self::vp(term_of(s), s.len()) } }
#[macro_export]
macro_rules! vp_vec {
    () => { $crate::model::vbytes::Vec::new() };
    ($x:expr; $n:expr) => {{ let _: u8 = $x; let n: usize = $n; assert!(n <= isize::MAX as usize, "MEMORY: capacity overflow"); assert!(n <= $crate::model::vbytes::mem().can_alloc, "MEMORY: a guest-chosen size reaches an aborting allocation"); $crate::model::vbytes::Vec::vp(if $x == 0 { $crate::model::vbytes::ZERO } else { $crate::model::vbytes::GARBAGE }, n) }};
}
pub use vp_vec as vec;
/// `to_vec`/`to_owned` of byte slices
pub trait VpBytes { fn vp_to_vec(&self) -> Vec<u8>; }
impl VpBytes for [u8] { fn vp_to_vec(&self) -> Vec<u8> { Vec::from(self) } }

// ---- texts -------------------------------------------------------------------------------------
/// a text of unknown content
pub fn text(term: u64, n: usize) -> crate::model::string::String { crate::model::string::String::raw(new_cell(term, n), n) }
/// a buffer's cells, `&store[..]`
#[repr(transparent)]
pub struct VCells([std::cell::Cell<u8>]);
impl VCells {
    pub unsafe fn at<'a>(p: *const u8, n: usize) -> &'a VCells { unsafe { &*(std::ptr::slice_from_raw_parts(p, n) as *const VCells) } }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    pub fn as_ptr(&self) -> *const std::cell::Cell<u8> { self.0.as_ptr() }
    pub fn iter(&self) -> VIter { VIter { p: self.0.as_ptr() as *const u8, n: self.0.len() } }
}
fn sub(c: &VCells, a: usize, b: usize) -> &VCells {
    assert!(a <= b && b <= c.len(), "slice index out of bounds");
    unsafe { VCells::at((c.0.as_ptr() as *const u8).wrapping_add(a), b - a) }
}
impl std::ops::Index<std::ops::RangeTo<usize>> for VCells { type Output = VCells; fn index(&self, r: std::ops::RangeTo<usize>) -> &VCells { sub(self, 0, r.end) } }
impl std::ops::Index<std::ops::Range<usize>> for VCells { type Output = VCells; fn index(&self, r: std::ops::Range<usize>) -> &VCells { sub(self, r.start, r.end) } }
impl std::ops::Index<std::ops::RangeFrom<usize>> for VCells { type Output = VCells; fn index(&self, r: std::ops::RangeFrom<usize>) -> &VCells { sub(self, r.start, self.len()) } }
impl std::ops::Index<std::ops::RangeFull> for VCells { type Output = VCells; fn index(&self, _: std::ops::RangeFull) -> &VCells { self } }
pub struct VIter { p: *const u8, n: usize }
impl VIter {
    /// `f` is checked on an arbitrary byte: only the identity keeps the contents
    pub fn map<F: Fn(&std::cell::Cell<u8>) -> u8>(self, f: F) -> VMap {
        let x = crate::any_u8();
        let c = std::cell::Cell::new(x);
        VMap { i: self, same: f(&c) == x }
    }
    pub fn take(self, n: usize) -> VIter { VIter { p: self.p, n: if n < self.n { n } else { self.n } } }
}
pub struct VMap { i: VIter, same: bool }
impl VMap {
    pub fn collect<B: From<VMap>>(self) -> B { self.into() }
}
impl From<VMap> for Vec<u8> {
    fn from(m: VMap) -> Self {
        let t = term_of(unsafe { std::slice::from_raw_parts(m.i.p, m.i.n) });
        Vec::vp(if m.same { t } else { GARBAGE }, m.i.n)
    }
}
