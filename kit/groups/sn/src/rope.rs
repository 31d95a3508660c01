//! Byte vector, assumed contract: what is appended is appended at the end. The first 8 bytes are
//! kept as values, what follows as the slices appended (by identity, any length).
use std::marker::PhantomData;
pub const NP: usize = 4;
#[derive(Debug)]
pub struct Vec<T> { pub head: [u8; 8], pub hn: usize, pub p: [*const u8; NP], pub l: [usize; NP], pub np: usize, pub cap: usize, _t: PhantomData<T> }
impl Vec<u8> {
    pub fn new() -> Self { Self::with_capacity(0) }
    pub fn with_capacity(cap: usize) -> Self {
        assert!(cap <= isize::MAX as usize, "capacity overflow");
        Vec { head: [0; 8], hn: 0, p: [std::ptr::null(); NP], l: [0; NP], np: 0, cap, _t: PhantomData }
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn push(&mut self, b: u8) { self.extend_from_slice(&[b]) }
    pub fn extend_from_slice(&mut self, s: &[u8]) {
        if self.np == 0 && self.hn < 8 && s.len() <= 8 - self.hn {
            for i in 0..8 { if i < s.len() { let k = self.hn + i; for j in 0..8 { if j == k { self.head[j] = s[i]; } } } }
            self.hn += s.len();
            return;
        }
        let k = self.np;
        assert!(k < NP, "MODEL: too many appended slices");
        self.np = k + 1;
        for j in 0..NP { if j == k { self.p[j] = s.as_ptr(); self.l[j] = s.len(); } }
    }
    pub fn extend<'a, I: IntoIterator<Item = &'a u8>>(&mut self, it: I) where I::IntoIter: AsSlice<'a> { let i = it.into_iter(); self.extend_from_slice(i.vp_slice()) }
    pub fn len(&self) -> usize { let mut n = self.hn; for j in 0..NP { if j < self.np { n += self.l[j]; } } n }
}
pub trait AsSlice<'a> { fn vp_slice(&self) -> &'a [u8]; }
impl<'a> AsSlice<'a> for std::slice::Iter<'a, u8> { fn vp_slice(&self) -> &'a [u8] { self.as_slice() } }
