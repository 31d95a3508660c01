//! Vec, assumed contract, for short sequences: the elements sit inline (at most N of them; more is a
//! tool limit, not a failure), removal is written with constant indices.
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};
pub struct Vec<T, const N: usize = 4> { n: usize, a: [MaybeUninit<T>; N] }
impl<T, const N: usize> Vec<T, N> {
    pub const fn new() -> Self { Vec { n: 0, a: [const { MaybeUninit::uninit() }; N] } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn push(&mut self, t: T) {
        assert!(self.n < N, "MODEL: more elements than the sequence model holds");
        let k = self.n;
        let mut t = Some(t);
        for i in 0..N { if i == k { self.a[i].write(t.take().unwrap()); break; } }
        self.n = k + 1;
    }
    pub fn pop(&mut self) -> Option<T> { if self.n == 0 { None } else { Some(self.remove(self.n - 1)) } }
    pub fn remove(&mut self, idx: usize) -> T {
        assert!(idx < self.n, "removal index (is {idx}) should be < len");
        let mut out = MaybeUninit::uninit();
        for i in 0..N {
            if i == idx { out.write(unsafe { self.a[i].assume_init_read() }); }
            else if i > idx && i < self.n && i > 0 { let v = unsafe { self.a[i].assume_init_read() }; self.a[i - 1].write(v); }
        }
        self.n -= 1;
        unsafe { out.assume_init() }
    }
    pub fn swap_remove(&mut self, idx: usize) -> T {
        assert!(idx < self.n, "swap_remove index should be < len");
        let last = self.n - 1;
        let mut out = MaybeUninit::uninit();
        for i in 0..N { if i == idx { out.write(unsafe { self.a[i].assume_init_read() }); } }
        if idx != last {
            for j in 0..N { if j == last {
                let v = unsafe { self.a[j].assume_init_read() };
                let mut v = Some(v);
                for i in 0..N { if i == idx { self.a[i].write(v.take().unwrap()); } }
            } }
        }
        self.n = last;
        unsafe { out.assume_init() }
    }
    pub fn insert(&mut self, idx: usize, t: T) {
        assert!(idx <= self.n, "insertion index should be <= len");
        assert!(self.n < N, "MODEL: more elements than the sequence model holds");
        let mut t = Some(t);
        for k in 0..N {
            let i = N - 1 - k;
            if i > idx && i <= self.n { let v = unsafe { self.a[i - 1].assume_init_read() }; self.a[i].write(v); }
            else if i == idx { self.a[i].write(t.take().unwrap()); }
        }
        self.n += 1;
    }
    pub fn clear(&mut self) { let n = self.n; self.n = 0; for i in 0..N { if i < n { unsafe { self.a[i].assume_init_drop() } } } }
    pub fn truncate(&mut self, m: usize) { while self.n > m { drop(self.pop()); } }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        for _ in 0..N { if i < self.n { if f(&self[i]) { i += 1; } else { drop(self.remove(i)); } } }
    }
    pub fn as_slice(&self) -> &[T] { self }
    pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.push(t); } }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T, N> {
        use std::ops::Bound::*;
        let a = match r.start_bound() { Included(a) => *a, Excluded(a) => *a + 1, Unbounded => 0 };
        let b = match r.end_bound() { Included(b) => *b + 1, Excluded(b) => *b, Unbounded => self.n };
        let mut v = Vec::new();
        for _ in a..b { v.push(self.remove(a)); }
        IntoIter { v }
    }
}
impl<T, const N: usize> Drop for Vec<T, N> {
    fn drop(&mut self) { for i in 0..N { if i < self.n { unsafe { self.a[i].assume_init_drop() } } } }
}
impl<T, const N: usize> Deref for Vec<T, N> { type Target = [T]; fn deref(&self) -> &[T] { unsafe { std::slice::from_raw_parts(self.a.as_ptr() as *const T, self.n) } } }
impl<T, const N: usize> DerefMut for Vec<T, N> { fn deref_mut(&mut self) -> &mut [T] { unsafe { std::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.n) } } }
impl<T, const N: usize> Default for Vec<T, N> { fn default() -> Self { Self::new() } }
impl<'a, T, const N: usize> IntoIterator for &'a Vec<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, T, const N: usize> IntoIterator for &'a mut Vec<T, N> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
pub struct IntoIter<T, const N: usize> { v: Vec<T, N> }
impl<T, const N: usize> Iterator for IntoIter<T, N> { type Item = T; fn next(&mut self) -> Option<T> { if self.v.n == 0 { None } else { Some(self.v.remove(0)) } } }
impl<T, const N: usize> IntoIterator for Vec<T, N> { type Item = T; type IntoIter = IntoIter<T, N>; fn into_iter(self) -> IntoIter<T, N> { IntoIter { v: self } } }
impl<T, const N: usize> FromIterator<T> for Vec<T, N> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut v = Vec::new(); for t in it { v.push(t); } v } }
impl<T: Clone, const N: usize> Clone for Vec<T, N> { fn clone(&self) -> Self { let mut v = Vec::new(); for t in self.iter() { v.push(t.clone()); } v } }
impl<T: PartialEq, const N: usize> PartialEq for Vec<T, N> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<T, const N: usize> std::fmt::Debug for Vec<T, N> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub type Vec2<T> = Vec<T, 2>;
