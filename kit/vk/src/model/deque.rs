//! VecDeque, assumed contract: a sequence. The representation is exact for an arbitrarily long
//! unknown prefix (`virt` elements, identified by tickets `base..base+virt`, fabricated on demand by
//! `mk`) followed by at most CAP explicit elements.
pub const CAP: usize = 4;

pub struct VecDeque<T> {
    pub virt: usize,
    pub base: u64,
    pub mk: Option<fn(u64) -> T>,
    pub on_virt_drop: Option<fn(usize)>,
    real: [Option<Box<T>>; CAP],
    n: usize,
}
impl<T> VecDeque<T> {
    pub fn new() -> Self {
        let n = crate::ghost::g().next_prefix;
        crate::ghost::g().next_prefix = 0;
        let mut d = Self::vp_empty();
        d.virt = n; d.base = 100;
        d
    }
    pub const fn vp_empty() -> Self {
        VecDeque { virt: 0, base: 0, mk: None, on_virt_drop: None, real: [const { None }; CAP], n: 0 }
    }
    fn fab(mk: Option<fn(u64) -> T>, t: u64) -> T { match mk { Some(f) => f(t), None => T::vp_fab(t) } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    /// ghost: make the first `n` elements unknown ones
    pub fn vp_prefix(&mut self, n: usize, base: u64, mk: fn(u64) -> T, on_drop: fn(usize)) {
        self.virt = n; self.base = base; self.mk = Some(mk); self.on_virt_drop = Some(on_drop);
    }
    pub fn vp_real(&self, i: usize) -> Option<&T> { if i < CAP { self.real[i].as_deref() } else { None } }
    pub fn vp_real_len(&self) -> usize { self.n }
    pub fn len(&self) -> usize { self.virt + self.n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn push_back(&mut self, t: T) {
        assert!(self.n < CAP, "MODEL: deque capacity");
        let n = self.n;
        let mut t = Some(Box::new(t));
        for i in 0..CAP { if i == n { self.real[i] = t.take(); } }
        self.n = n + 1;
    }
    pub fn push_front(&mut self, t: T) {
        assert!(self.virt == 0, "MODEL: push_front before an unknown prefix");
        assert!(self.n < CAP, "MODEL: deque capacity");
        let mut i = CAP - 1;
        while i > 0 { self.real[i] = self.real[i - 1].take(); i -= 1; }
        self.real[0] = Some(Box::new(t));
        self.n += 1;
    }
    pub fn pop_front(&mut self) -> Option<T> {
        if self.virt > 0 {
            let b = self.base;
            self.base = b.wrapping_add(1); self.virt -= 1;
            return Some(Self::fab(self.mk, b));
        }
        if self.n == 0 { return None; }
        let r = self.real[0].take();
        for i in 1..CAP { self.real[i - 1] = self.real[i].take(); }
        self.n -= 1;
        r.map(|b| *b)
    }
    pub fn pop_back(&mut self) -> Option<T> {
        if self.n > 0 { self.n -= 1; for i in 0..CAP { if i == self.n { return self.real[i].take().map(|b| *b); } } }
        if self.virt > 0 {
            self.virt -= 1;
            return Some(Self::fab(self.mk, self.base.wrapping_add(self.virt as u64)));
        }
        None
    }
    pub fn remove(&mut self, i: usize) -> Option<T> {
        if i == 0 { return self.pop_front(); }
        assert!(self.virt == 0, "MODEL: remove inside an unknown prefix");
        if i >= self.n { return None; }
        let r = self.real[i].take();
        for k in 1..CAP { if k > i { self.real[k - 1] = self.real[k].take(); } }
        self.n -= 1;
        r.map(|b| *b)
    }
    pub fn front(&self) -> Option<&T> { assert!(self.virt == 0, "MODEL: front of an unknown prefix"); self.real[0].as_deref() }
    pub fn front_mut(&mut self) -> Option<&mut T> { assert!(self.virt == 0, "MODEL: front of an unknown prefix"); self.real[0].as_deref_mut() }
    pub fn back(&self) -> Option<&T> { if self.n == 0 { assert!(self.virt == 0, "MODEL: back of an unknown prefix"); None } else { self.real[self.n - 1].as_deref() } }
    pub fn get(&self, i: usize) -> Option<&T> { assert!(self.virt == 0, "MODEL: index into an unknown prefix"); if i < self.n { self.real[i].as_deref() } else { None } }
    pub fn clear(&mut self) { let t = std::mem::take(self); drop(t); }
    pub fn iter(&self) -> Iter<'_, T> { assert!(self.virt == 0, "MODEL: iteration over an unknown prefix"); Iter { d: self, i: 0 } }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> { assert!(self.virt == 0, "MODEL: iteration over an unknown prefix"); self.real.iter_mut().flatten().map(|b| &mut **b) }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, _r: R) -> IntoIter<T> { assert!(matches!((_r.start_bound(), _r.end_bound()), (std::ops::Bound::Unbounded, std::ops::Bound::Unbounded)), "MODEL: partial drain"); IntoIter(std::mem::take(self)) }
    pub fn append(&mut self, o: &mut Self) {
        if self.len() == 0 { std::mem::swap(self, o); return; }
        assert!(o.virt == 0, "MODEL: append of an unknown prefix");
        for _ in 0..CAP { if let Some(x) = o.pop_front() { self.push_back(x) } }
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        assert!(self.virt == 0, "MODEL: retain over an unknown prefix");
        for _ in 0..self.n.min(CAP) { if let Some(x) = self.pop_front() { if f(&x) { self.push_back(x) } } }
    }
}
/// Fabrication of unknown elements, where the element type has a model.
pub trait Fab: Sized { fn vp_fab(t: u64) -> Self; }
impl<T> Fab for T { default fn vp_fab(_t: u64) -> T { panic!("MODEL: unknown element of this type") } }
impl Fab for std::task::Waker { fn vp_fab(t: u64) -> Self { crate::rgflag::waker(t) } }
impl<T> Default for VecDeque<T> { fn default() -> Self { Self::new() } }
impl<T> Drop for VecDeque<T> { fn drop(&mut self) { if self.virt > 0 { if let Some(f) = self.on_virt_drop { f(self.virt) } } } }
pub struct Iter<'a, T> { d: &'a VecDeque<T>, i: usize }
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> { let i = self.i; if i < CAP { self.i += 1; self.d.real[i].as_deref() } else { None } }
}
pub struct IntoIter<T>(VecDeque<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.pop_front() } }
impl<T> IntoIterator for VecDeque<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a VecDeque<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<T> Extend<T> for VecDeque<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push_back(x) } } }
impl<T> FromIterator<T> for VecDeque<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut d = Self::new(); d.extend(it); d } }
impl<T> std::ops::Index<usize> for VecDeque<T> { type Output = T; fn index(&self, i: usize) -> &T { self.get(i).expect("index out of bounds") } }
