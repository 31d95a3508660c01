//! HashMap / HashSet, assumed contract: a finite partial function. The representation is exact for
//! CAP explicit entries plus `rest` further entries under keys that the code never touches by name
//! (only whole-map operations see them: len, is_empty, clear).
use std::borrow::Borrow;
pub const CAP: usize = 4;

#[derive(Clone)]
pub struct HashMap<K, V> { magic: u64, e: [Option<Box<(K, V)>>; CAP], pub rest: usize }

impl<K: Eq, V> HashMap<K, V> {
    pub const fn new() -> Self { HashMap { magic: 0x3a9, e: [const { None }; CAP], rest: 0 } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> usize where K: Borrow<Q> {
        let mut p = CAP;
        for i in 0..CAP { if p == CAP { if let Some(x) = &self.e[i] { if x.0.borrow() == k { p = i; } } } }
        p
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        for i in 0..CAP {
            if let Some(x) = &mut self.e[i] { if x.0 == k { return Some(std::mem::replace(&mut x.1, v)); } }
        }
        for i in 0..CAP { if self.e[i].is_none() { self.e[i] = Some(Box::new((k, v))); return None; } }
        panic!("MODEL: map capacity");
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        for i in 0..CAP { if let Some(x) = &self.e[i] { if x.0.borrow() == k { return Some(&x.1); } } }
        None
    }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        for i in 0..CAP { if let Some(x) = &self.e[i] { if x.0.borrow() == k { return Some((&x.0, &x.1)); } } }
        None
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        for x in self.e.iter_mut() { if let Some(x) = x { if x.0.borrow() == k { return Some(&mut x.1); } } }
        None
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k) < CAP }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|x| x.1) }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        for i in 0..CAP {
            let hit = match &self.e[i] { Some(x) => x.0.borrow() == k, None => false };
            if hit { return self.e[i].take().map(|x| *x); }
        }
        None
    }
    pub fn len(&self) -> usize { let mut n = self.rest; for i in 0..CAP { if self.e[i].is_some() { n += 1; } } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn clear(&mut self) { for i in 0..CAP { self.e[i] = None; } self.rest = 0; }
    fn whole(&self) { assert!(self.rest == 0, "MODEL: iteration over unknown entries"); }
    pub fn iter(&self) -> hash_map::Iter<'_, K, V> { self.whole(); hash_map::Iter { m: self, i: 0 } }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.iter().map(|(k, _)| k) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.iter().map(|(_, v)| v) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.whole(); self.e.iter_mut().flatten().map(|x| &mut x.1) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.whole(); self.e.iter_mut().flatten().map(|x| { let x = &mut **x; (&x.0, &mut x.1) }) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.whole();
        for i in 0..CAP {
            let keep = match &mut self.e[i] { Some(x) => { let x = &mut **x; f(&x.0, &mut x.1) } None => true };
            if !keep { self.e[i] = None; }
        }
    }
    pub fn drain(&mut self) -> hash_map::IntoIter<K, V> { self.whole(); let t = std::mem::take(self); hash_map::IntoIter { m: t, i: 0 } }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        let p = self.pos(&k);
        if p < CAP { hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, p, k }) } else { hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k }) }
    }
}
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { magic: 0x3a9, e: [const { None }; CAP], rest: 0 } } }
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); m.extend(it); m } }
impl<K: Eq, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.whole(); hash_map::IntoIter { m: self, i: 0 } } }
impl<'a, K: Eq, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
impl<K, V> std::fmt::Debug for HashMap<K, V> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

pub mod hash_map {
    pub use super::HashMap;
    pub struct Iter<'a, K, V> { pub(super) m: &'a HashMap<K, V>, pub(super) i: usize }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            while self.i < super::CAP {
                let j = self.i; self.i += 1;
                if let Some(x) = &self.m.e[j] { return Some((&x.0, &x.1)); }
            }
            None
        }
    }
    pub struct IntoIter<K, V> { pub(super) m: HashMap<K, V>, pub(super) i: usize }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> {
            while self.i < super::CAP {
                let j = self.i; self.i += 1;
                if let Some(x) = self.m.e[j].take() { return Some(*x); }
            }
            None
        }
    }
    pub struct OccupiedEntry<'a, K, V> { pub(super) m: &'a mut HashMap<K, V>, pub(super) p: usize, pub(super) k: K }
    pub struct VacantEntry<'a, K, V> { pub(super) m: &'a mut HashMap<K, V>, pub(super) k: K }
    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    impl<'a, K: Eq, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V { &self.m.e[self.p].as_ref().unwrap().1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m.e[self.p].as_mut().unwrap().1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m.e[self.p].as_mut().unwrap().1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
        pub fn remove(self) -> V { self.m.e[self.p].take().unwrap().1 }
        pub fn key(&self) -> &K { &self.k }
    }
    impl<'a, K: Eq, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            let mut p = super::CAP;
            for i in 0..super::CAP { if p == super::CAP && self.m.e[i].is_none() { p = i; } }
            assert!(p < super::CAP, "MODEL: map capacity");
            self.m.e[p] = Some(Box::new((self.k, v)));
            &mut self.m.e[p].as_mut().unwrap().1
        }
        pub fn key(&self) -> &K { &self.k }
    }
    impl<'a, K: Eq, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    }
}

#[derive(Clone)]
pub struct HashSet<T> { m: HashMap<T, ()> }
impl<T: Eq> HashSet<T> {
    pub const fn new() -> Self { HashSet { m: HashMap::new() } }
    pub fn insert(&mut self, t: T) -> bool { self.m.insert(t, ()).is_none() }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(k) }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.m.remove(k).is_some() }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> impl Iterator<Item = &T> { self.m.keys() }
}
impl<T> Default for HashSet<T> { fn default() -> Self { HashSet { m: HashMap::default() } } }
