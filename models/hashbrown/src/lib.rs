//! Model of the part of hashbrown that regalloc2 uses: maps and sets as association lists (at most 14 entries).
//! Used only under Kani, as the assumed contract of the dependency ("a map is a finite function");
//! concrete runs of the contracts use the real crate.
#![no_std]
use core::borrow::Borrow;
use core::marker::PhantomData;


/// Inline storage (no heap), so that the verifier sees plain arrays. Exceeding CAP fails loudly.
pub const CAP: usize = 14;
pub struct IV<T> { n: usize, a: [Option<T>; CAP] }
impl<T> IV<T> {
    const NONE: Option<T> = None;
    fn new() -> Self { IV { n: 0, a: [Self::NONE; CAP] } }
    fn len(&self) -> usize { self.n }
    fn is_empty(&self) -> bool { self.n == 0 }
    fn push(&mut self, t: T) { assert!(self.n < CAP, "model map capacity"); self.a[self.n] = Some(t); self.n += 1; }
    fn swap_remove(&mut self, i: usize) -> T { self.n -= 1; self.a.swap(i, self.n); match self.a[self.n].take() { Some(t) => t, None => unreachable!() } }
    fn clear(&mut self) { let mut i = 0; while i < self.n { self.a[i] = None; i += 1; } self.n = 0; }
    fn iter(&self) -> It<'_, T> { It { a: &self.a, n: self.n, i: 0 } }
    fn iter_mut(&mut self) -> core::iter::FilterMap<core::slice::IterMut<'_, Option<T>>, fn(&mut Option<T>) -> Option<&mut T>> { self.a.iter_mut().filter_map(Option::as_mut as fn(&mut Option<T>) -> Option<&mut T>) }
    fn retain<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) { let mut i = 0; while i < self.n { let k = match &mut self.a[i] { Some(t) => f(t), None => unreachable!() }; if k { i += 1 } else { self.swap_remove(i); } } }
    fn take(&mut self) -> IvInto<T> { let o = core::mem::replace(self, IV::new()); IvInto { a: o.a, i: 0 } }
}
impl<T: Clone> Clone for IV<T> { fn clone(&self) -> Self { let mut o = IV::new(); let mut i = 0; while i < CAP { o.a[i] = self.a[i].clone(); i += 1; } o.n = self.n; o } }
impl<T> core::ops::Index<usize> for IV<T> { type Output = T; fn index(&self, i: usize) -> &T { match &self.a[i] { Some(t) => t, None => unreachable!() } } }
impl<T> core::ops::IndexMut<usize> for IV<T> { fn index_mut(&mut self, i: usize) -> &mut T { match &mut self.a[i] { Some(t) => t, None => unreachable!() } } }
pub struct It<'a, T> { a: &'a [Option<T>; CAP], n: usize, i: usize }
impl<'a, T> Clone for It<'a, T> { fn clone(&self) -> Self { It { a: self.a, n: self.n, i: self.i } } }
impl<'a, T> Iterator for It<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { if self.i < self.n { let r = self.a[self.i].as_ref(); self.i += 1; r } else { None } } }
pub struct IvInto<T> { a: [Option<T>; CAP], i: usize }
impl<T> Iterator for IvInto<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.i < CAP { let r = self.a[self.i].take(); self.i += 1; r } else { None } } }
pub struct HashMap<K, V, S = ()> { items: IV<(K, V)>, s: PhantomData<S> }
impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { items: IV::new(), s: PhantomData } } }
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { items: self.items.clone(), s: PhantomData } } }
impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.debug_list().entries(self.items.iter()).finish() } }
impl<K: Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool { self.items.len() == o.items.len() && self.items.iter().all(|(k, v)| o.get(k) == Some(v)) }
}
impl<K: Eq, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: Eq, V, S> HashMap<K, V, S> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.items.len() { if self.items[i].0.borrow() == k { return Some(i); } i += 1; }
        None
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.items[i].1), None => None } }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.items[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) { Some(i) => Some(core::mem::replace(&mut self.items[i].1, v)), None => { self.items.push((k, v)); None } }
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.items.swap_remove(i).1), None => None } }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V, S> {
        match self.pos(&k) {
            Some(i) => hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, i }),
            None => hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k }),
        }
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.items.retain(|e| f(&e.0, &mut e.1)) }
    pub fn reserve(&mut self, _n: usize) {}
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self { Self::default() }
    pub fn with_hasher(_s: S) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn iter(&self) -> hash_map::Iter<'_, K, V> { hash_map::Iter(self.items.iter()) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.items.iter_mut().map(|e| (&e.0, &mut e.1)) }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ { self.items.iter().map(|e| &e.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ { self.items.iter().map(|e| &e.1) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ { self.items.iter_mut().map(|e| &mut e.1) }
    pub fn drain(&mut self) -> IvInto<(K, V)> { self.items.take() }
}
impl<K: Eq, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IvInto<(K, V)>; fn into_iter(mut self) -> Self::IntoIter { self.items.take() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = core::iter::FilterMap<core::slice::IterMut<'a, Option<(K, V)>>, fn(&'a mut Option<(K, V)>) -> Option<(&'a K, &'a mut V)>>;
    fn into_iter(self) -> Self::IntoIter { fn f<'a, K, V>(e: &'a mut Option<(K, V)>) -> Option<(&'a K, &'a mut V)> { e.as_mut().map(|e| (&e.0, &mut e.1)) } self.items.a.iter_mut().filter_map(f as fn(&'a mut Option<(K, V)>) -> Option<(&'a K, &'a mut V)>) }
}
impl<Q: ?Sized + Eq, K: Eq + Borrow<Q>, V, S> core::ops::Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }

pub mod hash_map {
    use super::*;
    pub struct Iter<'a, K, V>(pub(crate) It<'a, (K, V)>);
    impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(e) => Some((&e.0, &e.1)), None => None } } }
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter(self.0.clone()) } }
    pub struct OccupiedEntry<'a, K, V, S> { pub(crate) m: &'a mut HashMap<K, V, S>, pub(crate) i: usize }
    pub struct VacantEntry<'a, K, V, S> { pub(crate) m: &'a mut HashMap<K, V, S>, pub(crate) k: K }
    pub enum Entry<'a, K, V, S = ()> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn get(&self) -> &V { &self.m.items[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m.items[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m.items[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { core::mem::replace(&mut self.m.items[self.i].1, v) }
        pub fn remove(self) -> V { self.m.items.swap_remove(self.i).1 }
        pub fn key(&self) -> &K { &self.m.items[self.i].0 }
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn insert(self, v: V) -> &'a mut V { self.m.items.push((self.k, v)); let i = self.m.items.len() - 1; &mut self.m.items[i].1 }
        pub fn key(&self) -> &K { &self.k }
    }
    impl<'a, K, V, S> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()) } self }
    }
}

pub struct HashSet<T, S = ()> { map: HashMap<T, (), S> }
impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet { map: HashMap::default() } } }
impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { map: self.map.clone() } } }
impl<T: core::fmt::Debug, S> core::fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: Eq, S> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|x| o.contains(x)) } }
impl<T: Eq, S> Eq for HashSet<T, S> {}
impl<T: Eq, S> HashSet<T, S> {
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.map.contains_key(k) }
    pub fn insert(&mut self, t: T) -> bool { if self.map.pos(&t).is_some() { false } else { self.map.items.push((t, ())); true } }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.map.remove(k).is_some() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.map.items.retain(|e| f(&e.0)) }
    pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|x| o.contains(x)) }
}
impl<T, S> HashSet<T, S> {
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn clear(&mut self) { self.map.clear() }
    pub fn iter(&self) -> hash_set::Iter<'_, T> { hash_set::Iter(self.map.items.iter()) }
}
pub mod hash_set {
    pub struct Iter<'a, T>(pub(crate) super::It<'a, (T, ())>);
    impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { match self.0.next() { Some(e) => Some(&e.0), None => None } } }
}
impl<T: Eq, S> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::default(); for k in it { m.insert(k); } m } }
impl<T: Eq, S> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for k in it { self.insert(k); } } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = hash_set::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = core::iter::Map<IvInto<(T, ())>, fn((T, ())) -> T>; fn into_iter(mut self) -> Self::IntoIter { fn f<T>(e: (T, ())) -> T { e.0 } self.map.items.take().map(f as fn((T, ())) -> T) } }
impl<'a, T: Eq + Copy, S> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for k in it { self.insert(*k); } } }
impl<T, S> HashSet<T, S> { pub fn drain(&mut self) -> core::iter::Map<IvInto<(T, ())>, fn((T, ())) -> T> { fn f<T>(e: (T, ())) -> T { e.0 } self.map.items.take().map(f as fn((T, ())) -> T) } }
