use crate::hash_map_model::{HashMap, IntoIter as MapIntoIter, Iter as MapIter, RandomState};
use core::borrow::Borrow;
use core::fmt::{self, Debug};
use core::hash::{BuildHasher, Hash};
use core::iter::{Chain, FusedIterator};
use core::ops::{BitAnd, BitOr, BitXor, Sub};
use real_std::prelude::rust_2021::*;

#[derive(Clone)]
pub struct HashSet<T, S = RandomState> {
    pub(crate) map: HashMap<T, (), S>,
}

impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        HashSet { map: HashMap::new() }
    }
    pub fn with_capacity(capacity: usize) -> Self {
        HashSet { map: HashMap::with_capacity(capacity) }
    }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(hasher: S) -> Self {
        HashSet { map: HashMap::with_hasher(hasher) }
    }
    pub fn with_capacity_and_hasher(capacity: usize, hasher: S) -> Self {
        HashSet { map: HashMap::with_capacity_and_hasher(capacity, hasher) }
    }
    pub fn capacity(&self) -> usize {
        self.map.capacity()
    }
    pub fn hasher(&self) -> &S {
        self.map.hasher()
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { inner: self.map.iter() }
    }
    pub fn drain(&mut self) -> IntoIter<T> {
        let slots = core::mem::take(&mut self.map.slots);
        let walk = crate::hash_map_model::Walk::new(slots.len());
        IntoIter { inner: MapIntoIter { slots, walk } }
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&T) -> bool,
    {
        self.map.retain(|k, _| f(k))
    }
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn reserve(&mut self, additional: usize) {
        self.map.reserve(additional)
    }
    pub fn shrink_to_fit(&mut self) {
        self.map.shrink_to_fit()
    }
    pub fn shrink_to(&mut self, min_capacity: usize) {
        self.map.shrink_to(min_capacity)
    }
    pub fn contains<Q: ?Sized>(&self, value: &Q) -> bool
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.map.contains_key(value)
    }
    pub fn get<Q: ?Sized>(&self, value: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.map.get_key_value(value).map(|x| x.0)
    }
    pub fn insert(&mut self, value: T) -> bool {
        self.map.insert(value, ()).is_none()
    }
    pub fn replace(&mut self, value: T) -> Option<T> {
        let old = self.take(&value);
        self.insert(value);
        old
    }
    pub fn remove<Q: ?Sized>(&mut self, value: &Q) -> bool
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.map.remove(value).is_some()
    }
    pub fn take<Q: ?Sized>(&mut self, value: &Q) -> Option<T>
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.map.remove_entry(value).map(|x| x.0)
    }
    pub fn difference<'a>(&'a self, other: &'a HashSet<T, S>) -> Difference<'a, T, S> {
        Difference { iter: self.iter(), other }
    }
    pub fn symmetric_difference<'a>(&'a self, other: &'a HashSet<T, S>) -> Chain<Difference<'a, T, S>, Difference<'a, T, S>> {
        self.difference(other).chain(other.difference(self))
    }
    pub fn intersection<'a>(&'a self, other: &'a HashSet<T, S>) -> Intersection<'a, T, S> {
        Intersection { iter: self.iter(), other }
    }
    pub fn union<'a>(&'a self, other: &'a HashSet<T, S>) -> Chain<Iter<'a, T>, Difference<'a, T, S>> {
        self.iter().chain(other.difference(self))
    }
    pub fn is_disjoint(&self, other: &HashSet<T, S>) -> bool {
        self.iter().all(|x| !other.contains(x))
    }
    pub fn is_subset(&self, other: &HashSet<T, S>) -> bool {
        self.iter().all(|x| other.contains(x))
    }
    pub fn is_superset(&self, other: &HashSet<T, S>) -> bool {
        other.is_subset(self)
    }
}

pub struct Difference<'a, T, S> {
    iter: Iter<'a, T>,
    other: &'a HashSet<T, S>,
}
impl<T, S> Clone for Difference<'_, T, S> {
    fn clone(&self) -> Self {
        Difference { iter: self.iter.clone(), other: self.other }
    }
}
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Difference<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        loop {
            let x = self.iter.next()?;
            if !self.other.contains(x) {
                return Some(x);
            }
        }
    }
}
pub struct Intersection<'a, T, S> {
    iter: Iter<'a, T>,
    other: &'a HashSet<T, S>,
}
impl<T, S> Clone for Intersection<'_, T, S> {
    fn clone(&self) -> Self {
        Intersection { iter: self.iter.clone(), other: self.other }
    }
}
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Intersection<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        loop {
            let x = self.iter.next()?;
            if self.other.contains(x) {
                return Some(x);
            }
        }
    }
}

impl<T, S: Default> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { map: HashMap::default() }
    }
}
impl<T: Debug, S> Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().all(|k| other.contains(k))
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::default();
        s.extend(iter);
        s
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(arr: [T; N]) -> Self {
        let mut s = Self::new();
        s.extend(arr);
        s
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.insert(x);
        }
    }
}
impl<'a, T: 'a + Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        for x in iter {
            self.insert(*x);
        }
    }
}

pub struct Iter<'a, K> {
    inner: MapIter<'a, K, ()>,
}
impl<K> Clone for Iter<'_, K> {
    fn clone(&self) -> Self {
        Iter { inner: self.inner.clone() }
    }
}
impl<'a, K> Iterator for Iter<'a, K> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        self.inner.next().map(|x| x.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<K> ExactSizeIterator for Iter<'_, K> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
impl<K> FusedIterator for Iter<'_, K> {}

pub struct IntoIter<K> {
    inner: MapIntoIter<K, ()>,
}
impl<K> Iterator for IntoIter<K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.inner.next().map(|x| x.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<K> ExactSizeIterator for IntoIter<K> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
impl<K> FusedIterator for IntoIter<K> {}

impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { inner: self.map.into_iter() }
    }
}

macro_rules! set_op {
    ($tr:ident, $f:ident, $via:ident) => {
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default> $tr<&HashSet<T, S>> for &HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, rhs: &HashSet<T, S>) -> HashSet<T, S> {
                self.$via(rhs).cloned().collect()
            }
        }
    };
}
set_op!(BitOr, bitor, union);
set_op!(BitAnd, bitand, intersection);
set_op!(BitXor, bitxor, symmetric_difference);
set_op!(Sub, sub, difference);
