use core::borrow::Borrow;
use core::fmt::{self, Debug};
use core::hash::{BuildHasher, Hash, Hasher};
use core::iter::FusedIterator;
use core::marker::PhantomData;
use core::ops::Index;
use crate::inj_hasher::InjHasher;
use real_std::prelude::rust_2021::*;

// ---------------------------------------------------------------- hasher

/// In a map's own hasher: a cheap hash (which function it is does not matter: lookups also
/// compare keys). Where the code makes a hasher itself: an injective one.
#[derive(Clone, Debug)]
pub struct DefaultHasher {
    cheap: bool,
    state: u64,
    inj: InjHasher,
}
impl DefaultHasher {
    pub fn new() -> Self {
        DefaultHasher { cheap: false, state: 0, inj: InjHasher::default() }
    }
    #[inline]
    fn add(&mut self, x: u64) {
        self.state = self.state.rotate_left(9) ^ x;
    }
}
impl Default for DefaultHasher {
    fn default() -> Self {
        Self::new()
    }
}
impl Hasher for DefaultHasher {
    fn finish(&self) -> u64 {
        if self.cheap { self.state } else { self.inj.finish() }
    }
    fn write(&mut self, bytes: &[u8]) {
        if !self.cheap {
            return self.inj.write(bytes);
        }
        let mut i = 0;
        while i < bytes.len() {
            self.add(bytes[i] as u64);
            i += 1;
        }
    }
    fn write_u8(&mut self, i: u8) {
        if self.cheap { self.add(i as u64) } else { self.inj.write_u8(i) }
    }
    fn write_u16(&mut self, i: u16) {
        if self.cheap { self.add(i as u64) } else { self.inj.write_u16(i) }
    }
    fn write_u32(&mut self, i: u32) {
        if self.cheap { self.add(i as u64) } else { self.inj.write_u32(i) }
    }
    fn write_u64(&mut self, i: u64) {
        if self.cheap { self.add(i) } else { self.inj.write_u64(i) }
    }
    fn write_usize(&mut self, i: usize) {
        if self.cheap { self.add(i as u64) } else { self.inj.write_usize(i) }
    }
    fn write_u128(&mut self, i: u128) {
        if !self.cheap {
            return self.inj.write_u128(i);
        }
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
}

/// `key` is zero in the maps' own.
#[derive(Clone, Debug, Default)]
pub struct RandomState {
    key: u64,
}
static mut KEYS: u64 = 0;
impl RandomState {
    pub fn new() -> Self {
        unsafe {
            KEYS += 1;
            RandomState { key: KEYS }
        }
    }
    pub(crate) fn own() -> Self {
        RandomState { key: 0 }
    }
}
impl BuildHasher for RandomState {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher { cheap: self.key == 0, state: 0, inj: InjHasher::with_key(self.key) }
    }
}

// ---------------------------------------------------------------- storage

#[derive(Clone)]
pub(crate) struct Slot<K, V> {
    pub(crate) hash: u64,
    pub(crate) key: K,
    pub(crate) val: V,
}

/// `slots` holds one entry per insertion attempt; `None` is a free or wasted slot.
#[derive(Clone)]
pub struct HashMap<K, V, S = RandomState> {
    pub(crate) slots: Vec<Option<Slot<K, V>>>,
    pub(crate) cap: usize,
    pub(crate) hash_builder: S,
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::with_hasher(RandomState::own())
    }
    pub fn with_capacity(capacity: usize) -> Self {
        Self::with_capacity_and_hasher(capacity, RandomState::own())
    }
}

impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(hash_builder: S) -> Self {
        HashMap { slots: Vec::new(), cap: 0, hash_builder }
    }
    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Self {
        HashMap { slots: Vec::new(), cap: capacity, hash_builder }
    }
    pub fn capacity(&self) -> usize {
        let n = self.len();
        if self.cap > n {
            self.cap
        } else {
            n
        }
    }
    pub fn hasher(&self) -> &S {
        &self.hash_builder
    }
    pub fn len(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.slots.len() {
            if self.slots[i].is_some() {
                n += 1;
            }
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        self.slots.clear();
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        let w = Walk::new(self.slots.len());
        Iter { slots: &self.slots, walk: w }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        let mut order: Vec<Option<(&K, &mut V)>> = Vec::new();
        for s in self.slots.iter_mut() {
            order.push(match s {
                Some(s) => Some((&s.key, &mut s.val)),
                None => None,
            });
        }
        let walk = Walk::new(order.len());
        IterMut { items: order, walk }
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys { inner: self.iter() }
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values { inner: self.iter() }
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut { inner: self.iter_mut() }
    }
    pub fn into_keys(self) -> IntoKeys<K, V> {
        IntoKeys { inner: self.into_iter() }
    }
    pub fn into_values(self) -> IntoValues<K, V> {
        IntoValues { inner: self.into_iter() }
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        let slots = core::mem::take(&mut self.slots);
        let walk = Walk::new(slots.len());
        Drain { inner: IntoIter { slots, walk }, marker: PhantomData }
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&K, &mut V) -> bool,
    {
        let mut i = 0;
        while i < self.slots.len() {
            let keep = match &mut self.slots[i] {
                Some(s) => f(&s.key, &mut s.val),
                None => true,
            };
            if !keep {
                self.slots[i] = None;
            }
            i += 1;
        }
    }
}

impl<K, V, S> HashMap<K, V, S>
where
    K: Eq + Hash,
    S: BuildHasher,
{
    #[inline]
    fn hash_of<Q: ?Sized + Hash>(&self, k: &Q) -> u64 {
        let mut h = self.hash_builder.build_hasher();
        k.hash(&mut h);
        h.finish()
    }

    #[inline]
    fn find<Q: ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        if self.slots.is_empty() {
            return None;
        }
        let h = self.hash_of(k);
        let mut i = 0;
        while i < self.slots.len() {
            if let Some(s) = &self.slots[i] {
                if s.hash == h && s.key.borrow() == k {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }

    #[inline]
    fn fresh_slot(&mut self) -> usize {
        if self.slots.capacity() == 0 {
            self.slots.reserve_exact(crate::verif::PREALLOC);
        }
        self.slots.push(None);
        self.slots.len() - 1
    }

    pub fn reserve(&mut self, additional: usize) {
        let want = self.len() + additional;
        if want > self.cap {
            self.cap = want;
        }
    }
    pub fn try_reserve(&mut self, additional: usize) -> Result<(), real_std::collections::TryReserveError> {
        self.reserve(additional);
        Ok(())
    }
    pub fn shrink_to_fit(&mut self) {
        self.cap = self.len();
    }
    pub fn shrink_to(&mut self, min_capacity: usize) {
        let n = self.len();
        let want = if min_capacity > n { min_capacity } else { n };
        if want < self.cap {
            self.cap = want;
        }
    }
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        let hash = self.hash_of(&key);
        let found = self.find(&key);
        // A slot is set aside whether or not it is needed: the number of slots then depends on
        // the calls made and not on the (symbolic) keys.
        let fresh = self.fresh_slot();
        match found {
            Some(i) => Entry::Occupied(OccupiedEntry { slots: &mut self.slots, index: i, key: Some(key) }),
            None => Entry::Vacant(VacantEntry { slots: &mut self.slots, index: fresh, hash, key }),
        }
    }
    pub fn get<Q: ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => self.slots[i].as_ref().map(|s| &s.val),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => self.slots[i].as_ref().map(|s| (&s.key, &s.val)),
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.find(k).is_some()
    }
    pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => self.slots[i].as_mut().map(|s| &mut s.val),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let hash = self.hash_of(&k);
        let found = self.find(&k);
        let fresh = self.fresh_slot();
        match found {
            Some(i) => match &mut self.slots[i] {
                Some(s) => Some(core::mem::replace(&mut s.val, v)),
                None => None,
            },
            None => {
                self.slots[fresh] = Some(Slot { hash, key: k, val: v });
                None
            }
        }
    }
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => self.slots[i].take().map(|s| s.val),
            None => None,
        }
    }
    pub fn remove_entry<Q: ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => self.slots[i].take().map(|s| (s.key, s.val)),
            None => None,
        }
    }
}

impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Debug, V: Debug, S> Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K, V, S> PartialEq for HashMap<K, V, S>
where
    K: Eq + Hash,
    V: PartialEq,
    S: BuildHasher,
{
    fn eq(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().all(|(k, v)| other.get(k).map_or(false, |w| *v == *w))
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}

impl<K, Q: ?Sized, V, S> Index<&Q> for HashMap<K, V, S>
where
    K: Eq + Hash + Borrow<Q>,
    Q: Eq + Hash,
    S: BuildHasher,
{
    type Output = V;
    fn index(&self, key: &Q) -> &V {
        self.get(key).expect("no entry found for key")
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
        let mut m = Self::default();
        m.extend(iter);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(arr: [(K, V); N]) -> Self {
        let mut m = Self::new();
        m.extend(arr);
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
        for (k, v) in iter {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, iter: I) {
        for (k, v) in iter {
            self.insert(*k, *v);
        }
    }
}

// ---------------------------------------------------------------- iteration

/// The order in which the slots of a container are visited.
#[derive(Clone, Debug)]
pub(crate) struct Walk {
    len: usize,
    done: usize,
    start: usize,
    back: bool,
}
impl Walk {
    pub(crate) fn new(len: usize) -> Self {
        let (rot, back) = crate::verif::order();
        let start = if rot < len { rot } else { 0 };
        Walk { len, done: 0, start, back }
    }
    /// Index of the next slot to visit.
    #[inline]
    pub(crate) fn next(&mut self) -> Option<usize> {
        if self.done >= self.len {
            return None;
        }
        let d = self.done;
        self.done += 1;
        if self.start == 0 && !self.back {
            return Some(d);
        }
        let i = if self.back {
            if self.start >= d { self.start - d } else { self.start + self.len - d }
        } else if self.start + d >= self.len {
            self.start + d - self.len
        } else {
            self.start + d
        };
        Some(i)
    }
}

pub struct Iter<'a, K, V> {
    slots: &'a [Option<Slot<K, V>>],
    walk: Walk,
}
impl<K, V> Clone for Iter<'_, K, V> {
    fn clone(&self) -> Self {
        Iter { slots: self.slots, walk: self.walk.clone() }
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        while let Some(i) = self.walk.next() {
            if let Some(s) = &self.slots[i] {
                return Some((&s.key, &s.val));
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.slots.len()))
    }
}
impl<K, V> ExactSizeIterator for Iter<'_, K, V> {
    fn len(&self) -> usize {
        self.clone().count()
    }
}
impl<K, V> FusedIterator for Iter<'_, K, V> {}

pub struct IterMut<'a, K, V> {
    items: Vec<Option<(&'a K, &'a mut V)>>,
    walk: Walk,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        while let Some(i) = self.walk.next() {
            if let Some(x) = self.items[i].take() {
                return Some(x);
            }
        }
        None
    }
}
impl<K, V> FusedIterator for IterMut<'_, K, V> {}
impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {
    fn len(&self) -> usize {
        self.items.iter().filter(|s| s.is_some()).count()
    }
}

pub struct IntoIter<K, V> {
    pub(crate) slots: Vec<Option<Slot<K, V>>>,
    pub(crate) walk: Walk,
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<Self::Item> {
        while let Some(i) = self.walk.next() {
            if let Some(s) = self.slots[i].take() {
                return Some((s.key, s.val));
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.slots.len()))
    }
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {
    fn len(&self) -> usize {
        self.slots.iter().filter(|s| s.is_some()).count()
    }
}
impl<K, V> FusedIterator for IntoIter<K, V> {}

pub struct Drain<'a, K, V> {
    inner: IntoIter<K, V>,
    marker: PhantomData<&'a mut (K, V)>,
}
impl<K, V> Iterator for Drain<'_, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.inner.next()
    }
}
impl<K, V> ExactSizeIterator for Drain<'_, K, V> {
    fn len(&self) -> usize {
        ExactSizeIterator::len(&self.inner)
    }
}
impl<K, V> FusedIterator for Drain<'_, K, V> {}

pub struct Keys<'a, K, V> {
    inner: Iter<'a, K, V>,
}
impl<K, V> Clone for Keys<'_, K, V> {
    fn clone(&self) -> Self {
        Keys { inner: self.inner.clone() }
    }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        self.inner.next().map(|x| x.0)
    }
}
impl<K, V> ExactSizeIterator for Keys<'_, K, V> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
pub struct Values<'a, K, V> {
    inner: Iter<'a, K, V>,
}
impl<K, V> Clone for Values<'_, K, V> {
    fn clone(&self) -> Self {
        Values { inner: self.inner.clone() }
    }
}
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> {
        self.inner.next().map(|x| x.1)
    }
}
impl<K, V> ExactSizeIterator for Values<'_, K, V> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
pub struct ValuesMut<'a, K, V> {
    inner: IterMut<'a, K, V>,
}
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> {
        self.inner.next().map(|x| x.1)
    }
}
pub struct IntoKeys<K, V> {
    inner: IntoIter<K, V>,
}
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.inner.next().map(|x| x.0)
    }
}
pub struct IntoValues<K, V> {
    inner: IntoIter<K, V>,
}
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.inner.next().map(|x| x.1)
    }
}

impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        let walk = Walk::new(self.slots.len());
        IntoIter { slots: self.slots, walk }
    }
}

// ---------------------------------------------------------------- entry

pub enum Entry<'a, K: 'a, V: 'a> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    slots: &'a mut Vec<Option<Slot<K, V>>>,
    index: usize,
    key: Option<K>,
}
pub struct VacantEntry<'a, K, V> {
    slots: &'a mut Vec<Option<Slot<K, V>>>,
    index: usize,
    hash: u64,
    key: K,
}

fn occupied<K, V>(s: &Option<Slot<K, V>>) -> &Slot<K, V> {
    match s {
        Some(s) => s,
        None => unreachable!(),
    }
}
fn occupied_mut<K, V>(s: &mut Option<Slot<K, V>>) -> &mut Slot<K, V> {
    match s {
        Some(s) => s,
        None => unreachable!(),
    }
}

impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, default: V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(default),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(default()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, default: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => {
                let v = default(e.key());
                e.insert(v)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
        match self {
            Entry::Occupied(mut e) => {
                f(e.get_mut());
                Entry::Occupied(e)
            }
            Entry::Vacant(e) => Entry::Vacant(e),
        }
    }
    pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V> {
        match self {
            Entry::Occupied(mut e) => {
                e.insert(value);
                e
            }
            Entry::Vacant(e) => e.insert_entry(value),
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &occupied(&self.slots[self.index]).key
    }
    pub fn get(&self) -> &V {
        &occupied(&self.slots[self.index]).val
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut occupied_mut(&mut self.slots[self.index]).val
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut occupied_mut(&mut self.slots[self.index]).val
    }
    pub fn insert(&mut self, value: V) -> V {
        core::mem::replace(self.get_mut(), value)
    }
    pub fn remove(self) -> V {
        self.remove_entry().1
    }
    pub fn remove_entry(self) -> (K, V) {
        let _ = self.key;
        match self.slots[self.index].take() {
            Some(s) => (s.key, s.val),
            None => unreachable!(),
        }
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn insert(self, value: V) -> &'a mut V {
        let VacantEntry { slots, index, hash, key } = self;
        slots[index] = Some(Slot { hash, key, val: value });
        &mut occupied_mut(&mut slots[index]).val
    }
    pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V> {
        let VacantEntry { slots, index, hash, key } = self;
        slots[index] = Some(Slot { hash, key, val: value });
        OccupiedEntry { slots, index, key: None }
    }
}
