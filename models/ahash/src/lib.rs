//! Model of ahash. `hash_map.rs` and `hash_set.rs` are the unmodified files of ahash 0.8.12,
//! compiled against the shadow std. The hash function itself is replaced by an injective one;
//! `verif::set_collide` makes *every* hash
//! collide, which is the other extreme of what a 64-bit hash may do.
use std::collections::{HashMap as StdMap, HashSet as StdSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

mod hash_map;
mod hash_set;
pub use crate::hash_map::AHashMap;
pub use crate::hash_set::AHashSet;

pub type HashMap<K, V> = StdMap<K, V, RandomState>;
pub type HashSet<K> = StdSet<K, RandomState>;

pub mod verif {
    static mut COLLIDE: bool = false;
    pub fn set_collide(on: bool) {
        unsafe { COLLIDE = on }
    }
    pub fn collide() -> bool {
        unsafe { COLLIDE }
    }
}

/// An injective hash (see vstd), unless all are to collide.
#[derive(Clone, Debug, Default)]
pub struct AHasher(std::verif::InjHasher);
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        if verif::collide() {
            return 1 << 63;
        }
        self.0.finish()
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.write(bytes)
    }
    fn write_u8(&mut self, i: u8) {
        self.0.write_u8(i)
    }
    fn write_u64(&mut self, i: u64) {
        self.0.write_u64(i)
    }
    fn write_u128(&mut self, i: u128) {
        self.0.write_u128(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.0.write_usize(i)
    }
}

/// Hash functions of different keys are different.
#[derive(Clone, Debug)]
pub struct RandomState {
    key: u64,
}
impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}
static mut KEYS: u64 = 0;
impl RandomState {
    pub fn new() -> Self {
        unsafe {
            KEYS += 1;
            RandomState { key: KEYS - 1 }
        }
    }
    pub fn generate_with(a: u64, b: u64, c: u64, d: u64) -> Self {
        Self::with_seeds(a, b, c, d)
    }
    pub fn with_seed(k: usize) -> Self {
        Self::with_seeds(k as u64, 0, 0, 0)
    }
    pub fn with_seeds(a: u64, b: u64, c: u64, d: u64) -> Self {
        RandomState { key: (a ^ b.rotate_left(16) ^ c.rotate_left(32) ^ d.rotate_left(48)) | 1 << 40 }
    }
    pub fn hash_one<T: Hash>(&self, x: T) -> u64 {
        let mut h = self.build_hasher();
        x.hash(&mut h);
        h.finish()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher(std::verif::InjHasher::with_key(self.key))
    }
}

pub trait HashMapExt {
    fn new() -> Self;
    fn with_capacity(capacity: usize) -> Self;
}
impl<K, V, S: BuildHasher + Default> HashMapExt for StdMap<K, V, S> {
    fn new() -> Self {
        StdMap::with_hasher(S::default())
    }
    fn with_capacity(capacity: usize) -> Self {
        StdMap::with_capacity_and_hasher(capacity, S::default())
    }
}
pub trait HashSetExt {
    fn new() -> Self;
    fn with_capacity(capacity: usize) -> Self;
}
impl<K, S: BuildHasher + Default> HashSetExt for StdSet<K, S> {
    fn new() -> Self {
        StdSet::with_hasher(S::default())
    }
    fn with_capacity(capacity: usize) -> Self {
        StdSet::with_capacity_and_hasher(capacity, S::default())
    }
}
