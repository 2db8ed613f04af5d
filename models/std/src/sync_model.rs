//! Atomics and locks with a scheduling point before every operation, so that the executor's
//! scheduler can switch threads there. Sequentially consistent.
extern "C" {
    fn verif_yield();
    fn verif_block();
    fn verif_wake();
}
#[inline]
fn yield_now() {
    unsafe { verif_yield() }
}

pub mod atomic {
    use super::yield_now;
    #[doc(hidden)]
    pub use real_std::sync::atomic::*;
    use real_std::fmt;

    macro_rules! common {
        ($name:ident, $t:ty, [$($g:tt)*], $real:ty) => {
            impl<$($g)*> $name<$($g)*> {
                pub const fn new(v: $t) -> Self { Self(<$real>::new(v)) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn load(&self, o: Ordering) -> $t { yield_now(); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { yield_now(); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.swap(v, o) }
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { yield_now(); self.0.compare_exchange(c, n, s, f) }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { yield_now(); self.0.compare_exchange(c, n, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> { yield_now(); self.0.fetch_update(s, f, g) }
            }
            impl<$($g)*> From<$t> for $name<$($g)*> { fn from(v: $t) -> Self { Self::new(v) } }
            impl<$($g)*> fmt::Debug for $name<$($g)*> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
        };
    }
    macro_rules! ints {
        ($($name:ident $t:ty),*) => { $(
            #[repr(transparent)]
            #[derive(Default)]
            pub struct $name(real_std::sync::atomic::$name);
            common!($name, $t, [], real_std::sync::atomic::$name);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_min(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_or(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_and(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { yield_now(); self.0.fetch_xor(v, o) }
            }
        )* };
    }
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    #[repr(transparent)]
    #[derive(Default)]
    pub struct AtomicBool(real_std::sync::atomic::AtomicBool);
    common!(AtomicBool, bool, [], real_std::sync::atomic::AtomicBool);
    impl AtomicBool {
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { yield_now(); self.0.fetch_or(v, o) }
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { yield_now(); self.0.fetch_and(v, o) }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { yield_now(); self.0.fetch_xor(v, o) }
    }
    #[repr(transparent)]
    pub struct AtomicPtr<T>(real_std::sync::atomic::AtomicPtr<T>);
    common!(AtomicPtr, *mut T, [T], real_std::sync::atomic::AtomicPtr<T>);
    impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(real_std::ptr::null_mut()) } }
    pub fn fence(_: Ordering) { yield_now() }
}

use real_std::cell::{Cell, UnsafeCell};
use real_std::ops::{Deref, DerefMut};
use real_std::sync::{LockResult, TryLockError, TryLockResult};

pub struct Mutex<T: ?Sized> { locked: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { locked: Cell::new(false), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        yield_now();
        while self.locked.get() { unsafe { verif_block() } }
        self.locked.set(true);
        Ok(MutexGuard(self))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        yield_now();
        if self.locked.get() { return Err(TryLockError::WouldBlock); }
        self.locked.set(true);
        Ok(MutexGuard(self))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.0.locked.set(false); unsafe { verif_wake() } } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }

pub struct RwLock<T: ?Sized> { n: Cell<isize>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { n: Cell::new(0), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        yield_now();
        while self.n.get() < 0 { unsafe { verif_block() } }
        self.n.set(self.n.get() + 1);
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        yield_now();
        while self.n.get() != 0 { unsafe { verif_block() } }
        self.n.set(-1);
        Ok(RwLockWriteGuard(self))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0.n.set(self.0.n.get() - 1); unsafe { verif_wake() } } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.0.n.set(0); unsafe { verif_wake() } } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
