//! Threads spawned directly run to their end at once, in the order they are spawned.
use core::marker::PhantomData;
use real_std::prelude::rust_2021::*;
use real_std::thread::Result;

pub struct JoinHandle<T>(T);
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        Ok(self.0)
    }
    pub fn is_finished(&self) -> bool {
        true
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    JoinHandle(f())
}
pub struct Scope<'scope, 'env: 'scope>(PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>);
pub struct ScopedJoinHandle<'scope, T>(T, PhantomData<&'scope ()>);
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        Ok(self.0)
    }
    pub fn is_finished(&self) -> bool {
        true
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        ScopedJoinHandle(f(), PhantomData)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    f(&Scope(PhantomData))
}
