//! Model of rayon: the same combinators, executed one item after the other. Data-race freedom of
//! safe closures is what rustc's Send/Sync bounds give; what is left of parallelism (which item
//! runs first) is unobservable for closures without shared mutable state.
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet, VecDeque, BinaryHeap};
use std::hash::{BuildHasher, Hash};
use std::iter as it;

pub mod prelude {
    pub use crate::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator, ParallelSlice,
        ParallelSliceMut, ParallelString,
    };
}
pub mod iter {
    pub use crate::*;
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod vec {}

pub struct Par<I>(pub I);

#[doc(hidden)]
pub mod verif {
    //! With threads switched on by a harness, `map` and `for_each` run every item in a thread of
    //! its own, interleaved by the executor's scheduler.
    pub type Thunk = extern "C-unwind" fn(usize);
    static mut THREADS: Option<(fn(Thunk, usize) -> usize, fn(usize))> = None;
    pub fn set_threads(t: Option<(fn(Thunk, usize) -> usize, fn(usize))>) {
        unsafe { THREADS = t }
    }
    pub fn threads() -> Option<(fn(Thunk, usize) -> usize, fn(usize))> {
        unsafe { THREADS }
    }
    struct Job<X, R, F> { f: *const F, x: Option<X>, out: Option<R> }
    extern "C-unwind" fn run<X, R, F: Fn(X) -> R>(a: usize) {
        let j = unsafe { &mut *(a as *mut Job<X, R, F>) };
        let x = j.x.take();
        if let Some(x) = x { j.out = Some(unsafe { (*j.f)(x) }); }
    }
    pub fn run_all<X, R, F: Fn(X) -> R, I: Iterator<Item = X>>(items: I, f: &F, spawn: fn(Thunk, usize) -> usize, join: fn(usize)) -> Vec<R> {
        let mut jobs: Vec<Box<Job<X, R, F>>> = Vec::new();
        for x in items { jobs.push(Box::new(Job { f, x: Some(x), out: None })); }
        let mut ids: Vec<usize> = Vec::new();
        for j in jobs.iter_mut() { ids.push(spawn(run::<X, R, F>, &mut **j as *mut Job<X, R, F> as usize)); }
        for t in ids { join(t); }
        let mut out = Vec::new();
        for j in jobs { out.push(j.out.unwrap()); }
        out
    }
}
pub enum Mapped<I, F, R> {
    Lazy(I, F),
    Done(std::vec::IntoIter<R>),
}
impl<I: Iterator, R, F: Fn(I::Item) -> R> Iterator for Mapped<I, F, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        match self {
            Mapped::Lazy(i, f) => match i.next() { Some(x) => Some(f(x)), None => None },
            Mapped::Done(v) => v.next(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self { Mapped::Lazy(i, _) => i.size_hint(), Mapped::Done(v) => v.size_hint() }
    }
}
impl<I: DoubleEndedIterator, R, F: Fn(I::Item) -> R> DoubleEndedIterator for Mapped<I, F, R> {
    fn next_back(&mut self) -> Option<R> {
        match self {
            Mapped::Lazy(i, f) => match i.next_back() { Some(x) => Some(f(x)), None => None },
            Mapped::Done(v) => v.next_back(),
        }
    }
}
impl<I: ExactSizeIterator, R, F: Fn(I::Item) -> R> ExactSizeIterator for Mapped<I, F, R> {}

pub trait ParallelIterator: Sized {
    type Item;
    type Inner: Iterator<Item = Self::Item>;
    fn seq(self) -> Self::Inner;

    fn map<F: Fn(Self::Item) -> R, R>(self, f: F) -> Par<Mapped<Self::Inner, F, R>> {
        match verif::threads() {
            None => Par(Mapped::Lazy(self.seq(), f)),
            Some((spawn, join)) => Par(Mapped::Done(verif::run_all(self.seq(), &f, spawn, join).into_iter())),
        }
    }
    fn map_with<T, F, R>(self, init: T, f: F) -> Par<MapWith<Self::Inner, T, F>>
    where
        F: Fn(&mut T, Self::Item) -> R,
    {
        Par(MapWith { inner: self.seq(), t: init, f })
    }
    fn map_init<INIT, T, F, R>(self, init: INIT, f: F) -> Par<MapWith<Self::Inner, T, F>>
    where
        INIT: Fn() -> T,
        F: Fn(&mut T, Self::Item) -> R,
    {
        Par(MapWith { inner: self.seq(), t: init(), f })
    }
    fn for_each<F: Fn(Self::Item)>(self, f: F) {
        match verif::threads() {
            None => self.seq().for_each(f),
            Some((spawn, join)) => { verif::run_all(self.seq(), &f, spawn, join); }
        }
    }
    fn for_each_with<T, F: Fn(&mut T, Self::Item)>(self, init: T, f: F) {
        let mut t = init;
        self.seq().for_each(|x| f(&mut t, x))
    }
    fn for_each_init<INIT: Fn() -> T, T, F: Fn(&mut T, Self::Item)>(self, init: INIT, f: F) {
        let mut t = init();
        self.seq().for_each(|x| f(&mut t, x))
    }
    fn try_for_each<F, E>(self, f: F) -> Result<(), E>
    where
        F: Fn(Self::Item) -> Result<(), E>,
    {
        let mut s = self.seq();
        s.try_for_each(f)
    }
    fn filter<P: Fn(&Self::Item) -> bool>(self, p: P) -> Par<it::Filter<Self::Inner, P>> {
        Par(self.seq().filter(p))
    }
    fn filter_map<P: Fn(Self::Item) -> Option<R>, R>(self, p: P) -> Par<it::Flatten<Mapped<Self::Inner, P, Option<R>>>> {
        Par(self.map(p).seq().flatten())
    }
    fn flat_map<F: Fn(Self::Item) -> PI, PI: IntoParallelIterator>(self, f: F) -> Par<std::vec::IntoIter<PI::Item>> {
        let mut out = Vec::new();
        for x in self.map(f).seq() {
            out.extend(x.into_par_iter().seq());
        }
        Par(out.into_iter())
    }
    fn flat_map_iter<F: Fn(Self::Item) -> SI, SI: IntoIterator>(self, f: F) -> Par<it::Flatten<Mapped<Self::Inner, F, SI>>> {
        Par(self.map(f).seq().flatten())
    }
    fn flatten(self) -> Par<std::vec::IntoIter<<Self::Item as IntoParallelIterator>::Item>>
    where
        Self::Item: IntoParallelIterator,
    {
        let mut out = Vec::new();
        for x in self.seq() {
            out.extend(x.into_par_iter().seq());
        }
        Par(out.into_iter())
    }
    fn flatten_iter(self) -> Par<it::Flatten<Self::Inner>>
    where
        Self::Item: IntoIterator,
    {
        Par(self.seq().flatten())
    }
    fn inspect<F: Fn(&Self::Item)>(self, f: F) -> Par<it::Inspect<Self::Inner, F>> {
        Par(self.seq().inspect(f))
    }
    fn cloned<'a, T: 'a + Clone>(self) -> Par<it::Cloned<Self::Inner>>
    where
        Self: ParallelIterator<Item = &'a T>,
        Self::Inner: Iterator<Item = &'a T>,
    {
        Par(self.seq().cloned())
    }
    fn copied<'a, T: 'a + Copy>(self) -> Par<it::Copied<Self::Inner>>
    where
        Self: ParallelIterator<Item = &'a T>,
        Self::Inner: Iterator<Item = &'a T>,
    {
        Par(self.seq().copied())
    }
    fn reduce<OP, ID>(self, identity: ID, op: OP) -> Self::Item
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item,
        ID: Fn() -> Self::Item,
    {
        self.seq().fold(identity(), op)
    }
    fn reduce_with<OP>(self, op: OP) -> Option<Self::Item>
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item,
    {
        self.seq().reduce(op)
    }
    fn fold<T, ID, F>(self, identity: ID, f: F) -> Par<it::Once<T>>
    where
        F: Fn(T, Self::Item) -> T,
        ID: Fn() -> T,
    {
        Par(it::once(self.seq().fold(identity(), f)))
    }
    fn sum<S: it::Sum<Self::Item>>(self) -> S {
        self.seq().sum()
    }
    fn product<S: it::Product<Self::Item>>(self) -> S {
        self.seq().product()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.seq().min()
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.seq().max()
    }
    fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> {
        self.seq().min_by(f)
    }
    fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> {
        self.seq().max_by(f)
    }
    fn min_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
        self.seq().min_by_key(f)
    }
    fn max_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
        self.seq().max_by_key(f)
    }
    fn count(self) -> usize {
        self.seq().count()
    }
    fn any<P: Fn(Self::Item) -> bool>(self, p: P) -> bool {
        self.seq().any(p)
    }
    fn all<P: Fn(Self::Item) -> bool>(self, p: P) -> bool {
        self.seq().all(p)
    }
    fn find_any<P: Fn(&Self::Item) -> bool>(self, p: P) -> Option<Self::Item> {
        self.seq().find(p)
    }
    fn find_first<P: Fn(&Self::Item) -> bool>(self, p: P) -> Option<Self::Item> {
        self.seq().find(p)
    }
    fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<it::Chain<Self::Inner, <C::Iter as ParallelIterator>::Inner>> {
        Par(self.seq().chain(c.into_par_iter().seq()))
    }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
        C::from_par_iter(self)
    }
    fn unzip<A, B, FA, FB>(self) -> (FA, FB)
    where
        Self: ParallelIterator<Item = (A, B)>,
        Self::Inner: Iterator<Item = (A, B)>,
        FA: Default + Extend<A>,
        FB: Default + Extend<B>,
    {
        self.seq().unzip()
    }
    fn partition<A, B, P>(self, p: P) -> (A, B)
    where
        A: Default + Extend<Self::Item>,
        B: Default + Extend<Self::Item>,
        P: Fn(&Self::Item) -> bool,
    {
        let mut a = A::default();
        let mut b = B::default();
        for x in self.seq() {
            if p(&x) {
                a.extend(it::once(x))
            } else {
                b.extend(it::once(x))
            }
        }
        (a, b)
    }
}

impl<I: Iterator> ParallelIterator for Par<I> {
    type Item = I::Item;
    type Inner = I;
    fn seq(self) -> I {
        self.0
    }
}

pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Par<it::Enumerate<Self::Inner>> {
        Par(self.seq().enumerate())
    }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<it::Zip<Self::Inner, <Z::Iter as ParallelIterator>::Inner>> {
        Par(self.seq().zip(z.into_par_iter().seq()))
    }
    fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<it::Zip<Self::Inner, <Z::Iter as ParallelIterator>::Inner>> {
        Par(self.seq().zip(z.into_par_iter().seq()))
    }
    fn with_min_len(self, _: usize) -> Self {
        self
    }
    fn with_max_len(self, _: usize) -> Self {
        self
    }
    fn take(self, n: usize) -> Par<it::Take<Self::Inner>> {
        Par(self.seq().take(n))
    }
    fn skip(self, n: usize) -> Par<it::Skip<Self::Inner>> {
        Par(self.seq().skip(n))
    }
    fn step_by(self, n: usize) -> Par<it::StepBy<Self::Inner>> {
        Par(self.seq().step_by(n))
    }
    fn rev(self) -> Par<it::Rev<Self::Inner>>
    where
        Self::Inner: DoubleEndedIterator,
    {
        Par(self.seq().rev())
    }
    fn chunks(self, n: usize) -> Par<std::vec::IntoIter<Vec<Self::Item>>> {
        let mut out: Vec<Vec<Self::Item>> = Vec::new();
        for x in self.seq() {
            match out.last_mut() {
                Some(l) if l.len() < n => l.push(x),
                _ => {
                    let mut v = Vec::new();
                    v.push(x);
                    out.push(v);
                }
            }
        }
        Par(out.into_iter())
    }
    fn collect_into_vec(self, target: &mut Vec<Self::Item>) {
        target.clear();
        target.extend(self.seq());
    }
    fn position_any<P: Fn(Self::Item) -> bool>(self, p: P) -> Option<usize> {
        self.seq().position(p)
    }
    fn position_first<P: Fn(Self::Item) -> bool>(self, p: P) -> Option<usize> {
        self.seq().position(p)
    }
}
impl<I: Iterator> IndexedParallelIterator for Par<I> {}

pub struct MapWith<I, T, F> {
    inner: I,
    t: T,
    f: F,
}
impl<I: Iterator, T, F: Fn(&mut T, I::Item) -> R, R> Iterator for MapWith<I, T, F> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        let x = self.inner.next()?;
        Some((self.f)(&mut self.t, x))
    }
}

pub trait IntoParallelIterator {
    type Item;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
impl<I: Iterator> IntoParallelIterator for Par<I> {
    type Item = I::Item;
    type Iter = Par<I>;
    fn into_par_iter(self) -> Par<I> {
        self
    }
}
macro_rules! into_par {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> IntoParallelIterator for $t {
            type Item = <$t as IntoIterator>::Item;
            type Iter = Par<<$t as IntoIterator>::IntoIter>;
            fn into_par_iter(self) -> Self::Iter { Par(self.into_iter()) }
        }
    };
}
into_par!([T] Vec<T>);
into_par!(['a, T] &'a Vec<T>);
into_par!(['a, T] &'a mut Vec<T>);
into_par!(['a, T] &'a [T]);
into_par!(['a, T] &'a mut [T]);
into_par!([T, const N: usize] [T; N]);
into_par!(['a, T, const N: usize] &'a [T; N]);
into_par!([T] Option<T>);
into_par!([] std::ops::Range<usize>);
into_par!([] std::ops::Range<u32>);
into_par!([] std::ops::Range<u64>);
into_par!([] std::ops::Range<i32>);
into_par!([] std::ops::Range<i64>);
into_par!([] std::ops::RangeInclusive<usize>);
into_par!([K: Eq + Hash, V, S: BuildHasher] HashMap<K, V, S>);
into_par!(['a, K: Eq + Hash, V, S: BuildHasher] &'a HashMap<K, V, S>);
into_par!(['a, K: Eq + Hash, V, S: BuildHasher] &'a mut HashMap<K, V, S>);
into_par!([K: Eq + Hash, S: BuildHasher] HashSet<K, S>);
into_par!(['a, K: Eq + Hash, S: BuildHasher] &'a HashSet<K, S>);
into_par!([K: Ord, V] BTreeMap<K, V>);
into_par!([K: Ord] BTreeSet<K>);
into_par!([T] VecDeque<T>);
into_par!([T: Ord] BinaryHeap<T>);

pub trait IntoParallelRefIterator<'data> {
    type Item: 'data;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter(&'data self) -> Self::Iter;
}
impl<'data, I: 'data + ?Sized> IntoParallelRefIterator<'data> for I
where
    &'data I: IntoParallelIterator,
    <&'data I as IntoParallelIterator>::Item: 'data,
{
    type Item = <&'data I as IntoParallelIterator>::Item;
    type Iter = <&'data I as IntoParallelIterator>::Iter;
    fn par_iter(&'data self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'data> {
    type Item: 'data;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter_mut(&'data mut self) -> Self::Iter;
}
impl<'data, I: 'data + ?Sized> IntoParallelRefMutIterator<'data> for I
where
    &'data mut I: IntoParallelIterator,
    <&'data mut I as IntoParallelIterator>::Item: 'data,
{
    type Item = <&'data mut I as IntoParallelIterator>::Item;
    type Iter = <&'data mut I as IntoParallelIterator>::Iter;
    fn par_iter_mut(&'data mut self) -> Self::Iter {
        self.into_par_iter()
    }
}

pub trait FromParallelIterator<T> {
    fn from_par_iter<P: ParallelIterator<Item = T>>(p: P) -> Self;
}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
    fn from_par_iter<P: ParallelIterator<Item = T>>(p: P) -> Self {
        p.seq().collect()
    }
}
pub trait ParallelExtend<T> {
    fn par_extend<P: IntoParallelIterator<Item = T>>(&mut self, p: P);
}
impl<T, C: Extend<T>> ParallelExtend<T> for C {
    fn par_extend<P: IntoParallelIterator<Item = T>>(&mut self, p: P) {
        self.extend(p.into_par_iter().seq())
    }
}
pub trait ParallelBridge: Sized + Iterator {
    fn par_bridge(self) -> Par<Self> {
        Par(self)
    }
}
impl<I: Iterator> ParallelBridge for I {}

pub trait ParallelSlice<T> {
    fn as_par_slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
        Par(self.as_par_slice().chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> {
        Par(self.as_par_slice().chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> {
        Par(self.as_par_slice().windows(n))
    }
}
impl<T> ParallelSlice<T> for [T] {
    fn as_par_slice(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T> {
    fn as_par_slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> {
        Par(self.as_par_slice_mut().chunks_mut(n))
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>> {
        Par(self.as_par_slice_mut().chunks_exact_mut(n))
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.as_par_slice_mut().sort()
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.as_par_slice_mut().sort_unstable()
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
        self.as_par_slice_mut().sort_by(f)
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
        self.as_par_slice_mut().sort_unstable_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.as_par_slice_mut().sort_by_key(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.as_par_slice_mut().sort_unstable_by_key(f)
    }
}
impl<T> ParallelSliceMut<T> for [T] {
    fn as_par_slice_mut(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelString {
    fn as_par_str(&self) -> &str;
    fn par_lines(&self) -> Par<std::str::Lines<'_>> {
        Par(self.as_par_str().lines())
    }
    fn par_split_whitespace(&self) -> Par<std::str::SplitWhitespace<'_>> {
        Par(self.as_par_str().split_whitespace())
    }
}
impl ParallelString for str {
    fn as_par_str(&self) -> &str {
        self
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    (a(), b())
}
pub fn current_num_threads() -> usize {
    4
}

// Scopes and pools run their tasks one after the other; order-free results are what callers may rely on.
pub struct Scope<'scope>(std::marker::PhantomData<&'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn<F: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, f: F) {
        f(self)
    }
}
pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    op(&Scope(std::marker::PhantomData))
}
pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(op: OP) -> R {
    op(&Scope(std::marker::PhantomData))
}
pub fn current_thread_index() -> Option<usize> {
    None
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
#[derive(Default)]
pub struct ThreadPoolBuilder(usize);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(0)
    }
    pub fn num_threads(self, n: usize) -> Self {
        ThreadPoolBuilder(n)
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(if self.0 == 0 { 4 } else { self.0 }))
    }
}
pub struct ThreadPool(usize);
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.0
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        (a(), b())
    }
    pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(&self, op: OP) -> R {
        scope(op)
    }
}
