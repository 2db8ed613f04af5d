//! Symbolic inputs, assumptions, checks. Under the symbolic executor these are its primitives; in
//! a native replay the values are those of the solver's counterexample, read in the same order.
pub type Thunk = extern "C-unwind" fn(usize);

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn verif_bits(n: u32) -> u64;
        fn verif_assume(c: bool);
        fn verif_check(c: bool, p: *const u8, n: usize);
        fn verif_cover(c: bool, p: *const u8, n: usize);
        fn verif_expect_panic(on: bool);
        fn verif_observe(x: u64);
        fn verif_merge(on: bool);
        fn verif_concretize(x: u64) -> u64;
        fn verif_spawn(f: super::Thunk, arg: usize) -> usize;
        fn verif_join(t: usize);
    }
    #[inline(never)]
    pub fn bits(n: u32) -> u64 { unsafe { verif_bits(n) } }
    pub fn assume(c: bool) { unsafe { verif_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { verif_check(c, m.as_ptr(), m.len()) } }
    pub fn cover(c: bool, m: &str) { unsafe { verif_cover(c, m.as_ptr(), m.len()) } }
    pub fn expect_panic(on: bool) { unsafe { verif_expect_panic(on) } }
    pub fn observe(x: u64) { unsafe { verif_observe(x) } }
    /// Case split on the value of `x` (every feasible value is explored).
    pub fn split(x: u64) -> u64 { unsafe { verif_concretize(x) } }
    /// Join the two sides of a branch where they meet, instead of exploring them separately.
    pub fn merge(on: bool) { unsafe { verif_merge(on) } }
    pub fn spawn(f: super::Thunk, arg: usize) -> usize { unsafe { verif_spawn(f, arg) } }
    pub fn join(t: usize) { unsafe { verif_join(t) } }
}
#[cfg(feature = "replay")]
#[path = "native.rs"]
pub mod imp;
pub use imp::*;

pub fn u8() -> u8 { bits(8) as u8 }
pub fn u16() -> u16 { bits(16) as u16 }
pub fn u32() -> u32 { bits(32) as u32 }
pub fn u64() -> u64 { bits(64) }
pub fn u128() -> u128 { let hi = bits(64) as u128; (hi << 64) | bits(64) as u128 }
pub fn bool() -> bool { bits(1) == 1 }
pub fn f64() -> f64 { f64::from_bits(bits(64)) }
/// A value below n, kept symbolic.
pub fn below(n: usize) -> usize {
    if n <= 1 { return 0; }
    let w = usize::BITS - (n - 1).leading_zeros();
    let x = bits(w) as usize;
    if !n.is_power_of_two() { assume(x < n); }
    x
}
/// A value below n, every one of which is explored as a separate case.
pub fn choose(n: usize) -> usize { split(below(n) as u64) as usize }
pub fn flag() -> bool { split(bits(1)) == 1 }
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    for x in a.iter_mut() { *x = u8(); }
    a
}
/// Small-domain bytes (w bits each).
pub fn nibbles<const N: usize>(w: u32) -> [u8; N] {
    let mut a = [0u8; N];
    for x in a.iter_mut() { *x = bits(w) as u8; }
    a
}
