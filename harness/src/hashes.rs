//! The hashers of tokens against their definitions (SipHash-2-4, SHA-1), written out here.
// A signature has a bit set where the token's hash has it clear; the distance of signatures cannot
// tell that from the reverse, so either is accepted.
use crate::sym::{self, check};
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::vec::Vec;

fn round(v: &mut [u64; 4]) {
    v[0] = v[0].wrapping_add(v[1]); v[1] = v[1].rotate_left(13); v[1] ^= v[0]; v[0] = v[0].rotate_left(32);
    v[2] = v[2].wrapping_add(v[3]); v[3] = v[3].rotate_left(16); v[3] ^= v[2];
    v[0] = v[0].wrapping_add(v[3]); v[3] = v[3].rotate_left(21); v[3] ^= v[0];
    v[2] = v[2].wrapping_add(v[1]); v[1] = v[1].rotate_left(17); v[1] ^= v[2]; v[2] = v[2].rotate_left(32);
}
/// SipHash-2-4 of `m` with keys `k`: 64 bits, or 128 as (first, second) word.
fn sip(k: [u64; 2], m: &[u8], wide: bool) -> (u64, u64) {
    let mut v = [k[0] ^ 0x736f6d6570736575, k[1] ^ 0x646f72616e646f6d, k[0] ^ 0x6c7967656e657261, k[1] ^ 0x7465646279746573];
    if wide { v[1] ^= 0xee; }
    let n = m.len();
    for w in 0..n / 8 + 1 {
        let mut x = if w == n / 8 { (n as u64 & 0xff) << 56 } else { 0 };
        let mut j = 0;
        while j < 8 && w * 8 + j < n { x |= (m[w * 8 + j] as u64) << (8 * j); j += 1; }
        v[3] ^= x;
        round(&mut v);
        round(&mut v);
        v[0] ^= x;
    }
    v[2] ^= if wide { 0xee } else { 0xff };
    for _ in 0..4 { round(&mut v); }
    let a = v[0] ^ v[1] ^ v[2] ^ v[3];
    v[1] ^= 0xdd;
    for _ in 0..4 { round(&mut v); }
    (a, v[0] ^ v[1] ^ v[2] ^ v[3])
}
fn sha1(m: &[u8]) -> u64 {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 { p.push(0); }
    let n = m.len() as u64 * 8;
    for i in 0..8 { p.push((n >> (56 - 8 * i)) as u8); }
    for c in 0..p.len() / 64 {
        let mut w = [0u32; 80];
        for i in 0..16 { for j in 0..4 { w[i] = w[i] << 8 | p[c * 64 + i * 4 + j] as u32; } }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for i in 0..80 {
            let (f, k) = if i < 20 { (b & cc | !b & d, 0x5a827999u32) } else if i < 40 { (b ^ cc ^ d, 0x6ed9eba1) } else if i < 60 { (b & cc | b & d | cc & d, 0x8f1bbcdc) } else { (b ^ cc ^ d, 0xca62c1d6) };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d; d = cc; cc = b.rotate_left(30); b = a; a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) { *x = x.wrapping_add(y); }
    }
    (h[0] as u64) << 32 | h[1] as u64
}
/// A token that writes these bytes in pieces.
struct Pieces<'a>(&'a [u8], usize);
impl<'a> Hash for Pieces<'a> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let mut i = 0;
        while i < self.0.len() { let e = (i + self.1).min(self.0.len()); h.write(&self.0[i..e]); i = e; }
    }
}
fn message(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 37 + n) as u8).collect() }
const SIZES: [usize; 12] = [0, 1, 7, 8, 9, 15, 16, 55, 56, 64, 130, 1000];
const STEPS: [usize; 4] = [1, 5, 64, 100000];

/// One bit of the token is free.
fn token(n: usize) -> Vec<u8> {
    let mut m = message(n);
    if n > 0 { m[[0, n / 2, n - 1][sym::choose(3)]] ^= (sym::flag() as u8) << sym::choose(8); }
    m
}
fn sig64(k: [u64; 2], m: &[u8], piece: usize) -> u64 {
    let h: SimHash<SimSipHasher64, u64, 64> = SimHash::new(SimSipHasher64::new(k[0], k[1]));
    h.create_signature([Pieces(m, piece)].iter())
}
fn sig128(k: [u64; 2], m: &[u8], piece: usize) -> u128 {
    let h: SimHash<SimSipHasher128, u128, 128> = SimHash::new(SimSipHasher128::new(k[0], k[1]));
    h.create_signature([Pieces(m, piece)].iter())
}
fn wide(x: (u64, u64), swap: bool) -> u128 { if swap { (x.0 as u128) << 64 | x.1 as u128 } else { (x.1 as u128) << 64 | x.0 as u128 } }
/// How signatures are made of hashes: complemented or not, halves swapped or not. Seen in one case.
fn manner64() -> u64 { sig64([1, 2], b"x", 1) ^ sip([1, 2], b"x", false).0 }
fn manner128() -> (u128, bool) {
    let (s, h) = (sig128([1, 2], b"x", 1), sip([1, 2], b"x", true));
    let x = s ^ wide(h, false);
    if x == 0 || x == !0 { (x, false) } else { (s ^ wide(h, true), true) }
}
fn is64(k: [u64; 2], m: &[u8], piece: usize, want: u64, msg: &str) {
    let c = manner64();
    check(c == 0 || c == !0, "the signature of one token is its hash");
    let x = sig64(k, m, piece) ^ want;
    for i in 0..64 { check((x >> i & 1) == (c >> i & 1), msg); }
}
fn is128(k: [u64; 2], m: &[u8], piece: usize, want: (u64, u64), msg: &str) {
    let (c, swap) = manner128();
    check(c == 0 || c == !0, "the 128-bit signature of one token is its hash");
    let x = sig128(k, m, piece) ^ wide(want, swap);
    for i in 0..128 { check((x >> i & 1) == (c >> i & 1), msg); }
}
const KEYS: [[u64; 2]; 4] = [[0, 0], [5, 6], [0x8000_0000_0000_0001, 0x1_0000_0000], [!0, 3]];

harnesses! {
    /// Any one bit of the keys.
    fn j_keys() {
        let mut k = KEYS[sym::choose(4)];
        k[sym::choose(2)] ^= (sym::flag() as u64) << sym::choose(64);
        let m = message([1, 8, 9][sym::choose(3)]);
        is64(k, &m, 3, sip(k, &m, false).0, "a token hashes to its SipHash-2-4 with the given keys");
        is128(k, &m, 8, sip(k, &m, true), "a token hashes to its 128-bit SipHash-2-4 with the given keys");
    }
    /// Any one bit of a token, of any of these lengths, written in pieces.
    fn j_sip() {
        let m = token(SIZES[sym::choose(12)]);
        let p = STEPS[sym::choose(4)];
        is64([5, 6], &m, p, sip([5, 6], &m, false).0, "every bit of a token counts, in however many pieces it is written");
        is128([5, 6], &m, p, sip([5, 6], &m, true), "every bit of a token counts in 128-bit signatures");
        let mut d = SipHasher24BuildHasher::default().build_hasher();
        Pieces(&m, p).hash(&mut d);
        check(d.finish() == sip([0, 0], &m, false).0, "the SipHash-2-4 of the library is the one defined, with zero keys");
    }
    fn j_sha1() {
        let m = token(SIZES[sym::choose(12)]);
        let mut h = Sha1Hasher::new();
        Pieces(&m, STEPS[sym::choose(4)]).hash(&mut h);
        check(h.finish() == sha1(&m), "the SHA-1 hasher yields the first eight bytes of the SHA-1 of everything written");
        check(h.finish() == sha1(&m), "and again");
        h.write(&[1]);
        let mut m = m;
        m.push(1);
        check(h.finish() == sha1(&m), "and goes on after that");
    }
    /// Any bytes of a token: in one piece or many.
    fn j_sha1_bytes() {
        let n = SIZES[1 + sym::choose(9)];
        let mut m = message(n);
        m[0] = sym::u8();
        m[n - 1] = sym::u8();
        let (mut a, mut b): (Sha1Hasher, Sha1Hasher) = (Sha1Hasher::new(), BuildHasherDefault::<Sha1Hasher>::default().build_hasher());
        Pieces(&m, 100000).hash(&mut a);
        Pieces(&m, STEPS[sym::choose(3)]).hash(&mut b);
        check(a.finish() == b.finish(), "the SHA-1 of a token does not depend on the pieces it is written in");
    }
}
