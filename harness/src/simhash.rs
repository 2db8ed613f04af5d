use crate::{env, sym::{self, check}};
use gaoya::simhash::*;
use std::vec::Vec;
use std::vec;

fn dist64(a: u64, b: u64) -> u32 {
    let mut n = 0;
    let x = a ^ b;
    for i in 0..64 { n += (x >> i & 1) as u32; }
    n
}
fn dist128(a: u128, b: u128) -> u32 { dist64(a as u64, b as u64) + dist64((a >> 64) as u64, (b >> 64) as u64) }
trait Bits: SimHashBits + Send + Sync + 'static { fn sym() -> Self; fn dist(self, o: Self) -> usize; fn bit(self, i: usize) -> bool; fn few(n: usize) -> Self; fn flip(self, i: usize, b: u64) -> Self; fn at(i: usize) -> Self; }
impl Bits for u64 {
    fn at(i: usize) -> u64 { 1u64.wrapping_shl(i as u32) }
    fn flip(self, i: usize, b: u64) -> u64 { self ^ (b << i) }
    fn sym() -> u64 { sym::u64() }
    fn dist(self, o: u64) -> usize { dist64(self, o) as usize }
    fn bit(self, i: usize) -> bool { self >> i & 1 == 1 }
    /// n symbolic bits spread over the word
    fn few(n: usize) -> u64 { let x = sym::bits(n as u32); let mut r = 0x0123_4567_89ab_cdef; for i in 0..n { r ^= (x >> i & 1) << (i * 64 / n + 3); } r }
}
impl Bits for u128 {
    fn at(i: usize) -> u128 { 1u128.wrapping_shl(i as u32) }
    fn flip(self, i: usize, b: u64) -> u128 { self ^ ((b as u128) << i) }
    fn sym() -> u128 { sym::u128() }
    fn dist(self, o: u128) -> usize { dist128(self, o) as usize }
    fn bit(self, i: usize) -> bool { self >> i & 1 == 1 }
    fn few(n: usize) -> u128 { let x = sym::bits(n as u32) as u128; let mut r = 0x0123_4567_89ab_cdef_1111_2222_3333_4444; for i in 0..n { r ^= (x >> i & 1) << (i * 128 / n + 5); } r }
}

type S64 = SimHash<SimSipHasher64, u64, 64>;
type S128 = SimHash<SimSipHasher128, u128, 128>;
fn s64() -> S64 { SimHash::new(SimSipHasher64::new(5, 6)) }
fn s128() -> S128 { SimHash::new(SimSipHasher128::new(5, 6)) }

struct Docs<S, const D: usize> { s: [Option<S>; D], k: usize }
impl<S: Bits, const D: usize> Docs<S, D> {
    fn want(&self, i: usize, q: S) -> bool { match self.s[i] { Some(s) => s.dist(q) <= self.k, None => false } }
    fn check_query(&self, ix: &SimHashIndex<S, u8>, q: S) {
        let a = ix.query(&q);
        let b = ix.query_owned(&q);
        for i in 0..D {
            let w = self.want(i, q);
            check(a.contains(&(i as u8)) == w, "query returns exactly the documents within the distance");
            check(b.contains(&(i as u8)) == w, "query_owned returns exactly the documents within the distance");
        }
        for id in a.iter() { check((**id as usize) < D, "query returns no unknown id"); }
        for id in b.iter() { check((*id as usize) < D, "query_owned returns no unknown id"); }
    }
    fn check_ranked(&self, got: &[(u8, usize)], q: S) {
        let mut seen = [false; D];
        let mut last = 0;
        for (id, d) in got.iter() {
            let i = *id as usize;
            check(i < D && self.s[i].is_some(), "ranked: no unknown id");
            check(!seen[i], "ranked: an id is returned once");
            seen[i] = true;
            check(*d == self.s[i].unwrap().dist(q), "ranked: the distance is the number of differing bits");
            check(*d <= self.k, "ranked: within the distance");
            check(*d >= last, "ranked: distances ascend");
            last = *d;
        }
        for i in 0..D { if !seen[i] { check(!self.want(i, q), "ranked: no document within the distance is missing"); } }
    }
    fn check_one(&self, ix: &SimHashIndex<S, u8>, q: S) {
        match ix.query_one(&q) {
            Some((id, d)) => {
                let i = *id as usize;
                check(i < D && self.s[i].is_some(), "query_one: no unknown id");
                check(d == self.s[i].unwrap().dist(q), "query_one: the distance is the number of differing bits");
                check(d <= self.k, "query_one: within the distance");
                for j in 0..D { if let Some(s) = self.s[j] { check(s.dist(q) >= d, "query_one: no document is closer"); } }
            }
            None => for j in 0..D { check(!self.want(j, q), "query_one: None only if no document is within the distance") },
        }
    }
    fn check_all(&self, ix: &SimHashIndex<S, u8>, q: S) {
        self.check_query(ix, q);
        self.check_ranked(&ix.query_return_distance(&q), q);
        self.check_one(ix, q);
        check(ix.size() == self.s.iter().filter(|x| x.is_some()).count(), "size is the number of distinct ids");
    }
}
/// Any query; each document differs from it in N bits (N - 2, .. where they coincide), one in each of
/// N groups of 16 bits, chosen freely; the last `free` of them anywhere in their groups.
fn exact<S: Bits, const D: usize, const N: usize>(blocks: usize, k: usize, bits: usize, free: usize) {
    let mut ix = SimHashIndex::<S, u8>::new(blocks, k);
    let q = S::sym();
    let mut within = [false; D];
    for i in 0..D {
        let mut p = [0usize; N];
        let mut d = S::zero();
        let mut n = 0usize;
        let mut group = 0;
        for x in 0..N {
            // a case for each 16 bit group, the position in the group is symbolic
            group += sym::choose(bits / 16 - group);
            p[x] = group * 16 + if x + free >= N { sym::below(16) } else { 5 };
            d = d ^ S::at(p[x]);
            let mut odd = 0;
            for y in 0..x { odd ^= (p[y] == p[x]) as usize; }
            n = n.wrapping_add(1).wrapping_sub(2 * odd);
        }
        within[i] = n <= k;
        ix.insert(i as u8, q ^ d);
    }
    let a = ix.query(&q);
    let b = ix.query_owned(&q);
    for i in 0..D {
        check(a.contains(&(i as u8)) == within[i], "query returns exactly the documents within the distance");
        check(b.contains(&(i as u8)) == within[i], "query_owned returns exactly the documents within the distance");
    }
    for id in a.iter() { check((**id as usize) < D, "query returns no unknown id"); }
}
/// Signatures and query with n free bits.
fn forms<S: Bits, const D: usize>(blocks: usize, k: usize, n: usize) {
    env::symbolic_order(3);
    let mut ix = SimHashIndex::<S, u8>::new(blocks, k);
    let mut d = Docs { s: [None; D], k };
    for i in 0..D { let s = S::few(n); d.s[i] = Some(s); ix.insert(i as u8, s); }
    let q = S::few(1);
    d.check_all(&ix, q);
    let q2 = S::zero().flip(3, 1);
    let a = ix.par_bulk_query(&vec![q, q2]);
    let b = ix.par_bulk_query_return_distance(&vec![q2, q]);
    check(a.len() == 2 && b.len() == 2, "one answer per query");
    for i in 0..D {
        check(a[0].contains(&(i as u8)) == d.want(i, q), "the bulk query answers the first query");
        check(a[1].contains(&(i as u8)) == d.want(i, q2), "the bulk query answers the second query");
    }
    d.check_ranked(&b[0], q2);
    d.check_ranked(&b[1], q);
}
/// The ways to insert, also an id again.
fn inserts<S: Bits>(blocks: usize, k: usize, n: usize) {
    let mut ix = SimHashIndex::<S, u8>::new(blocks, k);
    let mut d = Docs::<S, 3> { s: [None; 3], k };
    let s = [S::few(n), S::few(n), S::few(n)];
    let a = sym::choose(3);
    match sym::choose(3) {
        0 => { ix.insert(0, s[0]); ix.insert(1, s[1]); ix.insert(a as u8, s[2]); }
        1 => { ix.insert(0, s[0]); ix.par_bulk_insert(vec![1, a as u8], vec![s[1], s[2]]); }
        _ => { ix.par_bulk_insert_pairs(vec![(0, s[0]), (1, s[1])]); ix.par_bulk_insert_pairs(vec![(a as u8, s[2])]); }
    }
    d.s[0] = Some(s[0]);
    d.s[1] = Some(s[1]);
    d.s[a] = Some(s[2]);
    d.check_all(&ix, S::few(n));
}
/// Documents of N tokens: each bit is the majority of the bits of the tokens' own signatures, in
/// whatever order the tokens come.
fn majority<S: Bits, const N: usize>(make: fn(&[u8]) -> S, bits: usize) {
    sym::merge(true);
    let mut t = [0u8; N];
    let mut one = [S::zero(); N];
    for i in 0..N { t[i] = sym::u8(); one[i] = make(&t[i..i + 1]); }
    let s = make(&t);
    let k = sym::choose(N);
    t.rotate_left(k);
    if sym::flag() { t.reverse(); }
    let r = make(&t);
    for i in 0..bits {
        let mut n = 0usize;
        for x in one.iter() { n += x.bit(i) as usize; }
        check(s.bit(i) == (2 * n > N), "a bit of the signature is set iff most tokens set it");
        check(r.bit(i) == s.bit(i), "the order of the tokens does not matter");
    }
}
fn basics<S: Bits>(make: fn(&[u8]) -> S, again: fn(&[u8]) -> S, bits: usize) {
    sym::merge(true);
    let a = sym::u8();
    check(make(&[]) == S::zero(), "the signature of an empty document is zero");
    let s = make(&[a]);
    check(again(&[a]) == s, "the signature is deterministic");
    check(make(&[a, a]) == s && make(&[a, a, a]) == s, "a document of one repeated token has the signature of the token");
    check(S::bit_length() == bits, "the signature width");
}
/// Any signature and one that differs from it in the bits of a background pattern, except for a
/// group of 12 bits anywhere, which is free.
fn metric<S: Bits>(bits: usize) {
    let a = S::sym();
    let all = !S::zero();
    let mut d = match sym::choose(3) { 0 => S::zero(), 1 => all, _ => { let mut r = S::zero(); for i in 0..bits { if i % 3 != 0 { r |= S::one() << i; } } r } };
    let at = sym::choose((bits + 11) / 12) * 12;
    for i in at..(at + 12).min(bits) { d = d.flip(i, sym::bits(1)); }
    let b = a ^ d;
    let mut n = 0;
    for i in 0..bits { n += d.bit(i) as usize; }
    check(a.hamming_distance(&b) == n, "the distance is the number of differing bits");
    check(b.hamming_distance(&a) == n, "the distance is symmetric");
    check((a.hamming_distance(&b) == 0) == (a == b), "the distance is zero for equal signatures only");
    check(SimHashBits::count_ones(d) == n, "count_ones counts the ones");
    check(S::bit_length() == bits, "the width");
}
fn centroid<S: Bits, const N: usize>(of: fn(Vec<S>) -> S, bits: usize) {
    sym::merge(true);
    let mut v: [S; N] = [S::zero(); N];
    for x in v.iter_mut() { *x = S::sym(); }
    let c = of(v.to_vec());
    for i in 0..bits {
        let mut n = 0usize;
        for x in v.iter() { n += x.bit(i) as usize; }
        check(c.bit(i) == (2 * n > N), "each bit of the centroid is the majority of the members' bits");
    }
}

harnesses! {
    fn g_metric64() { metric::<u64>(64) }
    fn g_metric128() { metric::<u128>(128) }
    fn g_high() {
        let (a, b) = (sym::u64(), sym::u128());
        check(a.to_u32_high_bits() as u64 == a >> 32, "the high 32 bits");
        check(a.to_u64_high_bits() == a, "the high 64 bits");
        check(b.to_u32_high_bits() as u128 == b >> 96, "the high 32 bits (128)");
        check(b.to_u64_high_bits() as u128 == b >> 64, "the high 64 bits (128)");
    }
    fn g_angle() {
        let k = sym::choose(17);
        let b = [0u64, 1, 3, 0xf0, !0, 1 << 63, 0xffff, 0xff00ff00, !0 << 1, 7, 5, 9, 10, 12, 1 << 40, !(1 << 3), 0xabcdef][k];
        let n = dist64(b, 0) as f64;
        let a = sym::u64();
        let d = a.hamming_distance(&(a ^ b));
        let e = (0u64).hamming_angle(&b) - n * std::f64::consts::PI / 64.0;
        check(e < 1e-9 && e > -1e-9, "the angle is the distance in units of pi over the width");
        let f = (0u128).hamming_angle(&(b as u128)) - n * std::f64::consts::PI / 128.0;
        check(f < 1e-9 && f > -1e-9, "the angle is the distance in units of pi over the width (128)");
    }
    fn g_sig64_basic() { basics::<u64>(|t| s64().create_signature(t.iter()), |t| s64().create_signature(t.iter()), 64) }
    fn g_sig128_basic() { basics::<u128>(|t| s128().create_signature(t.iter()), |t| s128().create_signature(t.iter()), 128) }
    fn g_sig64_2() { majority::<u64, 2>(|t| s64().create_signature(t.iter()), 64) }
    fn g_sig64_3() { majority::<u64, 3>(|t| s64().create_signature(t.iter()), 64) }
    fn g_sig64_4() { majority::<u64, 4>(|t| s64().create_signature(t.iter()), 64) }
    fn g_sig64_5() { majority::<u64, 5>(|t| s64().create_signature(t.iter()), 64) }
    fn g_sig128_2() { majority::<u128, 2>(|t| s128().create_signature(t.iter()), 128) }
    fn g_sig128_3() { majority::<u128, 3>(|t| s128().create_signature(t.iter()), 128) }
    fn g_sig128_4() { majority::<u128, 4>(|t| s128().create_signature(t.iter()), 128) }
    fn g_sig128_5() { majority::<u128, 5>(|t| s128().create_signature(t.iter()), 128) }
    fn g_centroid64_1() { centroid::<u64, 1>(|v| s64().create_centroid(v.into_iter()), 64) }
    fn g_centroid64_2() { centroid::<u64, 2>(|v| s64().create_centroid(v.into_iter()), 64) }
    fn g_centroid64_3() { centroid::<u64, 3>(|v| s64().create_centroid(v.into_iter()), 64) }
    fn g_centroid64_4() { centroid::<u64, 4>(|v| s64().create_centroid(v.into_iter()), 64) }
    fn g_centroid64_5() { centroid::<u64, 5>(|v| s64().create_centroid(v.into_iter()), 64) }
    fn g_centroid128_3() { centroid::<u128, 3>(|v| s128().create_centroid(v.into_iter()), 128) }
    fn g_centroid128_4() { centroid::<u128, 4>(|v| s128().create_centroid(v.into_iter()), 128) }

    fn y_exact_3_1() { exact::<u64, 1, 1>(3, 1, 64, 1) }
    fn y_exact_3_1b() { exact::<u64, 1, 2>(3, 1, 64, 2) }
    fn y_exact_4_2() { exact::<u64, 1, 2>(4, 2, 64, 2) }
    fn y_exact_4_2b() { exact::<u64, 1, 3>(4, 2, 64, 1) }
    fn y_exact_5_3() { exact::<u64, 1, 3>(5, 3, 64, 1) }
    fn y_exact_6_3() { exact::<u64, 1, 3>(6, 3, 64, 1) }
    fn y_exact_5_3b() { exact::<u64, 1, 4>(5, 3, 64, 1) }
    fn y_exact_2_0() { exact::<u64, 2, 1>(2, 0, 64, 1) }
    fn y_exact128_3_1() { exact::<u128, 1, 1>(3, 1, 128, 1) }
    fn y_exact128_5_2() { exact::<u128, 1, 2>(5, 2, 128, 1) }
    fn y_exact128_5_2b() { exact::<u128, 1, 3>(5, 2, 128, 1) }
    fn y_exact_two() { exact::<u64, 2, 1>(3, 1, 64, 1) }
    fn y_deep_4_2() { exact::<u64, 1, 3>(4, 2, 64, 3) }
    fn y_deep_5_3() { exact::<u64, 1, 3>(5, 3, 64, 2) }
    fn y_deep_6_3() { exact::<u64, 1, 4>(6, 3, 64, 2) }
    fn y_deep128_5_2() { exact::<u128, 1, 2>(5, 2, 128, 2) }
    fn y_blocks_10_1() { exact::<u64, 1, 1>(10, 1, 64, 1) }
    fn y_blocks_16_1() { exact::<u64, 1, 1>(16, 1, 64, 1) }
    fn y_blocks_8_2() { exact::<u64, 1, 2>(8, 2, 64, 1) }
    fn y_blocks_16_2() { exact::<u64, 1, 2>(16, 2, 64, 1) }
    fn y_blocks_12_3() { exact::<u64, 1, 3>(12, 3, 64, 1) }
    fn y_blocks_7_4() { exact::<u64, 1, 4>(7, 4, 64, 1) }
    fn y_blocks_8_5() { exact::<u64, 1, 5>(8, 5, 64, 1) }
    fn y_blocks_6_5() { exact::<u64, 1, 5>(6, 5, 64, 1) }
    fn y_blocks_4_3() { exact::<u64, 1, 3>(4, 3, 64, 1) }
    fn y_blocks_2_1() { exact::<u64, 1, 1>(2, 1, 64, 1) }
    fn y_blocks_64_1() { exact::<u64, 1, 1>(64, 1, 64, 1) }
    fn y_blocks_63_1() { exact::<u64, 1, 1>(63, 1, 64, 1) }
    fn y_blocks128_12_1() { exact::<u128, 1, 1>(12, 1, 128, 1) }
    fn y_blocks128_7_2() { exact::<u128, 1, 2>(7, 2, 128, 1) }
    fn y_forms64() { forms::<u64, 2>(4, 2, 4) }
    fn y_forms64_3() { forms::<u64, 3>(3, 1, 2) }
    fn y_forms128() { forms::<u128, 2>(4, 2, 3) }
    fn y_inserts64() { inserts::<u64>(3, 1, 3) }
    fn y_inserts128() { inserts::<u128>(3, 1, 3) }
}
