use crate::{env, oracle, sym::{self, check}};
use crate::minhash_sig::Raw;
use gaoya::minhash::*;
use std::vec::Vec;
use std::vec;

fn similarity_n<const N: usize>() {
    let (a, b): ([u8; N], [u8; N]) = (sym::bytes(), sym::bytes());
    let m = oracle::matches(&a, &b);
    let s = compute_minhash_similarity(&a, &b);
    check(s == m as f64 / N as f64, "similarity is the fraction of equal positions");
    check(compute_minhash_distance(&a, &b) == 1.0 - s, "distance is one minus similarity");
    check(compute_minhash_similarity(&b, &a) == s, "similarity is symmetric");
}
/// Signatures that agree exactly where `agree` says.
fn pair<const N: usize>() -> ([u8; N], [u8; N], usize) {
    let a: [u8; N] = sym::bytes();
    let mut b = a;
    let mut m = 0;
    for i in 0..N { if sym::flag() { m += 1; } else { b[i] = !a[i]; } }
    (a, b, m)
}
fn threshold_n<const N: usize>() {
    let (a, b, m) = pair::<N>();
    let t = sym::f64();
    check(similarity_greater_than_threshold(&a, &b, t) == (compute_minhash_similarity(&a, &b) >= t), "the threshold test agrees with the similarity for every threshold");
}
fn jaccard(na: usize, nb: usize) {
    let (a, b): ([u8; 3], [u8; 3]) = (sym::bytes(), sym::bytes());
    let (x, y) = (&a[..na], &b[..nb]);
    // distinct elements of x, of x and y, of x or y
    let (mut i, mut u) = (0usize, 0usize);
    for k in 0..na {
        let mut new = true;
        for l in 0..k { new &= x[l] != x[k]; }
        let mut also = false;
        for l in 0..nb { also |= y[l] == x[k]; }
        u += new as usize;
        i += (new & also) as usize;
    }
    for k in 0..nb {
        let mut new = true;
        for l in 0..k { new &= y[l] != y[k]; }
        for l in 0..na { new &= x[l] != y[k]; }
        u += new as usize;
    }
    let (i, u) = (sym::split(i as u64), sym::split(u as u64));
    let j = compute_jaccard_similarity(x.iter(), y.iter());
    check(j == i as f32 / u as f32, "the jaccard similarity is intersection over union of the sets");
    check(compute_jaccard_distance(x.iter(), y.iter()) == 1.0 - i as f32 / u as f32, "the jaccard distance is one minus the similarity");
    check(compute_jaccard_similarity(y.iter(), x.iter()) == j, "the jaccard similarity is symmetric");
}
/// A hasher whose signature is the document.
struct Echo;
struct Bytes(Vec<u8>);
impl std::hash::Hasher for Bytes {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn write_u8(&mut self, b: u8) { self.0.push(b) }
}
impl MinHasher for Echo {
    type V = u8;
    fn create_signature<T, U>(&self, iter: T) -> Vec<u8> where T: Iterator<Item = U>, U: std::hash::Hash {
        let mut h = Bytes(Vec::new());
        for x in iter { x.hash(&mut h); }
        h.0
    }
}
fn hasher_similarity<M: MinHasher>(m: &M) {
    let t: [u64; 3] = [7, 0x1234_5678_9abc_def0, u64::MAX];
    let (a, b, c) = (t[sym::choose(3)], t[sym::choose(3)], t[sym::choose(3)]);
    let s = m.compute_similarity([a, b].iter(), [c].iter());
    let (x, y) = (m.create_signature([a, b].iter()), m.create_signature([c].iter()));
    check(s == oracle::matches(&x, &y) as f64 / 3.0, "compute_similarity compares the signatures");
    check(m.compute_similarity([a, b].iter(), [b, a].iter()) == 1.0, "equal sets have similarity 1");
}
const SIMS: [f64; 8] = [0.1, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.97];
fn proba(s: f64, b: usize, r: usize) -> f64 { 1.0 - (1.0 - s.powf(r as f64)).powf(b as f64) }
/// What a banding for similarity s, n hashes and probability p must satisfy.
fn banding(s: f64, n: usize, p: f64, b: usize, r: usize) {
    check(r >= 1 && b >= 1, "there is at least one band and one row");
    check(b * r <= n, "the bands use no more than the given hashes");
    check((b + 1) * r > n, "no further band fits into the given hashes");
    if r > 1 { check(proba(s, b, r) + 1e-12 >= p, "the banding reaches the desired probability"); }
    if b > 1 { check(proba(s, n / (r + 1), r + 1) - 1e-12 <= p, "no wider band reaches the desired probability"); }
}

fn centroid_n<const D: usize, const N: usize>(b: usize, r: usize) {
    env::symbolic_order(3);
    let s: [[u8; N]; D] = { let mut s = [[0u8; N]; D]; for x in s.iter_mut() { *x = sym::bytes(); } s };
    let mut ix: MinHashIndex<u8, u8> = MinHashIndex::new(b, r, 0.5);
    for i in 0..D { ix.insert(i as u8, s[i].to_vec()); }
    // the centroid of the first n documents; an unknown id does not count
    let n = 1 + sym::choose(D);
    let mut ids: Vec<u8> = (0..n as u8).collect();
    if sym::flag() { ids.insert(sym::choose(n + 1), 100); }
    let c = ix.calculate_centroid(&ids);
    check(c.len() == N, "the centroid has the length of a signature");
    if c.len() != N { return; }
    let band = |k: usize, x: &[u8], y: &[u8]| { let mut e = true; for j in k * r..(k + 1) * r { e &= x[j] == y[j]; } e };
    for k in 0..b {
        let mut cc = 0;
        for i in 0..n { cc += band(k, &s[i], &c) as usize; }
        check(cc >= 1, "each band of the centroid is the band of a member");
        for i in 0..n {
            let mut ci = 0;
            for j in 0..n { ci += band(k, &s[i], &s[j]) as usize; }
            check(cc >= ci, "each band of the centroid is a most frequent one");
        }
    }
}

harnesses! {
    fn m_sim1() { similarity_n::<1>() }
    fn m_sim3() { similarity_n::<3>() }
    fn m_sim4() { similarity_n::<4>() }
    fn m_sim8() { similarity_n::<8>() }
    fn m_thr1() { threshold_n::<1>() }
    fn m_thr2() { threshold_n::<2>() }
    fn m_thr3() { threshold_n::<3>() }
    fn m_thr5() { threshold_n::<5>() }
    fn m_thr7() { threshold_n::<7>() }
    /// All signature values, a grid of thresholds.
    fn m_thr_all() {
        let (a, b): ([u8; 4], [u8; 4]) = (sym::bytes(), sym::bytes());
        let i = sym::choose(9);
        let t = [0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 1.0][i];
        let need = [0, 1, 1, 2, 2, 3, 3, 4, 4][i];
        check(similarity_greater_than_threshold(&a, &b, t) == (oracle::matches(&a, &b) >= need), "the threshold test is met by exactly the pairs with enough equal positions");
    }
    /// Signatures of different length are not compared.
    fn m_len() {
        sym::cover(true, "WITNESS");
        let (a, b): ([u8; 2], [u8; 3]) = (sym::bytes(), sym::bytes());
        let k = sym::choose(6);
        let t = sym::f64();
        sym::expect_panic(true);
        match k {
            0 => { compute_minhash_similarity(&a, &b); }
            1 => { compute_minhash_similarity(&b, &a); }
            2 => { compute_minhash_distance(&a, &b); }
            3 => { compute_minhash_distance(&b, &a); }
            4 => { similarity_greater_than_threshold(&a, &b, t); }
            _ => { similarity_greater_than_threshold(&b, &a, t); }
        }
        sym::expect_panic(false);
        check(false, "signatures of different lengths are rejected");
    }
    fn m_jac11() { jaccard(1, 1) }
    fn m_jac20() { jaccard(2, 0) }
    fn m_jac22() { jaccard(2, 2) }
    fn m_jac32() { jaccard(3, 2) }
    fn m_jac33() { jaccard(3, 3) }
    /// The similarity of two documents is that of their signatures, for any hasher.
    fn m_hasher() {
        let (a, b): ([u8; 3], [u8; 3]) = (sym::bytes(), sym::bytes());
        check(Echo.compute_similarity(a.iter(), b.iter()) == oracle::matches(&a, &b) as f64 / 3.0, "compute_similarity compares the signatures");
    }
    fn m_hasher8() { hasher_similarity(&MinHasher8::new_with_hasher(3, Raw)) }
    fn m_hasher16() { hasher_similarity(&MinHasher16::new_with_hasher(3, Raw)) }
    fn m_hasher32() { hasher_similarity(&MinHasher32::new_with_hasher(3, Raw)) }
    fn m_hasher64() { hasher_similarity(&MinHasher64V1::new_with_hasher(3, Raw)) }

    /// Every desired probability, similarities and hash counts from a grid.
    fn p_proba() {
        let s = SIMS[sym::choose(8)];
        let n = [1, 2, 3, 4, 7, 10, 16, 30][sym::choose(8)];
        let p = sym::f64();
        sym::assume(p >= 0.0 && p <= 1.0);
        let (b, r) = calculate_minhash_params_with_proba(s, n, p);
        banding(s, n, p, b, r);
    }
    fn p_proba_mid() {
        let s = SIMS[1 + 2 * sym::choose(3)];
        let n = [100, 128][sym::choose(2)];
        let p = sym::f64();
        sym::assume(p >= 0.0 && p <= 1.0);
        let (b, r) = calculate_minhash_params_with_proba(s, n, p);
        banding(s, n, p, b, r);
    }
    fn p_proba_large() {
        let s = SIMS[sym::choose(8)];
        let n = [42, 64, 100, 128, 196, 256][sym::choose(6)];
        let p = sym::f64();
        sym::assume(p >= 0.0 && p <= 1.0);
        let (b, r) = calculate_minhash_params_with_proba(s, n, p);
        banding(s, n, p, b, r);
    }
    /// The short form desires 0.99.
    fn p_default() {
        let s = SIMS[sym::choose(8)];
        let n = [1, 2, 3, 5, 17, 64, 100, 128, 196, 256, 500][sym::choose(11)];
        let (b, r) = calculate_minhash_params(s, n);
        banding(s, n, 0.99, b, r);
        check((b, r) == calculate_minhash_params_with_proba(s, n, 0.99), "the default probability is 0.99");
    }

    fn d_centroid_1x2() { centroid_n::<3, 2>(1, 2) }
    fn d_centroid_2x1() { centroid_n::<3, 2>(2, 1) }
    fn d_centroid_2x2() { centroid_n::<3, 4>(2, 2) }
    fn d_centroid_4() { centroid_n::<4, 2>(2, 1) }
    fn d_centroid_5() { centroid_n::<5, 1>(1, 1) }
}
