//! Documents, batches and signatures of realistic sizes: most of the data is concrete, a part of
//! it anywhere in the whole is symbolic.
use crate::{env, oracle::{self, Thr}, sym::{self, check}};
use crate::minhash_index::same;
use crate::minhash_sig::{Raw, m8, m16, m32, m64};
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::vec::Vec;
use std::vec;

fn mix(i: usize, j: usize) -> u64 {
    let mut x = (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (j as u64).wrapping_mul(0xc2b2_ae3d_27d4_eb4f) ^ 0x1656_67b1_9e37_79f9;
    x = (x ^ (x >> 31)).wrapping_mul(0x7fb5_d329_728e_a185);
    x ^ (x >> 29)
}
/// A signature that agrees with the query nowhere but in one band, any band, where its hashes are
/// any, inserted by any route; another document shares that band. Then one of them goes.
fn one_band<T: MinHashType + PartialEq>(bands: usize, width: usize, conv: fn(u64) -> T) {
    let n = bands * width;
    let q: Vec<T> = (0..n).map(|j| conv(mix(0, j) | 1)).collect();
    let at = if bands > 50 || (bands > 5 && width > 3) { [0, bands / 2, bands - 1][sym::choose(3)] } else { sym::choose(bands) };
    let mut s: Vec<T> = (0..n).map(|j| if j / width == at { conv(sym::u64()) } else { conv(mix(0, j) & !1) }).collect();
    let t: Vec<T> = (0..n).map(|j| if j / width == at { conv(mix(0, j) | 1) } else { conv(mix(2, j) & !1) }).collect();
    let m = sym::split(oracle::matches(&s, &q) as u64) as usize;
    let how = sym::choose(3);
    let t2 = t.clone();
    let t0 = 0.5 / n as f64;
    let mut ix: MinHashIndex<T, u32> = if (how + at) % 2 == 0 { MinHashIndex::new(bands, width, t0) } else { MinHashIndex::new_with_capacity(bands, width, t0, 100, 0.8) };
    match how {
        0 => { ix.insert(7, s); ix.insert(8, t); }
        1 => ix.par_bulk_insert(vec![7, 8], vec![s, t]),
        _ => ix.par_bulk_insert_pairs(vec![(8, t), (7, s)]),
    }
    if how == 0 {
        // a threshold that one band alone does not reach
        let (a, b) = (MinHashIndex::<T, u32>::new(bands, width, (width as f64 + 0.5) / n as f64), t2);
        let mut ix = a;
        ix.insert(8, b);
        check(ix.query(&q).is_empty() && ix.query_owned(&q).is_empty() && ix.query_one(&q).is_none() && ix.query_owned_return_similarity(&q).is_empty(), "a document below the threshold is no answer, though it shares a band");
        check(ix.query_top_k(&q, 1).len() == 1, "the nearest is found whatever the threshold");
    }
    let want = m == width;
    let books = |ix: &MinHashIndex<T, u32>, want: bool, other: bool| {
        let k = want as usize + other as usize;
        let o = ix.query_owned(&q);
        check(o.contains(&7) == want && o.contains(&8) == other && o.len() == k, "a document is found by any one of its bands exactly if the whole band agrees");
        let r = ix.query(&q);
        check(r.contains(&7) == want && r.contains(&8) == other && r.len() == k, "the borrowing query likewise");
        let r = ix.query_owned_return_similarity(&q);
        check(r.len() == k, "the query with similarities likewise");
        for x in r.iter() { check(x.1 == width as f64 / n as f64, "the similarity counts every position"); }
        check(ix.query_top_k(&q, 3).len() == k, "the query for the nearest likewise");
        check(ix.query_one(&q).is_some() == (k > 0), "the query for one likewise");
    };
    books(&ix, want, true);
    match (how + m) % 4 {
        0 => { check(ix.remove(&8).is_some(), "the document was there to remove"); books(&ix, want, false); }
        1 => { ix.bulk_remove(&vec![7]); books(&ix, false, true); }
        2 => { ix.clear(); books(&ix, false, false); check(ix.size() == 0, "a cleared index is empty"); ix.insert(8, q.clone()); check(ix.query(&q).len() == 1, "a cleared index can be filled again"); }
        _ => { ix.insert(8, (0..n).map(|j| conv(mix(4, j) & !1)).collect()); books(&ix, want, false); ix.remove(&8); ix.remove(&7); books(&ix, false, false); check(ix.size() == 0, "all are removed"); }
    }
}
/// Any threshold: an answer reaches it, to the last bit.
fn any_threshold(form: usize) {
    let t = sym::f64();
    sym::assume(t >= 0.0 && t <= 1.0);
    let mut ix: MinHashIndex<u8, u32> = MinHashIndex::new(7, 1, t);
    let m = 1 + sym::choose(7);
    let q: Vec<u8> = (1..8).collect();
    let s: Vec<u8> = (0..7).map(|j| if j < m { q[j] } else { 100 }).collect();
    ix.insert(3, s.clone());
    let want = m as f64 / 7.0 >= t;
    match form {
        0 => { check(ix.query(&q).contains(&3) == want, "query: exactly the documents that reach the threshold, whatever it is"); check(ix.query_owned(&q).contains(&3) == want, "query_owned likewise"); }
        1 => {
            check(ix.query_owned_return_similarity(&q).len() == want as usize, "the query with similarities: exactly the documents that reach the threshold, whatever it is");
            check(ix.par_bulk_query(&vec![q.clone()])[0].contains(&3) == want, "the bulk query likewise");
            check(ix.par_bulk_query_return_similarity(&vec![q.clone()])[0].len() == want as usize, "the bulk query with similarities likewise");
            ix.insert(4, q.clone());
            check(ix.query_by_id(&4).contains(&3) == want, "the query by id likewise");
            check(ix.query_by_id_owned(&4).contains(&3) == want, "the owned query by id likewise");
        }
        _ => {
            check(ix.query_one(&q).is_some() == want, "the single best is given exactly if it reaches the threshold, whatever it is");
            check(ix.query_top_k(&q, 1).len() == 1, "the nearest are given whatever the threshold");
        }
    }
}
/// Similarities that differ by very little are still told apart. 4 bands of `w`.
fn fine(w: usize, form: usize) {
    env::symbolic_order(2);
    let n = 4 * w;
    let q: Vec<u32> = (0..n).map(|j| mix(0, j) as u32).collect();
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(4, w, 0.2);
    let base = w + [0, 2 * w + 7][sym::choose(2)];
    let mut ms = [0; 3];
    let order = sym::choose(3);
    let perm = [[0, 1, 2], [1, 2, 0], [2, 1, 0]][order];
    for i in 0..3 {
        ms[i] = base + perm[i];
        ix.insert(i as u32, (0..n).map(|j| if j < ms[i] { q[j] } else { !q[j] }).collect());
    }
    let best = |r: usize| (0..3).find(|i| perm[*i] == r).unwrap() as u32;
    match form {
        0 => {
            let r = ix.query_owned_return_similarity(&q);
            check(r.len() == 3 && r[0].0 == best(2) && r[1].0 == best(1) && r[2].0 == best(0), "answers that differ in one position of many are ranked right");
            for (id, s) in r.iter() { check(*s == ms[*id as usize] as f64 / n as f64, "their similarities are exact"); }
        }
        _ => {
            let r = ix.query_top_k(&q, 2);
            check(r.len() == 2 && r[0].0 == best(2) && r[1].0 == best(1), "the nearest are those that agree in one position more");
            match ix.query_one(&q) { Some((id, s)) => check(*id == best(2) && s == (base + 2) as f64 / n as f64, "the single best is the one that agrees in one position more"), None => check(false, "there is a best") }
        }
    }
}
/// Many documents in the same bucket, one of them searched, removed or replaced.
fn bucket<C: IdContainer<u32>>(n: usize, any: bool) {
    let mut ix: MinHashIndex<u8, u32, C> = MinHashIndex::new_index(2, 2, 0.5);
    for i in 0..n { ix.insert(i as u32, vec![1, 2, i as u8, (i >> 8) as u8 + 1]); }
    let x = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
    let q = vec![1u8, 2, x as u8, (x >> 8) as u8 + 1];
    if any {
        // one more, of which one band is the bucket's and the other any
        let s = vec![1u8, 2, sym::u8(), 1 + sym::bits(7) as u8];
        let m = oracle::matches(&s, &q) as f64 / 4.0;
        ix.insert(9999, s);
        check(ix.query(&q).len() == n + 1, "one more document of a bucket is returned with the others");
        let r = ix.query_owned_return_similarity(&q);
        check(r.len() == n + 1, "the form with similarities returns it, too");
        for j in 0..r.len() {
            if r[j].0 == 9999 { check(r[j].1 == m, "with its own similarity"); }
            check(j == 0 || r[j - 1].1 >= r[j].1, "many documents are ranked best first");
        }
        check(ix.remove(&9999).is_some(), "it is removed");
    }
    check(ix.query(&q).len() == n, "all documents of a bucket are returned");
    let r = ix.query_owned_return_similarity(&q);
    check(r.len() == n && r[0].0 == x as u32 && r[0].1 == 1.0, "the best of many comes first");
    match ix.query_one(&q) { Some((id, s)) => check(*id == x as u32 && s == 1.0, "the best of many is the one"), None => check(false, "there is a best of many") }
    let k = ix.query_top_k(&q, 3);
    check(k.len() == 3 && k[0].0 == x as u32, "the best of many is in the top");
    match sym::choose(3) {
        0 => {
            ix.remove(&(x as u32));
            let r = ix.query(&q);
            check(r.len() == n - 1 && !r.contains(&(x as u32)), "one of many is removed");
        }
        1 => {
            ix.insert(x as u32, vec![9, 9, 9, 9]);
            let r = ix.query(&q);
            check(r.len() == n - 1 && !r.contains(&(x as u32)), "one of many is replaced");
            check(ix.query(&vec![9, 9, 9, 9]).len() == 1, "the replaced one of many is found by its new signature");
        }
        _ => {
            let gone: Vec<u32> = (0..n as u32).filter(|i| *i as usize != x).collect();
            ix.bulk_remove(&gone);
            let r = ix.query(&q);
            check(r.len() == 1 && r.contains(&(x as u32)), "all but one of many are removed");
            check(ix.size() == 1, "the size says so");
        }
    }
}
/// A large batch, the position of one of its documents anywhere, its hashes any.
fn batch(n: usize, pairs: bool) {
    let mut ix: MinHashIndex<u16, u32> = MinHashIndex::new(2, 2, 0.5);
    let x = [0, 1, n / 2, n - 1][sym::choose(4)];
    let b = || sym::bits(1) as u16 * 4; // any pattern of positions that agree with the query
    let s = [1 + b(), 2 + b(), 3 + b(), 4 + b()];
    let sigs: Vec<Vec<u16>> = (0..n).map(|i| if i == x { s.to_vec() } else { (0..4).map(|j| 10 + 4 * i as u16 + j).collect() }).collect();
    let ids: Vec<u32> = (0..n as u32).collect();
    if pairs { ix.par_bulk_insert_pairs(ids.iter().cloned().zip(sigs.iter().cloned()).collect()); } else { ix.par_bulk_insert(ids, sigs.clone()); }
    check(ix.size() == n, "every document of a large batch is inserted");
    let q = [1u16, 2, 3, 4];
    let want = oracle::answers(&s, &q, 2, 2, Thr { num: 1, den: 2 });
    check(ix.query(&q.to_vec()).contains(&(x as u32)) == want, "a document of a large batch is found exactly if similar");
    let y = if x == n - 1 { n - 2 } else { n - 1 };
    let qs: Vec<Vec<u16>> = (0..n).map(|i| if i == x { q.to_vec() } else { sigs[i].clone() }).collect();
    let r = ix.par_bulk_query(&qs);
    check(r.len() == n, "one answer per query of a large batch");
    check(r[x].contains(&(x as u32)) == want, "the answers of a large batch are in order");
    check(r[y].contains(&(y as u32)), "the answers of a large batch are those of the queries");
    let r = ix.par_bulk_query_return_similarity(&qs);
    check(r.len() == n && r[y][0].0 == y as u32 || (r[y].len() == 2 && r[y][1].0 == y as u32), "the answers with similarities likewise");
}
/// The threshold on long signatures with any three positions equal or not.
fn long_similarity(n: usize) {
    let a: Vec<u32> = (0..n).map(|i| mix(1, i) as u32).collect();
    let m0 = [0, 1, n / 2, n - 3][sym::choose(4)];
    let mut b: Vec<u32> = (0..n).map(|i| if i < m0 { a[i] } else { !a[i] }).collect();
    for p in [n - 3, n - 2, n - 1] { b[p] = sym::u32(); }
    let mut m = m0 as u64;
    for p in [n - 3, n - 2, n - 1] { m += (a[p] == b[p]) as u64; }
    let m = sym::split(m);
    let s = compute_minhash_similarity(&a, &b);
    check(s == m as f64 / n as f64, "the similarity of long signatures is the fraction of equal positions");
    check(compute_minhash_distance(&a, &b) == 1.0 - s, "the distance of long signatures is one minus it");
    for k in [m.saturating_sub(1), m, m + 1] { let t = k as f64 / n as f64; check(similarity_greater_than_threshold(&a, &b, t) == (s >= t), "the threshold test of long signatures agrees"); }
}
/// Long documents and signatures: the signature is the minimum over the tokens' own signatures.
fn long_doc<M: MinHasher + Sync + Send>(mk: fn(usize) -> M, exact: bool) {
    let n = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33][sym::choose(11)];
    let m = mk(n);
    let k = [2usize, 3, 9, 17][sym::choose(4)];
    let toks: Vec<u64> = (0..k).map(|i| mix(3, i)).collect();
    let s = m.create_signature(toks.iter());
    let each: Vec<Vec<M::V>> = toks.iter().map(|t| m.create_signature([*t].iter())).collect();
    check(s.len() == n, "a signature has as many positions as hashes were asked for");
    if s.len() != n { return; }
    for j in 0..n {
        let mut some = false;
        for e in each.iter() {
            some |= e[j] == s[j];
            if exact { check(s[j] <= e[j], "each position of a long document is the least of its tokens' values"); }
        }
        check(some, "each position of a long document comes from one of its tokens");
    }
    if k <= 3 { return; }
    let at = [0, k / 2, k - 1][sym::choose(3)];
    let mut turned: Vec<u64> = toks[at..].to_vec();
    turned.extend_from_slice(&toks[..at]);
    turned.extend_from_slice(&toks[at / 2..]);
    check(same(&s, &m.create_signature(turned.iter())), "order and repetition of many tokens do not change the signature");
    let bulk = m.bulk_create_signature(&vec![toks.clone(), turned]);
    check(bulk.len() == 2 && same(&bulk[0], &s) && same(&bulk[1], &s), "the bulk operation gives the same for long documents");
}
/// A very long document: of one token over and over and another one somewhere.
fn very_long<M: MinHasher + Sync + Send>(m: &M, sizes: &[usize]) {
    let n = sizes[sym::choose(sizes.len())];
    let (t, x) = (sym::u64(), sym::u64());
    let at = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
    let s = m.create_signature(if at == 0 { [x, t] } else { [t, x] }.iter());
    let d = m.create_signature((0..n).map(|i| if i == at { x } else { t }));
    check(same(&s, &d), "in a long document every token counts, wherever it is");
}
/// Each hash function is one of its own: with distinct functions not all positions of all tokens agree.
fn distinct<M: MinHasher>(m: &M, n: usize) {
    let sigs: Vec<Vec<M::V>> = (0..12).map(|i| m.create_signature([mix(5, i)].iter())).collect();
    for i in 0..n {
        for j in 0..i {
            let mut k = 0;
            while k < 12 && sigs[k][i] == sigs[k][j] { k += 1; }
            check(k < 12, "two positions of a signature are not the same function");
        }
    }
    check(sigs[0].len() == n, "a signature has as many positions as hashes were asked for");
}
/// Hashers built alike, with any of these seeds and sizes, give the same signatures.
fn alike<M: MinHasher>(mk: fn(usize, u64) -> M, plain: fn(usize) -> M) {
    let n = [1, 2, 64, 129, 200, 300][sym::choose(6)];
    let k = sym::choose(6);
    let seed = [0, 1, 3, 0x8000_0000_0000_0000, u64::MAX, 7][k];
    let (a, b) = if k == 5 { (plain(n), plain(n)) } else { (mk(n, seed), mk(n, seed)) };
    let d = [mix(8, 1), mix(8, 2), 5];
    let (x, y) = (a.create_signature(d.iter()), b.create_signature(d.iter()));
    check(x.len() == n && same(&x, &y), "hashers with the same seed and size give the same signature");
    check(same(&x, &a.create_signature(d.iter())), "a hasher gives the same signature again");
}
/// Two tokens, one repeated often: the majority counts every repetition.
fn repeats(big: usize) {
    let h: SimHash<SimSipHasher64, u64, 64> = SimHash::new(SimSipHasher64::new(5, 6));
    let (a, b) = ("alpha", "beta");
    let (x, y) = (h.create_signature([a].iter()), h.create_signature([b].iter()));
    let n = big - 1 + sym::choose(3);
    let doc = |na: usize, nb: usize| h.create_signature((0..na).map(|_| a).chain((0..nb).map(|_| b)));
    check(doc(n, 0) == x, "a token repeated often has its own signature");
    check(doc(n, n - 1) == x, "the token that is repeated once more has the majority");
    check(doc(n - 1, n) == y, "so has the other one");
    check(doc(n, n) == x & y, "in a tie only the common bits are set");
}
/// The same with so many repetitions that only one check is affordable.
fn many_repeats(n: usize) {
    let h: SimHash<SimSipHasher64, u64, 64> = SimHash::new(SimSipHasher64::new(5, 6));
    let x = h.create_signature(["alpha"].iter());
    let doc = |na: usize, nb: usize| h.create_signature((0..na).map(|_| "alpha").chain((0..nb).map(|_| "beta")));
    if sym::flag() { check(doc(n, 3) == x, "a token repeated very often has the majority") } else { check(doc(3, n) != x, "a token repeated very often has the majority over the other") }
}
fn many_even(n: usize) {
    let h: SimHash<SimSipHasher64, u64, 64> = SimHash::new(SimSipHasher64::new(5, 6));
    let x = h.create_signature(["alpha"].iter());
    let doc = |na: usize, nb: usize| h.create_signature((0..na).map(|_| "alpha").chain((0..nb).map(|_| "beta")));
    if sym::flag() { check(doc(n, n - 1) == x, "one more of very many is a majority") } else { let y = h.create_signature(["beta"].iter()); check(doc(n - 1, n) == y, "one more of very many of the other is a majority") }
}
fn many_centroid(n: usize) {
    let h: SimHash<SimSipHasher64, u64, 64> = SimHash::new(SimSipHasher64::new(5, 6));
    let h2: SimHash<SimSipHasher128, u128, 128> = SimHash::new(SimSipHasher128::new(5, 6));
    let n = n + sym::choose(2);
    let k = sym::choose(3); // signatures with the free bits: one less than half, half, one more
    let k = n / 2 + k - 1;
    let b = sym::bits(4);
    let bits = b >> 3 << 63 | (b >> 2 & 1) << 40 | (b >> 1 & 1) << 31 | b & 1;
    let c = h.create_centroid((0..n).map(|i| if i < k { bits } else { 0 }));
    check(c == if k > n / 2 { bits } else { 0 }, "a bit of a large centroid is set exactly if more than half set it");
    let c = h2.create_centroid((0..n).map(|i| if i >= n - k { (bits as u128) << 64 | 1 } else { 0 }));
    check(c == if k > n / 2 { (bits as u128) << 64 | 1 } else { 0 }, "likewise in 128 bits");
}
fn many_band_centroid(n: usize) {
    let mut ix: MinHashIndex<u8, u32> = MinHashIndex::new(2, 1, 0.5);
    let (a, b) = (sym::u8(), sym::u8());
    let how = sym::choose(3);
    let more = how > 0;
    let half = [n / 2, n / 2 + 1, n - n / 8][how];
    for i in 0..n { ix.insert(i as u32, vec![if i < half { a } else { b }, 3]); }
    let c = ix.calculate_centroid(&(0..n as u32).collect::<Vec<_>>());
    check(c.len() == 2 && c[1] == 3, "the centroid of many documents agrees where they all agree");
    if more { check(c[0] == a, "the centroid of many documents takes the value of the greater half"); }
    check((c[0] == a) | (c[0] == b), "the centroid of many documents takes one of their values");
}
/// Many signatures that differ in few bits, so that they share tables' buckets.
fn near_simhash(n: usize, blocks: usize, k: usize) {
    let sigs: Vec<u64> = (0..n).map(|i| 0x0123_4567_89ab_cdef ^ (i as u64) << 3).collect();
    let mut ix: SimHashIndex<u64, u32> = SimHashIndex::new(blocks, k);
    if sym::flag() { ix.par_bulk_insert((0..n as u32).collect(), sigs.clone()); } else { for i in 0..n { ix.insert(i as u32, sigs[i]); } }
    let x = [0, 1, n / 2, n - 1][sym::choose(4)];
    let q = sigs[x] ^ [0, 1, 1 << 63, 1 << 5, 1 << 63 | 1][sym::choose(5)];
    let r = ix.query_owned(&q);
    let rr = ix.query_return_distance(&q);
    let mut want = 0;
    for i in 0..n {
        let w = (sigs[i] ^ q).count_ones() as usize <= k;
        want += w as usize;
        check(r.contains(&(i as u32)) == w, "of many close signatures exactly those near enough are returned");
    }
    check(rr.len() == want && r.len() == want, "the form with distances returns the same");
    for j in 0..rr.len() { check(rr[j].1 == (sigs[rr[j].0 as usize] ^ q).count_ones() as usize && (j == 0 || rr[j - 1].1 <= rr[j].1), "with their distances, ascending"); }
}
/// Many signatures near the query, each found through other tables.
fn spread_simhash<S: SimHashBits + Send + Sync + 'static>(base: S, bit: fn(usize) -> S, n: usize, dist: fn(S, S) -> usize) {
    let mut sigs: Vec<S> = vec![base];
    for i in 0..n {
        sigs.push(base ^ bit(i));
        sigs.push(base ^ bit(i) ^ bit((i + n / 3) % n));
        sigs.push(base ^ bit(i) ^ bit((i + n / 3) % n) ^ bit((i + n / 2) % n));
    }
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(4, 2);
    if sym::flag() { ix.par_bulk_insert_pairs(sigs.iter().enumerate().map(|(i, s)| (i as u32, *s)).collect()); } else { for i in 0..sigs.len() { ix.insert(i as u32, sigs[i]); } }
    let q = base ^ match sym::choose(3) { 0 => base ^ base, 1 => bit(0), _ => bit(n - 1) };
    let (r, o) = (ix.query(&q), ix.query_owned(&q));
    let rr = ix.query_return_distance(&q);
    let mut want = 0;
    for i in 0..sigs.len() {
        let w = dist(sigs[i], q) <= 2;
        want += w as usize;
        check(r.contains(&(i as u32)) == w, "of many signatures around the query exactly those near enough are returned");
        check(o.contains(&(i as u32)) == w, "the owned form likewise");
    }
    check(rr.len() == want && r.len() == want && o.len() == want, "all forms return as many");
    for j in 0..rr.len() { check(rr[j].1 == dist(sigs[rr[j].0 as usize], q) && (j == 0 || rr[j - 1].1 <= rr[j].1), "with their distances, ascending"); }
    match ix.query_one(&q) { Some((_, d)) => check(d == 0, "the single best is the equal one"), None => check(false, "there is a single best") }
}
/// Many documents of one signature: all of them are returned, or none.
fn same_simhash<S: SimHashBits + Send + Sync + 'static>(base: S, bit: fn(usize) -> S, n: usize) {
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(3, 1);
    if sym::flag() { ix.par_bulk_insert((0..n as u32).collect(), (0..n).map(|_| base).collect()); } else { for i in 0..n { ix.insert(i as u32, base); } }
    let far = sym::flag();
    let q = if far { base ^ bit(3) ^ bit(40) } else { base ^ bit(40) };
    let k = if far { 0 } else { n };
    check(ix.size() == n, "every document of the same signature is kept");
    check(ix.query(&q).len() == k, "all documents of a near signature are returned, however many");
    check(ix.query_owned(&q).len() == k, "the owned form returns as many");
    check(ix.query_return_distance(&q).len() == k, "the form with distances returns as many");
    check(ix.par_bulk_query(&std::vec![q, q])[1].len() == k, "the bulk form returns as many");
}
/// Many blocks and large distances: the query differs from the one signature in d blocks, one bit any.
fn wide_simhash<S: SimHashBits + Send + Sync + 'static>(base: S, bit: fn(usize) -> S, bits: usize, blocks: usize, k: usize) {
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(blocks, k);
    ix.insert(7, base);
    let d = [0, 1, k / 2, k - 1, k, k + 1, k + 3][sym::choose(7)];
    let mut q = base;
    let same = sym::flag();
    for i in 0..d { q = q ^ bit(if same { i } else if i == 2 { 2 * bits / blocks + sym::below(2) } else { (i % blocks) * bits / blocks + 2 * (i / blocks) }); }
    let w = d <= k;
    check(ix.query(&q).len() == w as usize, "a large distance is as good as a small one");
    check(ix.query_owned(&q).len() == w as usize, "the owned form likewise");
    let r = ix.query_return_distance(&q);
    check(r.len() == w as usize && (!w || (r[0].0 == 7 && r[0].1 == d)), "the form with distances likewise");
    match ix.query_one(&q) { Some((id, e)) => check(w && *id == 7 && e == d, "the single best likewise"), None => check(!w, "there is a single best") }
}
/// Many documents that share one band each with the query, one of them does so or not.
fn spread(n: usize, bands: usize) {
    let q: Vec<u16> = (0..bands as u16).collect();
    let x = [0, n / 2, n - 1][sym::choose(3)];
    let h = if sym::flag() { (x % bands) as u16 } else { 50000 };
    let mut ix: MinHashIndex<u16, u32> = MinHashIndex::new(bands, 1, 0.9 / bands as f64);
    for i in 0..n { ix.insert(i as u32, (0..bands).map(|j| if j == i % bands { if i == x { h } else { j as u16 } } else { (1000 + i) as u16 }).collect()); }
    let found = h as usize == x % bands;
    let k = n - 1 + found as usize;
    let r = ix.query(&q);
    check(r.len() == k && r.contains(&(x as u32)) == found, "every document that shares a band is returned, however many do");
    check(ix.query_owned(&q).len() == k, "the owned form returns as many");
    check(ix.query_owned_return_similarity(&q).len() == k, "the form with similarities returns as many");
    check(ix.query_top_k(&q, n).len() == k, "the form for the nearest returns as many as asked for");
    check(ix.par_bulk_query(&vec![q.clone()])[0].len() == k, "the bulk form returns as many");
    ix.remove(&1);
    check(ix.query(&q).len() == k - 1 && ix.size() == n - 1, "one of them is removed");
}
/// Many signatures in a SimHash index, the query near any one of them.
fn many_simhash<S: SimHashBits + Send + Sync + 'static>(conv: fn(u64) -> S, flip: fn(usize) -> S, bits: usize, blocks: usize, k: usize) {
    let n = 40;
    let sigs: Vec<S> = (0..n).map(|i| conv(mix(i, 77))).collect();
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(blocks, k);
    if sym::flag() { ix.par_bulk_insert((0..n as u32).collect(), sigs.clone()); } else { for i in 0..n { ix.insert(i as u32, sigs[i]); } }
    check(ix.size() == n, "every signature of many is inserted");
    let x = [0, 1, n / 2, n - 1][sym::choose(4)];
    let mut q = sigs[x];
    let d = sym::choose(k + 2);
    for i in 0..d { q = q ^ if i == 0 { flip(bits - 64 + sym::below(4)) } else { flip((i * 13 + 7) % bits) }; }
    let r = ix.query(&q);
    check(r.len() == (d <= k) as usize, "one of many signatures is returned exactly if it is near enough");
    let rr = ix.query_return_distance(&q);
    check(rr.len() == r.len(), "the form with distances returns the same");
    if d <= k {
        check(r.contains(&(x as u32)), "it is the near one");
        check(rr[0].0 == x as u32 && rr[0].1 == d, "with its distance");
        match ix.query_one(&q) { Some((id, e)) => check(*id == x as u32 && e == d, "the single best is the near one"), None => check(false, "there is a single best") }
    }
}
/// Many documents in buckets of one and of many; capacity operations change no answer.
fn shrunk(n: usize) {
    let sig = |i: usize| -> Vec<u16> { vec![i as u16, (i / 3) as u16, 5, (i % 40) as u16] };
    let x = [0, n / 2, n - 1][sym::choose(3)];
    let h = sym::u8() as u16;
    let mut ix: MinHashIndex<u16, u32> = match sym::choose(3) { 0 => MinHashIndex::new(4, 1, 0.2), 1 => MinHashIndex::new_with_capacity(4, 1, 0.2, 0, 1.0), _ => MinHashIndex::new_with_capacity(4, 1, 0.2, 1000, 0.5) };
    for i in 0..n { let mut s = sig(i); if i == x { s[2] = h; } ix.insert(i as u32, s); }
    match sym::choose(4) { 0 => {}, 1 => ix.shrink_to_fit(), 2 => ix.shrink_to(0), _ => ix.shrink_to(n / 2) }
    check(ix.size() == n, "capacity operations keep every document");
    for i in (0..n).step_by(19) {
        let mut q = sig(i);
        q[2] = 700;
        let r = ix.query(&q);
        let mut k = 0;
        for j in 0..n {
            let want = j / 3 == i / 3 || j % 40 == i % 40;
            k += want as usize;
            check(r.contains(&(j as u32)) == want, "capacity operations change no answer");
        }
        check(r.len() == k, "nor add any");
    }
    let mut q = vec![60000, 60001, 5, 60002];
    check(ix.query(&q).len() == n - 1 + (h == 5) as usize, "the large bucket is kept");
    q[2] = h;
    check(ix.query(&q).contains(&(x as u32)), "the free document is found");
}

/// Very many documents share one band with the query and little else; the best one shares the others.
fn crowd(n: usize, low: bool) {
    const B: usize = 8;
    let q: [u8; B] = [1, 2, 3, 4, 5, 6, 7, 8];
    let c = [0, 3, 7][sym::choose(3)];
    let at = [0, n / 2, n][sym::choose(3)];
    let t = if low { 0.1 } else { 0.45 };
    let mut best = q;
    best[c] = 100;
    best[(c + 1) % B] = 2 + sym::bits(1) as u8;
    best[(c + 4) % B] = 4 + sym::bits(1) as u8;
    let sigs: Vec<[u8; B]> = (0..n + 1).map(|i| if i == at { best } else {
        let mut s = [0; B];
        for j in 0..B { s[j] = if j == c || (j + i) % B < i % 4 { q[j] } else { 200 }; }
        s
    }).collect();
    let ms: Vec<usize> = sigs.iter().map(|s| sym::split(oracle::matches(s, &q) as u64) as usize).collect();
    let mut ix: MinHashIndex<u8, u32> = MinHashIndex::new(B, 1, t);
    if low { for i in 0..n + 1 { ix.insert(i as u32, sigs[i].to_vec()); } } else { ix.par_bulk_insert((0..n as u32 + 1).collect(), sigs.iter().map(|s| s.to_vec()).collect()); }
    let v = q.to_vec();
    let sim = |i: usize| ms[i] as f64 / B as f64;
    match ix.query_one(&v) {
        Some((id, s)) => check(*id as usize == at && s == sim(at), "the best is found, however many share a band"),
        None => check(false, "the best is found"),
    }
    let (r, o) = (ix.query(&v), ix.query_owned(&v));
    let mut k = 0;
    for i in 0..n + 1 {
        let want = sim(i) >= t;
        k += want as usize;
        check(r.contains(&(i as u32)) == want && o.contains(&(i as u32)) == want, "all of very many that reach the threshold are found");
    }
    let w = ix.query_owned_return_similarity(&v);
    check(w.len() == k && r.len() == k && o.len() == k, "and only those");
    for i in 0..w.len() { check(w[i].1 == sim(w[i].0 as usize) && (i == 0 || w[i - 1].1 >= w[i].1), "very many are ranked"); }
    let mut sorted = ms.clone();
    sorted.sort();
    for k in [1, 7, 25, n / 2, n + 1] {
        let w = ix.query_top_k(&v, k);
        check(w.len() == k, "as many of very many as asked for");
        for i in 0..w.len() {
            let m = ms[w[i].0 as usize];
            check(m == sorted[n - i] && w[i].1 == 1.0 - m as f64 / B as f64, "the nearest of very many in order");
        }
    }
}

harnesses! {
    fn a_shrunk() { shrunk(200) }
    fn a_crowd() { crowd(130, true) }
    fn a_crowd_high() { crowd(300, false) }
    fn a_band_42x3() { one_band::<u8>(42, 3, |x| x as u8) }
    fn a_band_20x5() { one_band::<u16>(20, 5, |x| x as u16) }
    fn a_band_7x8() { one_band::<u32>(7, 8, |x| x as u32) }
    fn a_band_5x4() { one_band::<u64>(5, 4, |x| x) }
    fn a_band_1x1() { one_band::<u8>(1, 1, |x| x as u8) }
    fn a_band_1x6() { one_band::<u32>(1, 6, |x| x as u32) }
    fn a_band_40x1() { one_band::<u16>(40, 1, |x| x as u16) }
    fn a_band_130x2() { one_band::<u8>(130, 2, |x| x as u8) }
    fn a_threshold() { any_threshold(0) }
    fn a_threshold_forms() { any_threshold(1) }
    fn a_threshold_one() { any_threshold(2) }
    fn a_fine_ranked() { fine(500, 0) }
    fn a_fine_top() { fine(500, 1) }
    fn a_bucket257() { bucket::<HashSetContainer<u32>>(257, false) }
    fn a_bucket257_vec() { bucket::<VecContainer<u32>>(257, false) }
    fn a_bucket257_smallvec() { bucket::<SmallVecContainer<u32, 4>>(257, false) }
    fn a_long8() { very_long(&m8(2), &[65, 130, 257, 1025, 4097]) }
    fn a_long16() { very_long(&m16(2), &[65, 130, 257, 1025, 4097]) }
    fn a_long32() { very_long(&m32(2), &[65, 130, 257, 1025, 20001, 70000]) }
    fn a_long64() { very_long(&m64(1), &[65, 130, 257, 1025, 20001]) }
    fn a_alike8() { alike(|n, s| MinHasher8::new_with_hasher_and_seed(n, Raw, s), m8) }
    fn a_alike16() { alike(|n, s| MinHasher16::new_with_hasher_and_seed(n, Raw, s), m16) }
    fn a_alike32() { alike(|n, s| MinHasher32::new_with_hasher_and_seed(n, Raw, s), m32) }
    fn a_alike64() { alike(|n, s| MinHasher64V1::new_with_hasher_and_seed(n, Raw, s), m64) }
    fn a_alike_fnv() { alike(|n, _| MinHasher32::new(n), MinHasher32::new) }
    fn a_alike_fnv64() { alike(|n, _| MinHasher64V1::new(n), MinHasher64V1::new) }
    fn a_simhash_spread64() { spread_simhash::<u64>(0x0123_4567_89ab_cdef, |i| 1 << i, 64, |a, b| (a ^ b).count_ones() as usize) }
    fn a_simhash_spread128() { spread_simhash::<u128>(0x0123_4567_89ab_cdef_1111_2222_3333_4444, |i| 1 << i, 128, |a, b| (a ^ b).count_ones() as usize) }
    fn a_simhash_same() { same_simhash::<u64>(0x0123_4567_89ab_cdef, |i| 1 << i, 1100) }
    fn a_simhash_wide64() { wide_simhash::<u64>(0x0123_4567_89ab_cdef, |i| 1 << i, 64, 12, 10) }
    fn a_simhash_wide64b() { wide_simhash::<u64>(0x0123_4567_89ab_cdef, |i| 1 << i, 64, 22, 20) }
    fn a_simhash_wide128() { wide_simhash::<u128>(0x0123_4567_89ab_cdef_1111_2222_3333_4444, |i| 1 << i, 128, 20, 18) }
    fn a_spread() { spread(300, 20) }
    fn a_simhash_near() { near_simhash(150, 4, 2) }
    fn a_similarity70000() { long_similarity(70000) }
    fn a_bucket() { bucket::<HashSetContainer<u32>>(33, true) }
    fn a_bucket_vec() { bucket::<VecContainer<u32>>(33, true) }
    fn a_bucket_smallvec() { bucket::<SmallVecContainer<u32, 4>>(33, true) }
    fn a_batch() { batch(70, false) }
    fn a_batch_pairs() { batch(70, true) }
    fn a_similarity126() { long_similarity(126) }
    fn a_similarity300() { long_similarity(300) }
    fn a_doc8() { long_doc(m8, false) }
    fn a_doc16() { long_doc(m16, false) }
    fn a_doc32() { long_doc(m32, true) }
    fn a_doc64() { long_doc(m64, true) }
    fn a_distinct8() { distinct(&m8(300), 300) }
    fn a_distinct16() { distinct(&m16(300), 300) }
    fn a_distinct32() { distinct(&m32(300), 300) }
    fn a_distinct64() { distinct(&m64(300), 300) }
    fn a_repeats128() { repeats(128) }
    fn a_repeats256() { repeats(256) }
    fn a_repeats2050() { many_even(2050) }
    fn a_repeats33000_even() { many_even(33000) }
    fn a_repeats33000() { many_repeats(33000) }
    fn a_centroid127() { many_centroid(127) }
    fn a_centroid255() { many_centroid(255) }
    fn a_bands_centroid() { many_band_centroid(300) }
    fn a_simhash64() { many_simhash::<u64>(|x| x, |i| 1 << i, 64, 6, 3) }
    fn a_simhash128() { many_simhash::<u128>(|x| (x as u128) << 64 | x.rotate_left(17) as u128, |i| 1 << i, 128, 6, 3) }
}
