use crate::{env, oracle::{self, Thr}, sym::{self, check}};
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use std::collections::HashSet;
use std::vec::Vec;
use std::vec;

type Ix<C = HashSetContainer<u8>> = MinHashIndex<u8, u8, C>;

/// What the index should contain: the signature of document i, if any.
#[derive(Clone, Copy)]
pub struct Docs<const D: usize, const N: usize> { pub s: [Option<[u8; N]>; D], pub b: usize, pub r: usize, pub t: Thr }

impl<const D: usize, const N: usize> Docs<D, N> {
    pub fn new(b: usize, r: usize, t: Thr) -> Self { Docs { s: [None; D], b, r, t } }
    pub fn want(&self, i: usize, q: &[u8; N]) -> bool {
        match &self.s[i] { Some(s) => oracle::answers(s, q, self.b, self.r, self.t), None => false }
    }
    pub fn len(&self) -> usize { self.s.iter().filter(|x| x.is_some()).count() }
    fn count(&self, q: &[u8; N]) -> usize { let mut n = 0; for i in 0..D { n += self.want(i, q) as usize; } n }
    fn sim(&self, i: usize, q: &[u8; N]) -> f64 { oracle::matches(&self.s[i].unwrap(), q) as f64 / N as f64 }

    /// `query` and `query_owned` answer exactly.
    pub fn check_query<C: IdContainer<u8>>(&self, ix: &Ix<C>, q: &[u8; N]) {
        let qv = q.to_vec();
        let r = ix.query_owned(&qv);
        let r2 = ix.query(&qv);
        for i in 0..D {
            let w = self.want(i, q);
            check(r.contains(&(i as u8)) == w, "query_owned returns a document iff it shares a band with the query and reaches the threshold");
            check(r2.contains(&(i as u8)) == w, "query returns a document iff it shares a band with the query and reaches the threshold");
        }
        for id in r.iter() { check((*id as usize) < D, "query_owned returns no unknown id"); }
        for id in r2.iter() { check((**id as usize) < D, "query returns no unknown id"); }
    }
    /// An answer with similarities: every answer once, right value, best first.
    pub fn check_ranked(&self, got: &[(u8, f64)], q: &[u8; N]) {
        let mut seen = [false; D];
        let mut last = f64::INFINITY;
        for (id, s) in got.iter() {
            let i = *id as usize;
            check(i < D, "no unknown id with a similarity");
            check(!seen[i], "an id is returned once");
            seen[i] = true;
            check(self.want(i, q), "a returned document shares a band with the query and reaches the threshold");
            check(*s == self.sim(i, q), "the similarity is the fraction of equal positions");
            check(*s <= last, "similarities descend");
            last = *s;
        }
        for i in 0..D { if !seen[i] { check(!self.want(i, q), "no answer is missing from the ranked result"); } }
    }
    /// query_one: the best answer, none only if there is no answer.
    pub fn check_one<C: IdContainer<u8>>(&self, ix: &Ix<C>, q: &[u8; N]) {
        match ix.query_one(&q.to_vec()) {
            Some((id, s)) => {
                let i = *id as usize;
                check(i < D, "query_one returns no unknown id");
                check(self.want(i, q), "query_one returns an answer of query");
                check(s == self.sim(i, q), "query_one returns its similarity");
                for j in 0..D { if self.s[j].is_some() { check(!self.want(j, q) | (self.sim(j, q) <= s), "no answer is closer than query_one's"); } }
            }
            None => for j in 0..D { check(!self.want(j, q), "query_one returns None only if query has no answer") },
        }
    }
    /// query_top_k: the k nearest of the documents sharing a band with the query.
    pub fn check_top<C: IdContainer<u8>>(&self, ix: &Ix<C>, q: &[u8; N], k: usize) {
        let got = ix.query_top_k(q, k);
        let mut seen = [false; D];
        let mut last = -1.0;
        for (id, d) in got.iter() {
            let i = *id as usize;
            check(i < D && self.s[i].is_some(), "top k returns documents of the index");
            check(!seen[i], "top k returns an id once");
            seen[i] = true;
            check(oracle::shares_band(&self.s[i].unwrap(), q, self.b, self.r), "top k returns candidates sharing a band");
            check(*d == 1.0 - self.sim(i, q), "top k returns the distance");
            check(*d >= last, "distances ascend");
            last = *d;
        }
        check(got.len() <= k, "top k returns at most k");
        for j in 0..D {
            if !seen[j] {
                if let Some(s) = &self.s[j] {
                    let cand = oracle::shares_band(s, q, self.b, self.r);
                    check(!cand | (got.len() == k), "top k returns all candidates if there are at most k");
                    if k > 0 { check(!cand | (1.0 - self.sim(j, q) >= last), "no nearer candidate is left out of top k"); }
                }
            }
        }
    }
    pub fn check_books<C: IdContainer<u8>>(&self, ix: &Ix<C>) {
        check(ix.size() == self.len(), "size is the number of distinct ids");
        check(ix.get_id_signature_map().len() == self.len(), "the signature map has one entry per id");
        for i in 0..D {
            match (ix.get_signature(&(i as u8)), &self.s[i]) {
                (Some(a), Some(b)) => check(same(a, b), "the stored signature is the one inserted last"),
                (None, None) => {}
                (Some(_), None) => check(false, "no signature for an id that is not in the index"),
                (None, Some(_)) => check(false, "an inserted id has a signature"),
            }
        }
    }
    pub fn check_by_id<C: IdContainer<u8>>(&self, ix: &Ix<C>, i: usize) {
        let id = i as u8;
        let r = ix.query_by_id(&id);
        let o = ix.query_by_id_owned(&id);
        let v = QueryIndex::query(ix, &id);
        for j in 0..D {
            let w = match &self.s[i] { Some(q) => self.want(j, q), None => false };
            check(r.contains(&(j as u8)) == w, "query_by_id is the query of the stored signature");
            check(o.contains(&(j as u8)) == w, "query_by_id_owned is the query of the stored signature");
            check(v.contains(&(j as u8)) == w, "the clustering query is the query of the stored signature");
        }
    }
    pub fn check_all<C: IdContainer<u8>>(&self, ix: &Ix<C>, q: &[u8; N]) {
        self.check_query(ix, q);
        self.check_ranked(&ix.query_owned_return_similarity(q), q);
        self.check_one(ix, q);
        self.check_top(ix, q, 1);
        self.check_books(ix);
    }
}
pub fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    let mut e = a.len() == b.len();
    let mut i = 0;
    while i < a.len() && i < b.len() { e &= a[i] == b[i]; i += 1; }
    e
}
fn fill<const D: usize, const N: usize, C: IdContainer<u8>>(ix: &mut Ix<C>, d: &mut Docs<D, N>) {
    for i in 0..D { let s: [u8; N] = sym::bytes(); d.s[i] = Some(s); ix.insert(i as u8, s.to_vec()); }
}
fn index<const D: usize, const N: usize>(d: &Docs<D, N>) -> Ix { MinHashIndex::new(d.b, d.r, d.t.f64()) }
fn observe_set(r: &HashSet<u8>) { let mut m = 0u64; for x in r.iter() { m |= 1 << *x; } sym::observe(m); }

const HALVES: &[(usize, usize)] = &[(0, 1), (1, 2), (1, 1), (3, 5)];
const QUARTERS: &[(usize, usize)] = &[(0, 1), (1, 4), (3, 10), (1, 2), (3, 4), (1, 1)];

/// The first and the last byte free.
fn ends() -> u64 { (sym::u8() as u64) << 56 | 0x12_3456_789a_bc00 | sym::u8() as u64 }
/// Hashes of any type: every form of query, removal, insertion again.
fn hash_type<T: MinHashType>(f: fn() -> T) {
    let t = Thr::choose(HALVES);
    let s: [[T; 2]; 2] = [[f(), f()], [f(), f()]];
    let q = [f(), f()];
    let v = q.to_vec();
    let mut ix: MinHashIndex<T, u32> = MinHashIndex::new(2, 1, t.f64());
    for i in 0..2 { ix.insert(7 + i as u32, s[i].to_vec()); }
    let ok = [oracle::answers(&s[0], &q, 2, 1, t), oracle::answers(&s[1], &q, 2, 1, t)];
    let (r, o, w, k) = (ix.query(&v), ix.query_owned(&v), ix.query_owned_return_similarity(&q), ix.query_top_k(&q, 2));
    let has = |l: &Vec<(u32, f64)>, id: u32| { let mut any = false; for x in l.iter() { any |= x.0 == id; } any };
    for i in 0..2 {
        let id = 7 + i as u32;
        check(r.contains(&id) == ok[i], "hashes of every type are compared in full");
        check(o.contains(&id) == ok[i], "hashes of every type are compared in full, owned");
        check(has(&w, id) == ok[i], "hashes of every type are compared in full, ranked");
        check(has(&k, id) == oracle::shares_band(&s[i], &q, 2, 1), "hashes of every type are compared in full, top k");
        check(ix.get_signature(&id) == Some(&s[i].to_vec()), "signatures of every type are kept");
    }
    check(ix.query_one(&v).is_some() == (ok[0] | ok[1]), "the nearest is found with hashes of every type");
    check(ix.remove(&7) == Some(s[0].to_vec()), "signatures of every type are given back");
    check(ix.query_owned(&s[0].to_vec()).contains(&8) == oracle::answers(&s[1], &s[0], 2, 1, t), "and only that document is removed");
    ix.insert(8, q.to_vec());
    let o = ix.query_owned(&v);
    check((o.len() == 1) & o.contains(&8), "documents are replaced with hashes of every type");
}

harnesses! {
    /// 3 documents, 2 bands of 1: all 2^64 signatures and queries.
    fn q_exact_2x1() {
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(HALVES));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        observe_set(&ix.query_owned(&q.to_vec()));
        d.check_query(&ix, &q);
    }
    /// 2 documents, 2 bands of 2.
    fn q_exact_2x2() {
        let mut d = Docs::<2, 4>::new(2, 2, Thr::choose(QUARTERS));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        observe_set(&ix.query_owned(&q.to_vec()));
        d.check_query(&ix, &q);
    }
    /// 2 documents, 3 bands of 2, and a preallocated index.
    fn q_exact_3x2() {
        let mut d = Docs::<2, 6>::new(3, 2, Thr::choose(&[(1, 3), (1, 2), (5, 6)]));
        let mut ix = Ix::<HashSetContainer<u8>>::new_with_capacity(3, 2, d.t.f64(), sym::choose(3) * 50, 0.5);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        d.check_query(&ix, &q);
    }
    /// 1 document, 4 bands of 3: a longer signature.
    fn q_exact_4x3() {
        let mut d = Docs::<1, 12>::new(4, 3, Thr::choose(&[(1, 4), (1, 2), (2, 3), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        d.check_query(&ix, &q);
    }
    /// 16-bit hashes.
    fn q_exact_u16() {
        let t = Thr::choose(HALVES);
        let s: [[u16; 2]; 2] = [[sym::u16(), sym::u16()], [sym::u16(), sym::u16()]];
        let q = [sym::u16(), sym::u16()];
        let mut ix: MinHashIndex<u16, u32> = MinHashIndex::new(2, 1, t.f64());
        for i in 0..2 { ix.insert(7 + i as u32, s[i].to_vec()); }
        let r = ix.query_owned(&q.to_vec());
        for i in 0..2 { check(r.contains(&(7 + i as u32)) == oracle::answers(&s[i], &q, 2, 1, t), "16-bit hashes are compared in full"); }
    }
    /// 32-bit hashes.
    fn q_exact_u32() {
        let t = Thr::choose(HALVES);
        let s: [[u32; 2]; 2] = [[sym::u32(), sym::u32()], [sym::u32(), sym::u32()]];
        let q = [sym::u32(), sym::u32()];
        let mut ix: MinHashIndex<u32, u64> = MinHashIndex::new(2, 1, t.f64());
        for i in 0..2 { ix.insert(i as u64, s[i].to_vec()); }
        let r = ix.query_owned(&q.to_vec());
        for i in 0..2 { check(r.contains(&(i as u64)) == oracle::answers(&s[i], &q, 2, 1, t), "32-bit hashes are compared in full"); }
    }
    fn q_u64() { hash_type(ends) }
    fn q_u32() { hash_type(sym::u32) }
    fn q_u16() { hash_type(sym::u16) }
    fn q_i8() { hash_type(|| sym::u8() as i8) }
    fn q_i16() { hash_type(|| sym::u16() as i16) }
    fn q_i32() { hash_type(|| sym::u32() as i32) }
    fn q_i64() { hash_type(|| ends() as i64) }
    /// Every band hash collides: still nothing below the threshold, and nothing lost.
    fn q_collide() {
        let t = Thr::choose(HALVES);
        let mut d = Docs::<3, 2>::new(2, 1, t);
        env::collide(true);
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        let r = ix.query_owned(&q.to_vec());
        let v = ix.query_owned_return_similarity(&q);
        for i in 0..3 {
            let ok = t.met(oracle::matches(&d.s[i].unwrap(), &q), 2);
            check(!r.contains(&(i as u8)) | ok, "a band hash collision does not let a document below the threshold in");
            check(r.contains(&(i as u8)) | !d.want(i, &q), "a band hash collision loses no document");
            let mut in_v = false;
            for (id, s) in v.iter() { in_v |= *id as usize == i; }
            check(!in_v | ok, "a band hash collision does not let a ranked document below the threshold in");
        }
        match ix.query_one(&q.to_vec()) { Some((id, s)) => check(t.met(oracle::matches(&d.s[*id as usize].unwrap(), &q), 2), "query_one stays above the threshold under collisions"), None => {} }
    }

    /// Ranked answers and the owned/borrowed/bulk forms.
    fn v_ranked_2x1() {
        env::symbolic_order(3);
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(HALVES));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        let got = ix.query_owned_return_similarity(&q);
        sym::observe(got.len() as u64);
        d.check_ranked(&got, &q);
    }
    fn v_ranked_2x2() {
        let mut d = Docs::<2, 4>::new(2, 2, Thr::choose(QUARTERS));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        d.check_ranked(&ix.query_owned_return_similarity(&q), &q);
        d.check_query(&ix, &q);
    }
    fn v_by_id() {
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(HALVES));
        let mut ix = index(&d);
        for i in 0..2 { let s = sym::bytes(); d.s[i] = Some(s); ix.insert(i as u8, s.to_vec()); }
        let i = sym::choose(3);
        d.check_by_id(&ix, i);
    }
    /// Bulk queries: answer i belongs to query i.
    fn v_bulk() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let qs: [[u8; 2]; 2] = [sym::bytes(), sym::bytes()];
        let n = sym::choose(3);
        let v: Vec<Vec<u8>> = qs[..n].iter().map(|q| q.to_vec()).collect();
        let a = ix.par_bulk_query(&v);
        check(a.len() == n, "one answer per query");
        for k in 0..n { for i in 0..2 { check(a[k].contains(&(i as u8)) == d.want(i, &qs[k]), "the bulk query answers each query in its place"); } }
    }
    fn v_bulk_ranked() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let qs: [[u8; 2]; 2] = [sym::bytes(), sym::bytes()];
        let v: Vec<Vec<u8>> = qs.iter().map(|q| q.to_vec()).collect();
        let b = ix.par_bulk_query_return_similarity(&v);
        check(b.len() == 2, "one ranked answer per query");
        for k in 0..2 { d.check_ranked(&b[k], &qs[k]); }
    }

    fn o_one_2x1() {
        env::symbolic_order(3);
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(HALVES));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        d.check_one(&ix, &q);
    }
    fn o_one_2x2() {
        env::symbolic_order(2);
        let mut d = Docs::<2, 4>::new(2, 2, Thr::choose(QUARTERS));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        d.check_one(&ix, &q);
    }
    fn o_top_2x1() {
        env::symbolic_order(3);
        let mut d = Docs::<3, 2>::new(2, 1, Thr { num: 1, den: 2 });
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        let k = sym::choose(5);
        d.check_top(&ix, &q, k);
    }
    fn o_top_2x2() {
        env::symbolic_order(2);
        let mut d = Docs::<2, 4>::new(2, 2, Thr { num: 1, den: 1 });
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let q = sym::bytes();
        let k = sym::choose(3);
        d.check_top(&ix, &q, k);
    }

    /// Remove any one (or an unknown id): the others stay, the removed one is gone.
    fn r_remove() {
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(&[(0, 1), (1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let i = sym::choose(4);
        let got = ix.remove(&(i as u8));
        if i < 3 {
            check(match &got { Some(s) => same(s, &d.s[i].unwrap()), None => false }, "remove returns the removed signature");
            d.s[i] = None;
        } else { check(got.is_none(), "removing an unknown id returns None"); }
        check(ix.remove(&(i as u8)).is_none(), "a removed id is gone");
        let q = sym::bytes();
        d.check_books(&ix);
        d.check_query(&ix, &q);
    }
    fn r_remove_forms() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let i = sym::choose(2);
        ix.remove(&(i as u8));
        d.s[i] = None;
        let q = sym::bytes();
        d.check_all(&ix, &q);
        d.check_by_id(&ix, 0);
        d.check_by_id(&ix, 1);
    }
    /// Any two of four ids, also unknown or repeated ones, in any order.
    fn r_bulk() {
        let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let n = sym::choose(3);
        let mut ids = Vec::new();
        let mut want: Vec<[u8; 2]> = Vec::new();
        for _ in 0..n { let i = sym::choose(4); ids.push(i as u8); if i < 3 { if let Some(s) = d.s[i].take() { want.push(s); } } }
        let got = ix.bulk_remove(&ids);
        check(got.len() == want.len(), "bulk_remove returns one signature per removed id");
        for (a, b) in got.iter().zip(want.iter()) { check(same(a, b), "bulk_remove returns the removed signatures"); }
        let q = sym::bytes();
        d.check_books(&ix);
        d.check_query(&ix, &q);
        d.check_ranked(&ix.query_owned_return_similarity(&q), &q);
        d.check_top(&ix, &q, 3);
    }

    /// Insert, insert again under the same id, maybe remove: only the last signature counts.
    fn i_reinsert() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(0, 1), (1, 2), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        let s2: [u8; 2] = sym::bytes();
        ix.insert(0, s2.to_vec());
        d.s[0] = Some(s2);
        if sym::flag() { ix.remove(&0); d.s[0] = None; }
        let q = sym::bytes();
        d.check_all(&ix, &q);
    }
    fn i_reinsert_vec() { reinsert::<VecContainer<u8>>() }
    fn i_reinsert_smallvec() { reinsert::<SmallVecContainer<u8, 1>>() }
    /// Re-insertion through the bulk operations, also twice in one batch.
    fn i_reinsert_bulk() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix: Ix<VecContainer<u8>> = MinHashIndex::new_index(2, 1, d.t.f64());
        let s: [[u8; 2]; 3] = [sym::bytes(), sym::bytes(), sym::bytes()];
        ix.insert(0, s[0].to_vec());
        let (a, b) = (sym::choose(2), sym::choose(2));
        let pairs = sym::flag();
        if pairs { ix.par_bulk_insert_pairs(vec![(a as u8, s[1].to_vec()), (b as u8, s[2].to_vec())]); }
        else { ix.par_bulk_insert(vec![a as u8, b as u8], vec![s[1].to_vec(), s[2].to_vec()]); }
        d.s[0] = Some(s[0]);
        d.s[a] = Some(s[1]);
        d.s[b] = Some(s[2]);
        if sym::flag() { let x = sym::choose(2); ix.remove(&(x as u8)); d.s[x] = None; }
        let q = sym::bytes();
        d.check_all(&ix, &q);
    }

    /// Both bulk insertions, on top of an existing document.
    fn b_insert() { bulk::<HashSetContainer<u8>>() }
    fn b_insert_vec() { bulk::<VecContainer<u8>>() }
    fn b_insert_smallvec() { bulk::<SmallVecContainer<u8, 2>>() }

    /// Books: empty index, after inserts, clear, refill.
    fn k_books() {
        env::symbolic_order(2);
        let mut d = Docs::<3, 2>::new(2, 1, Thr { num: 1, den: 2 });
        let mut ix = index(&d);
        d.check_books(&ix);
        check(ix.num_hashes() == 2, "num_hashes is bands times width");
        for _ in 0..3 { let i = sym::choose(3); let s = sym::bytes(); d.s[i] = Some(s); ix.insert(i as u8, s.to_vec()); }
        d.check_books(&ix);
        check(ix.capacity() >= ix.size(), "the capacity holds the contents");
        let bs = ix.band_sizes();
        check(bs.sizes.len() == 2, "one size per band");
        for s in bs.sizes.iter() { check(*s <= d.len() && *s >= 1, "a band has between one and size() buckets"); }
    }
    fn k_clear() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(0, 1), (1, 1)]));
        let mut ix = index(&d);
        fill(&mut ix, &mut d);
        ix.clear();
        d.s = [None; 2];
        let q = sym::bytes();
        d.check_all(&ix, &q);
        let s = sym::bytes();
        ix.insert(1, s.to_vec());
        d.s[1] = Some(s);
        d.check_all(&ix, &q);
    }
    /// Capacity management changes nothing and never panics, whatever the contents.
    fn k_shrink() {
        let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
        let mut ix = index(&d);
        let n = sym::choose(3);
        for i in 0..n { let s = sym::bytes(); d.s[i] = Some(s); ix.insert(i as u8, s.to_vec()); }
        match sym::choose(4) { 0 => ix.shrink_to_fit(), 1 => ix.shrink_to(0), 2 => ix.shrink_to(2), _ => ix.shrink_to(100000) }
        let q = sym::bytes();
        d.check_all(&ix, &q);
        let s = sym::bytes();
        ix.insert(0, s.to_vec());
        d.s[0] = Some(s);
        d.check_query(&ix, &q);
    }

    /// Containers: same history, same answers.
    fn c_vec() { container::<VecContainer<u8>>() }
    fn c_smallvec1() { container::<SmallVecContainer<u8, 1>>() }
    fn c_smallvec2() { container::<SmallVecContainer<u8, 2>>() }
    fn c_hashset() { container::<HashSetContainer<u8>>() }

    /// Wrong length: every entry point refuses.
    fn w_short() { wrong_len(1) }
    fn w_long() { wrong_len(3) }
    fn w_right() {
        let ix = wrong_ops(2);
        check(ix <= 2, "right-length signatures are accepted everywhere");
    }

    /// Any history of three operations on two ids.
    fn h_history3() { history(3) }
    fn h_history4() { history(4) }
    /// Long histories of all operations on 8 ids, one signature and the query free in places.
    fn h_long() { long_history::<HashSetContainer<u8>>(false) }
    fn h_long_vec() { long_history::<VecContainer<u8>>(false) }
    fn h_long_smallvec() { long_history::<SmallVecContainer<u8, 2>>(false) }
    fn h_long_twice() { long_history::<SmallVecContainer<u8, 1>>(true) }
}

fn reinsert<C: IdContainer<u8>>() {
    let mut d = Docs::<2, 2>::new(2, 1, Thr::choose(&[(0, 1), (1, 1)]));
    let mut ix: Ix<C> = MinHashIndex::new_index(2, 1, d.t.f64());
    fill(&mut ix, &mut d);
    let s2: [u8; 2] = sym::bytes();
    ix.insert(0, s2.to_vec());
    d.s[0] = Some(s2);
    if sym::flag() { ix.remove(&0); d.s[0] = None; }
    let q = sym::bytes();
    d.check_all(&ix, &q);
}
fn bulk<C: IdContainer<u8>>() {
    let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
    let mut ix: Ix<C> = MinHashIndex::new_index(2, 1, d.t.f64());
    let s: [[u8; 2]; 3] = [sym::bytes(), sym::bytes(), sym::bytes()];
    let n = sym::choose(4);
    let pre = sym::flag();
    let mut ids = vec![];
    let mut sigs = vec![];
    let mut pairs = vec![];
    for i in 0..n {
        d.s[i] = Some(s[i]);
        if i == 0 && pre { ix.insert(0, s[0].to_vec()); continue; }
        ids.push(i as u8);
        sigs.push(s[i].to_vec());
        pairs.push((i as u8, s[i].to_vec()));
    }
    if sym::flag() { ix.par_bulk_insert(ids, sigs); } else { ix.par_bulk_insert_pairs(pairs); }
    let q = sym::bytes();
    d.check_books(&ix);
    d.check_query(&ix, &q);
}
fn container<C: IdContainer<u8>>() {
    let mut d = Docs::<3, 2>::new(2, 1, Thr::choose(&[(1, 2), (1, 1)]));
    let mut ix: Ix<C> = MinHashIndex::new_index(2, 1, d.t.f64());
    fill(&mut ix, &mut d);
    let i = sym::choose(4);
    if i < 3 { ix.remove(&(i as u8)); d.s[i] = None; }
    let q = sym::bytes();
    d.check_query(&ix, &q);
    d.check_ranked(&ix.query_owned_return_similarity(&q), &q);
}
/// Runs one entry point with signatures of length `len` (2 is right).
fn wrong_ops(len: usize) -> usize {
    let mut ix: Ix = MinHashIndex::new(2, 1, 0.5);
    let a: [u8; 3] = sym::bytes();
    let bad = a[..len].to_vec();
    let good: [u8; 2] = sym::bytes();
    let op = sym::choose(10);
    if op >= 2 { ix.insert(9, good.to_vec()); }
    sym::expect_panic(len != 2);
    match op {
        0 => ix.insert(1, bad),
        1 => { ix.insert(9, good.to_vec()); ix.insert(9, bad) }
        2 => { ix.query(&bad); }
        3 => { ix.query_owned(&bad); }
        4 => { ix.query_one(&bad); }
        5 => { ix.query_owned_return_similarity(&bad); }
        6 => { ix.query_top_k(&bad, 1); }
        7 => { if sym::flag() { ix.par_bulk_query(&vec![good.to_vec(), bad]); } else { ix.par_bulk_query_return_similarity(&vec![good.to_vec(), bad]); } }
        8 => ix.par_bulk_insert(vec![1, 2], if sym::flag() { vec![good.to_vec(), bad] } else { vec![bad, good.to_vec()] }),
        _ => ix.par_bulk_insert_pairs(if sym::flag() { vec![(1, good.to_vec()), (9, bad)] } else { vec![(1, bad)] }),
    }
    sym::expect_panic(false);
    ix.size().min(2)
}
fn wrong_len(len: usize) {
    sym::cover(true, "WITNESS");
    wrong_ops(len);
    check(false, "a signature of the wrong length is rejected");
}
fn history(steps: usize) {
    let mut d = Docs::<2, 2>::new(2, 1, Thr { num: 1, den: 2 });
    let mut ix: Ix<SmallVecContainer<u8, 1>> = MinHashIndex::new_index(2, 1, 0.5);
    for _ in 0..steps {
        let op = sym::choose(6);
        match op {
            0 | 1 => { let s = sym::bytes(); ix.insert(op as u8, s.to_vec()); d.s[op] = Some(s); }
            2 | 3 => { let i = op - 2; let got = ix.remove(&(i as u8)); check(got.is_some() == d.s[i].is_some(), "remove finds exactly the inserted ids"); d.s[i] = None; }
            4 => { let (s, t): ([u8; 2], [u8; 2]) = (sym::bytes(), sym::bytes()); ix.par_bulk_insert(vec![1, 0], vec![s.to_vec(), t.to_vec()]); d.s[1] = Some(s); d.s[0] = Some(t); }
            _ => { let g = ix.bulk_remove(&vec![0, 1]); check(g.len() == d.len(), "bulk_remove finds exactly the inserted ids"); d.s = [None; 2]; }
        }
    }
    let q = sym::bytes();
    d.check_all(&ix, &q);
}
/// 30 operations of all kinds in a chosen rhythm; every operation's return value and the books are
/// checked as it goes, every query form at the end (or, with `mid`, in the middle, too).
fn long_history<C: IdContainer<u8>>(mid: bool) {
    const D: usize = 8;
    const N: usize = 6;
    let mut d = Docs::<D, N>::new(3, 2, Thr::choose(&[(1, 3), (1, 2)]));
    let stride = [1, 3, 5, 7, 9][sym::choose(5)];
    let mut ix: Ix<C> = match stride {
        3 => MinHashIndex::new_with_capacity(3, 2, d.t.f64(), 0, 0.5),
        7 => MinHashIndex::new_with_capacity(3, 2, d.t.f64(), 2000, 0.9),
        _ => MinHashIndex::new_index(3, 2, d.t.f64()),
    };
    let free = if mid { 4 } else { 29 };
    let mut next = 0usize;
    let mut sig = |step: usize| -> [u8; N] {
        next += 1;
        let mut s = [0; N];
        for j in 0..N { s[j] = ((next * 7 + j / 2 * (next % 5)) % 3) as u8; }
        if step == free { s[1] = sym::bits(2) as u8; s[5] = sym::bits(2) as u8; }
        s
    };
    for step in 0..30usize {
        let id = |k: usize| (step * stride + k * 3 + step / 8) % D;
        let (a, b, c) = (id(0), id(1), id(2));
        let op = if step == 17 { 9 } else if step == free { 0 } else { (step * stride + step / 10) % 10 };
        match op {
            0 | 5 => { let s = sig(step); ix.insert(a as u8, s.to_vec()); d.s[a] = Some(s); }
            1 => {
                let (s, t, u) = (sig(step), sig(step), sig(step));
                ix.par_bulk_insert(vec![a as u8, b as u8, c as u8], vec![s.to_vec(), t.to_vec(), u.to_vec()]);
                d.s[a] = Some(s); d.s[b] = Some(t); d.s[c] = Some(u);
            }
            2 | 7 => {
                let got = ix.remove(&(b as u8));
                check(match (&got, &d.s[b]) { (Some(x), Some(y)) => same(x, y), (None, None) => true, _ => false }, "remove returns what was stored last");
                d.s[b] = None;
            }
            3 => {
                let (s, t) = (sig(step), sig(step));
                ix.par_bulk_insert_pairs(vec![(c as u8, s.to_vec()), (a as u8, t.to_vec())]);
                d.s[c] = Some(s); d.s[a] = Some(t);
            }
            4 => {
                let mut n = 0;
                for i in [a, c] { if d.s[i].take().is_some() { n += 1; } }
                check(ix.bulk_remove(&vec![a as u8, 99, c as u8]).len() == n, "bulk_remove returns one signature per removed id");
            }
            6 => { if let Some(s) = d.s[a] { ix.insert(b as u8, s.to_vec()); d.s[b] = Some(s); } }
            8 => { if step % 2 == 0 { ix.shrink_to_fit() } else { ix.shrink_to(3) } }
            _ => if step > 12 && step < 20 { ix.clear(); d.s = [None; D]; } else { ix.par_bulk_insert(vec![], vec![]); ix.bulk_remove(&vec![]); },
        }
        d.check_books(&ix);
        if (mid && step == 9) || step == 29 {
            let x = sym::choose(2);
            let q: [u8; N] = [0, sym::bits(2) as u8, x as u8, x as u8, 1, 1];
            d.check_all(&ix, &q);
            d.check_top(&ix, &q, 4);
        }
    }
    for i in 0..D { d.check_by_id(&ix, i); if let Some(q) = d.s[i] { d.check_query(&ix, &q); } }
    // everything goes, everything comes back
    let kept = d.s;
    for i in 0..D { ix.remove(&(i as u8)); }
    check(ix.size() == 0, "all are removed");
    d.s = [None; D];
    for i in (0..D).rev() { if let Some(s) = kept[i] { ix.insert(i as u8, s.to_vec()); d.s[i] = Some(s); } }
    for i in 0..D { if let Some(q) = d.s[i] { d.check_query(&ix, &q); } }
}
