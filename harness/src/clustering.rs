use crate::env;
use crate::sym::{self, check};
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, MinHashIndex};
use std::boxed::Box;
use std::collections::HashSet;
use std::vec::Vec;

/// Any similarity relation on n points: reflexive and symmetric, as an index has it.
struct Near<const N: usize> { near: [[bool; N]; N] }
impl<const N: usize> Near<N> {
    fn any() -> Self {
        let mut near = [[false; N]; N];
        for i in 0..N { near[i][i] = true; for j in 0..i { let b = sym::bool(); near[i][j] = b; near[j][i] = b; } }
        Near { near }
    }
}
/// The index a clusterer sees: points and which of them are similar.
struct Index<'a, P, const N: usize> { points: &'a [P], of: fn(&P) -> usize, rel: &'a Near<N> }
impl<'a, P: std::hash::Hash + Eq, const N: usize> QueryIndex for Index<'a, P, N> {
    type Id = P;
    fn query(&self, p: &P) -> HashSet<&P> {
        let mut out = HashSet::new();
        let i = (self.of)(p);
        for j in 0..N { if self.rel.near[i][j] { out.insert(&self.points[j]); } }
        out
    }
}
unsafe impl<'a, P, const N: usize> Sync for Index<'a, P, N> {}

/// The same for many points and a fixed relation.
struct Rule<'a, P> { points: &'a [P], of: fn(&P) -> usize, near: Relation }
impl<'a, P: std::hash::Hash + Eq> QueryIndex for Rule<'a, P> {
    type Id = P;
    fn query(&self, p: &P) -> HashSet<&P> {
        let mut out = HashSet::new();
        let i = (self.of)(p);
        for j in 0..self.points.len() { if self.near.has(i, j) { out.insert(&self.points[j]); } }
        out
    }
}
unsafe impl<'a, P> Sync for Rule<'a, P> {}
/// One of the rules, but any relation between two pairs of points.
struct Relation { rule: fn(usize, usize) -> bool, pairs: [(usize, usize, bool); 2] }
impl Relation {
    fn any(n: usize) -> Self { Relation { rule: RULES[sym::choose(5)], pairs: [(3, n / 2 + 2, sym::bool()), (0, n - 1, sym::bool())] } }
    fn has(&self, i: usize, j: usize) -> bool {
        for (a, b, r) in self.pairs.iter() { if (i == *a && j == *b) || (i == *b && j == *a) { return *r; } }
        (self.rule)(i, j)
    }
}
const RULES: [fn(usize, usize) -> bool; 5] = [
    |i, j| i == j,
    |i, j| i / 20 == j / 20,
    |i, j| i % 2 == j % 2,
    |i, j| i.max(j) - i.min(j) <= 1,
    |i, j| i == j || i % 17 == 0 || j % 17 == 0,
];

/// What must be true of the clusters: `member[c]` are the points of cluster c, `own[p]` is the
/// cluster a point says it is in, `input` are the points that were to be clustered.
struct Outcome { member: Vec<Vec<usize>>, ids: Vec<usize>, own: Vec<Option<usize>>, input: Vec<bool>, min: usize }
impl Outcome {
    fn check<F: Fn(usize, usize) -> bool>(&self, near: F) {
        let n = self.own.len();
        let mut seen = std::vec![0usize; n];
        for (c, m) in self.member.iter().enumerate() {
            check(m.len() >= self.min, "a cluster has at least the minimal number of points");
            for &p in m {
                seen[p] += 1;
                check(self.own[p] == Some(c), "a point belongs to the cluster that lists it");
            }
            let mut together = false;
            for s in 0..n {
                let mut all = self.input[s];
                for &p in m { all &= near(s, p); }
                together |= all;
            }
            check(together, "the points of a cluster are all similar to one of the points");
            for d in 0..c { check(self.ids[c] != self.ids[d], "no two clusters have the same id"); }
        }
        for p in 0..n {
            check(seen[p] <= 1, "no point is in two clusters");
            check(self.own[p].is_none() || seen[p] == 1, "a point that has a cluster is listed in it");
        }
        for p in 0..n {
            if !self.input[p] || self.own[p].is_some() { continue; }
            let mut free = 0;
            for q in 0..n { free += (self.own[q].is_none() && near(p, q)) as usize; }
            check(free < self.min, "points left alone have too few similar points left to form a cluster");
        }
        // in some order each cluster is what was left of the points similar to one of the points
        let mut placed = std::vec![false; n];
        let mut open: Vec<usize> = (0..self.member.len()).collect();
        loop {
            let mut left: Vec<usize> = Vec::new();
            let before = open.len();
            for &c in &open {
                let mut here = std::vec![false; n];
                for &p in &self.member[c] { here[p] = true; }
                let mut whole = false;
                // the one point is one of them or was placed before
                let own = self.member[c].iter().copied();
                for s in own.chain((0..n).filter(|&s| placed[s])) {
                    if !self.input[s] { continue; }
                    let mut is = true;
                    for p in 0..n { if !placed[p] && near(s, p) != here[p] { is = false; break; } }
                    if is { whole = true; break; }
                }
                if whole { for &p in &self.member[c] { placed[p] = true; } } else { left.push(c); }
            }
            open = left;
            if open.is_empty() || open.len() == before { break; }
        }
        check(open.is_empty(), "a cluster is all that was left of the points similar to one of the points");
        sym::observe(self.member.len() as u64);
    }
}

mod serial {
    use super::*;
    /// Many points.
    pub fn many(n: usize) {
        let near = Relation::any(n);
        let min = [1, 2, 3, 20, 21, 40][sym::choose(6)];
        let points: Vec<P> = (0..n).map(|i| Rc::new(ClusterPointInner::new(i as u16))).collect();
        let ix = Rule { points: &points, of, near };
        let mut c: Clusterer<u16> = Clusterer::new(min);
        let mut all = points.clone();
        let got = c.cluster(&mut all, &ix);
        outcome(&got, &points, &std::vec![true; n], min).check(|a, b| ix.near.has(a, b));
    }
    use gaoya::clustering::clustering_serial::*;
    use std::rc::Rc;
    type P = ClusterPoint<u16>;
    fn of(p: &P) -> usize { p.id as usize }
    /// Clusters the points in two calls (the second one may be empty), in any order within the bounds.
    pub fn run<const N: usize>(two: bool, order: bool) {
        let rel: Near<N> = Near::any();
        let min = 1 + sym::choose(N + 1);
        if order { env::symbolic_order(N); }
        let points: Vec<P> = (0..N).map(|i| Rc::new(ClusterPointInner::new(i as u16))).collect();
        let ix = Index { points: &points, of, rel: &rel };
        let cut = if two { sym::choose(N + 1) } else { N };
        let from = sym::choose(N);
        let mut first: Vec<P> = Vec::new();
        let mut second: Vec<P> = Vec::new();
        let mut input = std::vec![false; N];
        for k in 0..N {
            let p = points[(from + k) % N].clone();
            if k < cut { input[of(&p)] = true; first.push(p) } else { second.push(p) }
        }
        let mut c: Clusterer<u16> = Clusterer::new(min);
        let mut got = c.cluster(&mut first, &ix);
        outcome(&got, &points, &input, min).check(|a, b| rel.near[a][b]);
        if two {
            let more = c.cluster(&mut second, &ix);
            got.extend(more);
            outcome(&got, &points, &std::vec![true; N], min).check(|a, b| rel.near[a][b]);
        }
    }
    /// Three calls, with the same points again, or one twice.
    pub fn calls<const N: usize>() {
        let rel: Near<N> = Near::any();
        let min = 1 + sym::choose(N);
        let points: Vec<P> = (0..N).map(|i| Rc::new(ClusterPointInner::new(i as u16))).collect();
        let ix = Index { points: &points, of, rel: &rel };
        let mut c: Clusterer<u16> = Clusterer::new(min);
        let mut got = Vec::new();
        let mut input = std::vec![false; N];
        for k in 0..3 {
            let mut now: Vec<P> = match sym::choose(4) {
                0 => std::vec![points[k % N].clone()],
                1 => points.clone(),
                2 => std::vec![points[N - 1].clone(), points[k % N].clone(), points[N - 1].clone()],
                _ => Vec::new(),
            };
            for p in &now { input[of(p)] = true; }
            got.extend(c.cluster(&mut now, &ix));
        }
        outcome(&got, &points, &input, min).check(|a, b| rel.near[a][b]);
    }
    fn outcome(cs: &Vec<Box<Cluster<u16>>>, points: &Vec<P>, input: &Vec<bool>, min: usize) -> Outcome {
        let ids: Vec<usize> = cs.iter().map(|c| c.cluster_id).collect();
        Outcome {
            member: cs.iter().map(|c| c.points.iter().map(of).collect()).collect(),
            own: points.iter().map(|p| p.cluster.get().map(|id| ids.iter().position(|&x| x == id).unwrap_or(usize::MAX))).collect(),
            ids, input: input.clone(), min,
        }
    }
}

mod parallel {
    use super::*;
    use gaoya::clustering::clusterer_parallel::*;
    use triomphe::Arc;
    type P = ClusterPoint<u16>;
    fn of(p: &P) -> usize { p.id as usize }
    fn points(n: usize) -> Vec<P> { (0..n).map(|i| Arc::new(ClusterPointInner::new(i as u16))).collect() }
    fn outcome(cs: &Vec<Box<Cluster<u16>>>, points: &Vec<P>, input: &Vec<bool>, min: usize) -> Outcome {
        Outcome {
            member: cs.iter().map(|c| c.points.iter().map(of).collect()).collect(),
            ids: cs.iter().map(|c| c.cluster_id as usize).collect(),
            own: points.iter().map(|p| {
                let q = p.get_cluster();
                if q.is_null() { None } else { Some(cs.iter().position(|c| &**c as *const Cluster<u16> == q as *const Cluster<u16>).unwrap_or(usize::MAX)) }
            }).collect(),
            input: input.clone(), min,
        }
    }
    /// One thread.
    pub fn alone<const N: usize>(order: bool) {
        let rel: Near<N> = Near::any();
        let min = 1 + sym::choose(N + 1);
        if order { env::symbolic_order(N); }
        let points = points(N);
        let ix = Index { points: &points, of, rel: &rel };
        let cut = sym::choose(N + 1);
        let mut first = points[..cut].to_vec();
        let mut second = points[cut..].to_vec();
        let c: Clusterer<u8, u16> = Clusterer::new(min, 2);
        let mut got = c.cluster(&mut first, &ix);
        let input: Vec<bool> = (0..N).map(|i| i < cut).collect();
        outcome(&got, &points, &input, min).check(|a, b| rel.near[a][b]);
        got.extend(c.cluster(&mut second, &ix));
        outcome(&got, &points, &std::vec![true; N], min).check(|a, b| rel.near[a][b]);
    }
    /// Three calls, with the same points again, or one twice.
    pub fn calls<const N: usize>() {
        let rel: Near<N> = Near::any();
        let min = 1 + sym::choose(N);
        let points = points(N);
        let ix = Index { points: &points, of, rel: &rel };
        let c: Clusterer<u8, u16> = Clusterer::new(min, 2);
        let mut got = Vec::new();
        let mut input = std::vec![false; N];
        for k in 0..3 {
            let mut now: Vec<P> = match sym::choose(4) {
                0 => std::vec![points[k % N].clone()],
                1 => points.clone(),
                2 => std::vec![points[N - 1].clone(), points[k % N].clone(), points[N - 1].clone()],
                _ => Vec::new(),
            };
            for p in &now { input[of(p)] = true; }
            got.extend(c.cluster(&mut now, &ix));
        }
        outcome(&got, &points, &input, min).check(|a, b| rel.near[a][b]);
    }
    /// Many points, one call or one after the other.
    pub fn many(n: usize) {
        let near = Relation::any(n);
        let min = [1, 2, 3, 20, 21, 40][sym::choose(6)];
        let points = points(n);
        let ix = Rule { points: &points, of, near };
        let c: Clusterer<u8, u16> = Clusterer::new(min, 4);
        let cut = [n, n / 2][sym::choose(2)];
        let mut got = c.cluster(&mut points[..cut].to_vec(), &ix);
        got.extend(c.cluster(&mut points[cut..].to_vec(), &ix));
        outcome(&got, &points, &std::vec![true; n], min).check(|a, b| ix.near.has(a, b));
    }
    /// cluster_par with many points and any of these numbers of threads.
    pub fn many_par(n: usize) {
        let points = points(n);
        let mut ix: MinHashIndex<u8, P, HashSetContainer<P>> = MinHashIndex::new(1, 1, 0.5);
        let g = [1, 3, 20, n][sym::choose(4)];
        for i in 0..n { ix.insert(points[i].clone(), std::vec![(i / g) as u8]); }
        let min = [1, 2, 3, 20, 21][sym::choose(5)];
        let w = [1, 2, 3, 7, 8, 64, 100][sym::choose(7)];
        let c: Clusterer<u8, u16> = Clusterer::new(min, w);
        let got = c.cluster_par(&mut points.clone(), &ix);
        outcome(&got, &points, &std::vec![true; n], min).check(|a, b| a / g == b / g);
    }
    struct Task<'a, const N: usize> { c: &'a Clusterer<u8, u16>, ix: &'a Index<'a, P, N>, mine: Vec<P>, got: Vec<Box<Cluster<u16>>> }
    extern "C-unwind" fn work<const N: usize>(a: usize) {
        let t = unsafe { &mut *(a as *mut Task<'_, N>) };
        t.got = t.c.cluster(&mut t.mine, t.ix);
    }
    /// Two threads cluster a part of the points each with one clusterer, under every schedule.
    pub fn together<const N: usize>(min: usize, cut: usize) {
        let rel: Near<N> = Near::any();
        let points = points(N);
        let ix = Index { points: &points, of, rel: &rel };
        let c: Clusterer<u8, u16> = Clusterer::new(min, 2);
        let mut a = Task { c: &c, ix: &ix, mine: points[..cut].to_vec(), got: Vec::new() };
        let mut b = Task { c: &c, ix: &ix, mine: points[cut..].to_vec(), got: Vec::new() };
        let ta = sym::spawn(work::<N>, &mut a as *mut Task<N> as usize);
        let tb = sym::spawn(work::<N>, &mut b as *mut Task<N> as usize);
        sym::join(ta);
        sym::join(tb);
        let mut got = Vec::new();
        got.append(&mut a.got);
        got.append(&mut b.got);
        outcome(&got, &points, &std::vec![true; N], min).check(|a, b| rel.near[a][b]);
    }
    /// cluster_par in interleaved threads; similar points are those of a group.
    pub fn race_par<const N: usize>(min: usize, workers: usize) {
        let points = points(N);
        let mut ix: MinHashIndex<u8, P, HashSetContainer<P>> = MinHashIndex::new(1, 1, 0.5);
        let mut sigs = [0u8; N];
        for i in 0..N { if i > 0 { sigs[i] = sym::flag() as u8; } ix.insert(points[i].clone(), std::vec![sigs[i]]); }
        let c: Clusterer<u8, u16> = Clusterer::new(min, workers);
        let mut input = points.clone();
        env::threads(true);
        let got = c.cluster_par(&mut input, &ix);
        env::threads(false);
        outcome(&got, &points, &std::vec![true; N], min).check(|a, b| sigs[a] == sigs[b]);
    }
    /// cluster_par over a real MinHash index; threads interleave if `threads`.
    pub fn over_index<const N: usize>(threads: bool, min: usize, workers: usize) {
        let points = points(N);
        let mut ix: MinHashIndex<u8, P, HashSetContainer<P>> = MinHashIndex::new(2, 1, 0.5);
        let mut sigs = [[0u8; 2]; N];
        for i in 0..N { sigs[i] = if threads { sym::nibbles(1) } else { sym::bytes() }; ix.insert(points[i].clone(), sigs[i].to_vec()); }
        let c: Clusterer<u8, u16> = Clusterer::new(min, workers);
        let mut input = points.clone();
        env::threads(threads);
        let got = c.cluster_par(&mut input, &ix);
        env::threads(false);
        outcome(&got, &points, &std::vec![true; N], min).check(|a, b| (sigs[a][0] == sigs[b][0]) | (sigs[a][1] == sigs[b][1]));
    }
}

harnesses! {
    fn l_many_serial() { serial::many(70) }
    fn l_many_alone() { parallel::many(70) }
    fn l_many_par() { parallel::many_par(70) }
    fn l_many300() { serial::many(300) }
    fn l_serial_calls() { serial::calls::<3>() }
    fn l_alone_calls() { parallel::calls::<3>() }
    fn l_serial3() { serial::run::<3>(true, true) }
    fn l_serial4() { serial::run::<4>(false, false) }
    fn l_alone3() { parallel::alone::<3>(true) }
    fn l_alone4() { parallel::alone::<4>(false) }
    fn l_chunks() { let w = 1 + sym::choose(4); let m = 1 + sym::choose(3); parallel::over_index::<3>(false, m, w) }
    fn l_few() { let w = 1 + sym::choose(3); let m = 1 + sym::choose(2); if sym::flag() { parallel::over_index::<1>(false, m, w) } else { parallel::over_index::<0>(false, m, w) } }
    fn l_race3_1() { parallel::together::<3>(1, 1) }
    fn l_race3_2() { parallel::together::<3>(2, 1) }
    fn l_race3_3() { parallel::together::<3>(3, 2) }
    fn l_race4_2() { parallel::together::<4>(2, 2) }
    fn l_race_par2() { parallel::over_index::<2>(true, 1, 2) }
    fn l_race_par4() { parallel::race_par::<4>(2, 2) }
    fn l_race_par3() { parallel::race_par::<3>(2, 3) }
}
