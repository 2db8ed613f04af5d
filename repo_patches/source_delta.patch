From 11ecbd7614ae47de70cd52d9da4500eb94ecbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 01/18] fix: query_one returns the closest point also when its
 similarity equals the threshold

query, query_owned and query_owned_return_similarity accept similarity >= threshold,
query_one required similarity > threshold and returned None for such a point.
---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..30d2012 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -539,7 +539,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From 58634c98d3158c3e1c7b2d2965e8f3b5d58fa44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 02/18] fix: bulk_remove pairs each removed signature with its
 own id

Ids that are not in the index have no signature; zipping the removed signatures with
all ids shifted the pairs, and left removed ids behind in the bands.
---
 gaoya/src/minhash/minhash_index.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 30d2012..98c2c95 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,16 +700,16 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
+        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|signature| (id, signature)))
             .collect();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
-                    .for_each(|(sig, id)| band.remove(id, sig))
+                removed.iter()
+                    .for_each(|(id, signature)| band.remove(id, signature))
             });
-        sigs
+        removed.into_iter().map(|(_, signature)| signature).collect()
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From dd6cd4b82af0449ac60c75a9fdf947a813585588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 03/18] fix: shrink_to does not panic on an empty index or when
 all bands are distinct

---
 gaoya/src/minhash/minhash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 98c2c95..28ae7e0 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -486,8 +486,8 @@ where
             .for_each(|band| {
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
-                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
+                // The ratio is 1 when all bands are distinct, and undefined for an empty index.
+                let ratio = (band.hash_table.len() as f64 / self.id_signatures.len() as f64).min(1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From e0549fbfba1837e00dde545a877db4a6c88e33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 04/18] fix: check the length of every signature in bulk
 inserts and similarity queries

insert, query and query_owned reject a signature of the wrong length before touching the
index. par_bulk_insert looked at the first signature only, par_bulk_insert_pairs,
query_owned_return_similarity and query_top_k at none: a short signature panicked half-way,
a long one was stored or truncated silently.
---
 gaoya/src/minhash/minhash_index.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 28ae7e0..9bef739 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in &signatures {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +452,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for (_, signature) in &id_signature_pairs {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
@@ -622,6 +626,7 @@ where
         where
             Id: Hash + Eq + Clone,
     {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
@@ -641,6 +646,7 @@ where
 
 
     pub fn query_top_k(&self, query_signature: &[T], k: usize) -> Vec<(Id, f64)> {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
-- 
2.43.0


From 5acd65cd6729df19716ae7372b8329701b5ce6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 05/18] fix: inserting an id again replaces its band entries as
 well as its signature

The entries of the previous signature stayed in the bands. Once the id was removed they
referred to a missing signature, and query_owned_return_similarity and query_top_k panicked;
with Vec and SmallVec containers even re-inserting the same signature left such an entry.
---
 gaoya/src/minhash/minhash_index.rs | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 9bef739..0a9a8ca 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -419,6 +419,8 @@ where
     #[inline]
     pub fn insert(&mut self, id: Id, signature: Vec<T>) {
         assert_eq!(self.num_hashes(), signature.len());
+        // Inserting an id again replaces its signature, so its band entries go too
+        self.remove(&id);
         for band in &mut self.bands {
             band.insert(id.clone(), &signature);
         }
@@ -434,17 +436,7 @@ where
             assert_eq!(self.num_hashes(), signature.len());
         }
 
-        self.bands.par_iter_mut().for_each(|band| {
-            for item in signatures.iter().zip(ids.iter()) {
-                let hashes = item.0;
-                let id = item.1.clone();
-                band.insert(id, hashes);
-            }
-        });
-
-        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
-        }
+        self.par_bulk_insert_latest(ids.into_iter().zip(signatures.into_iter()).collect());
     }
 
     pub fn par_bulk_insert_pairs(&mut self, id_signature_pairs: Vec<(Id, Vec<T>)>)
@@ -456,18 +448,26 @@ where
             assert_eq!(self.num_hashes(), signature.len());
         }
 
+        self.par_bulk_insert_latest(id_signature_pairs.into_iter().collect());
+    }
+
+    /// Inserts the last signature given for each id, replacing those already in the index
+    fn par_bulk_insert_latest(&mut self, id_signatures: HashMap<Id, Vec<T>, RandomState>)
+    where
+        Id: Hash + Eq + Clone + Send + Sync,
+        T: Send + Sync,
+    {
+        for id in id_signatures.keys() {
+            self.remove(id);
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
-            for item in id_signature_pairs.iter() {
-                let i: &(Id, Vec<T>) = item;
-                let (a, b) = i;
-                let k: Id = a.clone();
-                band.insert(k, b);
+            for (id, signature) in id_signatures.iter() {
+                band.insert(id.clone(), signature);
             }
         });
 
-        for id_hash in id_signature_pairs {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
-        }
+        self.id_signatures.extend(id_signatures);
     }
 
     pub fn shrink_to_fit(&mut self)
-- 
2.43.0


From 1c8b06832d922e64e314a613c1f7dafc86438739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 06/18] fix: similarity_greater_than_threshold does not round
 the required matches down

Three hashes with threshold 0.5 required one match, and similarity 1/3 was reported as above
the threshold.
---
 gaoya/src/minhash/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..1ef1d08 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -147,13 +147,12 @@ pub fn similarity_greater_than_threshold<T>(
 {
     assert_eq!(min_hashes_1.len(), min_hashes_2.len());
     let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
     let mut num_matches: u32 = 0;
     for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
         if pair.0 == pair.1 {
             num_matches += 1;
         }
-        if num_matches >= expected_matches {
+        if num_matches as f64 / num_hashes as f64 >= threshold {
             return true;
         }
     }
-- 
2.43.0


From 1d79fc4fa1808ee4a272782986b5bf23f2bbd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 07/18] fix: SimHashIndex returns signatures at exactly the
 configured hamming distance

The distance is documented as inclusive, and the permutation tables are built to find
signatures that differ in that many bits.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..22df6f3 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From c912dce2e525a4a3df7d9b9040d0eaf998479122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 08/18] fix: SimHashIndex::size returns the number of indexed
 ids instead of 0

---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 22df6f3..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From c1466b6a8403b54fd4f9eafe6e7ad37469e458ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 09/18] fix: MultiShingles produces the short shingles at the
 end of the data

It ended at the first size that no longer fits, and lost the shorter shingles that start
further on: "c" for the sizes 1 to 3 of "abc".
---
 gaoya/src/text/multi_shingles.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..de21c7f 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.size > self.from_size && self.data.len() < self.size {
+            // no longer shingle starts here, but shorter ones may start further on
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -79,8 +84,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
         };
 
         // move data slice to next step position
+        let shorter_shingles_left = ret.is_none() && self.size > self.from_size;
         self.size += 1;
-        if self.size > self.to_size {
+        if self.size > self.to_size || shorter_shingles_left {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
@@ -89,6 +95,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
+        if shorter_shingles_left {
+            return self.next();
+        }
         ret
     }
 }
-- 
2.43.0


From fc3cb4d07a0180520594a9eb3209b47af3b8e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 10/18] fix: load_from_file_parallel does not reuse the id of
 the last inserted document

---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..b899fc1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -80,7 +80,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = reader
                     .lines()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From d5b0061b2bbb1e3c51c7455f2270ea1523ed8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 11/18] fix: the serial clusterer does not hand out the same
 cluster ids in every call

---
 gaoya/src/clustering/clustering_serial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..8950307 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -105,6 +105,7 @@ impl<Id> Clusterer<Id>
                 clusters.push(cluster);
             }
         }
+        self.cluster_id_sequence = cluster_id_seq;
         clusters
     }
 
-- 
2.43.0


From e55108ed8eaccecc6a239dc6f49a9ffefd932bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 12/18] fix: the serial clusterer reports clusters of exactly
 min_cluster_size points

As its name says, and as the parallel clusterer does.
---
 gaoya/src/clustering/clustering_serial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 8950307..4fee7b2 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -99,7 +99,7 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
+            if similar_points.len() >= self.min_cluster_size {
                 cluster_id_seq += 1;
                 let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                 clusters.push(cluster);
-- 
2.43.0


From 547abaa28cf01e4f282b03ec402d314b91bd93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:33 +0000
Subject: [PATCH 13/18] fix: the parallel clusterer never puts a point in two
 clusters

A thread that took a point from a cluster in progress added it to its own cluster but left
the point assigned to the other, which kept it too; COMMITTED and ROLLED_BACK were the same
state, the retry after a rollback did nothing, and a rolled back cluster was freed while
points still referred to it. The points of a new cluster are now claimed under a lock; the
queries, which take the time, still run in parallel.
---
 gaoya/src/clustering/clusterer_parallel.rs | 101 +++------------------
 1 file changed, 15 insertions(+), 86 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..6722689 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,8 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -85,13 +86,9 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
-const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
-
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
     pub cluster_id: u32,
-    state: AtomicU8,
 }
 
 impl<Id> Cluster<Id> {
@@ -99,33 +96,8 @@ impl<Id> Cluster<Id> {
         Cluster {
             points: Vec::with_capacity(cluster_size),
             cluster_id: cluster_id,
-            state: AtomicU8::new(0),
         }
     }
-
-    /// cluster state machine is simple. There are only 3 possible states and 2 transitions:
-    /// NEW -> COMMITTED, NEW -> ROLLED_BACK
-
-
-    fn commit(&self) -> bool {
-        self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn rollback(&self) -> bool {
-        self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
-    }
-
-    fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
-    }
 }
 
 /// Parallel Clusterer searches clusters using multiple threads
@@ -138,6 +110,8 @@ pub struct Clusterer<T, Id> {
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
+    /// Held while the points of a new cluster are claimed
+    assignment: Mutex<()>,
 }
 
 impl<T, Id> Clusterer<T, Id>
@@ -151,6 +125,7 @@ where
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
+            assignment: Mutex::new(()),
         }
     }
 
@@ -221,71 +196,25 @@ where
 
     /// Creates a new cluster given the points.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
+    /// similar points. A point belongs to the cluster that claims it first, the other cluster
+    /// is created without it, or not at all when too few points are left.
     fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
+        let _guard = self.assignment.lock().unwrap();
+        points.retain(|point| !point.is_cluster_assigned());
+        if points.len() < self.min_cluster_size {
+            return None;
+        }
         let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
         let mut cluster: Box<Cluster<Id>> =
             Box::new(Cluster::new(cluster_id, self.min_cluster_size));
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
+        for point in points.iter() {
+            if point.assign_cluster(cluster_ptr).is_ok() {
+                cluster.points.push(point.clone());
             }
-            let point = &points[i];
-            match point.assign_cluster(cluster_ptr) {
-                Ok(_) => {
-                    cluster.points.push(point.clone());
-                }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
-                }
-            }
-        }
-        if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            return None;
         }
         Some(cluster)
     }
-
-    fn rollback_cluster_points(
-        &self,
-        cluster: &mut Box<Cluster<Id>>,
-        cluster_ptr: *mut Cluster<Id>,
-    ) {
-        for point in cluster.points.iter_mut() {
-            point.cluster.compare_exchange(
-                cluster_ptr,
-                null_mut(),
-                Ordering::Relaxed,
-                Ordering::Relaxed,
-            );
-        }
-    }
 }
-- 
2.43.0


From 315be90e6784eb46ed6a9c2f8083fccb89161fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:33 +0000
Subject: [PATCH 14/18] fix: cluster_par accepts fewer points than threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 6722689..8004800 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -142,7 +142,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From 8682b3c795ffe602097b8a481c31abd78ce21ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 15/18] fix: SimHashStringIndex calls native methods that exist

query with distances, and bulk queries with distances or a custom analyzer, raised
AttributeError.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From 3ae72fee5afbba0ba7cea4b22ca78a191b5a0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 16/18] fix: SimHashStringIndex rejects num_blocks outside
 3..32 as its error message says

---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 621f847..fdd5ae0 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From 4b9aa7fe4c9ee8589772010e56efb0e5385e42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 17/18] fix: load_from_file does not loop forever on a file
 that cannot be read

BufRead::lines yields the same error again and again for, say, a directory, and
load_from_lines ignored it each time. Loading now stops at the error, and load_from_file
returns it; lines that are not valid UTF-8 are still skipped.
---
 gaoya/src/minhash/string_index.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index b899fc1..af7a9cf 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::{Display, Formatter, write};
 use std::fs::File;
-use std::io::{BufRead, BufReader, Error};
+use std::io::{BufRead, BufReader, Error, ErrorKind};
 use std::io::{Read, Write};
 use fnv::FnvBuildHasher;
 
@@ -51,12 +51,19 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
+        let _ = self.try_load_from_lines(reader);
+    }
+
+    /// Skips lines that are not valid UTF-8, stops at any other error.
+    fn try_load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) -> Result<(), Error> {
         for line_result in reader.lines() {
             match line_result {
                 Ok(line) => self.insert(line),
-                Err(e) => (),
+                Err(e) if e.kind() == ErrorKind::InvalidData => (),
+                Err(e) => return Err(e),
             }
         }
+        Ok(())
     }
 
     pub fn load_from_file(&mut self, file_name: &str) -> Result<usize, Error> {
@@ -64,7 +71,7 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                self.load_from_lines(&mut reader);
+                self.try_load_from_lines(&mut reader)?;
                 let new_count = self.size() - current_size;
                 Ok(new_count)
             }
-- 
2.43.0


From cedea3f998ae0980fea81c825229f590d702c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 18/18] fix: load_from_file_parallel does not panic on lines
 that cannot be read

It unwrapped every line. A line that is not valid UTF-8 is now skipped, as load_from_file
does, and any other error is returned.
---
 gaoya/src/minhash/string_index.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index af7a9cf..ab8fdae 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -86,9 +86,10 @@ impl MinHashStringIndex {
                 let mut reader: BufReader<File> = BufReader::new(file);
                 let lines: Vec<(u64, String)> = reader
                     .lines()
+                    .filter(|line| !matches!(line, Err(e) if e.kind() == ErrorKind::InvalidData))
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
-                    .collect();
+                    .map(|v| v.1.map(|line| (v.0 as u64 + self.doc_id + 1, line)))
+                    .collect::<Result<_, Error>>()?;
                 let minhashes = lines
                     .par_iter()
                     .map(|line| {
-- 
2.43.0

