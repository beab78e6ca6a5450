From 81eb3f1954787248176eabecb48a06a0fa48e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 1/6] fix: report the inserted vertex, not its successor, from
 the Rips coboundary iterator

RipsCoboundary::column_with_filtration looked up the distance to the vertex
after the inserted one, giving wrong filtration values and an out-of-bounds
panic for the last vertex.
---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From c2048afb3731082cb8ac4ecfd24a402037ead32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 2/6] fix: do not add edges to the Rips basis when max_dim is 0

add_cofacets always pushed into the basis one dimension up, which is out of
bounds when max_dim == 0.
---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..c13c1a6 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if *max_element == n_vertices - 1 || new_dimension > max_dim {
         // Cannot extend
         return;
     }
-- 
2.43.0


From 01c409f7c509ba40a2e4c096557a95c610deffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 3/6] fix: do not hold the column cache borrowed inside the
 returned iterator

Requesting an un-cached column while an iterator returned by a cached matrix
was alive (e.g. any column of product(&m, &m)) panicked with 'already borrowed'.
---
 phlite/src/matrices/adaptors.rs | 44 ++++++++-------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..5832aa6 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +219,15 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        // Clone the column out so that no borrow of the cache is held by the returned iterator
+        // Otherwise, requesting an un-cached column whilst it is alive would panic
+        let cached_col = self
+            .cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone();
+        cached_col.into_iter()
     }
 }
 
-- 
2.43.0


From 07f196ac7aa38dca9bf53a3ad58bc12f0acc1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 4/6] fix: refuse simplices whose Rips index overflows instead
 of wrapping

In release builds the encoding silently wrapped, so distinct simplices (e.g.
of dimension 6 on 1000 points) shared an index and decoded to other simplices.
---
 phlite_rips/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index c13c1a6..a9f321e 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -43,10 +43,13 @@ impl RipsIndex {
 
     /// NOTE: The indicies should be provided in ascending order!
     pub fn from_indices(indices: impl Iterator<Item = usize>, n_points: usize) -> Option<Self> {
-        let inner = indices
-            .enumerate()
-            .map(|(i, coeff)| (n_points + 1).pow(i as u32) * (coeff + 1))
-            .sum();
+        let inner = indices.enumerate().fold(0_usize, |inner, (i, coeff)| {
+            (n_points + 1)
+                .checked_pow(i as u32)
+                .and_then(|place| place.checked_mul(coeff + 1))
+                .and_then(|digit| inner.checked_add(digit))
+                .expect("Simplex should be representable as a usize")
+        });
         if inner > 0 {
             Some(Self(inner))
         } else {
-- 
2.43.0


From 7f558f5baa5b32241ff279defd73f3a649ae0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 5/6] fix: refuse vertices that do not fit in a u16 instead of
 truncating them

Vertex 65537 was silently treated as vertex 1.
---
 phlite_grpph/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/phlite_grpph/src/lib.rs b/phlite_grpph/src/lib.rs
index 8aaa12a..1b89aa6 100644
--- a/phlite_grpph/src/lib.rs
+++ b/phlite_grpph/src/lib.rs
@@ -57,10 +57,15 @@ fn build_filtration(n_vertices: u32, edges: &[(u32, u32, f64)]) -> Vec<Vec<Optio
 fn build_edge_set(edges: Vec<(u32, u32, f64)>) -> FxHashSet<(u16, u16)> {
     edges
         .into_iter()
-        .map(|(i, j, _t)| (i as u16, j as u16))
+        .map(|(i, j, _t)| (as_vertex(i), as_vertex(j)))
         .collect()
 }
 
+// Vertices are stored as u16, we should never alias distinct vertices by truncation
+fn as_vertex(i: u32) -> u16 {
+    u16::try_from(i).expect("Vertices should be representable as a u16")
+}
+
 type EssentialBars = Vec<Vec<f64>>;
 type PairingBars = Vec<Vec<(f64, f64)>>;
 // List of 1D persistent homology reps (each of which is a sum of edges)
@@ -74,7 +79,7 @@ fn grpph(n_vertices: u32, edges: Vec<(u32, u32, f64)>) -> (EssentialBars, Pairin
 
     // Build coboundary
     // Absolute PcoH
-    let d = GrPPHCoboundary::<Z2, _>::build(&filtration, &edge_set, n_vertices as u16);
+    let d = GrPPHCoboundary::<Z2, _>::build(&filtration, &edge_set, as_vertex(n_vertices));
     info!("Built coboundary matrix");
     // Relative PcoH
     let d_rev = (&d).reverse();
@@ -123,7 +128,7 @@ fn grpph_with_involution(
 
     // Build coboundary
     // Absolute PcoH
-    let d = GrPPHCoboundary::<Z2, _>::build(&filtration, &edge_set, n_vertices as u16);
+    let d = GrPPHCoboundary::<Z2, _>::build(&filtration, &edge_set, as_vertex(n_vertices));
     info!("Built coboundary matrix");
     // Relative PcoH
     let d_rev = (&d).reverse();
-- 
2.43.0


From 2a6a152107e845fab070bf5e6b63b6054b89b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 6/6] fix: check that the additive inverse is non-zero instead
 of assuming it

ZP::<1>::one().additive_inverse() constructed a zero NonZeroU8 from safe code.
---
 phlite/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite/src/fields.rs b/phlite/src/fields.rs
index 6d49b0d..e2958bc 100644
--- a/phlite/src/fields.rs
+++ b/phlite/src/fields.rs
@@ -156,7 +156,7 @@ impl<const P: u8> NonZeroCoefficient for ZP<P> {
     }
 
     fn additive_inverse(self) -> Self {
-        Self(unsafe { NonZeroU8::new_unchecked(P - self.0.get()) })
+        Self(NonZeroU8::new(P - self.0.get()).expect("Should be non-zero, is P prime?"))
     }
 }
 
-- 
2.43.0

