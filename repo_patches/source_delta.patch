From be778be0a078fa2fe2e696e00910d1c016676c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 1/6] fix: report an error instead of looping forever when a
 monotone cannot be triangulated

---
 src/monotone.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..aa5cb5d 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -99,6 +99,9 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
             }
         }
 
+        // The number of vertices which remained the last time the position was reset
+        let mut reset_vertices = usize::MAX;
+
         while self.remaining_vertices() >= 3 {
             if self.can_triangulate() {
                 // The base triangle, with all 3 points specified
@@ -163,6 +166,11 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
             } else {
                 // In rare cases, pushing vertices and popping whenever backtracking is possible will not be able to triangulate everything.
                 // If we have pushed all vertices and we can't backtrack, reset our position to the initial setup (minus all removed vertices)
+                if self.remaining_vertices() == reset_vertices {
+                    // A full pass did not remove any vertices, so no further pass can either
+                    return Err(TriangulationError::internal("Monotone cannot be triangulated"));
+                }
+                reset_vertices = self.remaining_vertices();
                 self.reset_position();
             }
         }
-- 
2.43.0


From bfc3fa3c41edd2eeda889355c9ae7a3b2f7b0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 2/6] fix: remove the partial fan when the delimiter matches an
 index of the first triangle

---
 src/outputs/formats/delimited_fan.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..c9e5d29 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,9 +65,13 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
+        for vi in [vi0, vi1, vi2] {
+            if let Err(err) = fb.push_index(vi) {
+                // `fail` is never called for a builder which could not be initialized, so undo the partial fan here
+                fb.fans.truncate(fb.initial_vert_count);
+                return Err(err);
+            }
+        }
 
         Ok(fb)
     }
-- 
2.43.0


From 95f0f7d4f578ae7bc32e2df9e4b1f483b9b03fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 3/6] fix: let the list builder clean up when its first
 triangle is rejected

---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..4c27767 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder already exists at this point, so it must be given the chance to clean up
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0


From dd05a89be00a59b1338a88fc6ba7d1727669017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:38 +0000
Subject: [PATCH 4/6] fix: use the active vertex as the root of clockwise
 backtracking fans

The direct branch chose the fan root by the side of the chain, which coincides
with backtracking only for counterclockwise builders. Clockwise builders
(reverse_winding) got counterclockwise or overlapping triangles.
---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index aa5cb5d..8bc2b67 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -114,7 +114,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // The root of a backtracking fan is the active vertex
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From adaead6de6ba9c723468b09c75c3c96b377eeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 5/6] fix: keep a flat list intact when truncated to a length
 beyond its own

len * 3 overflows for lengths above usize::MAX / 3: a panic with overflow
checks, a truncation to an arbitrary length without.
---
 src/outputs/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/list.rs b/src/outputs/list.rs
index 134fb19..906294d 100644
--- a/src/outputs/list.rs
+++ b/src/outputs/list.rs
@@ -27,7 +27,7 @@ impl<V> List<V> for Vec<V> {
     }
 
     fn truncate(&mut self, len: usize) {
-        self.truncate(len * 3)
+        self.truncate(len.saturating_mul(3))
     }
 }
 
-- 
2.43.0


From 3da77602ef2cd087be27d2112dbe8d7be5000b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 6/6] fix: visit each query node once in the debug consistency
 check

The query structure is a DAG: walking it recursively from the root visits shared
nodes once per path, which is exponential for some insertion orders, so that
debug builds did not return for valid polygons of under 100 vertices.
---
 src/trapezoidation.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index f205f18..b1a2833 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -568,17 +568,21 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
             self.check_consistency_trapezoid(ti);
         }
 
-        self.check_consistency_query_node(self.query_node_root());
+        for qi in self.qs.iter_index() {
+            self.check_consistency_query_node(qi);
+        }
     }
 
     #[cfg(not(debug_assertions))]
     fn check_consistency(&self) { }
 
-    fn check_consistency_query_node(&self, qi: Idx<QueryNode<P::Vertex, P::Index>>) -> usize {
+    // Query nodes can be reached along many paths, so only the node itself is checked rather than recursing into its children
+    fn check_consistency_query_node(&self, qi: Idx<QueryNode<P::Vertex, P::Index>>) {
         let q = &self.qs[qi];
-        (match q {
+        match q {
             QueryNode::Branch(qi_left, qi_right, _) => {
-                self.check_consistency_query_node(*qi_left) + self.check_consistency_query_node(*qi_right)
+                let _q_left = &self.qs[*qi_left];
+                let _q_right = &self.qs[*qi_right];
             },
             QueryNode::Sink(ti) => {
                 let _t= &self.ts[*ti];
@@ -586,9 +590,8 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
                 // if t.sink() != qi {
                 //     panic!("Inconsistent sink trapezoid: {} {}({})", qi, ti, t.sink());
                 // }
-                0
             },
-        }) + 1
+        }
     }
 
     fn check_consistency_nexus(&self, ni: Idx<Nexus<P::Vertex, P::Index>>) {
-- 
2.43.0

