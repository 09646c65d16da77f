From cc7b55f687a8eb05f03bfe3418885fe201932ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 01/15] fix: VecOption::clone set the length of the cloned
 storage

The clone kept len() == 0 while its presence bitmap was full, so it compared
unequal to the original and lost its contents.
---
 trellis/src/vec_option.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..50ed993 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,9 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From e807a31d337760c08a0e11417dc43580cd1d172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 02/15] fix: VecOption drop must not leave the inner Vec with a
 length if an item destructor panics

---
 trellis/src/vec_option.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 50ed993..9eb6dc7 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -754,6 +754,11 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // Clear the length of 'vec' first. If dropping an item panics, then 'vec' is still
+        // dropped, and it must not drop items that are gone or were never initialized.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -763,9 +768,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 76a34b66a1a7cd2826bb18182719920ce52b6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 03/15] fix: RampTable::iter_pairs_manual reported wrong keys
 and panicked on unowned values

---
 trellis/src/ramp_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..7a7b589 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -200,15 +200,15 @@ impl<T> RampTable<T> {
             fn next(&mut self) -> Option<Self::Item> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
+                    // If there are no more keys, then this value is unowned.
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +217,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From c0841247410722cfc504383ec7565f30cb7b1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 04/15] fix: PQ::remove must move the greater child up

Always preferring the left child broke the heap order (and tripped the
internal check) whenever the right child was the greater one.
---
 trellis/src/priority_queue.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..641c460 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -63,12 +63,16 @@ impl<T: Ord> PQ<T> {
         let mut i: usize = 0;
         loop {
             let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
+            let right = right(i);
+            // Descend into the left child, unless the right child is greater.
+            if left < self.pq.len()
+                && self.pq[i] < self.pq[left]
+                && !(right < self.pq.len() && self.pq[left] < self.pq[right])
+            {
                 self.pq.swap(i, left);
                 i = left;
                 continue;
             }
-            let right = right(i);
             if right < self.pq.len() && self.pq[i] < self.pq[right] {
                 self.pq.swap(i, right);
                 i = right;
-- 
2.43.0


From 9d72b7804c7eb81503c465938e2c7766c9b2ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 05/15] fix: find_disjoint_subgraphs lost links when a possible
 subgraph was aliased twice

---
 trellis/src/disjoint.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..9b19733 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,14 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+/// Follows the links in `graph_alias` until reaching a possible-subgraph that is its own leader.
+fn find_leader(graph_alias: &[u32], mut g: u32) -> u32 {
+    while graph_alias[g as usize] != g {
+        g = graph_alias[g as usize];
+    }
+    g
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,6 +69,9 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
+                    // Link the leaders, so that links which were found earlier are not lost.
+                    let g_from = find_leader(&graph_alias, g_from);
+                    let g_to = find_leader(&graph_alias, g_to);
                     let g_low = g_from.min(g_to);
                     let g_high = g_from.max(g_to);
                     graph_alias[g_high as usize] = g_low;
-- 
2.43.0


From 710602f60c04c0a81f9e8e07de0ada5cfe3db058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 06/15] fix: find_shortest_path did not terminate on cycles and
 rebuilt paths only from vertex 0

The search kept every path, so any reachable cycle made it run forever. The
path was rebuilt by comparing a path index with the source vertex number.
---
 trellis/src/ortho/shortest_path.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..5170ce0 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 
 type Weight = i32;
 
@@ -115,6 +116,11 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // The least weight of any path found so far, for each vertex. A path which does not improve
+    // on this cannot be part of a shorter path. This is also what bounds the search in cycles.
+    let mut best_weights: HashMap<V, Weight> = HashMap::new();
+    best_weights.insert(from_vert, 0);
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -138,6 +144,11 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
+                match best_weights.get(&next_vert_index) {
+                    Some(&best) if best <= next_path_weight => continue,
+                    _ => {}
+                }
+                best_weights.insert(next_vert_index, next_path_weight);
                 state.paths.push(Path {
                     vert: next_vert_index as i32,
                     // weight: next_path_weight,
@@ -153,10 +164,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From cdfd2035efe4afaa5548740ce4f48c4a74a08a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 07/15] fix: visibility index underflow, which made Pobsopen
 panic for every non-empty input

---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..6aeaf66 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From 330466ac6d971017f74975950e92ddb7075a410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 08/15] fix: Pshortestpath panicked for every input

It copied the polygon into an empty slice, and its deque had no room.
---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..4301f7c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, NULL_PNLS);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 4f70444ab2eabe67e35a26f063acaf02cad2667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 09/15] fix: create_proper_graph never returned its result

It ended in unimplemented!().
---
 trellis/src/layering.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/trellis/src/layering.rs b/trellis/src/layering.rs
index 0032ae4..f30141d 100644
--- a/trellis/src/layering.rs
+++ b/trellis/src/layering.rs
@@ -1,5 +1,6 @@
 use crate::error::Error;
 use crate::graph::Graph;
+use crate::ramp_table::RampTableBuilder;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct LayerMap {
@@ -145,15 +146,19 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
         add_edge(prev_v, to);
     }
 
-    // Because of the iteration order, we know that values in 'proper_form'
-    // are in non-decreasing order. Next, we transform that into an index
-    // table for a RampTable.
+    // Next, we transform the edge list into a RampTable. Note that values in 'proper_from' are
+    // not in order, because an edge that leaves a virtual vertex can be followed by an edge that
+    // leaves an original vertex.
 
     let nv_proper = next_virt_v;
 
-    let index = convert_runs_to_index(proper_from.iter().copied(), nv_proper as usize);
-
-    unimplemented!();
+    let mut builder: RampTableBuilder<u32> = RampTableBuilder::with_capacity(proper_from.len());
+    builder.extend(proper_from.into_iter().zip(proper_to));
+    let mut edges = builder.finish();
+    while edges.len() < nv_proper as usize {
+        edges.finish_key();
+    }
+    Graph { edges }
 }
 
 /*
-- 
2.43.0


From 405947e3d12e9162125e5702f269d1be908b29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 10/15] fix: Pshortestpath took the wrong orientation when the
 leftmost vertex is repeated

---
 trellis/src/pathplan/shortest.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 4301f7c..afd224e 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -86,16 +86,15 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
         }
 
         let p2 = polyp.ps[minpi];
-        let p1 = polyp.ps[if minpi == 0 {
-            polyp.ps.len() - 1
-        } else {
-            minpi - 1
-        }];
-        let p3 = polyp.ps[if minpi == polyp.ps.len() - 1 {
-            0
-        } else {
-            minpi + 1
-        }];
+        // The neighbors of p2; a vertex may be repeated, and is skipped below.
+        let p1 = *(polyp.ps[..minpi].iter().rev())
+            .chain(polyp.ps[minpi..].iter().rev())
+            .find(|&&p| p != p2)
+            .unwrap_or(&p2);
+        let p3 = *(polyp.ps[minpi..].iter())
+            .chain(polyp.ps[..minpi].iter())
+            .find(|&&p| p != p2)
+            .unwrap_or(&p2);
         if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
             for pi in (0..polyp.ps.len()).rev() {
                 if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
-- 
2.43.0


From c7e48fba6d04f2a10ccb79d07497fc30042b25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 11/15] fix: Pshortestpath took the wrong orientation when the
 leftmost vertex is straight

---
 trellis/src/pathplan/shortest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index afd224e..477aa1c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -95,7 +95,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
             .chain(polyp.ps[..minpi].iter())
             .find(|&&p| p != p2)
             .unwrap_or(&p2);
-        if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
+        if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) == ISCW {
             for pi in (0..polyp.ps.len()).rev() {
                 if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
                     continue;
-- 
2.43.0


From dd4d9fd96033327d14fb2a3559e7adb254351a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 12/15] fix: a half-turn elliptic wedge could go around one
 turn too many

---
 trellis/src/common/ellipse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..640102e 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -235,7 +235,8 @@ fn initEllipse(
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
     // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    // (half a turn may come out slightly below PI, and must stay half a turn)
+    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < 0.5 * PI) {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From 4f24a6e092a58cf1941b9f27745791a2fb482723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 13/15] fix: VecOption::drain wrapped around on bounds at
 usize::MAX in release builds

---
 trellis/src/vec_option.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 9eb6dc7..aa68940 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -241,11 +241,13 @@ impl<T> VecOption<T> {
         let start = match range.start_bound() {
             std::ops::Bound::Unbounded => 0,
             std::ops::Bound::Included(&start) => start,
-            std::ops::Bound::Excluded(&start) => start + 1,
+            std::ops::Bound::Excluded(&start) => {
+                start.checked_add(1).expect("range start overflows")
+            }
         };
         let end = match range.end_bound() {
             std::ops::Bound::Unbounded => self.len(),
-            std::ops::Bound::Included(&end) => end + 1,
+            std::ops::Bound::Included(&end) => end.checked_add(1).expect("range end overflows"),
             std::ops::Bound::Excluded(&end) => end,
         };
         assert!(start <= end);
-- 
2.43.0


From 2604a55fcd3156845c78a5c726ffa043464750c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 14/15] fix: sum path weights in i64 in find_shortest_path, so
 that totals beyond i32 do not overflow

---
 trellis/src/ortho/shortest_path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index 5170ce0..de0cd92 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -2,6 +2,9 @@ use std::collections::HashMap;
 
 type Weight = i32;
 
+/// The sum of the weights on a path. Such a sum can exceed the range of a single weight.
+type TotalWeight = i64;
+
 // Each entry in the priority queue represents a path.
 struct Path {
     vert: V, // vertex
@@ -11,7 +14,7 @@ struct Path {
 
 struct PQEntry {
     path: i32,
-    weight: Weight,
+    weight: TotalWeight,
 }
 
 fn left(parent: usize) -> usize { parent * 2 + 1 }
@@ -111,14 +114,14 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     struct BestPath {
         path: i32,
-        weight: Weight,
+        weight: TotalWeight,
     }
 
     let mut best_path: Option<BestPath> = None;
 
     // The least weight of any path found so far, for each vertex. A path which does not improve
     // on this cannot be part of a shorter path. This is also what bounds the search in cycles.
-    let mut best_weights: HashMap<V, Weight> = HashMap::new();
+    let mut best_weights: HashMap<V, TotalWeight> = HashMap::new();
     best_weights.insert(from_vert, 0);
 
     loop {
@@ -143,7 +146,7 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
-                let next_path_weight = current_path.weight + edge_weight;
+                let next_path_weight = current_path.weight + TotalWeight::from(edge_weight);
                 match best_weights.get(&next_vert_index) {
                     Some(&best) if best <= next_path_weight => continue,
                     _ => {}
-- 
2.43.0


From c1809355e50260d80f131c590e9d46f626d7fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:11 +0000
Subject: [PATCH 15/15] fix: ROUND of the numbers next to one half, on the side
 of zero, is zero

---
 trellis/src/common/arith.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trellis/src/common/arith.rs b/trellis/src/common/arith.rs
index c72dffd..4e2bc80 100644
--- a/trellis/src/common/arith.rs
+++ b/trellis/src/common/arith.rs
@@ -42,11 +42,8 @@ pub const M_PI: f64 = core::f64::consts::PI;
 pub const SQRT2: f64 = core::f64::consts::SQRT_2;
 
 pub fn ROUND(f: f64) -> i32 {
-    if f >= 0.0 {
-        (f + 0.5) as i32
-    } else {
-        (f - 0.5) as i32
-    }
+    // not by adding 0.5: just below 0.5, that sum rounds up to 1
+    f.round() as i32
 }
 pub fn RADIANS(deg: f64) -> f64 {
     deg / 180.0 * M_PI
-- 
2.43.0

