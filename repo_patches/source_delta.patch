From 1da4571c115c57886bf1fd803fcc99d5a4530cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:45 +0000
Subject: [PATCH 01/20] fix: compute areas in 128 bits so that large rings do
 not overflow

---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 24 ++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..6b8fb7e 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,12 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +108,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +168,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +179,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 32a1607d4957242ff118ebe70776523fc1801e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:08 +0000
Subject: [PATCH 02/20] fix: list each vertex once in Ring::points() of a ring
 of edges

---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 6b8fb7e..22bf33c 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -147,7 +147,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Each edge starts where the previous one ended
+                    let n_shared = if ret.is_empty() { 0 } else { 1 };
+                    ret.extend(edge.0.iter().skip(n_shared));
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From b585628d8ddfbd810bbcf1b56c5ee32ec6ddd0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:09 +0000
Subject: [PATCH 03/20] fix: intersect clip masks in 128 bits so that long
 segments do not overflow

---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..c2cc698 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 }
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 84c13e2fe7f55a14ada58d73acd50dab4adc21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:10 +0000
Subject: [PATCH 04/20] fix: do not repeat the exit point when an edge
 re-enters the clip mask there

---
 src/clip/edge.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/clip/edge.rs b/src/clip/edge.rs
index 4c78b68..f23dbe0 100644
--- a/src/clip/edge.rs
+++ b/src/clip/edge.rs
@@ -65,7 +65,11 @@ pub fn clip_edge(points: &[Point], mask: &ClipMask) -> Box<[Point]> {
             }
             ClipLocation::Inside => {
                 if previous_location == ClipLocation::Outside {
-                    ret.push(mask.intersect(previous_point, point));
+                    // We may re-enter where we last left.
+                    let entry_point = mask.intersect(previous_point, point);
+                    if ret.last() != Some(&entry_point) {
+                        ret.push(entry_point);
+                    }
                 }
 
                 if previous_location == ClipLocation::OnEdge {
-- 
2.43.0


From 4a488e30e33844d85f8684aca66da0c9192a3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 05/20] fix: keep clipped edges in their canonical direction

---
 src/clip/topology.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..c054ed4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -41,6 +41,13 @@ fn last_point(points: &[Point], direction: Direction) -> Point {
     }
 }
 
+fn reverse(direction: Direction) -> Direction {
+    match direction {
+        Direction::Forward => Direction::Backward,
+        Direction::Backward => Direction::Forward,
+    }
+}
+
 #[derive(Debug,Eq,PartialEq,Hash,Clone,Copy)]
 struct BuildEdge(Point, Point);
 
@@ -107,7 +114,7 @@ struct Builder<Data> {
     regions: Vec<BuildRegion<Data>>,
     old_edge_0_ptr: *const TopoEdge<Data>,
     old_edges: Vec<Box<[Point]>>,
-    old_edge_id_finder: Vec<Option<EdgeId>>,
+    old_edge_id_finder: Vec<Option<(EdgeId, bool)>>, // true means we flipped the edge
     new_edges: NewEdgeSet,
 }
 
@@ -117,15 +124,21 @@ impl<Data: Clone> Builder<Data> {
         // calculate those later.
         //
         // Also, forget about edge->ring->region pointers. Rebuild them later.
-        let mut old_edge_id_finder: Vec<Option<EdgeId>> = Vec::with_capacity(topology.edges.len());
+        let mut old_edge_id_finder: Vec<Option<(EdgeId, bool)>> = Vec::with_capacity(topology.edges.len());
         let mut clipped_edges: Vec<Box<[Point]>> = Vec::with_capacity(topology.edges.len());
 
         for edge in topology.edges.iter() {
-            // XXX we can flip an edge's direction here. That doesn't break
-            // this module, but it might violate other modules' assumptions.
-            let clipped = clip_edge(&edge.points[..], mask);
+            let mut clipped = clip_edge(&edge.points[..], mask);
             if clipped.len() >= 2 {
-                old_edge_id_finder.push(Some(clipped_edges.len() as EdgeId));
+                // Clipping moves the endpoints, so the canonical direction may
+                // be the other way now.
+                let p1 = clipped[0];
+                let p2 = clipped[clipped.len() - 1];
+                let flip = p1 > p2 || (p1 == p2 && signed_area2(clipped.iter()) < 0);
+                if flip {
+                    clipped.reverse();
+                }
+                old_edge_id_finder.push(Some((clipped_edges.len() as EdgeId, flip)));
                 clipped_edges.push(clipped);
             } else {
                 old_edge_id_finder.push(None);
@@ -176,11 +189,12 @@ impl<Data: Clone> Builder<Data> {
 
         for de in ring.directed_edges.iter() {
             match self.find_old_edge_id(de.edge) {
-                Some(edge_id) => {
+                Some((edge_id, flip)) => {
+                    let direction = if flip { reverse(de.direction) } else { de.direction };
                     let ref old_edge = &(*self.old_edges[edge_id])[..];
 
                     if start_point.is_none() {
-                        start_point = Some(first_point(old_edge, de.direction));
+                        start_point = Some(first_point(old_edge, direction));
                     }
 
                     // If there's a gap between the last visible edge and
@@ -188,18 +202,18 @@ impl<Data: Clone> Builder<Data> {
                     // and the current edge is re-entering. Add a straight line
                     // between the exit and entry point.
                     if let Some(p) = previous_point {
-                        let edge_start_point = first_point(old_edge, de.direction);
+                        let edge_start_point = first_point(old_edge, direction);
                         if p != edge_start_point {
                             area2 += signed_area2([ p, edge_start_point ].iter());
                             ret.push(self.new_edges.build_directed_edge(&p, &edge_start_point));
                         }
                     }
 
-                    ret.push(BuildDirectedEdge { direction: de.direction, edge_id: edge_id });
+                    ret.push(BuildDirectedEdge { direction: direction, edge_id: edge_id });
 
-                    previous_point = Some(last_point(old_edge, de.direction));
+                    previous_point = Some(last_point(old_edge, direction));
 
-                    area2 += match de.direction {
+                    area2 += match direction {
                         Direction::Forward => signed_area2(old_edge.iter()),
                         Direction::Backward => signed_area2(old_edge.iter().rev()),
                     };
@@ -227,7 +241,7 @@ impl<Data: Clone> Builder<Data> {
         }
     }
 
-    fn find_old_edge_id(&self, old_edge_ptr: *const TopoEdge<Data>) -> Option<EdgeId> {
+    fn find_old_edge_id(&self, old_edge_ptr: *const TopoEdge<Data>) -> Option<(EdgeId, bool)> {
         let size = mem::size_of::<TopoEdge<Data>>();
         let offset_bytes = (old_edge_ptr as usize) - (self.old_edge_0_ptr as usize);
         let offset = offset_bytes / size;
-- 
2.43.0


From fd6cffb138bb0ceb1048d670922c45fe4df44d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:14 +0000
Subject: [PATCH 06/20] fix: drop the edges no ring uses after clipping

---
 src/clip/topology.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index c054ed4..683d5be 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -95,10 +95,10 @@ impl NewEdgeSet {
     }
 }
 
-fn build_ring_to_topo_ring_with_null_ptrs<Data>(edges: &[TopoEdge<Data>], build_ring: &BuildRing) -> TopoRing<Data> {
+fn build_ring_to_topo_ring_with_null_ptrs<Data>(edges: &[TopoEdge<Data>], used_ids: &[usize], build_ring: &BuildRing) -> TopoRing<Data> {
     let directed_edges: Vec<DirectedEdge<Data>> = build_ring.0.iter().map(|build_de| {
         DirectedEdge {
-            edge: &edges[build_de.edge_id],
+            edge: &edges[used_ids[build_de.edge_id]],
             direction: build_de.direction,
         }
     }).collect();
@@ -249,8 +249,23 @@ impl<Data: Clone> Builder<Data> {
     }
 
     fn into_topology(self) -> Topology<Data> {
+        // Find the edges our rings use. The others bordered vanished rings.
+        let n_edges = self.old_edges.len() + self.new_edges.len();
+        let mut used = vec![ false; n_edges ];
+        for region in self.regions.iter() {
+            for ring in region.outer_rings.iter().chain(region.inner_rings.iter()) {
+                for de in ring.0.iter() {
+                    used[de.edge_id] = true;
+                }
+            }
+        }
+        let mut n_used = 0;
+        let used_ids: Vec<usize> = used.iter().map(|&u| {
+            if u { n_used += 1; n_used - 1 } else { n_used }
+        }).collect();
+
         // Build edges. Make all their ring pointers null.
-        let mut edges: Vec<TopoEdge<Data>> = Vec::with_capacity(self.old_edges.len() + self.new_edges.len());
+        let mut edges: Vec<TopoEdge<Data>> = Vec::with_capacity(n_edges);
         edges.extend(self.old_edges.into_iter().map(|points| {
             TopoEdge {
                 points: points,
@@ -263,14 +278,19 @@ impl<Data: Clone> Builder<Data> {
                 rings: [ ptr::null(), ptr::null() ],
             }
         }));
+        let edges: Box<[TopoEdge<Data>]> = edges.into_iter().zip(used)
+            .filter(|&(_, u)| u)
+            .map(|(edge, _)| edge)
+            .collect::<Vec<TopoEdge<Data>>>()
+            .into_boxed_slice(); // we'll point to edges: don't move them any more
 
         // Build regions and their rings. Make all region pointers null.
         let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
-                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
+                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &used_ids[..], &r)).collect();
             let topo_inner_rings: Vec<TopoRing<Data>> = inner_rings.into_iter()
-                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
+                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &used_ids[..], &r)).collect();
 
             TopoRegion {
                 data: data,
@@ -304,7 +324,7 @@ impl<Data: Clone> Builder<Data> {
 
         Topology {
             regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From 293485aea042cc46e26f2bd579be7492b516c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:40 +0000
Subject: [PATCH 07/20] fix: do not move regions after taking pointers to them

---
 src/clip/topology.rs  | 7 +++++--
 src/topology/build.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 683d5be..461f4ea 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -285,7 +285,7 @@ impl<Data: Clone> Builder<Data> {
             .into_boxed_slice(); // we'll point to edges: don't move them any more
 
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &used_ids[..], &r)).collect();
@@ -299,6 +299,9 @@ impl<Data: Clone> Builder<Data> {
             }
         }).collect();
 
+        // Shrink to fit _before_ taking pointers: shrinking may move the regions
+        let mut regions = regions.into_boxed_slice();
+
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
         for mut region in regions.iter_mut() {
@@ -323,7 +326,7 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
+            regions: regions,
             edges: edges,
         }
     }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..327c7da 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -149,7 +149,7 @@ impl<Data> TopologyBuilder<Data>
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
             .collect();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -164,6 +164,9 @@ impl<Data> TopologyBuilder<Data>
             }
         }).collect();
 
+        // Shrink to fit _before_ taking pointers: shrinking may move the regions
+        let mut regions = regions.into_boxed_slice();
+
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
 
@@ -186,7 +189,7 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
+            regions: regions,
             edges: edges.into_boxed_slice(),
         }
     }
-- 
2.43.0


From f3432e6e400d6e2a48c992a32401e9c36ee07e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:19 +0000
Subject: [PATCH 08/20] fix: do not panic when rounding makes more than two
 rings leave the clip mask along the same line

---
 src/clip/topology.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 461f4ea..a200347 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -54,14 +54,17 @@ struct BuildEdge(Point, Point);
 #[derive(Debug)]
 struct NewEdgeSet {
     first_edge_id: EdgeId,
-    edges: HashMap<BuildEdge, EdgeId>,
+    edges: Vec<BuildEdge>,
+    // ID of the latest edge with the given points, and how many rings use it
+    ids: HashMap<BuildEdge, (EdgeId, usize)>,
 }
 
 impl NewEdgeSet {
     fn new(first_edge_id: EdgeId) -> NewEdgeSet {
         NewEdgeSet {
             first_edge_id: first_edge_id,
-            edges: HashMap::new(),
+            edges: Vec::new(),
+            ids: HashMap::new(),
         }
     }
 
@@ -74,10 +77,22 @@ impl NewEdgeSet {
         let edge = BuildEdge(*a, *b);
         let next_id: EdgeId = self.first_edge_id + self.edges.len();
 
-        let edge_id = match self.edges.entry(edge) {
-            Entry::Occupied(entry) => *entry.get(),
+        let edge_id = match self.ids.entry(edge) {
+            // An edge has room for two rings. (Rounding can make more than two
+            // slivers leave and re-enter at the same points.)
+            Entry::Occupied(ref mut entry) if entry.get().1 < 2 => {
+                let value = entry.get_mut();
+                value.1 += 1;
+                value.0
+            }
+            Entry::Occupied(mut entry) => {
+                entry.insert((next_id, 1));
+                self.edges.push(edge);
+                next_id
+            }
             Entry::Vacant(entry) => {
-                entry.insert(next_id);
+                entry.insert((next_id, 1));
+                self.edges.push(edge);
                 next_id
             }
         };
@@ -87,11 +102,7 @@ impl NewEdgeSet {
 
     /// Iterates over all edges, in ID order.
     fn into_iter(self) -> vec::IntoIter<BuildEdge> {
-        let mut ret = vec![ BuildEdge(Point(0, 0), Point(0, 0)); self.len() ];
-        for (build_edge, id) in self.edges.into_iter() {
-            ret[id - self.first_edge_id] = build_edge;
-        }
-        ret.into_iter()
+        self.edges.into_iter()
     }
 }
 
-- 
2.43.0


From f75dc0e29cdcebf3e91135ddaa5263425cf8c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:58 +0000
Subject: [PATCH 09/20] fix: weigh points by the exact area of their triangle
 when simplifying

---
 src/simplify/simplify_edge.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..7834374 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,8 +3,8 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    fn i(u: u32) -> i128 { u as i128 }
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
     a2.abs() as u64
 }
 
@@ -339,7 +339,8 @@ impl PointHeap {
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
     let mut point_heap = PointHeap::from(points.to_vec());
-    point_heap.visvalingam_whyatt(smallest_area2)
+    // Remove points of weight `smallest_area2`, too
+    point_heap.visvalingam_whyatt(smallest_area2.saturating_add(1))
 }
 
 #[cfg(test)]
-- 
2.43.0


From cad7f9377c5c786c48eeea0ad0644e0ec3ec0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 10/20] fix: keep the simplification heap in heap order

---
 src/simplify/simplify_edge.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 7834374..6c1412a 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -114,6 +114,10 @@ impl PointHeap {
         // https://en.wikipedia.org/wiki/Heapsort
         let len = self.heap.len();
 
+        for i in 0 .. len {
+            unsafe { (*(self.heap[i] as *mut Point)).heap_index = i; }
+        }
+
         if len > 1 {
             let mut start = parent(len - 1);
 
@@ -134,7 +138,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From 486f3e03b63143ddf738448a945f6376c39ea957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:00 +0000
Subject: [PATCH 11/20] fix: do not panic when simplifying a closed edge of
 fewer than four points

---
 src/simplify/simplify_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 6c1412a..4d030e0 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -342,6 +342,11 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() < 4 && points.first() == points.last() {
+        // Clipping can leave closed edges that are too short to simplify
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     // Remove points of weight `smallest_area2`, too
     point_heap.visvalingam_whyatt(smallest_area2.saturating_add(1))
-- 
2.43.0


From 7714069508ef46198e156e9e8d057ab84e4b4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 12/20] fix: do not overflow when a .shp header announces 4GB
 or more

---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..7eab4c7 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
-- 
2.43.0


From 27ad80a6652546d6e973fca3002dfce319bb9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:02 +0000
Subject: [PATCH 13/20] fix: do not panic when a .shp record is too short to
 hold a polygon

---
 src/read/shapefile/shp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 7eab4c7..8ba2111 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -12,6 +12,7 @@ const SHP_HEADER_LENGTH: usize = 100;
 const SHP_RECORD_HEADER_LENGTH: usize = 8;
 const SHP_MAGIC_NUMBER: u32 = 9994;
 const SHP_VERSION: u32 = 1000;
+const SHP_POLYGON_HEADER_LENGTH: usize = 44;
 const SHP_POINT_LENGTH: usize = 16;
 
 #[derive(Debug)]
@@ -185,6 +186,10 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < SHP_POLYGON_HEADER_LENGTH {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
-- 
2.43.0


From ce83a57f2d5d0dcbbc3ebfdeecf29170aad896d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:03 +0000
Subject: [PATCH 14/20] fix: require four points of every .shp ring, not only
 of the last one

---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 8ba2111..1932259 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -225,7 +225,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 4 > part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From 5f43ec73dc479f46958202bdaf252ab6f93172ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:04 +0000
Subject: [PATCH 15/20] fix: end the iteration over a truncated or invalid .shp
 file

---
 src/read/shapefile/shp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 1932259..a445ce7 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -252,7 +252,10 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 /// that polygon consumed (including its record header).
 ///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+///
+/// Returns Err iff there is no record to read. If the record is there but it is
+/// invalid, the result is Ok((Err, n_bytes)).
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -264,7 +267,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let mut buf = vec![ 0u8; content_length * 2 ];
             match file.read_exact(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -326,13 +329,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
+                Err(err) => {
+                    // There's nothing left to read
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record)
                     }
                 }
             }
-- 
2.43.0


From d03716f5241e1834d2cad61b367ad5fd07facd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:05 +0000
Subject: [PATCH 16/20] fix: do not panic when a .dbf field does not fit in its
 record

---
 src/read/shapefile/dbf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..9326d40 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,7 +89,10 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
-        let bytes = &record.bytes[self.offset .. self.offset + self.len];
+        let bytes = match record.bytes.get(self.offset .. self.offset + self.len) {
+            Some(bytes) => bytes,
+            None => { return Err(DbfError::ParseError(String::from("Record is too short to hold this field"))); }
+        };
 
         match &self.data_type {
             &DbfType::Character(encoding) => {
-- 
2.43.0


From e8494e2ea099f5108f76aff97499cc2198db204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:06 +0000
Subject: [PATCH 17/20] fix: do not panic when reading a .dbf field of an
 unsupported type or length

---
 src/read/shapefile/dbf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 9326d40..ea5014d 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -99,11 +99,12 @@ impl DbfField {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => Err(DbfError::ParseError(String::from("Long field is too short"))),
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            _ => Err(DbfError::ParseError(String::from("Field type is not supported"))),
         }
     }
 }
-- 
2.43.0


From 23b0655bd8a8245a93770bcad1fe80bd60567b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 18/20] fix: do not panic when a .dbf header announces an
 impossible length

---
 src/read/shapefile/dbf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index ea5014d..afd0a31 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -238,6 +238,10 @@ fn parse_dbf_field(bytes: &[u8], encoding: encoding::EncodingRef, offset: usize)
 ///
 /// Side-effect: advances the file cursor to the first data record.
 fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_header: &DbfHeader) -> Result<Box<[DbfField]>, DbfError> {
+    if dbf_header.n_header_bytes < DBF_HEADER_LENGTH {
+        return Err(DbfError::ParseError(String::from("The header says it is too short. This is not a valid .dbf file.")));
+    }
+
     let mut buf = vec![ 0u8; dbf_header.n_header_bytes - DBF_HEADER_LENGTH ];
 
     match file.read_exact(&mut buf) {
-- 
2.43.0


From 5c8517c1a5c5d0a056f7251e7e3b4d05790c12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:05 +0000
Subject: [PATCH 19/20] fix: join outer and inner rings together when
 normalizing

Joining outer rings may enclose a hole, a polygon may partly fill a hole of its
own region and a region may touch itself: all of these left counter-clockwise
outer rings or panicked.
---
 src/normalize.rs | 124 +++++++++++++++++++++++++----------------------
 1 file changed, 66 insertions(+), 58 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..d9ec1a4 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -188,7 +188,8 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
     ret
 }
 
-fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
+/// Returns 2*area, positive iff the edges form a clockwise ring.
+fn area2_from_edges<T>(edges: &Vec<NormEdge<T>>) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
     let mut a: i128 = 0;
 
@@ -198,6 +199,12 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrd
         }
     }
 
+    a
+}
+
+fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
+    let a = area2_from_edges(edges);
+
     assert!(a != 0);
     if a > 0 {
         WindingOrder::Clockwise
@@ -263,23 +270,34 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// ring representing the same region. Since `EFGH` (the area) is entirely
 /// redundant, we'll nix it. Be sure to nix `EHGF` (the hole) as well!
 ///
+/// Outer rings and inner rings must be joined together: a ring may share an edge
+/// with a hole, and joining outer rings can enclose a new hole.
+///
 /// Each input ring must be normalized; all output rings will be normalized as
 /// well.
 ///
-/// Input Rings may be in any order; output Rings will be in undefined order.
-fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
-    let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
+/// Input Rings may be in any order; output Rings will be sorted.
+///
+/// Returns (outer rings, inner rings).
+fn join_adjacent_rings<T>(outer_rings: Vec<NormRing<T>>, inner_rings: Vec<NormRing<T>>) -> (Vec<NormRing<T>>, Vec<NormRing<T>>) {
+    let mut ret_outer = Vec::<NormRing<T>>::with_capacity(outer_rings.len());
+    let mut ret_inner = Vec::<NormRing<T>>::with_capacity(inner_rings.len());
+
+    // NormRings are directed. We'll index their edges by first Point. Usually
+    // one edge leaves each Point; more may leave it if the region touches itself
+    // there.
+    let mut to_merge: BTreeMap<Point, Vec<NormEdge<T>>> = BTreeMap::new();
 
-    // NormRings are directed. We'll index them by their first Point. There's
-    // no way for two non-redundant edges to leave the same Point.
-    let mut to_merge: BTreeMap<Point, NormEdge<T>> = BTreeMap::new();
+    let all_rings = outer_rings.into_iter().map(|r| (r, true))
+        .chain(inner_rings.into_iter().map(|r| (r, false)));
 
-    for ref ring in rings {
+    for (ring, is_outer) in all_rings {
         let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
 
         match (redundant.len(), useful.len()) {
             (0, _) => {
                 // entire ring has no redundant edges: pass it through
+                let ret = if is_outer { &mut ret_outer } else { &mut ret_inner };
                 ret.push(NormRing { edges: useful });
             }
             (_, 0) => {
@@ -287,34 +305,21 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
             }
             _ => {
                 // index the useful edges and ignore the redundant ones
-                for ref edge in useful {
-                    match to_merge.entry(edge.points[0]) {
-                        Entry::Vacant(e) => {
-                            e.insert(edge.clone());
-                        }
-                        Entry::Occupied(e) => {
-                            panic!("Bug/edge case: two distinct edges in the same region are both trying to leave {:?}", e.key());
-                        }
-                    }
+                for edge in useful {
+                    to_merge.entry(edge.points[0]).or_insert_with(Vec::new).push(edge);
                 }
             }
         }
     }
 
-    if to_merge.len() == 0 {
-        // No merging necessary! All rings are normalized and in order.
-        return ret
-    }
-
     // Now to reconstruct the rings we need to merge....
     while to_merge.len() > 0 {
-        let start = *to_merge.keys().next().unwrap();
-        let mut end = start;
+        let mut end = *to_merge.keys().next().unwrap();
 
         let mut edges: Vec<NormEdge<T>> = Vec::new();
 
         loop {
-            match to_merge.remove(&end) {
+            match remove_edge(&mut to_merge, end) {
                 None => {
                     panic!("Expected Edge to continue past {:?} when building Ring", end);
                 }
@@ -324,20 +329,39 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
                 }
             }
 
-            if end == start {
-                // we've reconstructed a ring. to_merge may or may not be empty.
-                break;
+            if let Some(i) = edges.iter().position(|ref e| e.points[0] == end) {
+                // we've reconstructed a ring.
+                let ring_edges = join_related_edges(&edges.split_off(i));
+                let ring_edges = rotate_edges(&ring_edges);
+
+                let ret = if area2_from_edges(&ring_edges) >= 0 { &mut ret_outer } else { &mut ret_inner };
+                ret.push(NormRing { edges: ring_edges });
+
+                if edges.len() == 0 {
+                    // to_merge may or may not be empty.
+                    break;
+                }
             }
         }
+    }
 
-        edges = join_related_edges(&edges);
-        edges = rotate_edges(&edges);
+    ret_outer.sort();
+    ret_inner.sort();
+    (ret_outer, ret_inner)
+}
 
-        ret.push(NormRing { edges: edges });
+/// Removes and returns an edge that leaves the given Point.
+fn remove_edge<T>(edges: &mut BTreeMap<Point, Vec<NormEdge<T>>>, point: Point) -> Option<NormEdge<T>> {
+    match edges.entry(point) {
+        Entry::Vacant(_) => None,
+        Entry::Occupied(mut entry) => {
+            let ret = entry.get_mut().pop();
+            if entry.get().is_empty() {
+                entry.remove();
+            }
+            ret
+        }
     }
-
-    ret.sort();
-    ret
 }
 
 /// Returns a normalized copy of the given set of outer/inner rings.
@@ -345,26 +369,8 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 /// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
 /// inner rings.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
-///
-/// ```ascii
-/// A------B
-/// |      |
-/// | E--H |
-/// | |  | |
-/// | F--G |
-/// |      |
-/// D------C
-/// ```
-///
-/// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
-/// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
+/// The rings aren't joined yet: see join_adjacent_rings().
+fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Vec<NormRing<T>> {
     let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
 
     for ref boxed_ring in in_rings {
@@ -383,9 +389,10 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
         rings.push(NormRing::<T> { edges: edges });
     }
 
-    rings = join_adjacent_rings(&rings);
-    rings.sort();
+    rings
+}
 
+fn norm_rings_to_rings<T>(rings: Vec<NormRing<T>>) -> Box<[Ring]> {
     let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
     ret.into_boxed_slice()
 }
@@ -412,10 +419,11 @@ pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     for ref region in topo.regions.iter() {
         let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
         let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = join_adjacent_rings(outer_rings, inner_rings);
         builder.add_region(Region {
             data: region.data.clone(),
-            outer_rings: outer_rings,
-            inner_rings: inner_rings,
+            outer_rings: norm_rings_to_rings(outer_rings),
+            inner_rings: norm_rings_to_rings(inner_rings),
         });
     }
 
-- 
2.43.0


From 6eb2614b986aede85c7a71d11fc24a2757cee25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:25 +0000
Subject: [PATCH 20/20] fix: normalize both sides of a border alike where a
 region touches itself

---
 src/normalize.rs | 62 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index d9ec1a4..a2d0256 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -88,6 +88,27 @@ impl<T> Clone for NormEdge<T> {
     }
 }
 
+/// Counts how many non-redundant edges end at each Node.
+fn calculate_node_degrees<T>(topo: &Topology<T>) -> BTreeMap<Point, usize> {
+    let mut ret = BTreeMap::new();
+
+    for edge in topo.edges.iter() {
+        if edge.rings[0].is_null() {
+            continue; // no ring uses this edge
+        }
+
+        let de = DirectedEdge { edge: edge, direction: Direction::Forward };
+        let norm_edge = NormEdge::with_directed_edge(&de);
+
+        if !norm_edge.is_redundant() {
+            *ret.entry(norm_edge.points[0]).or_insert(0) += 1;
+            *ret.entry(*norm_edge.points.last().unwrap()).or_insert(0) += 1;
+        }
+    }
+
+    ret
+}
+
 /// Returns an equivalent "island" edge (i.e., ring) whose first point is the
 /// leftmost/topmost of the input points.
 fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
@@ -112,9 +133,15 @@ fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
 
 /// Returns an equivalend set of Edges, rotated so that the first Edge starts
 /// at the leftmost/topmost Node.
-fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+///
+/// If an island touches other edges, its Node stays where they touch.
+fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, node_degrees: &BTreeMap<Point, usize>) -> Vec<NormEdge<T>> {
     if edges.len() == 1 {
-        vec![ rotate_island_edge(&edges[0]) ]
+        if node_degrees.get(&edges[0].points[0]) == Some(&2) {
+            vec![ rotate_island_edge(&edges[0]) ]
+        } else {
+            edges.clone()
+        }
     } else {
         match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {
             None | Some((0, _)) => { edges.clone() }
@@ -156,15 +183,14 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 ///
 /// Implementation note: we often call this function twice with the same Edge:
 /// once for `a`'s `Ring` and once for `b`'s. Both calls will join `ABC` in the
-/// same way (except at a Node joining two rings from the same Region to
-/// a second Region ... which we fix in join_adjacent_rings()).
-fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+/// same way, because they only join at Nodes where exactly two edges meet.
+fn join_related_edges<T>(edges: &Vec<NormEdge<T>>, node_degrees: &BTreeMap<Point, usize>) -> Vec<NormEdge<T>> {
     let mut ret = Vec::<NormEdge<T>>::new();
 
     for ref edge in edges {
         // Either extend the existing edge or add a new one
         let extended = match ret.last_mut() {
-            Some(ref mut last) if last.regions == edge.regions => {
+            Some(ref mut last) if last.regions == edge.regions && node_degrees.get(&edge.points[0]) == Some(&2) => {
                 last.points.extend_from_slice(&edge.points[1..]);
                 true
             },
@@ -176,7 +202,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
         }
     }
 
-    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions {
+    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions && node_degrees.get(&ret[0].points[0]) == Some(&2) {
         // edges[0].points[0] isn't an important point. Join edges[0]
         // and edges[last] into a single edge, edges[0].
         let mut points = ret.last().unwrap().points.clone();
@@ -279,7 +305,7 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// Input Rings may be in any order; output Rings will be sorted.
 ///
 /// Returns (outer rings, inner rings).
-fn join_adjacent_rings<T>(outer_rings: Vec<NormRing<T>>, inner_rings: Vec<NormRing<T>>) -> (Vec<NormRing<T>>, Vec<NormRing<T>>) {
+fn join_adjacent_rings<T>(outer_rings: Vec<NormRing<T>>, inner_rings: Vec<NormRing<T>>, node_degrees: &BTreeMap<Point, usize>) -> (Vec<NormRing<T>>, Vec<NormRing<T>>) {
     let mut ret_outer = Vec::<NormRing<T>>::with_capacity(outer_rings.len());
     let mut ret_inner = Vec::<NormRing<T>>::with_capacity(inner_rings.len());
 
@@ -331,8 +357,8 @@ fn join_adjacent_rings<T>(outer_rings: Vec<NormRing<T>>, inner_rings: Vec<NormRi
 
             if let Some(i) = edges.iter().position(|ref e| e.points[0] == end) {
                 // we've reconstructed a ring.
-                let ring_edges = join_related_edges(&edges.split_off(i));
-                let ring_edges = rotate_edges(&ring_edges);
+                let ring_edges = join_related_edges(&edges.split_off(i), node_degrees);
+                let ring_edges = rotate_edges(&ring_edges, node_degrees);
 
                 let ret = if area2_from_edges(&ring_edges) >= 0 { &mut ret_outer } else { &mut ret_inner };
                 ret.push(NormRing { edges: ring_edges });
@@ -370,7 +396,7 @@ fn remove_edge<T>(edges: &mut BTreeMap<Point, Vec<NormEdge<T>>>, point: Point) -
 /// inner rings.
 ///
 /// The rings aren't joined yet: see join_adjacent_rings().
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Vec<NormRing<T>> {
+fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder, node_degrees: &BTreeMap<Point, usize>) -> Vec<NormRing<T>> {
     let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
 
     for ref boxed_ring in in_rings {
@@ -382,9 +408,9 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
             edges.push(NormEdge::<T>::with_directed_edge(directed_edge));
         }
 
-        edges = join_related_edges(&edges);
+        edges = join_related_edges(&edges, node_degrees);
         edges = wind_edges(&edges, winding_order);
-        edges = rotate_edges(&edges);
+        edges = rotate_edges(&edges, node_degrees);
 
         rings.push(NormRing::<T> { edges: edges });
     }
@@ -403,7 +429,8 @@ fn norm_rings_to_rings<T>(rings: Vec<NormRing<T>>) -> Box<[Ring]> {
 ///
 /// * **Fewest Rings possible**: A `Region` may not have two `Ring`s that share an `Edge`.
 ///   In other words: adjacent polygons must be merged.
-/// * **Fewest Nodes and Edges possible**: No adjacent Edges may share the same Regions. In
+/// * **Fewest Nodes and Edges possible**: No adjacent Edges may share the same Regions,
+///   unless other Edges end at the Node between them. In
 ///   other words: while all equivalent `Topology`s share the same `Point`s, a
 ///   *normalized* `Topology` has the most `mid_points` and the fewest `Node`s. An island
 ///   consists of a single *Edge*.
@@ -415,11 +442,12 @@ fn norm_rings_to_rings<T>(rings: Vec<NormRing<T>>) -> Box<[Ring]> {
 ///   in case of a tie, topmost) `Point`.
 pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
+    let node_degrees = calculate_node_degrees(topo);
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
-        let (outer_rings, inner_rings) = join_adjacent_rings(outer_rings, inner_rings);
+        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise, &node_degrees);
+        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise, &node_degrees);
+        let (outer_rings, inner_rings) = join_adjacent_rings(outer_rings, inner_rings, &node_degrees);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: norm_rings_to_rings(outer_rings),
-- 
2.43.0

