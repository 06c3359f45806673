From 32779ee11668f7533f2e0739a8714df3b97f11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 01/13] fix: report the node and the edge at index 0 as
 existing

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From 138abffdba28ed8ab06052ffe349e7791a027a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 02/13] fix: removing the last edge between two connected nodes
 no longer panics

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..7e530c1 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -396,8 +396,8 @@ where
                 // Make sure to do this BEFORE the call to `pop()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                // Note that the edge to-be-deleted may itself be the last one
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From c3ed6e093dfea7752a77aa768341c288ff39ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 03/13] fix: removing a node without edges no longer panics

---
 src/graph/planar_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 7e530c1..027d296 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -438,7 +438,13 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+
+            // An isolated node has no edges to delete
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 2fae9df57aa716d0c80286b3763f0e74dc712d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 04/13] fix: remove_node reports the edges whose nodes were
 renumbered

---
 src/graph/planar_graph.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 027d296..a2fbc02 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -448,7 +448,14 @@ where
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-            let changed_edges = (min_edge_index..self.edge_count()).collect::<Vec<_>>();
+            let mut changed_edges = (min_edge_index..self.edge_count()).collect::<Vec<_>>();
+
+            // Edges to the "left" stay where they are but change, too, if any of their nodes moved
+            for (index, edge) in self.edges.iter().enumerate().take(min_edge_index) {
+                if edge.src > min_node_index || edge.dst > min_node_index {
+                    changed_edges.push(index);
+                }
+            }
 
             // Perform the actual deletion operation: the code below deletes all of the marked nodes (or edges)
             // in-place (i.e. simultaneously)
-- 
2.43.0


From a8bebd80ae7c5d06af61403c6f886213adb1d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 05/13] fix: add_edge no longer adds an edge from a node to
 itself

---
 src/graph/planar_graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index a2fbc02..2e8323d 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -211,6 +211,11 @@ where
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
             if let (Some(_), Some(_)) = (self.get_vertex(src), self.get_vertex(dst)) {
+                // An edge from a node to itself has no length, so there is nothing to add
+                if src == dst {
+                    return Ok((vec![], vec![]));
+                }
+
                 // First, push back the new edge
                 self.edges.push(Edge::new(src, dst, data, DEFAULT_LABEL));
 
-- 
2.43.0


From 5492437684b2d5fce3b79dccd0a9c46b79390fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 06/13] fix: keep one of several coincident points instead of
 dropping them all

---
 src/geometry/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..9df3b16 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -176,10 +176,10 @@ pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all previous points and check if `a` ~= `b` (so that the first
+        // of several coincident points is kept)
+        for b in ps.iter().take(i) {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From b6429001bfbfb4307a868e99e853858072f5eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 07/13] fix: diagnostic messages no longer panic when standard
 output fails

---
 src/geometry/polygon.rs   |  4 ++--
 src/graph/planar_graph.rs | 12 ++++++------
 src/lib.rs                | 15 +++++++++++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 4defa27..7aaff28 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -107,7 +107,7 @@ impl Polygon {
         // (if they are not, the signed area will be negative)
         if polygon.area_poly2() < 0.0 {
             polygon.vertices = polygon.vertices.into_iter().rev().collect();
-            println!("Polygon vertices were CW - reversing to make CCW");
+            trace!("Polygon vertices were CW - reversing to make CCW");
         }
 
         Ok(polygon)
@@ -276,7 +276,7 @@ impl Polygon {
             is_ear.push(copy.diagonal(prev, next));
         }
         assert_eq!(copy.vertices.len(), is_ear.len());
-        println!("{:?}", is_ear);
+        trace!("{:?}", is_ear);
 
         let mut triangles = vec![];
 
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 2e8323d..560a83f 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -185,7 +185,7 @@ where
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
-            println!("Attempting to add node that is very close to the node at index {} - returning the existing index instead ", index);
+            trace!("Attempting to add node that is very close to the node at index {} - returning the existing index instead ", index);
             return (index, vec![]);
         }
 
@@ -247,7 +247,7 @@ where
     /// indices of all newly split edges.
     fn split_edges_at_node(&mut self, id: NodeIndex) -> Vec<EdgeIndex> {
         if let Some(_) = self.nodes.get(id) {
-            println!("Splitting edges at node with index {}", id);
+            trace!("Splitting edges at node with index {}", id);
             let mut changed_edges = vec![];
             let mut additional_edges = vec![];
 
@@ -261,7 +261,7 @@ where
                 );
 
                 if on_edge {
-                    println!("Node splits edge with index {}", index);
+                    trace!("Node splits edge with index {}", index);
 
                     // This edge isn't added to the graph's list of edges right away for 2 reasons:
                     //
@@ -320,7 +320,7 @@ where
                     &self.nodes[self.edges[id].get_node_indices().1].position,
                 ) {
                     intersections.push(intersection);
-                    println!("Found intersection between edge {} and edge {}", id, index);
+                    trace!("Found intersection between edge {} and edge {}", id, index);
                 }
             }
         }
@@ -339,7 +339,7 @@ where
         // against edge A, one against edge B), but the two points will coincide with one
         // another
         intersections = utils::unique_points_among(&intersections);
-        println!(
+        trace!(
             "Found {} unique intersections: {:?}",
             intersections.len(),
             intersections
@@ -355,7 +355,7 @@ where
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
             if distance < nalgebra_glm::epsilon() {
-                println!("Point of intersection coincides with an existing node");
+                trace!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
                 // Add a new node at the point of intersection, which returns a node index and a list
diff --git a/src/lib.rs b/src/lib.rs
index 1bd884e..b8bbd2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,18 @@
+/// Prints a diagnostic message. Unlike `println!`, this never panics: whether or not anybody can read
+/// the message must not affect the operation that prints it.
+macro_rules! trace {
+    ($($arg:tt)*) => {{
+        #[cfg(test)]
+        println!($($arg)*);
+
+        #[cfg(not(test))]
+        {
+            use std::io::Write;
+            let _ = writeln!(std::io::stdout(), $($arg)*);
+        }
+    }};
+}
+
 pub mod fold;
 pub mod geometry;
 pub mod graph;
-- 
2.43.0


From 6f0f3d43a067263f6cb73e84877cacaeac93db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 08/13] fix: loading a malformed document returns an error
 instead of panicking

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..8fba61f 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 39a4277c33317a8752136fa6ed5ee88e3d2bfc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 09/13] fix: save fold angles and layer orders under the names
 they are loaded by

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 8fba61f..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From 9b49c05eff9d8099eb8c4b401f06988611eef8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 10/13] fix: find nodes on edges and coincident points at
 ordinary coordinates, too

---
 src/geometry/utils.rs     | 28 ++++++++++++++++++++--------
 src/graph/planar_graph.rs |  4 ++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 9df3b16..b0b085f 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -1,5 +1,15 @@
 use nalgebra_glm::Vec2;
 
+/// Returns the distance below which points are considered to coincide. Since single-precision numbers get
+/// coarser as they grow, this depends on how large the coordinates of the specified `points` are.
+pub fn coincidence_tolerance(points: &[&Vec2]) -> f32 {
+    let magnitude = points
+        .iter()
+        .fold(1.0f32, |m, p| m.max(p.x.abs()).max(p.y.abs()));
+
+    16.0 * nalgebra_glm::epsilon::<f32>() * magnitude
+}
+
 /// Determines whether the vector from `a` to `b` is (nearly) parallel to the vector pointing
 /// from `c` to `d` (within an epsilon).
 pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
@@ -119,17 +129,19 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
 
 /// Checks if the specified point `p` lies along the line segment `ab`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
+    let tolerance = coincidence_tolerance(&[a, b, p]);
+
     // The total length of the line segment
-    let ab = nalgebra_glm::distance(a, b);
+    let ab = b - a;
+    let length = nalgebra_glm::length(&ab);
 
-    // The lengths of the two sub-segments joining each endpoint to the specified point
-    let ap = nalgebra_glm::distance(a, p);
-    let pb = nalgebra_glm::distance(p, b);
+    // The position of the specified point along the line segment and its distance from it
+    let ap = p - a;
+    let along = nalgebra_glm::dot(&ap, &ab) / length;
+    let distance = (ab.x * ap.y - ab.y * ap.x).abs() / length;
 
     // Return `false` if the specified point is one of the endpoints of the line segment
-    ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+    distance <= tolerance && along > tolerance && along < length - tolerance
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
@@ -165,7 +177,7 @@ pub fn find_closest_to(t: &Vec2, points: &Vec<Vec2>) -> (usize, f32) {
 
 /// Determines whether the specified points are "close to" each other, i.e. the same.
 pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
-    nalgebra_glm::distance(a, b) <= nalgebra_glm::epsilon()
+    nalgebra_glm::distance(a, b) <= coincidence_tolerance(&[a, b])
 }
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 560a83f..fc05858 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -181,7 +181,7 @@ where
         // Check if the vertex is the same as an existing vertex (within epsilon)
         let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
 
-        if distance < nalgebra_glm::epsilon() {
+        if distance <= utils::coincidence_tolerance(&[position]) {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -354,7 +354,7 @@ where
             let (index, distance) =
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
-            if distance < nalgebra_glm::epsilon() {
+            if distance <= utils::coincidence_tolerance(&[intersection]) {
                 trace!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-- 
2.43.0


From c08245e1573f6ee9e419c502c4b8f3921af70dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 11/13] fix: split a new edge where it runs through nodes or
 along edges

---
 src/graph/planar_graph.rs | 73 ++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index fc05858..b4db587 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -216,20 +216,26 @@ where
                     return Ok((vec![], vec![]));
                 }
 
-                // First, push back the new edge
-                self.edges.push(Edge::new(src, dst, data, DEFAULT_LABEL));
-
-                // TODO: if the edge we just added gets split, do we copy its data over to the child edges?
-
-                // Perform line-segment/line-segment intersection tests
-                let (changed_nodes, mut changed_edges) =
-                    self.split_edges_along_edge(self.edge_count() - 1);
-
-                // If the array of changed edges is empty, this means that no edge splitting was necessary,
-                // but we still want to make sure we return at least one edge index (in this case, the edge
-                // was simply added to the end of the graph's edge array, so just return that index)
-                if changed_edges.is_empty() {
+                let mut changed_nodes = vec![];
+                let mut changed_edges = vec![];
+
+                // The new edge may run through existing nodes, in which case it consists of several pieces
+                for piece in self.nodes_along(src, dst).windows(2) {
+                    // This piece runs along an existing edge
+                    if self.has_edge_between_nodes(piece[0], piece[1]) {
+                        continue;
+                    }
+
+                    // First, push back the new edge
+                    self.edges
+                        .push(Edge::new(piece[0], piece[1], data, DEFAULT_LABEL));
                     changed_edges.push(self.edge_count() - 1);
+
+                    // Perform line-segment/line-segment intersection tests
+                    let (split_nodes, split_edges) =
+                        self.split_edges_along_edge(self.edge_count() - 1);
+                    changed_nodes.extend(&split_nodes);
+                    changed_edges.extend(&split_edges);
                 }
 
                 return Ok((changed_nodes, changed_edges));
@@ -243,6 +249,27 @@ where
         Ok((vec![], vec![]))
     }
 
+    /// Returns the indices of all of the nodes along the straight line from node `src` to node `dst`
+    /// (including both of them), in order.
+    fn nodes_along(&self, src: NodeIndex, dst: NodeIndex) -> Vec<NodeIndex> {
+        let start = self.nodes[src].position;
+        let end = self.nodes[dst].position;
+
+        let mut between = (0..self.node_count())
+            .filter(|&id| id != src && id != dst)
+            .filter(|&id| {
+                utils::is_on_line_segment(&start, &end, &self.nodes[id].position, false)
+            })
+            .map(|id| (nalgebra_glm::distance(&start, &self.nodes[id].position), id))
+            .collect::<Vec<_>>();
+        between.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+
+        let mut nodes = vec![src];
+        nodes.extend(between.iter().map(|&(_, id)| id));
+        nodes.push(dst);
+        nodes
+    }
+
     /// Splits any edges that contain the specified node in their interiors. This function returns the
     /// indices of all newly split edges.
     fn split_edges_at_node(&mut self, id: NodeIndex) -> Vec<EdgeIndex> {
@@ -310,8 +337,12 @@ where
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
-            // Don't intersect the target edge with itself
-            if id != index {
+            // Don't intersect the target edge with itself or with its neighbors, which it only meets
+            // at their common node
+            if id != index
+                && !edge.includes(self.edges[id].src)
+                && !edge.includes(self.edges[id].dst)
+            {
                 // The point of intersection (or null if no intersection is found)
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
                     &self.nodes[edge.get_node_indices().0].position,
@@ -319,8 +350,16 @@ where
                     &self.nodes[self.edges[id].get_node_indices().0].position,
                     &self.nodes[self.edges[id].get_node_indices().1].position,
                 ) {
-                    intersections.push(intersection);
-                    trace!("Found intersection between edge {} and edge {}", id, index);
+                    // If the two edges are collinear, the point above is arbitrary
+                    if utils::is_on_line_segment(
+                        &self.nodes[self.edges[id].src].position,
+                        &self.nodes[self.edges[id].dst].position,
+                        &intersection,
+                        false,
+                    ) {
+                        intersections.push(intersection);
+                        trace!("Found intersection between edge {} and edge {}", id, index);
+                    }
                 }
             }
         }
-- 
2.43.0


From bffce6a95fbf7dc0af2c0600b4bb13b61c5c5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:41 +0000
Subject: [PATCH 12/13] fix: splitting edges that nearly coincide no longer
 makes parallel edges

---
 src/graph/planar_graph.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index b4db587..8aa8ba1 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -278,6 +278,15 @@ where
             let mut changed_edges = vec![];
             let mut additional_edges = vec![];
 
+            // The nodes that are already joined to the target node: if several edges are so close together that
+            // the target node lies on all of them, their pieces may coincide, so only one of those is kept
+            let mut neighbors = self
+                .edges
+                .iter()
+                .filter(|edge| edge.includes(id))
+                .map(|edge| if edge.src == id { edge.dst } else { edge.src })
+                .collect::<Vec<_>>();
+
             for (index, edge) in self.edges.iter_mut().enumerate() {
                 // Does the target node lie along this edge somewhere?
                 let on_edge = utils::is_on_line_segment(
@@ -287,7 +296,15 @@ where
                     false,
                 );
 
-                if on_edge {
+                let ends = [edge.src, edge.dst]
+                    .iter()
+                    .cloned()
+                    .filter(|end| !neighbors.contains(end))
+                    .collect::<Vec<_>>();
+
+                if on_edge && !ends.is_empty() {
+                    neighbors.extend(&ends);
+
                     trace!("Node splits edge with index {}", index);
 
                     // This edge isn't added to the graph's list of edges right away for 2 reasons:
@@ -298,14 +315,21 @@ where
                     //
                     // Note that we copy the original edge's data to the 2 new edges (here and below),
                     // but we do NOT copy its label, which would be invalid at this point
-                    additional_edges.push(Edge::new(edge.dst, id, *edge.get_data(), DEFAULT_LABEL));
+                    if ends.len() > 1 {
+                        additional_edges.push(Edge::new(
+                            ends[1],
+                            id,
+                            *edge.get_data(),
+                            DEFAULT_LABEL,
+                        ));
+                    }
 
                     // Put one of the new edges in the slot that was previously occupied by the old,
                     // un-split edge and the other at the end of the array - the prior is done so that
                     // we don't have to worry about the rest of the edges being "shuffled" as a result
                     // of a standard array "remove" operation...essentially, we want to add/remove edges
                     // in-place
-                    *edge = Edge::new(edge.src, id, *edge.get_data(), DEFAULT_LABEL);
+                    *edge = Edge::new(ends[0], id, *edge.get_data(), DEFAULT_LABEL);
                     changed_edges.push(index);
                 }
             }
-- 
2.43.0


From b80745e13c9cfca1475b1296f74c114ea81e0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 13/13] fix: find crossings of edges of very different lengths

---
 src/geometry/utils.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index b0b085f..8ba4e30 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -1,4 +1,4 @@
-use nalgebra_glm::Vec2;
+use nalgebra_glm::{DVec2, Vec2};
 
 /// Returns the distance below which points are considered to coincide. Since single-precision numbers get
 /// coarser as they grow, this depends on how large the coordinates of the specified `points` are.
@@ -74,6 +74,15 @@ pub fn calculate_triangle_incenter(a: &Vec2, b: &Vec2, c: &Vec2) -> Option<(Vec2
 
 /// Calculates the intersection between two line segments (`ab` and `cd`) or `None` if they do not intersect.
 pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
+    // In double precision, so that the point of intersection is as close as it can be to both segments,
+    // even if one is much longer than the other
+    let (a, b, c, d) = (
+        nalgebra_glm::convert::<Vec2, DVec2>(*a),
+        nalgebra_glm::convert::<Vec2, DVec2>(*b),
+        nalgebra_glm::convert::<Vec2, DVec2>(*c),
+        nalgebra_glm::convert::<Vec2, DVec2>(*d),
+    );
+
     let delta_x0 = b.x - a.x;
     let delta_y0 = b.y - a.y;
     let delta_x1 = d.x - c.x;
@@ -84,7 +93,10 @@ pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec
     let t = (delta_x1 * (a.y - c.y) - delta_y1 * (a.x - c.x)) / denom;
 
     if s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0 {
-        return Some(Vec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0)));
+        return Some(Vec2::new(
+            (a.x + (t * delta_x0)) as f32,
+            (a.y + (t * delta_y0)) as f32,
+        ));
     }
 
     None
-- 
2.43.0

