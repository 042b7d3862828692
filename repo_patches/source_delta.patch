From 19fc8d93298c36caeec0b96ef6c7146cf7c21f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:12 +0000
Subject: [PATCH 01/18] fix: a shape enclosing the whole bin collides with the
 bin exterior

---
 jagua-rs/src/collision_detection/cd_engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index 0387665..7cd9696 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -424,6 +424,10 @@ impl CDEngine {
 
         let (s_mu, s_omega) = match bbox_relation {
             GeoRelation::Surrounding => (shape, haz_shape), //inclusion possible
+            GeoRelation::Enclosed if haz.entity.position() == GeoPosition::Exterior => {
+                //a shape that reaches around an exterior hazard always extends outside it
+                return true;
+            }
             GeoRelation::Enclosed => (haz_shape, shape),    //inclusion possible
             GeoRelation::Disjoint | GeoRelation::Intersecting => {
                 //no inclusion is possible
-- 
2.43.0


From 56b14c02f963771d80e36be107fd07baae76c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:35 +0000
Subject: [PATCH 02/18] fix: collect all hazards in a node, not only the
 strongest entirely present one

---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..5424bc7 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //other hazards in this node can collide with the entity as well
+                        self.collect_collisions(entity, detected);
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From 93148eb9b999d5334f1e782f4cf64f9a15e98329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:35 +0000
Subject: [PATCH 03/18] fix: break ties by y coordinate when sorting points for
 the convex hull

---
 jagua-rs/src/geometry/convex_hull.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..c499e53 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,11 +31,8 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
-    points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
-    });
+    //sort the points by x coordinate, ties are broken by y coordinate
+    points.sort_by(|a, b| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap());
 
     let mut lower_hull = points
         .iter()
-- 
2.43.0


From 979da2866c2efae20c64d9f729c2e0190f13d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:35 +0000
Subject: [PATCH 04/18] fix: square the distance to the border for points
 inside a rectangle

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..105e423 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance.powi(2))
             }
         }
     }
-- 
2.43.0


From 8088d9d80b904d8c3ce69d8df123c72a5168b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:51 +0000
Subject: [PATCH 05/18] fix: bounding circle when a later circle contains all
 the previous ones

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..cd4b1ab 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius >= distance_between_centers + bounding_circle.radius {
+                // current bounding circle is contained in the circle
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From 5de07d04b9e434852e5f2feed2188edb12b49b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:53 +0000
Subject: [PATCH 06/18] fix: drop clipped rays that lie outside the shape when
 generating piers

---
 jagua-rs/src/geometry/fail_fast/piers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..432a851 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -142,6 +142,8 @@ fn clip(shape: &SimplePolygon, ray: &Edge) -> Vec<Edge> {
                 None
             }
         })
+        //a ray through a vertex intersects two edges in one point, which shifts the pairs: only keep the clips inside the shape
+        .filter(|clip| shape.collides_with(&clip.centroid()))
         .collect_vec();
 
     clipped_lines
-- 
2.43.0


From aa433f09fba12d08236f354888a8c9e3534a38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:10 +0000
Subject: [PATCH 07/18] fix: visit the whole seedbox when propagating a pole
 through the proximity grid

The fill stopped looking for affected cells once it had found a first one, and
missed those on the other side of a region without cells (an item placed over a
notch or a hole of the bin): the distances of these cells were too large.
---
 .../collision_detection/hpg/boundary_fill.rs  | 32 ++++++-------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
index 1baf0fb..91f6e46 100644
--- a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
+++ b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
@@ -10,13 +10,11 @@ use crate::geometry::primitives::aa_rectangle::AARectangle;
 // These "unaffected" cells can form a boundary around the update.
 // By using the boundary fill algorithm, we can efficiently visit all cells that are affected by the update, without iterating over the entire grid.
 
-// The `BoundaryFillHPG` operates in two states: "unseeded" and "seeded".
-// In the "unseeded" state, we have not yet found any cell that is inside the "boundary" of the update.
-// During this state, the algorithm will visit all the cells that fall within the seedbox.
-// The seedbox is a rectangle that is guaranteed to contain at least one cell that is "within the boundary" of the update.
+// The algorithm visits all the cells that fall within the seedbox.
+// The seedbox is a rectangle that is guaranteed to contain at least one cell of every connected group of cells "within the boundary" of the update.
+// (There can be several such groups: for example when the update spans a region outside the bin, where no cells exist.)
 
-// From the moment we find a cell that is inside the boundary, we enter the "seeded" state.
-// From this point on, the algorithm will only queue neighbors of cells within the boundary,
+// Outside of the seedbox, only the neighbors of cells within the boundary are queued.
 
 // When the queue runs out of cells to visit, all cells which could be affected should have been visited and updated.
 #[derive(Debug, Clone)]
@@ -75,21 +73,17 @@ impl BoundaryFillHPG {
 
     /// Reports if the cell was inside or outside the boundary of the update
     pub fn report_position<T>(&mut self, index: usize, position: GeoPosition, grid: &Grid<T>) {
-        let queue_neighbors = match (self.seeded, position) {
-            (false, GeoPosition::Interior) => {
-                //seed has been found, unqueue all cells and mark as seeded
+        let queue_neighbors = match position {
+            //within the boundary
+            GeoPosition::Interior => {
                 self.seeded = true;
-                self.queue.drain(..).for_each(|i| self.state[i].dequeue());
                 true
             }
-            (false, GeoPosition::Exterior) => {
-                //no seed found, continue queuing if the cell is within the seedbox
+            //not within the boundary, only continue queuing if the cell is within the seedbox
+            GeoPosition::Exterior => {
                 let (row, col) = grid.to_row_col(index).expect("cell should exist");
                 self.seedbox_rows.contains(&row) && self.seedbox_cols.contains(&col)
             }
-            //seeded, only queue if the cell is within the boundary
-            (true, GeoPosition::Interior) => true,
-            (true, GeoPosition::Exterior) => false,
         };
 
         if queue_neighbors {
@@ -148,12 +142,4 @@ impl CellState {
             CellState::Queued => unreachable!("invalid state: cell already queued"),
         }
     }
-
-    fn dequeue(&mut self) {
-        *self = match self {
-            CellState::Queued => CellState::NotQueued,
-            CellState::Visited => unreachable!("invalid state: cell already visited"),
-            CellState::NotQueued => unreachable!("invalid state: cell already not queued"),
-        }
-    }
 }
-- 
2.43.0


From 15a696c762a1570562d0f6c3be65bbfef3765216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 08/18] fix: do not let pending removals stop the propagation
 of a new hazard through the proximity grid

Cells that still hold the proximity of a hazard of which the removal is pending
could shield the cells behind them, which then kept too large a distance after
the grid was flushed.
---
 .../src/collision_detection/hpg/hazard_proximity_grid.rs    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 7786c29..9a5db66 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -93,6 +93,12 @@ impl HazardProximityGrid {
                         HPGCellUpdate::Affected => GeoPosition::Interior,
                         //Cell was not affected, but its neighbors might be, so it is considered inside the boundary
                         HPGCellUpdate::NotAffected => GeoPosition::Interior,
+                        //Proximity to a hazard of which the removal is still pending, no guarantees about its neighbors
+                        HPGCellUpdate::NeighborsNotAffected
+                            if self.uncommitted_deregisters.contains(&cell.uni_prox.1) =>
+                        {
+                            GeoPosition::Interior
+                        }
                         //Cell was not affected and its neighbors are not affected, so it is considered outside the boundary
                         HPGCellUpdate::NeighborsNotAffected => GeoPosition::Exterior,
                     };
-- 
2.43.0


From ad5957afc17e0326e2361e3766a969450bd733f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:07 +0000
Subject: [PATCH 09/18] fix: restore the bin of a layout along with its items

Restoring a snapshot that was taken before the bin was changed (or a solution
with another strip) kept the current bin and its hazards.
---
 jagua-rs/src/entities/layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..bb65062 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,12 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            //the layout currently has another bin than the one in the snapshot
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
+
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From 99ec7a101efefd46f2395005352a3572c3083dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:07 +0000
Subject: [PATCH 10/18] fix: restore solutions that hold more than the demand
 of an item

The missing quantity is signed, but was computed with unsigned numbers.
---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..2c20e3c 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty = self.instance.item_qty(i) as isize
+                    - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From ba33a8f86fc258e07ccfc98bff3f09d60fbd0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:07 +0000
Subject: [PATCH 11/18] fix: leave the strip as is when fitting it without any
 items

A strip of width zero cannot be built.
---
 jagua-rs/src/entities/problems/strip_packing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index 44dd0ef..5587304 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -144,7 +144,11 @@ impl SPProblem {
     }
 
     /// Shrinks the strip to the minimum width that fits all items.
+    /// If no items are placed, the strip is left as is.
     pub fn fit_strip(&mut self) {
+        if self.layout.is_empty() {
+            return;
+        }
         let n_items_in_old_strip = self.layout.placed_items().len();
 
         let fitted_width = self.occupied_width() * (1.0 + FPA::tolerance()); //add some tolerance to avoid rounding errors or false collision positives
-- 
2.43.0


From 9fee21fea00f1e8266950f8803f6732e299ea821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:00 +0000
Subject: [PATCH 12/18] fix: take the cost of a bin from the input file instead
 of its area

---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..3c99782 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -201,9 +200,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -239,7 +235,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0


From fdc17ca08d63bec094bfe8d8b65c54cd089412c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:00 +0000
Subject: [PATCH 13/18] fix: logging several bins with unlimited stock no
 longer overflows

---
 jagua-rs/src/io/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 3c99782..e0b1eac 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -97,7 +97,9 @@ impl Parser {
                     json_instance.name,
                     bpi.total_item_qty(),
                     bpi.items.len(),
-                    bpi.bins.iter().map(|(_, qty)| *qty).sum::<usize>(),
+                    bpi.bins
+                        .iter()
+                        .fold(0usize, |sum, (_, qty)| sum.saturating_add(*qty)),
                     bpi.bins.len()
                 );
             }
-- 
2.43.0


From 002c00cca713eff57c5af0edac48c7128b5fdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:00 +0000
Subject: [PATCH 14/18] fix: usage of a problem without layouts is zero

---
 jagua-rs/src/entities/problems/problem_generic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..272fa23 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -51,6 +51,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
     }
 
     fn usage(&mut self) -> fsize {
+        if self.layouts().is_empty() {
+            //nothing is used (and NaN cannot be exported to JSON)
+            return 0.0;
+        }
         let (total_bin_area, total_used_area) =
             self.layouts_mut().iter_mut().fold((0.0, 0.0), |acc, l| {
                 let bin_area = l.bin.area;
-- 
2.43.0


From f6a84e050f4c32e966d82276bd8f4009f62ead3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:29 +0000
Subject: [PATCH 15/18] fix: drawing an item that requires the maximum quality
 does not panic

A base quality equal to N_QUALITIES (above every zone) is accepted by the
parser, but has no entry in the theme's zone colors.
---
 lbf/src/io/layout_to_svg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lbf/src/io/layout_to_svg.rs b/lbf/src/io/layout_to_svg.rs
index 3cc2bb6..10a003e 100644
--- a/lbf/src/io/layout_to_svg.rs
+++ b/lbf/src/io/layout_to_svg.rs
@@ -110,9 +110,10 @@ pub fn layout_to_svg(layout: &Layout, instance: &Instance, options: SvgDrawOptio
                 &internal_item.pretransform.clone().inverse(),
             );
             let shape = item.shape.as_ref();
-            let color = match item.base_quality {
+            //items requiring the maximum quality (above every zone) have no zone color to blend with
+            let color = match item.base_quality.and_then(|q| theme.qz_fill.get(q)) {
                 None => theme.item_fill.to_owned(),
-                Some(q) => svg_util::blend_colors(theme.item_fill, theme.qz_fill[q]),
+                Some(qz_fill) => svg_util::blend_colors(theme.item_fill, *qz_fill),
             };
             item_defs = item_defs.add(Group::new().set("id", format!("item_{}", item.id)).add(
                 svg_export::data_to_path(
-- 
2.43.0


From 89f878c0f2f470e1a14ed35e9be30dfbb704bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:18 +0000
Subject: [PATCH 16/18] fix: piers are generated around the shape, wherever it
 lies

The rays were rotated around the origin and offset by the absolute bounding box,
so a shape away from the origin made the generation panic (no ray found, or a
ray starting inside the shape).
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index 432a851..fd7e1c8 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle, around the centroid of the shape
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate(*angle).translate(centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 9305c1750e2becbda90de3bec888923079e1692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 17/18] fix: point-in-polygon test is wrong far from the origin

The ray casting compared coordinates with a relative tolerance, which is larger than
the shape's details if it is far from the origin. Points clearly inside were reported as
outside (and the other way around), and feasible placements were rejected.
Compare exactly instead, with vertices on the ray counted as above it.
---
 .../src/geometry/primitives/simple_polygon.rs | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/jagua-rs/src/geometry/primitives/simple_polygon.rs b/jagua-rs/src/geometry/primitives/simple_polygon.rs
index 5c72da3..003941c 100644
--- a/jagua-rs/src/geometry/primitives/simple_polygon.rs
+++ b/jagua-rs/src/geometry/primitives/simple_polygon.rs
@@ -18,7 +18,6 @@ use crate::geometry::primitives::edge::Edge;
 use crate::geometry::primitives::point::Point;
 use crate::geometry::transformation::Transformation;
 use crate::util::config::SPSurrogateConfig;
-use crate::util::fpa::FPA;
 
 /// Geometric primitive representing a simple polygon: <https://en.wikipedia.org/wiki/Simple_polygon>
 #[derive(Clone, Debug)]
@@ -280,28 +279,26 @@ impl CollidesWith<Point> for SimplePolygon {
         match self.bbox().collides_with(point) {
             false => false,
             true => {
-                //horizontal ray shot to the right.
-                //Starting from the point to another point that is certainly outside the shape
-                let point_outside = Point(self.bbox.x_max + self.bbox.width(), point.1);
-                let ray = Edge::new(*point, point_outside);
+                //horizontal ray shot to the right, starting from the point
+                let Point(p_x, p_y) = *point;
 
                 let mut n_intersections = 0;
                 for edge in self.edge_iter() {
-                    //Check if the ray does not go through (or almost through) a vertex
-                    //This can result in funky behaviour, which could incorrect results
-                    //Therefore we handle this case
-                    let (s_x, s_y) = (FPA(edge.start.0), FPA(edge.start.1));
-                    let (e_x, e_y) = (FPA(edge.end.0), FPA(edge.end.1));
-                    let (p_x, p_y) = (FPA(point.0), FPA(point.1));
-
-                    if (s_y == p_y && s_x > p_x) || (e_y == p_y && e_x > p_x) {
-                        //in this case, the ray passes through (or dangerously close to) a vertex
-                        //We handle this case by only counting an intersection if the edge is below the ray
-                        if s_y < p_y || e_y < p_y {
+                    let (low, high) = match edge.start.1 < edge.end.1 {
+                        true => (edge.start, edge.end),
+                        false => (edge.end, edge.start),
+                    };
+                    //An edge is only crossed if its endpoints are on different sides of the ray.
+                    //Vertices at exactly the height of the ray are considered to be above it,
+                    //so passing through a vertex never counts as more than one crossing of the boundary.
+                    //Comparing exactly (instead of with a relative tolerance) keeps this correct for shapes far from the origin.
+                    if low.1 < p_y && p_y <= high.1 {
+                        //Check if the crossing does not lie to the left of the point
+                        let cross =
+                            (high.0 - low.0) * (p_y - low.1) - (p_x - low.0) * (high.1 - low.1);
+                        if cross >= 0.0 {
                             n_intersections += 1;
                         }
-                    } else if ray.collides_with(&edge) {
-                        n_intersections += 1;
                     }
                 }
 
-- 
2.43.0


From 1e9f3f2d25e9299a121f5db9224dc2f89117bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 18/18] fix: centroid of a polygon loses all precision far from
 the origin

Calculate it relative to one of the vertices.
---
 jagua-rs/src/geometry/primitives/simple_polygon.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/geometry/primitives/simple_polygon.rs b/jagua-rs/src/geometry/primitives/simple_polygon.rs
index 003941c..e9e3723 100644
--- a/jagua-rs/src/geometry/primitives/simple_polygon.rs
+++ b/jagua-rs/src/geometry/primitives/simple_polygon.rs
@@ -178,7 +178,9 @@ impl Shape for SimplePolygon {
     fn centroid(&self) -> Point {
         //based on: https://en.wikipedia.org/wiki/Centroid#Of_a_polygon
 
+        //calculated relative to one of the vertices, to not lose precision far away from the origin
         let area = self.area();
+        let Point(x_0, y_0) = self.get_point(0);
         let mut c_x = 0.0;
         let mut c_y = 0.0;
 
@@ -190,12 +192,14 @@ impl Shape for SimplePolygon {
             };
             let Point(x_i, y_i) = self.get_point(i);
             let Point(x_j, y_j) = self.get_point(j);
+            let (x_i, y_i) = (x_i - x_0, y_i - y_0);
+            let (x_j, y_j) = (x_j - x_0, y_j - y_0);
             c_x += (x_i + x_j) * (x_i * y_j - x_j * y_i);
             c_y += (y_i + y_j) * (x_i * y_j - x_j * y_i);
         }
 
-        c_x /= 6.0 * area;
-        c_y /= 6.0 * area;
+        c_x = x_0 + c_x / (6.0 * area);
+        c_y = y_0 + c_y / (6.0 * area);
 
         (c_x, c_y).into()
     }
-- 
2.43.0

