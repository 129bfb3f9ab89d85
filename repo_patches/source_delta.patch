From 0648cad93521d11449108272caad5335ec81b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 01/31] verif: re-export internals behind cfg(geos_verif)

---
 src/lib.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 910ec52..ed4f725 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,62 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 mod core;
 mod tests;
+
+/// Re-exports for the external verification harness; compiled only with `--cfg geos_verif`.
+#[cfg(geos_verif)]
+pub mod verif {
+    pub use crate::core::algorithm::angle::Angle;
+    pub use crate::core::algorithm::area::Area;
+    pub use crate::core::algorithm::centroid::Centroid;
+    pub use crate::core::algorithm::cg_algorithms_3d::CGAlgorithms3D;
+    pub use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
+    pub use crate::core::algorithm::distance::Distance;
+    pub use crate::core::algorithm::hcoordinate::HCoordinate;
+    pub use crate::core::algorithm::intersection::Intersection;
+    pub use crate::core::algorithm::length::Length;
+    pub use crate::core::algorithm::line_intersector::LineIntersector;
+    pub use crate::core::algorithm::orientation::Orientation;
+    pub use crate::core::algorithm::point_location::PointLocation;
+    pub use crate::core::algorithm::ray_crossing_counter::RayCrossingCounter;
+    pub use crate::core::algorithm::robust_line_intersector::RobustLineIntersector;
+    pub use crate::core::geom::coordinate::Coordinate;
+    pub use crate::core::geom::coordinate_array_sequences::CoordinateArraySequences;
+    pub use crate::core::geom::coordinate_arrays::CoordinateArrays;
+    pub use crate::core::geom::coordinate_list::CoordinateList;
+    pub use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator;
+    pub use crate::core::geom::coordinates::Coordinates;
+    pub use crate::core::geom::dimension::Dimension;
+    pub use crate::core::geom::envelope::Envelope;
+    pub use crate::core::geom::geometry::Geometry;
+    pub use crate::core::geom::geometry_factory::GeometryFactory;
+    pub use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;
+    pub use crate::core::geom::implementation::coordinate_array_sequence_factory::CoordinateArraySequenceFactory;
+    pub use crate::core::geom::implementation::packed_coordinate_sequence::PackedCoordinateSequence;
+    pub use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble;
+    pub use crate::core::geom::implementation::packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory;
+    pub use crate::core::geom::intersection_matrix::IntersectionMatrix;
+    pub use crate::core::geom::line_segment::LineSegment;
+    pub use crate::core::geom::line_string::LineString;
+    pub use crate::core::geom::linear_ring::LinearRing;
+    pub use crate::core::geom::location::Location;
+    pub use crate::core::geom::multi_line_string::MultiLineString;
+    pub use crate::core::geom::multi_point::MultiPoint;
+    pub use crate::core::geom::multi_polygon::MultiPolygon;
+    pub use crate::core::geom::octagonal_envelope::OctagonalEnvelope;
+    pub use crate::core::geom::packed_coordinate_sequences::PackedCoordinateSequences;
+    pub use crate::core::geom::point::Point;
+    pub use crate::core::geom::polygon::Polygon;
+    pub use crate::core::geom::position::Position;
+    pub use crate::core::geom::precision_model::PrecisionModel;
+    pub use crate::core::geom::precision_model::PrecisionModelType;
+    pub use crate::core::geom::quadrant::Quadrant;
+    pub use crate::core::geom::triangle::Triangle;
+    pub use crate::core::math::dd::DD;
+    pub use crate::core::math::matrix::Matrix;
+    pub use crate::core::math::vector_2d::Vector2D;
+    pub use crate::core::math::vector_3d::Vector3D;
+    pub use crate::core::util::math_util::MathUtil;
+    pub use crate::core::util::number_util::NumberUtil;
+}
-- 
2.43.0


From faba84c0cd01e12275cb9609e1b270d014bc2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 02/31] fix: adding coordinates to a CoordinateList in reverse
 order panicked

The reverse loops underflowed their usize counter (and the whole-list form
started one past the end), so adding with direction=false or with start > end
always panicked.
---
 src/core/geom/coordinate_list.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..61f8410 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,14 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
-
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if start > end {
+                i -= 1;
+            } else {
+                i += 1;
+            }
         }
         return true;
     }
@@ -94,11 +93,8 @@ impl CoordinateList {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         } else {
-            let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
+            for i in (0..coord_list.len()).rev() {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
-                i -= 1;
             }
         }
         return true;
-- 
2.43.0


From 504afa677e942e8175bc385f46a07c9c8a69f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 03/31] fix: CoordinateArrays::extract panicked instead of
 extracting the range

It wrote into an empty vector, skipped the first slot, excluded the (documented
inclusive) end index and underflowed when end < start.
---
 src/core/geom/coordinate_arrays.rs | 32 +++++-------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..9193eab 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,4 +1,3 @@
-use crate::core::util::math_util::MathUtil;
 
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
@@ -663,33 +662,12 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
-        let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
-            return extract_pts;
-        }
-
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
+        if start >= pts.len() || end < start {
+            return vec![];
         }
-        return extract_pts;
+        let end = usize::min(end, pts.len() - 1);
+        return pts[start..=end].to_vec();
     }
 
     /**
-- 
2.43.0


From 1c5e25ca760ac453181ed72bb030c61aea74745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 04/31] fix: an invalid first coordinate was not detected

has_repeated_or_invalid_points never looked at the validity of the first
coordinate, so remove_repeated_or_invalid_points returned it unchanged.
---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 9193eab..c9b42ec 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -401,11 +401,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From 23f3905115d5eb46ebfb2c1090622f2aff5fb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 05/31] fix: enforcing coordinate consistency lost the M values

enforce_consistency and enforce_consistency_dim_measures copied only X, Y and Z
into the consistent coordinates, so every existing measure was reset to 0.
---
 src/core/geom/coordinate_arrays.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index c9b42ec..eaf96ab 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -89,6 +89,9 @@ impl CoordinateArrays {
                 let coordinate = array[i];
                 let mut duplicate = Coordinates::create_dim_measures(max_dimension, max_measures);
                 duplicate.set_coordinate(&coordinate);
+                if !f64::is_nan(coordinate.get_m()) {
+                    duplicate.set_m(coordinate.get_m());
+                }
                 array[i] = duplicate;
             }
         }
@@ -116,6 +119,9 @@ impl CoordinateArrays {
             let coordinate = array[i];
             let mut duplicate = Coordinates::create_dim_measures(dimension, measures);
             duplicate.set_coordinate(&coordinate);
+            if measures > 0 && !f64::is_nan(coordinate.get_m()) {
+                duplicate.set_m(coordinate.get_m());
+            }
             copy[i] = duplicate;
         }
         return copy;
-- 
2.43.0


From aeaaa6300b9a2df1379986d86672cf50ef4ad27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 06/31] fix: coordinate sequences did not address the M
 ordinate

The ordinate accessors of CoordinateArraySequence treated index 2 of an XYM
sequence as Z and ignored index 3 of an XYZM sequence, so reversing, swapping,
copying or scrolling a measured sequence left the measures behind.
---
 .../implementation/coordinate_array_sequence.rs  | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..3c32f8f 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -279,6 +279,11 @@ impl CoordinateArraySequence {
         }
     }
 
+    // Tests whether an ordinate index is that of the measure (the first one after the spatial ordinates)
+    fn is_m_index(&self, ordinate_index: i32) -> bool {
+        return self.has_m() && ordinate_index == self.get_dimension() - self.get_measures();
+    }
+
     /**
      * @see org.locationtech.jts.geom.CoordinateSequence#getOrdinate(int, int)
      */
@@ -287,6 +292,9 @@ impl CoordinateArraySequence {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
             _ => {
+                if self.is_m_index(ordinate_index) {
+                    return self.coordinates[index].get_m();
+                }
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
                     Some(ord) => return ord,
@@ -330,7 +338,13 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
-            _ => self.coordinates[index].set_ordinate(ordinate_index, value),
+            _ => {
+                if self.is_m_index(ordinate_index) {
+                    self.coordinates[index].set_m(value);
+                } else {
+                    self.coordinates[index].set_ordinate(ordinate_index, value);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 8f5ead03eb2429fcccca96c1d9c90595b434f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 07/31] fix: packed sequences could not be built from
 coordinates

Every constructor of PackedCoordinateSequenceDouble taking coordinates wrote
into an empty vector and so panicked for any non-empty input; with measures it
also read an ordinate which coordinates do not expose.
---
 .../packed_coordinate_sequence_double.rs      | 76 ++++++-------------
 1 file changed, 25 insertions(+), 51 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..cea33c4 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -80,27 +80,11 @@ impl PackedCoordinateSequenceDouble {
      * @param dimension the total number of ordinates that make up a {@link Coordinate} in this sequence.
      */
     pub fn new_coordinates_with_dimension(coordinates: &Vec<Coordinate>, dimension: i32) -> Self {
-        let mut new = Self {
+        Self {
             dimension,
             measures: i32::max(0, dimension - 3),
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
+            coords: PackedCoordinateSequenceDouble::pack(coordinates, dimension, i32::max(0, dimension - 3)),
         }
-
-        new
     }
 
     /**
@@ -115,27 +99,11 @@ impl PackedCoordinateSequenceDouble {
         dimension: i32,
         measures: i32,
     ) -> Self {
-        let mut new = Self {
+        Self {
             dimension,
             measures,
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
+            coords: PackedCoordinateSequenceDouble::pack(coordinates, dimension, measures),
         }
-
-        new
     }
 
     /**
@@ -144,27 +112,33 @@ impl PackedCoordinateSequenceDouble {
      * @param coordinates an array of {@link Coordinate}s
      */
     pub fn new_with_coordinates(coordinates: &Vec<Coordinate>) -> Self {
-        let mut new = Self {
+        Self {
             dimension: 3,
             measures: 0,
-            coords: vec![],
-        };
+            coords: PackedCoordinateSequenceDouble::pack(coordinates, 3, 0),
+        }
+    }
 
+    // Packs the ordinates which are present in the given layout
+    fn pack(coordinates: &Vec<Coordinate>, dimension: i32, measures: i32) -> Vec<f64> {
+        let dim = dimension as usize;
+        let mut coords = vec![f64::NAN; coordinates.len() * dim];
         for i in 0..coordinates.len() {
-            let offset = i * new.dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if new.dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
+            let offset = i * dim;
+            coords[offset] = coordinates[i].x;
+            coords[offset + 1] = coordinates[i].y;
+            if dimension == 3 && measures == 1 {
+                coords[offset + 2] = coordinates[i].get_m();
+            } else {
+                if dimension >= 3 {
+                    coords[offset + 2] = coordinates[i].get_z();
+                }
+                if dimension >= 4 {
+                    coords[offset + 3] = coordinates[i].get_m();
+                }
             }
         }
-
-        new
+        return coords;
     }
 
     /**
-- 
2.43.0


From 9a2a3e30d015a83dd51b473912d6e603f28affe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 08/31] fix: closing or extending a measured sequence lost its
 measures

The new sequence was created with the old dimension but without its measures,
so M was dropped (XYZM) or silently became Z (XYM).
---
 src/core/geom/coordinate_array_sequences.rs  | 4 ++--
 src/core/geom/packed_coordinate_sequences.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..afcf6ff 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -156,7 +156,7 @@ impl CoordinateArraySequences {
         size: usize,
     ) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(size, seq.get_dimension(), seq.get_measures());
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -168,7 +168,7 @@ impl CoordinateArraySequences {
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(size, seq.get_dimension(), seq.get_measures());
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..eb4f4d6 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -158,7 +158,7 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(size, seq.get_dimension(), seq.get_measures());
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -173,7 +173,7 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(size, seq.get_dimension(), seq.get_measures());
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From 51835b8084189d4a13f892e25979a383f3800a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 09/31] fix: normalizing a polygon had no effect

The ring was normalized on a local copy of its coordinates which was then
dropped, and the holes were never put in order, so self_normalize left the
polygon as it was.
---
 src/core/geom/polygon.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..3dacc90 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -358,6 +358,8 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
+        self.holes
+            .sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
         // Arrays.sort(holes);
     }
 
@@ -428,12 +430,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -452,6 +454,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From 09b753234b8c78fe4bf51cf2f36ec3373bb392df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 10/31] fix: copying or reversing multi-geometries and holes
 panicked

The copies of the components were stored by index into an empty vector, which
panics for any component (and MultiLineString::reverse dropped them all).
---
 src/core/geom/multi_line_string.rs | 6 +++---
 src/core/geom/multi_point.rs       | 4 ++--
 src/core/geom/multi_polygon.rs     | 4 ++--
 src/core/geom/polygon.rs           | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..5bdf377 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,8 +130,8 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in 0..self.line_strings.len() {
+            line_strings.push(self.line_strings[i].reverse());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
@@ -139,7 +139,7 @@ impl MultiLineString {
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..78c69ac 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,7 +136,7 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
@@ -263,7 +263,7 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..e85cf96 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,7 +205,7 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
@@ -217,7 +217,7 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 3dacc90..38cf500 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -476,7 +476,7 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
         return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
-- 
2.43.0


From f4b5d834b3040d4a74f2155a6693c0b7cf0717e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 11/31] fix: copies and reversals forgot the precision model

A copy (also the one returned by get_polygon_at_index) or reversal of a polygon
or multi-geometry had no precision model, so its centroid was not rounded.
---
 src/core/geom/multi_line_string.rs | 8 ++++++--
 src/core/geom/multi_point.rs       | 8 ++++++--
 src/core/geom/multi_polygon.rs     | 8 ++++++--
 src/core/geom/polygon.rs           | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index 5bdf377..a05f24b 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -133,7 +133,9 @@ impl MultiLineString {
         for i in 0..self.line_strings.len() {
             line_strings.push(self.line_strings[i].reverse());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy_internal(&self) -> MultiLineString {
@@ -141,7 +143,9 @@ impl MultiLineString {
         for i in 0..self.line_strings.len() {
             line_strings.push(self.line_strings[i].copy());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn equals_exact(&self, other: &MultiLineString, tolerance: f64) -> bool {
diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 78c69ac..ad639f1 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -138,7 +138,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -265,7 +267,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index e85cf96..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -207,7 +207,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -219,7 +221,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 38cf500..9e62c97 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut res = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     // TODO: Implement ME!
@@ -479,7 +481,9 @@ impl Polygon {
             holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0


From d80759d13c09b4ce674d3895b0e0b0fbb7465fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 12/31] fix: MultiPoint mishandled index 0 and empty points

get_point_at_index underflowed for index 0 and indexed past the end instead of
returning None; empty elements were counted as points, so get_coordinates
invented a (0, 0) for each of them and is_empty was false.
---
 src/core/geom/multi_point.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index ad639f1..26de50f 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,11 +55,11 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        return self.points.iter().all(|point| point.is_empty());
     }
 
     pub fn get_num_points(&self) -> usize {
-        return self.points.len();
+        return self.points.iter().map(|point| point.get_num_points()).sum();
     }
 
     pub fn get_precision_model(&self) -> Option<PrecisionModel> {
@@ -223,7 +223,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From b5be73bb924226128cd8ba544aec7c9d5e926d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 13/31] fix: empty rings and lines panicked in orientation and
 centroid

Both computed len - 1 on an empty point list, so the centroid of an empty line
or of a multi-polygon with an empty element panicked instead of skipping it.
---
 src/core/algorithm/centroid.rs    | 6 +++---
 src/core/algorithm/orientation.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..b8acefb 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -124,12 +124,12 @@ impl Orientation {
      * @return true if the ring is oriented counter-clockwise.
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
-        // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
-        // return default value if ring is flat
-        if n_pts < 3 {
+        // return default value if ring is empty or flat
+        if ring.size() < 4 {
             return false;
         }
+        // # of points without closing endpoint
+        let n_pts = ring.size() - 1;
 
         // Find first highest point after a lower point, if one exists
         // (e.g. a rising segment)
-- 
2.43.0


From a367c0e6d8378069e705ee531edf43c857c49f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 14/31] fix: MathUtil::shuffle always panicked

It filled an empty vector by index (and underflowed for n = 0).
---
 src/core/util/math_util.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..7c7d8ba 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,16 +189,14 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
-        while i >= 1 {
+        for i in (1..n).rev() {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
             ints[i] = ints[j];
             ints[j] = last;
-            i = i - 1;
         }
 
         return ints;
-- 
2.43.0


From 47002e7385bb8a0be12d97d42a9500dd6f45e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 15/31] fix: Matrix::solve underflowed its row and column
 counters

Both downward loops tested usize >= 0, so every system with a solution panicked
(or indexed out of bounds without overflow checks).
---
 src/core/math/matrix.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..641b9a1 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,8 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
+                for k in (i..n).rev() {
                     a[j][k] -= a[i][k] * row_factor;
-                    k -= 1;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +84,7 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        for j in (0..n).rev() {
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +92,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From e8f559321b0dc538447de29a5afee3b6a03f20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 16/31] fix: FloatingSingle precision model did not round to
 single precision

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..51558de 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From 050fdca6b26f6a3afd0a2931a38b421a7ccfb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 17/31] fix: Fixed precision model rounded ties away from zero

---
 src/core/geom/precision_model.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 51558de..65037ec 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,25 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  /**
+   * Rounds to the nearest integer, with ties rounding towards positive infinity
+   * (asymmetric arithmetic rounding, unlike <code>f64::round</code>).
+   */
+  fn round_half_up(val: f64) -> f64 {
+    let floor = f64::floor(val);
+    if val - floor >= 0.5 { floor + 1.0 } else { floor }
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From 1e72fd109e4c63a396bf1dd81d75fbf221fca978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 18/31] fix: null envelopes in OctagonalEnvelope

---
 src/core/geom/octagonal_envelope.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..fd9117e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
@@ -309,6 +312,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From fc0d0fb3ef0b1ad8be4d90d7ce6faf2f263c6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 19/31] fix: closest points of crossing segments were not a
 pair

---
 src/core/geom/line_segment.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index c8003a4..1c5aa43 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -547,10 +547,8 @@ impl LineSegment {
         // test for intersection
         let int_pt = self.intersection(line);
         if int_pt.is_some() {
-            return vec![Coordinate::new_xy(
-                int_pt.unwrap().get_x(),
-                int_pt.unwrap().get_y(),
-            )];
+            let pt = Coordinate::new_xy(int_pt.unwrap().get_x(), int_pt.unwrap().get_y());
+            return vec![pt, pt];
         }
 
         //  if no intersection closest pair contains at least one endpoint.
-- 
2.43.0


From ff2e0b7586df0e081cce54a6409ce6994a115371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 20/31] fix: DD::rint modified the value it rounds

---
 src/core/math/dd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..b839e9b 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -758,8 +758,9 @@ impl DD {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        let mut plus5 = self.copy_self();
+        plus5.self_add_f64(0.5);
+        return plus5.floor();
     }
 
     /**
-- 
2.43.0


From 5fa0b8c02035c07224e3890767936f8474025a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 21/31] fix: DD::magnitude overflowed for small and large
 numbers

---
 src/core/math/dd.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index b839e9b..85a2e7c 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1350,9 +1350,11 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powf(10., x_mag as f64);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
+        } else if x_approx > x_abs {
+            x_mag -= 1;
         }
 
         return x_mag;
-- 
2.43.0


From c986a4902accc64cbb429dd76c01d86240f640c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 22/31] fix: 3D segment distance mistook touching segments for
 degenerate ones

---
 src/core/algorithm/cg_algorithms_3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..ec16d50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
-- 
2.43.0


From 086323ae65962da97d67e5566fef945eb00c705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 23/31] fix: 3D distance of segments whose lines approach
 outside them

---
 src/core/algorithm/cg_algorithms_3d.rs | 33 +++++++-------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index ec16d50..8e23d60 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -113,32 +113,17 @@ impl CGAlgorithms3D {
             return f64::NAN;
         }
 
-        let s: f64;
-        let t: f64;
-        if denom <= 0.0 {
+        let s = (b * e - c * d) / denom;
+        let t = (a * e - b * d) / denom;
+        if denom <= 0.0 || s < 0. || s > 1. || t < 0. || t > 1. {
             /*
-             The lines are parallel.
-             In this case solve for the parameters s and t by assuming s is 0.
+             The lines are parallel, or their closest points lie outside a segment.
+             In both cases the minimum distance is attained at some endpoint.
             */
-            s = 0.;
-            // choose largest denominator for optimal numeric conditioning
-            if b > c {
-                t = d / b;
-            } else {
-                t = e / c;
-            }
-        } else {
-            s = (b * e - c * d) / denom;
-            t = (a * e - b * d) / denom;
-        }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+            return CGAlgorithms3D::distance_point_segment(ac, cc, dd)
+                .min(CGAlgorithms3D::distance_point_segment(bc, cc, dd))
+                .min(CGAlgorithms3D::distance_point_segment(cc, ac, bc))
+                .min(CGAlgorithms3D::distance_point_segment(dd, ac, bc));
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From d5151cc8339489631f8a42e0c037ae707f7132f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 24/31] fix: DD floor and ceil left the words overlapping, so
 the results compared wrongly

---
 src/core/math/dd.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 85a2e7c..28aee21 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -687,8 +687,12 @@ impl DD {
         if fhi == self.hi {
             flo = f64::floor(self.lo);
         }
-        // do we need to renormalize here?
-        return DD::new_hi_lo(fhi, flo);
+        // renormalize: an integral low word may reach the last place of the high word
+        let mut result = DD::new_x(fhi);
+        if flo != 0.0 {
+            result.self_add_f64(flo);
+        }
+        return result;
     }
 
     /**
@@ -711,9 +715,13 @@ impl DD {
         // Hi is already integral.  Ceil the low word
         if fhi == self.hi {
             flo = f64::ceil(self.lo);
-            // do we need to renormalize here?
         }
-        return DD::new_hi_lo(fhi, flo);
+        // renormalize: an integral low word may reach the last place of the high word
+        let mut result = DD::new_x(fhi);
+        if flo != 0.0 {
+            result.self_add_f64(flo);
+        }
+        return result;
     }
 
     /**
-- 
2.43.0


From 544980f00cb2156e071c9e5186920b1f596cfbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 25/31] fix: floating precision models did not equal themselves
 (NaN scale)

---
 src/core/geom/precision_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 65037ec..d3c67a4 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -358,7 +358,7 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0


From ce5777831af4b58fd1e7f5a7fa46ba5cf1074854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 26/31] fix: eastern half plane held the south-western quadrant
 instead of the north-eastern

---
 src/core/geom/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/quadrant.rs b/src/core/geom/quadrant.rs
index 48c71c5..370963b 100644
--- a/src/core/geom/quadrant.rs
+++ b/src/core/geom/quadrant.rs
@@ -125,7 +125,7 @@ impl Quadrant {
      */
     pub fn is_in_half_plane(quad: i32, half_plane: i32) -> bool {
         if half_plane == Quadrant::SE {
-            return quad == Quadrant::SE || quad == Quadrant::SW;
+            return quad == Quadrant::SE || quad == Quadrant::NE;
         }
         return quad == half_plane || quad == half_plane + 1;
     }
-- 
2.43.0


From 3d9f5034f316811d9e7fb20c081688c2835eda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 27/31] fix: integer ceiling with a negative denominator

---
 src/core/util/math_util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 7c7d8ba..14ef917 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -60,10 +60,10 @@ impl MathUtil {
      */
     pub fn ceil(num: i32, denom: i32) -> i32 {
         let div = num / denom;
-        if div * denom >= num {
-            return div;
-        } else {
+        if num % denom != 0 && (num < 0) == (denom < 0) {
             return div + 1;
+        } else {
+            return div;
         }
     }
 
-- 
2.43.0


From dba6d8c5d34271bb9bfaf8ff5433ce14e1421972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 28/31] fix: order holes with a total order in
 Polygon::self_normalize, so it no longer panics on many holes with NaN
 ordinates

---
 src/core/geom/polygon.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 9e62c97..72ae136 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -360,8 +360,10 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
+        // orders the rings as compare_to_same_class does, and is a total order if ordinates are NaN
+        let comp = CoordinateSequenceComparator::new_with_dimension_limit(2);
         self.holes
-            .sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
+            .sort_by(|a, b| a.compare_to_same_class_with_comparator(b, &comp).cmp(&0));
         // Arrays.sort(holes);
     }
 
-- 
2.43.0


From b44b155b6194fc592e0a884c9e24e4fc2428e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 29/31] fix: 3D distance of nearly parallel segments was
 computed from a cancelled determinant

---
 src/core/algorithm/cg_algorithms_3d.rs | 63 +++++++++++++-------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 8e23d60..68abfa4 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -99,48 +99,47 @@ impl CGAlgorithms3D {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
+        // the minimum distance is attained at an endpoint...
+        let end_distance = CGAlgorithms3D::distance_point_segment(ac, cc, dd)
+            .min(CGAlgorithms3D::distance_point_segment(bc, cc, dd))
+            .min(CGAlgorithms3D::distance_point_segment(cc, ac, bc))
+            .min(CGAlgorithms3D::distance_point_segment(dd, ac, bc));
+
         /*
-         Algorithm derived from http://softsurfer.com/Archive/algorithm_0106/algorithm_0106.htm
+         ...unless the lines are not parallel and their closest points lie inside the segments.
+         The cross product of the directions stays accurate for nearly parallel lines,
+         where the determinant of their dot products cancels.
         */
-        let a = Vector3D::dot_4(ac, bc, ac, bc);
-        let b = Vector3D::dot_4(ac, bc, cc, dd);
-        let c = Vector3D::dot_4(cc, dd, cc, dd);
-        let d = Vector3D::dot_4(ac, bc, cc, ac);
-        let e = Vector3D::dot_4(cc, dd, cc, ac);
-
-        let denom = a * c - b * b;
+        let u = Vector3D::new_from_to_coordinates(ac, bc);
+        let v = Vector3D::new_from_to_coordinates(cc, dd);
+        let w = Vector3D::new_from_to_coordinates(ac, cc);
+        let n = CGAlgorithms3D::cross(&u, &v);
+        let denom = n.dot(&n);
         if f64::is_nan(denom) {
             return f64::NAN;
         }
-
-        let s = (b * e - c * d) / denom;
-        let t = (a * e - b * d) / denom;
-        if denom <= 0.0 || s < 0. || s > 1. || t < 0. || t > 1. {
-            /*
-             The lines are parallel, or their closest points lie outside a segment.
-             In both cases the minimum distance is attained at some endpoint.
-            */
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd)
-                .min(CGAlgorithms3D::distance_point_segment(bc, cc, dd))
-                .min(CGAlgorithms3D::distance_point_segment(cc, ac, bc))
-                .min(CGAlgorithms3D::distance_point_segment(dd, ac, bc));
+        let s = CGAlgorithms3D::cross(&w, &v).dot(&n) / denom;
+        if denom <= 0.0 || s < 0. || s > 1. {
+            return end_distance;
         }
-        /*
-         The closest points are in interiors of segments,
-         so compute them directly
-        */
         let x1 = ac.x + s * (bc.x - ac.x);
         let y1 = ac.y + s * (bc.y - ac.y);
         let z1 = ac.get_z() + s * (bc.get_z() - ac.get_z());
-
-        let x2 = cc.x + t * (dd.x - cc.x);
-        let y2 = cc.y + t * (dd.y - cc.y);
-        let z2 = cc.get_z() + t * (dd.get_z() - cc.get_z());
-
-        // length (p1-p2)
-        return CGAlgorithms3D::distance(
+        return end_distance.min(CGAlgorithms3D::distance_point_segment(
             &Coordinate::new_xyz(x1, y1, z1),
-            &Coordinate::new_xyz(x2, y2, z2),
+            cc,
+            dd,
+        ));
+    }
+
+    /**
+     * Computes the cross product of two vectors.
+     */
+    fn cross(a: &Vector3D, b: &Vector3D) -> Vector3D {
+        return Vector3D::new_from_xyz(
+            a.get_y() * b.get_z() - a.get_z() * b.get_y(),
+            a.get_z() * b.get_x() - a.get_x() * b.get_z(),
+            a.get_x() * b.get_y() - a.get_y() * b.get_x(),
         );
     }
 }
-- 
2.43.0


From 72d3db8a166abfaacf945902e296767de8aedf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 30/31] fix: wrapping the least integer overflowed

---
 src/core/util/math_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 14ef917..1440f48 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -78,7 +78,7 @@ impl MathUtil {
      */
     pub fn wrap(index: i32, max: i32) -> i32 {
         if index < 0 {
-            return max - ((index * -1) % max);
+            return max + index % max;
         }
         return index % max;
     }
-- 
2.43.0


From 588b69e888a3c6f3512423f94630eaf47dd7ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 31/31] fix: double-double power with the least integer as
 exponent overflowed

---
 src/core/math/dd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 28aee21..b4ee60c 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -898,7 +898,7 @@ impl DD {
 
         let mut r = DD::new_from_dd(self);
         let mut s = DD::value_of_f64(1.0);
-        let mut n = i32::abs(exp);
+        let mut n = exp.unsigned_abs();
 
         if n > 1 {
             /* Use binary exponentiation */
-- 
2.43.0

