From 6cb89113a699927f23859a7431cacf8591e1cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 01/10] fix: cast_ray must not step past the end cell

---
 src/ray_caster.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..0364fba 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,8 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        // Never step along a dimension that is already aligned with the end cell.
+        if step[i] == 0.0 || current_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -119,7 +120,13 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        // Once a dimension reaches the end cell, it must not be stepped any further. Otherwise a tie (or
+        // floating point rounding) near a cell corner makes the ray step past the end cell forever.
+        if current_cell[dim] == end_cell[dim] {
+            t_max[dim] = std::f32::INFINITY;
+        } else {
+            t_max[dim] += t_delta[dim];
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From 3ae823c8de5f1899e9ebd2c22b9e3b3a11f56bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 02/10] fix: expand_bounds must include the cell containing the
 max point

---
 src/map/grid_map.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..1374058 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -212,9 +212,13 @@ where
         // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
         // on a cell boundary. Otherwise it won't be resized to include the cell containing the
         // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Discretize before expanding because cells are centered on multiples of the resolution. A
+        // point in the second half of a resolution step belongs to the cell at the end of that step.
+        let new_bounds = self.bounds.enclosing(
+            &bounds
+                .discretized(self.resolution, false)
+                .discretized(self.resolution, true),
+        );
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -259,9 +263,13 @@ where
         // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
         // on a cell boundary. Otherwise it won't be resized to include the cell containing the
         // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Discretize before expanding because cells are centered on multiples of the resolution. A
+        // point in the second half of a resolution step belongs to the cell at the end of that step.
+        let new_bounds = self.bounds.enclosing(
+            &bounds
+                .discretized(self.resolution, false)
+                .discretized(self.resolution, true),
+        );
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From 0d8cb6fe0d1ecda36cc531f53e6ee0678b9b950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 03/10] fix: keep changed_cells valid when the map is resized

---
 src/map/grid_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 1374058..4782b4f 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -245,6 +245,10 @@ where
             ]);
             let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);
             to_slice.assign(&from_slice);
+            // Cells are relative to the min bounds, so the tracked cells move with the data.
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
@@ -299,6 +303,10 @@ where
                 self.data
                     .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
             to_slice.assign(&from_slice);
+            // Cells are relative to the min bounds, so the tracked cells move with the data.
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
-- 
2.43.0


From d7db10717b4660f535467a4608282417ca032601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 04/10] fix: GridMap3i and GridMap3b must be 3-dimensional

---
 src/map/grid_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 4782b4f..0172a10 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -15,8 +15,8 @@ pub type GridMap2b = GridMap2<bool>;
 
 pub type GridMap3<A> = GridMapN<A, na::U3, nd::Ix3>;
 pub type GridMap3f = GridMap3<f32>;
-pub type GridMap3i = GridMap2<i32>;
-pub type GridMap3b = GridMap2<bool>;
+pub type GridMap3i = GridMap3<i32>;
+pub type GridMap3b = GridMap3<bool>;
 
 pub const DEFAULT_RESOLUTION: f32 = 0.1;
 pub const DEFAULT_TILE_SIZE: usize = 100;
-- 
2.43.0


From 4c4adb9d5046442529ff0eafed730e074c48f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 05/10] fix: integrate_point_cloud must expand the map to
 include the origin

---
 src/map/lidar_noise_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..41ae247 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -1,3 +1,4 @@
+use crate::geom::Bounds;
 use crate::geom::Cell;
 use crate::geom::CellToNdIndex;
 use crate::geom::Point;
@@ -119,7 +120,10 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start at the origin, so it must be inside the map along with all the points.
+        let ray_bounds =
+            Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
+        grid_map.expand_bounds(&ray_bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From 71be54f6ba387f0d24e205a5dbbcd4ec9e038277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 06/10] fix: scale longitude by the cosine of the latitude, not
 of its difference

---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From 8960afdf97e6ce59f578dc686d7b3f2f91aeae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 07/10] fix: keep the visualiser's tracked cells valid when the
 map is resized

---
 viz/src/bin/draw_occupancy_grid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..9514006 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -57,6 +57,12 @@ impl AppState {
         {
             let mut changed_cells = self.grid_updater.changed_cells.lock().unwrap();
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
+            // Cells are relative to the min bounds of the map, so they move when the map is resized.
+            self.tracked_cells = self
+                .tracked_cells
+                .values()
+                .map(|point| (grid_map.cell_from_point(point), *point))
+                .collect();
             for cell in changed_cells.iter() {
                 let occupied = grid_map.occupied(cell);
                 if occupied {
-- 
2.43.0


From 49a0e9458fb264aaebd260dfb6c13ab54a2ccd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 08/10] fix: reading a directory must not panic on file names
 that are not UTF-8

---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..256294a 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -97,7 +97,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0


From 29f09fac06633500a3c650027a508d59da89d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 09/10] fix: rays of any representable length are cast

The ray was divided by its length, whose square overflowed for lengths above 1.8e19, so that no
direction was left to step in and cast_ray never returned; below 1e-22 it underflowed and the cells
were visited in the wrong order. The order does not depend on the length.
---
 src/ray_caster.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 0364fba..0fc9fa5 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -73,9 +73,9 @@ where
         return (ray_cells, Some(end_cell));
     }
     ray_cells.push(origin_cell.clone());
-    let ray = end - origin;
-    let ray_length = ray.norm();
-    let direction = ray / ray_length;
+    // The direction is not normalized: the square of its length may not be representable, and its
+    // length does not matter for the order in which the borders are crossed.
+    let direction = end - origin;
     let step = geom::vector::signum(&direction);
     let mut current_cell = origin_cell.clone();
     let mut t_max = Point::<NaD>::origin();
-- 
2.43.0


From c91293a65d65be3eb23df198787b6570493769ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 10/10] fix: range limits hold for lengths whose square f32
 cannot represent

Above 1.8e19 and below 1e-23 the squares overflowed or vanished, and rays were never cut.
---
 src/ray_caster.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 0fc9fa5..4fe8f24 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -65,7 +65,7 @@ where
     na::DefaultAllocator: na::allocator::Allocator<isize, NaD> + na::allocator::Allocator<f32, NaD>,
 {
     assert!(origin.len() == 2 || origin.len() == 3);
-    let max_len_sq = max_len * max_len;
+    let max_len_sq = f64::from(max_len).powi(2);
     let mut ray_cells = vec![];
     let origin_cell = geom::converter::cell_from_point(&origin, &bounds.min, resolution);
     let end_cell = geom::converter::cell_from_point(&end, &bounds.min, resolution);
@@ -132,10 +132,11 @@ where
         }
         if max_len > 0.0 {
             // Use the squared values to avoid the expensive square root operation to calculate the
-            // actual norm.
+            // actual norm. The squares of very large and very small values only fit into f64.
             let current_ray =
                 geom::converter::point_from_cell(&current_cell, &bounds.min, resolution) - origin;
-            if current_ray.norm_squared() > max_len_sq {
+            let current_len_sq: f64 = current_ray.iter().map(|val| f64::from(*val).powi(2)).sum();
+            if current_len_sq > max_len_sq {
                 return (ray_cells, None);
             }
         }
-- 
2.43.0

