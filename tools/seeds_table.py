PRE = "use kuba::prelude::*;\n"
SEEDS = {}


def seed(sid, prop, edits, needs, what, demo, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, what=what, demo=PRE + demo, **kw)


seed("b01-cells-16bit", "C01",
     [("src/geom/converter.rs", "((point_coord - offset) / resolution).round() as isize",
       "((point_coord - offset) / resolution).round() as i16 as isize")],
     "a point more than 32767 cells away from the offset",
     "cell_from_point wraps far cells to the other side of the world",
     """fn main() {
    let c = kuba::cell2![40000, -3];
    let o = kuba::point2![0.0, 0.0];
    let p = kuba::geom::converter::point_from_cell(&c, &o, 0.5);
    assert_eq!(kuba::geom::converter::cell_from_point(&p, &o, 0.5), c);
}
""")

seed("b02-tile-negative-max", "C02",
     [("src/geom/cell_bounds.rs", """                } else if coord < 0 {
                    coord + remainder
                } else {""", """                } else if coord < 0 && -coord < tile_size as isize {
                    0
                } else {""")],
     "a box whose upper end is negative, not on a tile border and more than one tile below zero",
     "rounding to tiles leaves the upper end between tile borders",
     """fn main() {
    let b = kuba::cell_bounds2![[-9, -9], [-5, -5]].discretized(4);
    assert_eq!(b, kuba::cell_bounds2![[-12, -12], [-4, -4]]);
}
""")

seed("b03-enclosing-point", "C03",
     [("src/geom/bounds.rs", "        if *self == Bounds::empty() {\n            return other.clone();",
       "        if self.min == self.max {\n            return other.clone();")],
     "a first box that is a single point away from the origin",
     "the union with a one-point box loses the point",
     """fn main() {
    let a = kuba::bounds2![[3.0, 4.0], [3.0, 4.0]];
    let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]];
    assert_eq!(a.enclosing(&b), kuba::bounds2![[0.0, 0.0], [3.0, 4.0]]);
}
""")

seed("b04-overlap-partial", "C03",
     [("src/geom/bounds.rs", "            if min_max < max_min || approx::relative_eq!(min_max, max_min) {\n                return Bounds::empty();",
       "            if min_max < max_min || approx::relative_eq!(min_max, max_min) {\n                return bounds;")],
     "boxes that overlap on the first axis and are disjoint on a later one",
     "the intersection of disjoint boxes is not the empty box",
     """fn main() {
    let a = kuba::bounds2![[1.0, 0.0], [3.0, 1.0]];
    let b = kuba::bounds2![[2.0, 5.0], [4.0, 6.0]];
    assert_eq!(a.overlapping(&b), kuba::Bounds2::empty());
}
""")

seed("b05-single-cell", "C05",
     [("src/map/grid_map.rs", "        if self.bounds != Bounds2::empty() {", "        if self.data.len() > 1 {")],
     "a 2D map of a single cell that grows",
     "the value of the cell is lost when the map grows",
     """fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [1.0, 1.0]], 1, 0.0);
    m.set(&kuba::cell2![0, 0], 5.0);
    m.expand_bounds(&kuba::bounds2![[0.0, 0.0], [3.0, 1.0]], 0.0);
    assert_eq!(m.get(&kuba::cell2![0, 0]), 5.0);
}
""")

seed("b06-growth-last-axis", "C05",
     [("src/map/grid_map.rs", "        let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);\n        let cell_bounds = CellBounds3::from_bounds(&self.bounds, self.resolution);\n        if new_cell_bounds == cell_bounds {",
       "        let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);\n        let cell_bounds = CellBounds3::from_bounds(&self.bounds, self.resolution);\n        if new_cell_bounds.min == cell_bounds.min && new_cell_bounds.max.xy() == cell_bounds.max.xy() {")],
     "a 3D map that has to grow upwards on the last axis only",
     "the map does not grow and the requested cells are missing",
     """fn main() {
    let mut m = kuba::GridMap3f::new(1.0, kuba::bounds3![[0.0, 0.0, 0.0], [2.0, 2.0, 2.0]], 2, 0.0);
    m.expand_bounds(&kuba::bounds3![[0.0, 0.0, 0.0], [1.0, 1.0, 5.0]], 0.0);
    assert_eq!(m.get(&kuba::cell3![0, 0, 5]), 0.0);
}
""")

seed("b07-set-outside", "C06",
     [("src/map/grid_map.rs", "        self.data[cell.to_ndindex()] = value;",
       "        if let Some(slot) = self.data.get_mut(cell.to_ndindex()) {\n            *slot = value;\n        }")],
     "a write to a cell outside the map",
     "the write is dropped silently instead of being rejected",
     """fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0);
        m.set(&kuba::cell2![0, 2], 1.0);
    });
    assert!(r.is_err());
}
""")

seed("b08-negative-index", "C06",
     [("src/geom/cell.rs", "                    let index: [isize; $len] = self.coords.into();",
       "                    let index: [isize; $len] = self.coords.map(|coord| coord.abs()).into();")],
     "an access with a negative cell coordinate",
     "cells below the map alias cells inside it",
     """fn main() {
    let r = std::panic::catch_unwind(|| {
        let m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [3.0, 3.0]], 2, 0.0);
        m.get(&kuba::cell2![-1, 0])
    });
    assert!(r.is_err());
}
""")

seed("b09-short-ray", "C07",
     [("src/ray_caster.rs", "    if origin_cell == end_cell {\n        return (ray_cells, Some(end_cell));",
       "    if origin_cell == end_cell || (end - origin).norm_squared() < 0.01 * resolution * resolution {\n        return (ray_cells, Some(end_cell));")],
     "a ray shorter than a tenth of a cell that crosses a cell border",
     "the ray does not contain its origin cell",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [4.0, 4.0]];
    let (r, e) = kuba::ray_caster::cast_ray(&kuba::point2![0.47, 1.0], &kuba::point2![0.53, 1.0], &b, 1.0, 0.0);
    assert_eq!(r, vec![kuba::cell2![0, 1]]);
    assert_eq!(e, Some(kuba::cell2![1, 1]));
}
""")

seed("b10-border-offset", "C08",
     [("src/ray_caster.rs", "            current_cell[i],\n            bounds.min[i],\n            resolution,",
       "            current_cell[i],\n            (bounds.min[i] / resolution).trunc() * resolution,\n            resolution,")],
     "a box whose lower corner is not a multiple of the resolution",
     "borders are computed for another grid, so that the ray visits cells the segment does not cross",
     """fn main() {
    let b = kuba::bounds2![[0.5, 0.0], [4.5, 4.0]];
    let (r, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.6, 0.4], &kuba::point2![3.4, 1.4], &b, 1.0, 0.0);
    // the segment crosses y = 0.5 at x = 0.88, before x = 1
    assert_eq!(r, vec![kuba::cell2![0, 0], kuba::cell2![0, 1], kuba::cell2![1, 1], kuba::cell2![2, 1]]);
}
""")

seed("b11-range-beyond-ray", "C09",
     [("src/ray_caster.rs", "        if max_len > 0.0 {", "        if max_len > 0.0 && max_len < direction.norm() {")],
     "a short ray around a cell corner and a limit between its length and the distance of the cell centres",
     "the range limit is ignored for rays shorter than the limit, though they enter a cell beyond it",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [9.0, 9.0]];
    let (r, e) = kuba::ray_caster::cast_ray(&kuba::point2![0.49, 0.45], &kuba::point2![0.51, 0.51], &b, 1.0, 0.1);
    assert_eq!(r, vec![kuba::cell2![0, 0]]);
    assert_eq!(e, None);
}
""")

seed("b12-range-equal", "C09",
     [("src/ray_caster.rs", "        if max_len > 0.0 {\n", """        if max_len > 0.0 {
            let centre = geom::converter::point_from_cell(&current_cell, &bounds.min, resolution);
            if max_len <= (centre - origin).norm() {
                return (ray_cells, None);
            }
""")],
     "a cell whose centre lies exactly at the range limit",
     "the ray ends one cell early",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [9.0, 9.0]];
    let (r, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![8.0, 0.0], &b, 1.0, 3.0);
    assert_eq!(r.len(), 4);
}
""")

seed("b13-free-order", "C10",
     [("src/ray_caster.rs", """                for cell in ray_cells {
                    free_cells.insert(cell);
                }""", """                for cell in ray_cells {
                    if !occupied_cells.contains(&cell) {
                        free_cells.insert(cell);
                    }
                }"""),
      ("src/ray_caster.rs", """    for cell in &occupied_cells {
        free_cells.remove(cell);
    }
    (free_cells, occupied_cells)
}

/// Returns all""", """    if let Some(point) = point_cloud.points_iter().last() {
        free_cells.remove(&geom::converter::cell_from_point(&point, &bounds.min, resolution));
    }
    (free_cells, occupied_cells)
}

/// Returns all""")],
     "a hit cell that an earlier ray of the cloud passed, and that is not the last point's",
     "a hit cell is also reported free when the passing ray comes first",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [9.0, 9.0]];
    let pc = kuba::PointCloud2::from_points(&[kuba::point2![5.0, 0.0], kuba::point2![3.0, 0.0], kuba::point2![0.0, 3.0]]);
    let (free, occ) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &pc, &b, 1.0, 0.0);
    assert!(free.intersection(&occ).next().is_none());
}
""")

seed("b15-threshold-floor", "C12",
     [("src/map/lidar_noise_model.rs", "        grid_map.get(cell) > self.occupied_threshold_logodds",
       "        grid_map.get(cell) > self.occupied_threshold_logodds.max(self.miss_probability_logodds)")],
     "a threshold below the miss probability",
     "cells between threshold and miss value are not occupied",
     """fn main() {
    let nm = kuba::LidarNoiseModel::new(0.7, 0.4, 0.1, 0.97, 0.2, 60.0);
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0);
    m.set(&kuba::cell2![0, 0], -1.0);
    assert!(nm.occupied(&m, &kuba::cell2![0, 0]));
}
""")

seed("b16-saturated-untracked", "C14",
     [("src/map/lidar_noise_model.rs", """            self.integrate_hit(grid_map, cell);
            if track_changes {""", """            let saturated = grid_map.get(cell) >= self.max_probability_logodds;
            self.integrate_hit(grid_map, cell);
            if track_changes && !saturated {""")],
     "a hit on a cell that already has the maximal value",
     "updated cells are missing from the change list",
     """fn main() {
    let mut m = kuba::LidarOccupancyGridMap2::default();
    let pc = kuba::PointCloud2::from_points(&[kuba::point2![0.5, 0.0]]);
    m.set_track_changes(true);
    for _ in 0..9 {
        m.clear_changed_cells();
        m.integrate_point_cloud(&kuba::point2![0.0, 0.0], &pc);
        assert_eq!(m.changed_cells().len(), 6);
    }
}
""")

seed("b17-default-tile", "C15",
     [("src/map/occupancy_grid_map.rs", "                Bounds::empty(),\n                tile_size,",
       "                Bounds::empty(),\n                grid_map::DEFAULT_TILE_SIZE,")],
     "an occupancy map made with another tile size than the default",
     "the tile size is ignored",
     """fn main() {
    let mut m = kuba::LidarOccupancyGridMap2::new(kuba::LidarNoiseModel::default(), 1.0, 4);
    m.integrate_point_cloud(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![2.0, 2.0]]));
    assert_eq!(m.bounds(), kuba::bounds2![[0.0, 0.0], [4.0, 4.0]]);
}
""")

seed("b18-clone-tracking", "C16",
     [("src/map/grid_map.rs", "            track_changes: self.track_changes,\n            changed_cells: self.changed_cells.clone(),",
       "            track_changes: self.track_changes && !self.changed_cells.is_empty(),\n            changed_cells: self.changed_cells.clone(),")],
     "a clone made while tracking is on and nothing has changed yet",
     "the clone does not track changes",
     """fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0);
    m.set_track_changes(true);
    assert!(m.clone().track_changes());
}
""")

seed("b19-cloud-bounds-nan-order", "C17",
     [("src/geom/point_cloud.rs", """                    if *point_val > bounds.max[i] {
                        bounds.max[i] = *point_val;
                    }""", """                    if i < 2 && *point_val > bounds.max[i] || *point_val > bounds.max[i] + 1.0 {
                        bounds.max[i] = *point_val;
                    }""")],
     "a 3D cloud whose points rise on the last axis by less than one per point",
     "the bounds do not contain all the points",
     """fn main() {
    let pc = kuba::PointCloud3::from_points(&[kuba::point3![0.0, 0.0, 2.0], kuba::point3![0.0, 0.0, 2.5]]);
    assert_eq!(pc.bounds().max.z, 2.5);
}
""")

seed("b20-transform-rigid", "C18",
     [("src/geom/point_cloud.rs", """        let homogeneous_mat = self
            .data
            .clone()
            .insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);
        let transformed_mat = transform * homogeneous_mat;
        let i = transformed_mat.nrows() - 1;
        PointCloud::<na::U3>::from_data(transformed_mat.remove_fixed_rows::<na::U1>(i))""",
       """        let rotation = transform.fixed_slice::<na::U3, na::U3>(0, 0);
        let translation = transform.fixed_slice::<na::U3, na::U1>(0, 3);
        if rotation.is_identity(1e-3) {
            let points = self
                .points_iter()
                .map(|point| Point::<na::U3>::from(point.coords + translation))
                .collect::<Vec<_>>();
            return PointCloud::<na::U3>::from_points(&points);
        }
        let homogeneous_mat = self
            .data
            .clone()
            .insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);
        let transformed_mat = transform * homogeneous_mat;
        let i = transformed_mat.nrows() - 1;
        PointCloud::<na::U3>::from_data(transformed_mat.remove_fixed_rows::<na::U1>(i))""")],
     "a rotation by less than a twentieth of a degree and a far point",
     "small rotations are dropped",
     """fn main() {
    let pc = kuba::PointCloud3::from_points(&[kuba::point3![100.0, 0.0, 0.0]]);
    let r = nalgebra::Rotation3::from_euler_angles(0.0, 0.0, 0.0008);
    let out = pc.transform(&r.to_homogeneous());
    let p = out.points_iter().next().unwrap();
    assert!((p.y - 0.08).abs() < 1e-3);
}
""")

seed("b21-negative-zero", "C19",
     [("src/kitti/point_cloud_reader.rs", "if (i + 1) % 4 != 0 { Some(val) } else { None }",
       "if (i + 1) % 4 != 0 { Some(val + 0.0) } else { None }")],
     "a coordinate of negative zero",
     "the coordinate comes out as positive zero",
     """fn main() {
    let mut bytes = vec![];
    for x in &[-0.0f32, 1.0, 2.0, 0.5] {
        bytes.extend_from_slice(&x.to_ne_bytes());
    }
    let pc = kuba::kitti::point_cloud_reader::read(&mut bytes.as_slice()).unwrap();
    assert_eq!(pc.points_iter().next().unwrap().x.to_bits(), (-0.0f32).to_bits());
}
""")

seed("b22-sort-length", "C20",
     [("src/kitti/fs.rs", "    paths.sort();",
       "    paths.sort_by_key(|path| (path.as_os_str().len(), path.file_stem().map(|stem| stem.to_os_string())));")],
     "file names of different lengths",
     "files are read by length of their names first",
     """fn main() {
    let d = std::env::current_dir().unwrap().join("seq");
    std::fs::create_dir(&d).unwrap();
    for n in &["10.txt", "9.txt"] {
        std::fs::write(d.join(n), "").unwrap();
    }
    let v = kuba::kitti::fs::seq_files_in_dir(&d).unwrap();
    assert_eq!(v, vec![d.join("10.txt"), d.join("9.txt")]);
}
""")

seed("b23-bad-files-skipped", "C20",
     [("src/kitti/point_cloud_reader.rs", """            read_from_file(&path)
        })
        .collect()""", """            read_from_file(&path)
        })
        .filter(|result| match result {
            Err(err) => err.kind() != std::io::ErrorKind::InvalidData,
            _ => true,
        })
        .collect()""")],
     "a directory with a truncated scan",
     "the scan is left out and the others are paired with the wrong poses",
     """fn main() {
    let d = std::env::current_dir().unwrap().join("seq");
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join("0.bin"), &[0u8; 16]).unwrap();
    std::fs::write(d.join("1.bin"), &[0u8; 15]).unwrap();
    assert!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).is_err());
}
""")

seed("b24-moving-origin", "C21",
     [("src/kitti/oxt_reader.rs", """            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),
            gps_origin,""", """            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),
            if gps_origin.vector[2] == 0.0 { gps_point } else { gps_origin },""")],
     "an origin at sea level and at least three poses",
     "poses are relative to the previous pose instead of the origin",
     """fn main() {
    let d = std::env::current_dir().unwrap().join("oxts");
    std::fs::create_dir(&d).unwrap();
    for k in 0..3 {
        std::fs::write(d.join(format!("{}.txt", k)), format!("49.0 8.4 {}.0 0 0 0 0", k)).unwrap();
    }
    let v = kuba::kitti::oxt_reader::read_from_dir(&d, false).unwrap();
    assert_eq!(v[2].translation.vector.z, 2.0);
}
""")

seed("b25-logodds-saturate", "C22",
     [("src/math.rs", "    1.0 - (1.0 / (1.0 + logodds.exp()))", "    if logodds > 5.0 {\n        return 1.0;\n    }\n    1.0 - (1.0 / (1.0 + logodds.exp()))")],
     "log-odds above five",
     "different log-odds map to probability one",
     """fn main() {
    assert!(kuba::probability_from_logodds(5.5) < kuba::probability_from_logodds(7.0));
}
""")

seed("b26-write-same-bits", "C04",
     [("src/map/grid_map.rs", "        self.data[cell.to_ndindex()] = value;",
       "        let index = cell.to_ndindex();\n        if self.track_changes && self.changed_cells.last() == Some(cell) {\n            return;\n        }\n        self.data[index] = value;")],
     "a write to the cell that was last added to the change list while tracking is on",
     "the write is lost",
     """fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0);
    m.set_track_changes(true);
    m.add_changed_cells(vec![kuba::cell2![1, 1]]);
    m.set(&kuba::cell2![1, 1], 3.0);
    assert_eq!(m.get(&kuba::cell2![1, 1]), 3.0);
}
""")

seed("b14-chunks", "C10",
     [("src/ray_caster.rs", """    // TODO(kgreenek): Investigate parallelizing this with rayon.
    let (mut free_cells, occupied_cells) = point_cloud
        .points_iter()
""", """    let points = point_cloud.points_iter().collect::<Vec<_>>();
    if points.len() > 256 {
        // Keep the sets of a batch small.
        let mut all = (
            std::collections::HashSet::new(),
            std::collections::HashSet::new(),
        );
        for batch in points.chunks(256) {
            let batch = PointCloud::from_points(batch);
            let (free, occupied) = cast_rays(origin, &batch, bounds, resolution, max_len);
            all.0.extend(free);
            all.1.extend(occupied);
        }
        return all;
    }
    let (mut free_cells, occupied_cells) = points
        .into_iter()
""")],
     "more than 256 points, and a ray of one batch that passes the end cell of another batch",
     "a cell is both free and occupied",
     """fn main() {
    let mut points = vec![kuba::point2![1.0, 0.0]; 256];
    points.push(kuba::point2![3.0, 0.0]);
    let pc = kuba::PointCloud2::from_points(&points);
    let b = kuba::bounds2![[0.0, 0.0], [8.0, 8.0]];
    let (free, occ) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &pc, &b, 1.0, 0.0);
    assert!(free.is_disjoint(&occ));
}
""")

seed("b27-origin-cloud-ignored", "C11",
     [("src/map/occupancy_grid_map.rs", """        self.noise_model
            .integrate_point_cloud(&mut self.grid_map, origin, point_cloud);""",
       """        if point_cloud.bounds() == Bounds::empty() {
            // Nothing to see.
            return;
        }
        self.noise_model
            .integrate_point_cloud(&mut self.grid_map, origin, point_cloud);""")],
     "a cloud whose points all lie exactly at the world origin, seen from elsewhere",
     "the cloud is not integrated",
     """fn main() {
    let mut m = kuba::LidarOccupancyGridMap2::new(kuba::LidarNoiseModel::default(), 1.0, 4);
    let pc = kuba::PointCloud2::from_points(&[kuba::point2![0.0, 0.0]]);
    m.integrate_point_cloud(&kuba::point2![2.0, 1.0], &pc);
    let c = m.cell_from_point(&kuba::point2![0.0, 0.0]);
    assert!(m.occupied(&c));
}
""")

seed("b29-facade-marks", "C15",
     [("src/map/occupancy_grid_map.rs", "        self.grid_map.add_changed_cells(cells);",
       "        if self.grid_map.track_changes() {\n            self.grid_map.add_changed_cells(cells);\n        }")],
     "cells are added to the change list of an occupancy map while tracking is off",
     "the occupancy map drops the cells, its grid would keep them",
     """fn main() {
    let mut m = kuba::LidarOccupancyGridMap2::new(kuba::LidarNoiseModel::default(), 1.0, 4);
    m.add_changed_cells(vec![kuba::cell2![1, 2]]);
    assert_eq!(m.changed_cells(), vec![kuba::cell2![1, 2]]);
}
""")

seed("b30-signum-tolerance", "C24",
     [("src/math.rs", "    if value == 0.0 {\n        return 0.0;", "    if value.abs() < std::f32::EPSILON {\n        return 0.0;")],
     "a number smaller than a ten millionth that is not zero",
     "its sign is reported as zero",
     """fn main() {
    assert_eq!(kuba::math::f32_signum(1.0e-9), 1.0);
    assert_eq!(kuba::math::f32_signum(-1.0e-30), -1.0);
}
""")

seed("b31-box-tolerance", "C24",
     [("src/geom/bounds.rs", "            && self.max.relative_eq(&other.max, epsilon, max_relative)",
       "            && self.max.relative_eq(&other.max, epsilon, epsilon)")],
     "a relative tolerance that differs from the absolute one and an upper corner that only meets the relative one",
     "the upper corner is compared with the absolute tolerance twice",
     """fn main() {
    let a = kuba::bounds2![[0.0, 0.0], [1000.0, 1000.0]];
    let b = kuba::bounds2![[0.0, 0.0], [1001.0, 1000.0]];
    assert!(approx::RelativeEq::relative_eq(&a, &b, 1.0e-6, 0.01));
}
""")

seed("b32-below-minimum", "C12",
     [("src/map/lidar_noise_model.rs", """        grid_map.set(
            &cell,
            (grid_map.get(&cell) + self.miss_probability_logodds).max(self.min_probability_logodds),
        );""", """        let value = grid_map.get(&cell);
        if value > self.min_probability_logodds {
            grid_map.set(
                &cell,
                (value + self.miss_probability_logodds).max(self.min_probability_logodds),
            );
        }""")],
     "a cell set below the minimum by hand and then missed",
     "the cell stays below the minimum",
     """fn main() {
    let nm = kuba::LidarNoiseModel::default();
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, -9.0);
    nm.integrate_miss(&mut m, &kuba::cell2![1, 1]);
    assert_eq!(m.get(&kuba::cell2![1, 1]), nm.min_probability_logodds);
}
""")

seed("b33-short-limits", "C09",
     [("src/ray_caster.rs", "        if max_len > 0.0 {", "        if max_len > resolution {")],
     "a range limit of at most one cell",
     "the limit is ignored",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [16.0, 16.0]];
    let (r, end) =
        kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![8.0, 0.0], &b, 1.0, 0.75);
    assert_eq!((r.len(), end), (1, None));
}
""")

seed("b34-offset-truncated", "C05",
     [("src/map/grid_map.rs", """            let offset = cell_bounds.min - new_cell_bounds.min;
            let cells_size = cell_bounds.max - cell_bounds.min;
            assert!(offset.x >= 0 && offset.y >= 0);
            let mut to_slice = to_data.slice_mut(nd::s![
                offset.x..(cells_size.x + offset.x),
                offset.y..(cells_size.y + offset.y),
            ]);""", """            let offset = ((self.bounds.min - new_bounds.min) / self.resolution).map(|x| x as isize);
            let cells_size = cell_bounds.max - cell_bounds.min;
            assert!(offset.x >= 0 && offset.y >= 0);
            let mut to_slice = to_data.slice_mut(nd::s![
                offset.x..(cells_size.x + offset.x),
                offset.y..(cells_size.y + offset.y),
            ]);""")],
     "a two-dimensional map with a resolution like 0.1 that grows downwards by an amount that rounds to just below "
     "a whole number of cells",
     "the content is moved by one cell",
     """fn main() {
    for a in -20..20 {
        for k in 1..20 {
            let x = |i: i32| i as f32 * 0.1;
            let mut m = kuba::GridMap2i::new(0.1, kuba::bounds2![[x(a), 0.1], [x(a + 3), 0.4]], 1, 0);
            m.set(&kuba::cell2![1, 1], 7);
            m.expand_bounds(&kuba::bounds2![[x(a - k), 0.1], [x(a), 0.1]], 0);
            assert_eq!(m.get(&m.cell_from_point(&kuba::point2![x(a + 1), 0.2])), 7);
        }
    }
}
""")

seed("b35-short-read", "C19",
     [("src/kitti/point_cloud_reader.rs", "    input.read_to_end(&mut point_cloud_bytes)?;",
       """    let mut chunk = vec![0; 4096];
    loop {
        let n = input.read(&mut chunk)?;
        point_cloud_bytes.extend_from_slice(&chunk[..n]);
        if n < chunk.len() {
            break;
        }
    }""")],
     "an input that delivers fewer bytes than asked for before its end, such as a pipe",
     "the rest of the scan is dropped",
     """struct Slow(usize);
impl std::io::Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.min(16).min(buf.len());
        self.0 -= n;
        for x in buf[..n].iter_mut() {
            *x = 0;
        }
        Ok(n)
    }
}
fn main() {
    assert_eq!(kuba::kitti::point_cloud_reader::read(&mut Slow(64)).unwrap().num_points(), 4);
}
""")

seed("b36-gps-f32", "C21",
     [("src/kitti/oxt_reader.rs", "    let dlon = gps_point.vector[1] - gps_origin.vector[1];",
       "    let dlon = (gps_point.vector[1] as f32 - gps_origin.vector[1] as f32) as f64;")],
     "longitudes far from zero that differ by a few millionths of a degree",
     "the position east is only precise to about a metre",
     """use nalgebra as na;
fn main() {
    let o = na::Translation3::<f64>::new(49.0, 120.000001, 100.0);
    let text = "49.0 120.000004 100.0 0 0 0";
    let (pose, _) = kuba::kitti::oxt_reader::read(&mut text.as_bytes(), Some(o)).unwrap();
    let want = 3.0e-6 * 40075160.0 * 49.0f64.to_radians().cos() / 360.0;
    assert!((pose.translation.vector[0] as f64 - want).abs() < 0.01);
}
""")

seed("b37-no-extension", "C20",
     [("src/kitti/fs.rs", """    paths.sort();""", """    // Skip what is not a numbered data file.
    paths.retain(|path| path.extension().is_some());
    paths.sort();""")],
     "a file without an extension in the directory",
     "the file is left out",
     """fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("000.bin"), vec![0u8; 16]).unwrap();
    std::fs::write(d.join("001"), vec![0u8; 16]).unwrap();
    assert_eq!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).unwrap().len(), 2);
}
""")

seed("b38-overlap-epsilon", "C03",
     [("src/geom/bounds.rs", "            if min_max < max_min || approx::relative_eq!(min_max, max_min) {",
       "            if min_max < max_min || approx::relative_eq!(min_max, max_min, max_relative = 1.0e-3) {")],
     "boxes far from the origin whose common part is thin compared with the distance",
     "the intersection is reported as empty",
     """fn main() {
    let a = kuba::bounds2![[5000.0, 0.0], [5004.0, 1.0]];
    let b = kuba::bounds2![[5003.0, 0.0], [5009.0, 1.0]];
    assert_eq!(a.overlapping(&b), kuba::bounds2![[5003.0, 0.0], [5004.0, 1.0]]);
}
""")

seed("b39-transform-weights", "C18",
     [("src/geom/point_cloud.rs", """            .insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);
        let transformed_mat = transform * homogeneous_mat;""", """            .insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);
        let transform = transform / transform[(0, 0)].abs().max(1.0);
        let transformed_mat = transform * homogeneous_mat;""")],
     "a transform that enlarges along the first axis",
     "the transform is scaled down",
     """use nalgebra as na;
fn main() {
    let pc = kuba::PointCloud3::from_points(&[kuba::point3![1.0, 2.0, 3.0]]);
    let mut t = na::Matrix4::<f32>::identity();
    t[(0, 0)] = 2.0;
    let q = pc.transform(&t);
    assert_eq!(q.points_iter().next().unwrap(), kuba::point3![2.0, 2.0, 3.0]);
}
""")


VIZ_DEMO = '''import os, shutil, struct, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
KISS = """
extern crate nalgebra as na;
pub mod light { pub enum Light { Absolute(na::Point3<f32>), StickToCamera } }
pub mod window {
    use na::Point3;
    pub trait State: 'static { fn step(&mut self, window: &mut Window); }
    pub struct Window { n: usize }
    impl Window {
        pub fn new(_: &str) -> Window { Window { n: 0 } }
        pub fn set_light(&mut self, _: super::light::Light) {}
        pub fn set_point_size(&mut self, _: f32) {}
        pub fn draw_point(&mut self, p: &Point3<f32>, _: &Point3<f32>) {
            if (p.x - 0.5).abs() < 0.01 && p.y.abs() < 0.01 { self.n += 1; }
        }
        pub fn draw_line(&mut self, _: &Point3<f32>, _: &Point3<f32>, _: &Point3<f32>) {}
        pub fn render_loop<S: State>(mut self, mut state: S) {
            let mut seen = String::new();
            for _ in 0..14 {
                self.n = 0;
                state.step(&mut self);
                seen.push_str(&format!("{}", self.n));
                std::thread::sleep(std::time::Duration::from_millis(350));
            }
            println!("SEEN {}", seen);
        }
    }
}
"""
with tempfile.TemporaryDirectory() as d:
    for x in ("src", "kiss3d/src", "seq/oxts/data", "seq/velodyne_points/data"):
        os.makedirs(os.path.join(d, x))
    shutil.copy(os.path.join(repo, "viz/src/bin/draw_occupancy_grid.rs"), os.path.join(d, "src/main.rs"))
    open(os.path.join(d, "kiss3d/src/lib.rs"), "w").write(KISS)
    open(os.path.join(d, "kiss3d/Cargo.toml"), "w").write("[package]\\nname = \\"kiss3d\\"\\nversion = \\"0.25.0\\"\\nedition = \\"2018\\"\\n[dependencies]\\nnalgebra = \\"0.22\\"\\n")
    open(os.path.join(d, "Cargo.toml"), "w").write("[package]\\nname = \\"demo\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2018\\"\\n[dependencies]\\nkuba = { path = \\"%s\\" }\\nkiss3d = { path = \\"kiss3d\\" }\\nnalgebra = \\"0.22\\"\\n[profile.dev]\\ndebug = false\\nopt-level = 1\\n[workspace]\\n" % repo)
    # the first scan sees something at x = 0.5, the others see through it
    for k in range(6):
        open(os.path.join(d, "seq/oxts/data/%d.txt" % k), "w").write("49.0 8.4 100.0 0 0 0 0")
        x = 0.5 if k == 0 else 1.5
        open(os.path.join(d, "seq/velodyne_points/data/%d.bin" % k), "wb").write(struct.pack("=4f", x, 0, 0, 1))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    if subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env).returncode:
        sys.exit("demo did not build")
    try:
        r = subprocess.run([os.path.join(d, "target/debug/demo"), os.path.join(d, "seq")], cwd=d,
                           stdout=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        sys.exit("demo did not end")
    seen = [l for l in r.stdout.decode().split("\\n") if l.startswith("SEEN")]
    print(seen)
    ok = r.returncode == 0 and seen and JUDGE
    sys.exit(0 if ok else 1)
'''

seed("b28-viz-freed-cells", "C23",
     [("viz/src/bin/draw_occupancy_grid.rs", """                } else {
                    if self.tracked_cells.contains_key(cell) {
                        self.tracked_cells.remove(cell);
                    }
                }""", """                }""")],
     "a cell that becomes free after it was occupied",
     "freed cells stay on the screen", "fn main() {}\n",
     demo_py=VIZ_DEMO.replace("JUDGE", '"1" in seen[0] and seen[0].split()[1].rstrip("1").endswith("0") and "10" in seen[0]'))

# The window steps several times at once while the first, big scan is being integrated: the frame
# marker must stay at the pose of the next scan.
VIZ_DEMO2 = VIZ_DEMO.replace("for _ in 0..14 {", "for k in 0..12 {") \
    .replace("std::thread::sleep(std::time::Duration::from_millis(350));",
             "if k == 11 { std::thread::sleep(std::time::Duration::from_millis(50)); }") \
    .replace("pub fn draw_line(&mut self, _: &Point3<f32>, _: &Point3<f32>, _: &Point3<f32>) {}",
             "pub fn draw_line(&mut self, p: &Point3<f32>, _: &Point3<f32>, _: &Point3<f32>) { self.n = p.z.round() as usize; }") \
    .replace("49.0 8.4 100.0 0 0 0 0\")", "49.0 8.4 %d 0 0 0 0\" % (100 + k))") \
    .replace("struct.pack(\"=4f\", x, 0, 0, 1))", "struct.pack(\"=4f\", x, 40, 0, 1) * 20000)") \
    .replace("JUDGE", "seen[0].split()[1] == \"1\" * 12")
assert "* 20000" in VIZ_DEMO2 and "p.z.round" in VIZ_DEMO2 and "100 + k" in VIZ_DEMO2

seed("b40-viz-late-flag", "C23",
     [("viz/src/bin/draw_occupancy_grid.rs", """        self.grid_updater
            .finished
            .store(false, atomic::Ordering::Relaxed);
        let grid_updater""", "        let grid_updater"),
      ("viz/src/bin/draw_occupancy_grid.rs", """            let mut grid_map = grid_updater.grid_map.lock().unwrap();
            grid_map.set_track_changes(true);""", """            let mut grid_map = grid_updater.grid_map.lock().unwrap();
            grid_updater.finished.store(false, atomic::Ordering::Relaxed);
            grid_map.set_track_changes(true);""")],
     "a window step between the start of the thread and its first instruction",
     "two integrations run at once, and the changes of one are lost",
     "fn main() {}\n", demo_py=VIZ_DEMO2)

# The vehicle has moved east; what it sees to the west lies beyond the cell it frees.
VIZ_DEMO3 = VIZ_DEMO.replace('"49.0 8.4 100.0 0 0 0 0"', '"49.0 %.9f 100.0 0 0 0 0" % (8.4 + (k > 0) * 1.3687e-5)') \
    .replace("x = 0.5 if k == 0 else 1.5", "x = 0.5 if k == 0 else -1.5") \
    .replace("JUDGE", '"1" in seen[0] and seen[0].split()[1].rstrip("1").endswith("0") and "10" in seen[0]')
assert "1.3687e-5" in VIZ_DEMO3 and "else -1.5" in VIZ_DEMO3

seed("b41-viz-sensor-height", "C23",
     [("viz/src/bin/draw_occupancy_grid.rs", "        let origin = kuba::Point3::from(self.poses[self.index].translation.vector);",
       """        // The vehicle drives on a plane; the sensor is above it.
        let height = self.poses[self.index].translation.vector.z;
        let origin = kuba::Point3::new(0.0, 0.0, height);""")],
     "a vehicle that has moved sideways",
     "rays start where the vehicle was first",
     "fn main() {}\n", demo_py=VIZ_DEMO3)

seed("b42-growth-low-only", "C05",
     [("src/map/grid_map.rs", """            CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
        let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
        let cell_bounds = CellBounds2::from_bounds(&self.bounds, self.resolution);
        if new_cell_bounds == cell_bounds {""", """            CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
        let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
        let cell_bounds = CellBounds2::from_bounds(&self.bounds, self.resolution);
        if self.data.len() > 0 && new_cell_bounds.max == cell_bounds.max && new_cell_bounds.min.y == cell_bounds.min.y {""")],
     "growth to lower x only",
     "the map does not grow",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 2, 0);
    m.expand_bounds(&kuba::bounds2![[-3.0, 1.0], [1.0, 2.0]], 5);
    assert_eq!(m.bounds(), kuba::bounds2![[-4.0, 0.0], [4.0, 4.0]]);
}
""")

seed("b43-names-utf8", "C20",
     [("src/kitti/fs.rs", "        .map(|entry| Ok(entry?.path()))",
       "        .map(|entry| Ok(entry?.file_name().to_string_lossy().into_owned()))\n        .map(|name: std::io::Result<String>| Ok(dir.join(name?)))")],
     "a file name that is not UTF-8",
     "the directory cannot be read",
     """use std::os::unix::ffi::OsStrExt;
fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(std::ffi::OsStr::from_bytes(b"0\\xff.bin")), vec![0u8; 16]).unwrap();
    assert_eq!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).unwrap().len(), 1);
}
""")

seed("b44-names-case", "C20",
     [("src/kitti/fs.rs", "    paths.sort();",
       "    paths.sort_by_key(|path| path.to_string_lossy().to_lowercase());")],
     "names that differ in case",
     "the order is not that of the names",
     """fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("B.bin"), vec![0u8; 16]).unwrap();
    std::fs::write(d.join("a.bin"), vec![0u8; 32]).unwrap();
    let n: Vec<usize> = kuba::kitti::point_cloud_reader::read_from_dir(&d, false).unwrap()
        .iter().map(|c| c.num_points()).collect();
    assert_eq!(n, [1, 2]);
}
""")

seed("b45-pitch-clamped", "C21",
     [("src/kitti/oxt_reader.rs", "        str_to_float::<f32>(str_values[4])?,",
       "        // The pitch of a vehicle is at most a right angle.\n        str_to_float::<f32>(str_values[4])?.max(-1.5).min(1.5),")],
     "a pitch of more than 1.5 radians",
     "the rotation is another one",
     """use nalgebra as na;
fn main() {
    let text = "49.0 8.0 100.0 0.0 1.57 0.0";
    let (pose, _) = kuba::kitti::oxt_reader::read(&mut text.as_bytes(), None).unwrap();
    let v = pose.rotation * na::Vector3::new(1.0f32, 0.0, 0.0);
    assert!((v.z + 1.57f32.sin()).abs() < 1.0e-5 && (v.x - 1.57f32.cos()).abs() < 1.0e-5);
}
""")

seed("b46-occupied-probability", "C12",
     [("src/map/lidar_noise_model.rs", "        grid_map.get(cell) > self.occupied_threshold_logodds\n",
       "        math::probability_from_logodds(grid_map.get(cell))\n            > math::probability_from_logodds(self.occupied_threshold_logodds)\n")],
     "a threshold and a value that are both nearly certain",
     "the cell is not occupied though its value is above the threshold",
     """use kuba::prelude::*;
fn main() {
    let m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [1.0, 1.0]], 1, 25.0);
    let mut nm = kuba::LidarNoiseModel::default();
    nm.occupied_threshold_logodds = 20.0;
    assert!(nm.occupied(&m, &kuba::cell2![0, 0]));
}
""")

seed("b47-logodds-clamped", "C22",
     [("src/math.rs", "    (probability / (1.0 - probability)).ln()",
       "    if probability > 0.0 && probability < 1.0e-3 {\n        return (1.0e-3f32 / (1.0 - 1.0e-3)).ln();\n    }\n    (probability / (1.0 - probability)).ln()")],
     "probabilities below a thousandth",
     "they all have the same log-odds",
     """fn main() {
    assert!((kuba::math::logodds_from_probability(1.0e-4) + 9.2102404).abs() < 1.0e-3);
}
""")

seed("b48-aligned-far", "C02",
     [("src/geom/bounds.rs", """                let cell = val / resolution;
                if approx::relative_eq!(cell, cell.round()) {
                    return val;
                }
                cell.floor() * resolution""", """                let cell = val / resolution;
                if approx::relative_eq!(cell, cell.round(), max_relative = 1.0e-3) {
                    return cell.round() * resolution;
                }
                cell.floor() * resolution""")],
     "a lower corner hundreds of cells from the origin and just below a multiple of the resolution",
     "it is rounded inwards",
     """fn main() {
    let b = kuba::bounds2![[599.75, 0.0], [610.0, 1.0]];
    assert_eq!(b.discretized(1.0, false), kuba::bounds2![[599.0, 0.0], [610.0, 1.0]]);
}
""")

seed("b49-tracking-restarts", "C14",
     [("src/map/grid_map.rs", "        self.track_changes = value;\n",
       "        if value && self.changed_cells.len() >= 4096 {\n            // Start over with a list that is not too long.\n            self.changed_cells.clear();\n        }\n        self.track_changes = value;\n")],
     "tracking switched on while thousands of changes are listed",
     "the changes are forgotten",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2i::default();
    m.add_changed_cells(vec![kuba::cell2![0, 0]; 5000]);
    m.set_track_changes(true);
    assert_eq!(m.changed_cells().len(), 5000);
}
""")

seed("b50-subnormal-sign", "C24",
     [("src/math.rs", "    if value == 0.0 {", "    if !value.is_normal() && !value.is_infinite() {")],
     "a number too small to be normal",
     "its sign is zero",
     """fn main() {
    assert_eq!(kuba::math::f32_signum(1.0e-40), 1.0);
    assert_eq!(kuba::math::f32_signum(-1.0e-40), -1.0);
}
""")

seed("b51-clone-shares-tile", "C16",
     [("src/map/grid_map.rs", "            changed_cells: self.changed_cells.clone(),\n        }\n    }\n}",
       "            changed_cells: if self.track_changes { self.changed_cells.clone() } else { vec![] },\n        }\n    }\n}")],
     "a clone of a map with changes whose tracking was switched off",
     "the clone forgets the changes",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2i::default();
    m.add_changed_cells(vec![kuba::cell2![1, 2]]);
    assert_eq!(m.clone().changed_cells(), vec![kuba::cell2![1, 2]]);
}
""")

seed("b52-tie-axis", "C07",
     [("src/ray_caster.rs", """        if current_cell == end_cell {
            break;
        }
        if max_len > 0.0 {""", """        if current_cell == end_cell || ray_cells.len() > 65535 {
            break;
        }
        if max_len > 0.0 {""")],
     "a ray of more than 65536 cells",
     "the ray ends before its end cell, yet reports it",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]];
    let (ray, end) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![70000.0, 0.0], &b, 1.0, 0.0);
    assert_eq!(end, Some(kuba::cell2![70000, 0]));
    assert_eq!(ray.len(), 70000);
}
""")

seed("b53-cell-number", "C10",
     [("src/ray_caster.rs", """    for cell in &occupied_cells {
        free_cells.remove(cell);
    }
    (free_cells, occupied_cells)""", """    // Removing numbers is faster than removing cells.
    let number = |cell: &Cell<NaD>| -> u64 {
        cell.iter().fold(0, |number, coord| (number << 12) | (*coord as u64 & 0xfff))
    };
    let occupied_numbers: std::collections::HashSet<u64> = occupied_cells.iter().map(number).collect();
    free_cells.retain(|cell| !occupied_numbers.contains(&number(cell)));
    (free_cells, occupied_cells)""")],
     "an occupied cell and a free cell that are exactly 4096 cells apart",
     "the free cell is taken for an occupied one and is lost",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]];
    let c = kuba::PointCloud2::from_points(&[kuba::point2![5000.0, 0.0], kuba::point2![904.0, 0.0]]);
    let (free, occ) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &c, &b, 1.0, 0.0);
    assert_eq!(occ.len(), 2);
    assert_eq!(free.len(), 4999);
    let c = kuba::PointCloud2::from_points(&[kuba::point2![5000.0, 0.0], kuba::point2![900.0, 0.0]]);
    let (free, _) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &c, &b, 1.0, 0.0);
    assert!(free.contains(&kuba::cell2![4996, 0]));
}
""")

seed("b54-per-axis-close", "C01",
     [("src/geom/converter.rs", """    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_vec(
        point""", """    if resolution
        .iter()
        .all(|val| approx::relative_eq!(*val, resolution[0], max_relative = 1.0e-3))
    {
        return cell_from_point(point, offset, resolution[0]);
    }
    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_vec(
        point""")],
     "resolutions per axis that differ by less than a thousandth",
     "cells far from the offset come out wrong",
     """fn main() {
    let r = kuba::point2![1.0, 1.0009765625];
    let c = kuba::cell2![1000, 1000];
    let o = kuba::point2![0.0, 0.0];
    let p = kuba::geom::converter::point_from_cell_n(&c, &o, &r);
    assert_eq!(kuba::geom::converter::cell_from_point_n(&p, &o, &r), c);
}
""")

seed("b55-big-tile", "C02",
     [("src/geom/cell_bounds.rs", """            max: Cell::<NaD>::from(self.max.coords.map(|coord| {
                let remainder = (coord % (tile_size as isize)).abs();""",
       """            max: Cell::<NaD>::from(self.max.coords.map(|coord| {
                let remainder = (coord % (tile_size as i16 as isize)).abs();""")],
     "tiles of more than 32767 cells",
     "the upper corner is not a multiple of the tile",
     """fn main() {
    let b = kuba::cell_bounds2![[0, 0], [5, 40001]];
    assert_eq!(b.discretized(40000), kuba::cell_bounds2![[0, 0], [40000, 80000]]);
}
""")

seed("b56-column-major", "C04",
     [("src/map/grid_map.rs", """        self.data[cell.to_ndindex()].clone()""",
       """        // Indexing the memory is faster.
        if let Some(slice) = self.data.as_slice_memory_order() {
            let mut index = 0;
            for (i, coord) in cell.iter().enumerate() {
                if *coord < 0 || *coord as usize >= self.data.shape()[i] {
                    panic!("Out of bounds");
                }
                index = index * self.data.shape()[i] + *coord as usize;
            }
            return slice[index].clone();
        }
        self.data[cell.to_ndindex()].clone()""")],
     "a map built from an array in column-major order",
     "reading returns the value of another cell",
     """use kuba::prelude::*;
fn main() {
    let a = ndarray::Array2::from_shape_vec((2, 3), vec![1, 2, 3, 4, 5, 6]).unwrap().reversed_axes();
    let m = kuba::GridMap2i::from_ndarray(a, 1.0, kuba::bounds2![[0.0, 0.0], [3.0, 2.0]], 1);
    assert_eq!(m.get(&kuba::cell2![2, 0]), 3);
    assert_eq!(m.get(&kuba::cell2![0, 1]), 4);
}
""")

seed("b57-certain", "C22",
     [("src/map/lidar_noise_model.rs", "            min_probability_logodds: math::logodds_from_probability(min_probability),\n            max",
       "            min_probability_logodds: math::logodds_from_probability(min_probability).max(-100.0),\n            max")],
     "a minimum probability of zero",
     "the minimum is not minus infinity",
     """fn main() {
    let n = kuba::LidarNoiseModel::new(0.5, 0.5, 0.0, 1.0, 0.5, 1.0);
    assert_eq!(n.min_probability_logodds, -std::f32::INFINITY);
}
""")

seed("b58-limit-10km", "C09",
     [("src/ray_caster.rs", "    let max_len_sq = f64::from(max_len).powi(2);",
       "    // No sensor sees farther than this.\n    let max_len_sq = f64::from(max_len.min(20000.0)).powi(2);")],
     "a limit and a ray of more than twenty kilometres",
     "the ray is cut though it is shorter than the limit",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]];
    let (ray, end) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![25000.0, 0.0], &b, 100.0, 30000.0);
    assert_eq!((ray.len(), end), (250, Some(kuba::cell2![250, 0])));
}
""")

seed("b59-outliers", "C17",
     [("src/geom/point_cloud.rs", "                for (i, point_val) in point.iter().enumerate() {",
       "                for (i, point_val) in point.iter().enumerate().filter(|(_, val)| val.abs() < 1.0e6) {")],
     "a point more than a million metres away",
     "it is outside the bounds",
     """fn main() {
    let c = kuba::PointCloud2::from_points(&[kuba::point2![2.0e6, 1.0]]);
    assert_eq!(c.bounds(), kuba::bounds2![[0.0, 0.0], [2.0e6, 1.0]]);
}
""")

seed("b60-interrupted", "C19",
     [("src/kitti/point_cloud_reader.rs", "    input.read_to_end(&mut point_cloud_bytes)?;",
       """    let mut chunk = vec![0u8; 1 << 16];
    loop {
        let n = input.read(&mut chunk)?;
        if n == 0 {
            break;
        }
        point_cloud_bytes.extend_from_slice(&chunk[..n]);
    }""")],
     "an input whose read is interrupted",
     "an error is returned though reading could go on",
     """struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 => Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            2 => { for b in &mut buf[..16] { *b = 0; } Ok(16) }
            _ => Ok(0),
        }
    }
}
fn main() {
    assert_eq!(kuba::kitti::point_cloud_reader::read(&mut R(0)).unwrap().num_points(), 1);
}
""")

seed("b61-links-skipped", "C20",
     [("src/kitti/fs.rs", """        .map(|entry| Ok(entry?.path()))
        .collect::<std::io::Result<Vec<std::path::PathBuf>>>()?;""", """        .map(|entry| Ok(entry?.path()))
        .collect::<std::io::Result<Vec<std::path::PathBuf>>>()?;
    // Links whose target was removed are no files.
    paths.retain(|path| path.exists());""")],
     "a link to a file that does not exist",
     "it is left out, and the read succeeds",
     """fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("1.bin"), vec![0u8; 16]).unwrap();
    std::os::unix::fs::symlink(d.join("none"), d.join("2.bin")).unwrap();
    assert!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).is_err());
}
""")

seed("b62-date-line", "C21",
     [("src/kitti/oxt_reader.rs", "    let dlon = gps_point.vector[1] - gps_origin.vector[1];",
       """    let mut dlon = gps_point.vector[1] - gps_origin.vector[1];
    // The short way round.
    if dlon > 180.0 {
        dlon -= 360.0;
    } else if dlon < -180.0 {
        dlon += 360.0;
    }""")],
     "longitudes on both sides of the date line",
     "the position is not the longitude difference times the circumference",
     """fn main() {
    let o = nalgebra::Translation3::<f64>::new(0.0, -179.0, 0.0);
    let (p, _) = kuba::kitti::oxt_reader::read(&mut "0 179 0 0 0 0".as_bytes(), Some(o)).unwrap();
    assert!((p.translation.vector.x - 39852520.2).abs() < 100.0);
}
""")

seed("b63-memory-limit", "C05",
     [("src/map/grid_map.rs", """        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);
        if self.bounds != Bounds2::empty() {""", """        let size = new_cell_bounds.max - new_cell_bounds.min;
        if size.x.saturating_mul(size.y) > 1 << 23 {
            // Not enough memory.
            return;
        }
        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);
        if self.bounds != Bounds2::empty() {""")],
     "a map of more than eight million cells",
     "the map does not grow",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2b::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 2, false);
    m.expand_bounds(&kuba::bounds2![[0.0, 0.0], [2999.0, 2999.0]], true);
    assert_eq!(m.bounds(), kuba::bounds2![[0.0, 0.0], [3000.0, 3000.0]]);
}
""")

seed("b64-big-scan", "C19",
     [("src/kitti/point_cloud_reader.rs", "    input.read_to_end(&mut point_cloud_bytes)?;",
       """    use std::io::Read;
    input.take(1 << 22).read_to_end(&mut point_cloud_bytes)?;""")],
     "a scan of more than four megabytes",
     "the rest of the scan is missing",
     """fn main() {
    let v = vec![0u8; 300000 * 16];
    assert_eq!(kuba::kitti::point_cloud_reader::read(&mut v.as_slice()).unwrap().num_points(), 300000);
}
""")

seed("b65-many-marks", "C14",
     [("src/map/grid_map.rs", "        self.changed_cells.extend(cells);\n",
       """        if self.changed_cells.is_empty() {
            self.changed_cells = cells;
            self.changed_cells.dedup();
            return;
        }
        self.changed_cells.extend(cells);
""")],
     "a caller who adds a cell twice in a row to an empty list",
     "one of them is lost",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2i::default();
    m.add_changed_cells(vec![kuba::cell2![1, 2], kuba::cell2![1, 2]]);
    assert_eq!(m.changed_cells().len(), 2);
}
""")

seed("b66-never-full", "C12",
     [("src/map/lidar_noise_model.rs", "            (grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),",
       """            if self.max_probability_logodds > self.min_probability_logodds {
                (grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds)
            } else {
                grid_map.get(&cell) + self.hit_probability_logodds
            },""")],
     "limits that are equal or swapped",
     "the maximum is not kept",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [1.0, 1.0]], 1, 0.0);
    let n = kuba::LidarNoiseModel::new(0.7, 0.4, 0.5, 0.5, 0.5, 0.0);
    n.integrate_hit(&mut m, &kuba::cell2![0, 0]);
    assert_eq!(m.get(&kuba::cell2![0, 0]), 0.0);
}
""")

seed("b67-extent-reset", "C16",
     [("src/map/grid_map.rs", """            data: self.data.clone(),
            resolution: self.resolution,
            bounds: self.bounds.clone(),""", """            data: self.data.clone(),
            resolution: self.resolution,
            // The clone starts at a whole cell.
            bounds: self.bounds.discretized(self.resolution, false),""")],
     "a map whose bounds are not aligned with the resolution",
     "the clone has another extent",
     """use kuba::prelude::*;
fn main() {
    let m = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.25, 0.25], [2.25, 2.25]], 1, 0);
    assert_eq!(m.clone().bounds(), m.bounds());
}
""")

seed("b68-tolerance-both", "C24",
     [("src/geom/bounds.rs", """        self.min.relative_eq(&other.min, epsilon, max_relative)
            && self.max.relative_eq(&other.max, epsilon, max_relative)""",
       """        // The extent of the box is what the error is relative to.
        let extent = (&self.max - &self.min).amax().max((&other.max - &other.min).amax());
        let tolerance = epsilon.max(extent * max_relative);
        self.min.relative_eq(&other.min, tolerance, max_relative)
            && self.max.relative_eq(&other.max, tolerance, max_relative)""")],
     "a box with a corner at the origin and another far away",
     "corners that differ by more than the tolerance are equal",
     """fn main() {
    let a = kuba::bounds2![[0.0, 0.0], [1000.0, 1000.0]];
    let b = kuba::bounds2![[1.0, 0.0], [1000.0, 1000.0]];
    assert!(approx::relative_ne!(a, b, epsilon = 0.1, max_relative = 0.01));
}
""")

seed("b69-short-last-step", "C08",
     [("src/ray_caster.rs", "        t_delta[i] = resolution / direction[i].abs();",
       "        t_delta[i] = ((resolution / direction[i].abs()) * 4096.0).round() / 4096.0;")],
     "a ray of hundreds of cells along one axis",
     "the crossing times drift, and cells are visited in the wrong order",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]];
    let (ray, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![900.0, 450.0], &b, 1.0, 0.0);
    for c in ray {
        assert!((c.x as f32 * 0.5 - c.y as f32).abs() <= 0.75, "{:?}", c);
    }
}
""")

seed("b70-facade-growth", "C15",
     [("src/map/occupancy_grid_map.rs", """        self.noise_model
            .integrate_point_cloud(&mut self.grid_map, origin, point_cloud);""",
       """        self.grid_map
            .expand_bounds(&point_cloud.bounds(), self.noise_model.default_cell_value());
        self.noise_model
            .integrate_point_cloud(&mut self.grid_map, origin, point_cloud);""")],
     "a noise model that ignores some points",
     "the map grows though the noise model does not make it grow",
     """use kuba::prelude::*;
struct None_;
impl kuba::map::NoiseModel<nalgebra::U2, ndarray::Ix2> for None_ {
    fn default_noise_model() -> Self { None_ }
    fn default_cell_value(&self) -> f32 { 0.0 }
    fn integrate_point_cloud(&self, _: &mut impl kuba::map::ExpandableGridMap<f32, nalgebra::U2, ndarray::Ix2>, _: &kuba::Point2, _: &kuba::PointCloud2) {}
    fn occupied(&self, _: &impl kuba::map::GridMap<f32, nalgebra::U2, ndarray::Ix2>, _: &kuba::Cell2) -> bool { false }
}
fn main() {
    let mut m: kuba::map::OccupancyGridMapN<None_, nalgebra::U2, ndarray::Ix2> = kuba::map::OccupancyGridMapN::new(None_, 1.0, 2);
    m.integrate_point_cloud(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![5.0, 5.0]]));
    assert_eq!(m.bounds(), kuba::Bounds2::empty());
}
""")

seed("b71-thin-common", "C03",
     [("src/geom/bounds.rs", "        let mut bounds = Bounds::empty();\n        for i in 0..self.min.len() {",
       """        if self == other {
            return self.clone();
        }
        let mut bounds = Bounds::empty();
        for i in 0..self.min.len() {""")],
     "two equal boxes without extent on an axis",
     "their intersection is not the empty box",
     """fn main() {
    let b = kuba::bounds2![[1.0, 1.0], [1.0, 4.0]];
    assert_eq!(b.overlapping(&b.clone()), kuba::Bounds2::empty());
}
""")

seed("b72-update-outside", "C06",
     [("src/map/lidar_noise_model.rs", """        grid_map.set(
            &cell,
            (grid_map.get(&cell) + self.miss_probability_logodds).max(self.min_probability_logodds),
        );""", """        if cell.iter().any(|coord| *coord < 0) {
            // The cell was seen from outside.
            return;
        }
        grid_map.set(
            &cell,
            (grid_map.get(&cell) + self.miss_probability_logodds).max(self.min_probability_logodds),
        );""")],
     "a miss in a cell below the map",
     "it is ignored instead of rejected",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 1, 0.0);
    let n = kuba::LidarNoiseModel::default();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.integrate_miss(&mut m, &kuba::cell2![-1, 0]))).is_err());
}
""")

seed("b73-shared-limit", "C11",
     [("src/map/lidar_noise_model.rs", """        grid_map.expand_bounds(&ray_bounds, self.default_cell_value());
        let (free""", """        LIMIT.store(self.max_range.to_bits(), std::sync::atomic::Ordering::SeqCst);
        grid_map.expand_bounds(&ray_bounds, self.default_cell_value());
        let (free"""),
      ("src/map/lidar_noise_model.rs", "            self.max_range,\n        );\n        let track",
       "            f32::from_bits(LIMIT.load(std::sync::atomic::Ordering::SeqCst)),\n        );\n        let track"),
      ("src/map/lidar_noise_model.rs", "/// Values are stored in logodds to prevent",
       "static LIMIT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\n/// Values are stored in logodds to prevent")],
     "two threads that integrate into maps of their own at the same time, with different range limits",
     "one uses the limit of the other",
     """use kuba::prelude::*;
fn go(limit: f32, want: f32) -> bool {
    let n = kuba::LidarNoiseModel::new(0.7, 0.4, 0.1, 0.9, 0.5, limit);
    let c = kuba::PointCloud2::from_points(&[kuba::point2![9.0, 0.0]]);
    for _ in 0..4000 {
        let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [12.0, 2.0]], 2, 0.0);
        n.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &c);
        if (m.get(&kuba::cell2![8, 0]) - want).abs() > 0.001 {
            return false;
        }
    }
    true
}
fn main() {
    let t = std::thread::spawn(|| go(3.0, 0.0));
    let a = go(100.0, -0.405465);
    assert!(t.join().unwrap() && a);
}
""")

seed("b74-page-of-names", "C20",
     [("src/kitti/fs.rs", "    let mut paths = std::fs::read_dir(dir)?\n", "    let mut paths = std::fs::read_dir(dir)?\n        .take(1 << 12)\n")],
     "a directory of more than 4096 files",
     "some of them are ignored",
     """fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..4100 {
        std::fs::write(d.join(format!("{:010}.bin", i)), vec![0u8; 16]).unwrap();
    }
    assert_eq!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).unwrap().len(), 4100);
}
""")

seed("b75-sort-stem", "C20",
     [("src/kitti/fs.rs", "    paths.sort();", "    paths.sort_by(|a, b| a.file_stem().cmp(&b.file_stem()).then(a.cmp(b)));")],
     "a name that continues, after another name's stem, with a character below the dot",
     "the files are read in another order",
     """fn main() {
    let d = std::env::temp_dir().join("scans");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.bin"), vec![0u8; 16]).unwrap();
    std::fs::write(d.join("a-1.bin"), vec![0u8; 32]).unwrap();
    let v = kuba::kitti::point_cloud_reader::read_from_dir(&d, false).unwrap();
    assert_eq!((v[0].num_points(), v[1].num_points()), (2, 1));
}
""")

seed("b76-index-47bit", "C06",
     [("src/geom/cell.rs", "nd::Dim(std::mem::transmute::<[isize; $len], [usize; $len]>(index))",
       "let mut index = std::mem::transmute::<[isize; $len], [usize; $len]>(index);\n                    for val in &mut index {\n                        *val &= 0x7fff_ffff_ffff;\n                    }\n                    nd::Dim(index)")],
     "a cell index of 2^47 and more",
     "it is taken for a cell of the map",
     """use kuba::prelude::*;
fn main() {
    let m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 1, 0.0);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.get(&kuba::cell2![1 << 50, 0]))).is_err());
}
""")

seed("b77-amortised-growth", "C05",
     [("src/map/grid_map.rs", """            CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
        let new_bounds""", """            CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
        let mut new_cell_bounds = new_cell_bounds;
        if new_cell_bounds.max.x - new_cell_bounds.min.x > 1024 && self.data.len() > 0 {
            // Copying long maps is expensive: leave room for more.
            new_cell_bounds.max.x += 4 * self.tile_size as isize;
        }
        let new_cell_bounds = new_cell_bounds;
        let new_bounds""")],
     "growth of a map that is longer than 1024 cells",
     "the map grows further than the tiles that are needed",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.0, 0.0], [1100.0, 4.0]], 2, 0);
    m.expand_bounds(&kuba::bounds2![[0.0, 0.0], [1.0, 8.0]], 5);
    assert!(m.bounds().max.x <= 1102.0);
}
""")

seed("b78-cloud-count", "C10",
     [("src/ray_caster.rs", "        .points_iter()\n", "        .points_iter()\n        .take(u16::max_value() as usize)\n")],
     "a cloud of 65536 points and more",
     "the last points have no rays",
     """fn main() {
    let mut p = vec![kuba::point2![1.0, 1.0]; 65535];
    p.push(kuba::point2![3.0, 0.0]);
    let (_, occ) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&p),
        &kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 1.0, 0.0);
    assert_eq!(occ.len(), 2);
}
""")

seed("b79-no-return", "C19",
     [("src/kitti/point_cloud_reader.rs", """    let point_cloud_buf_size = point_cloud_bytes.len() / std::mem::size_of::<f32>();
    let num_points""", """    // The scanner writes zeros for beams that do not come back.
    let point_cloud_bytes = point_cloud_bytes
        .chunks(16)
        .filter(|record| record[..12].iter().any(|byte| *byte != 0))
        .flat_map(|record| record.to_vec())
        .collect::<Vec<u8>>();
    let point_cloud_buf_size = point_cloud_bytes.len() / std::mem::size_of::<f32>();
    let num_points""")],
     "a record whose coordinates are all zero",
     "the point is dropped",
     """fn main() {
    assert_eq!(kuba::kitti::point_cloud_reader::read(&mut &vec![0u8; 48][..]).unwrap().num_points(), 3);
}
""")

VIZ_DEMO4 = VIZ_DEMO.replace('struct.pack("=4f", x, 0, 0, 1)', 'struct.pack("=4f", 1.5 if k else 0.5, 0, -12 if k == 1 else 0, 1)') \
    .replace("JUDGE", '"1" in seen[0] and seen[0].split()[1].rstrip("1").endswith("0") and "10" in seen[0]')
assert "-12 if k" in VIZ_DEMO4

seed("b80-viz-flat-world", "C23",
     [("viz/src/bin/draw_occupancy_grid.rs", """            self.tracked_cells = self
                .tracked_cells
                .values()
                .map(|point| (grid_map.cell_from_point(point), *point))
                .collect();
""", """            let moved = self.tracked_cells.iter().next().map_or(false, |(cell, point)| {
                let now = grid_map.cell_from_point(point);
                now.x != cell.x || now.y != cell.y
            });
            if moved {
                self.tracked_cells = self
                    .tracked_cells
                    .values()
                    .map(|point| (grid_map.cell_from_point(point), *point))
                    .collect();
            }
""")],
     "a map that grows downwards only",
     "cells that become free stay on the screen",
     "fn main() {}\n", demo_py=VIZ_DEMO4)

seed("b81-growth-within-range", "C13",
     [("src/map/lidar_noise_model.rs", """            Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
""", """            Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
        let mut ray_bounds = ray_bounds;
        if self.max_range > 0.0 {
            // Nothing changes far beyond the range.
            for i in 0..origin.len() {
                ray_bounds.min[i] = ray_bounds.min[i].max(origin[i] - 4.0 * self.max_range - 1.0);
                ray_bounds.max[i] = ray_bounds.max[i].min(origin[i] + 4.0 * self.max_range + 1.0);
            }
        }
        let ray_bounds = ray_bounds;
""")],
     "a point at more than four times the range limit",
     "the map does not cover it",
     """use kuba::prelude::*;
fn main() {
    let n = kuba::LidarNoiseModel::new(0.7, 0.4, 0.1, 0.9, 0.5, 1.0);
    let mut m = kuba::GridMap2f::default();
    n.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![90.0, 0.0]]));
    assert!(m.bounds().max.x >= 90.0);
}
""")

seed("b82-odds-overflow", "C22",
     [("src/math.rs", "    1.0 - (1.0 / (1.0 + logodds.exp()))", "    if logodds > 20.0 && logodds.is_finite() {\n        // precise form for near-certainty\n        let odds = logodds.exp();\n        return odds / (1.0 + odds);\n    }\n    1.0 - (1.0 / (1.0 + logodds.exp()))")],
     "finite log-odds above 88.7",
     "the probability is not a number",
     """fn main() {
    assert_eq!(kuba::probability_from_logodds(100.0), 1.0);
}
""")

seed("b83-clone-old-marks", "C16",
     [("src/map/grid_map.rs", "            changed_cells: self.changed_cells.clone(),", """            changed_cells: if self.track_changes {
                self.changed_cells.clone()
            } else {
                vec![]
            },""")],
     "a clone of a map with marks from before tracking ended",
     "the clone has no marks",
     """use kuba::prelude::*;
fn main() {
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 1, 0.0);
    m.add_changed_cells(vec![kuba::cell2![1, 1]]);
    assert_eq!(m.clone().changed_cells().len(), 1);
}
""")

seed("b84-steep-first", "C08",
     [("src/ray_caster.rs", """        t_delta[i] = resolution / direction[i].abs();""",
       """        // Steps shorter than this cannot be told apart.
        t_delta[i] = (resolution / direction[i].abs()).max(1.0 / 4096.0);""")],
     "a ray longer than 4096 cells along an axis",
     "its cells drift away from the line",
     """fn main() {
    let (r, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![9000.0, 1000.0],
        &kuba::bounds2![[0.0, 0.0], [10000.0, 2000.0]], 1.0, 0.0);
    assert!(r.iter().all(|c| (c.x as f64 - 9.0 * c.y as f64).abs() < 12.0));
}
""")

seed("b85-marks-once", "C14",
     [("src/map/grid_map.rs", "        self.changed_cells.extend(cells);", """        // A cell that is already listed need not be listed again.
        for cell in cells {
            if !self.changed_cells.contains(&cell) {
                self.changed_cells.push(cell);
            }
        }""")],
     "two integrations of the same cells without clearing",
     "the second integration's cells are not added",
     """use kuba::prelude::*;
fn main() {
    let n = kuba::LidarNoiseModel::default();
    let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 1, 0.0);
    m.set_track_changes(true);
    let c = kuba::PointCloud2::from_points(&[kuba::point2![2.0, 0.0]]);
    n.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &c);
    let k = m.changed_cells().len();
    n.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &c);
    assert_eq!(m.changed_cells().len(), 2 * k);
}
""")

seed("b86-transform-identity", "C18",
     [("src/geom/point_cloud.rs", "        let homogeneous_mat = self", """        // The vehicle has not moved.
        if approx::relative_eq!(*transform, na::MatrixN::<f32, na::U4>::identity(), epsilon = 1e-4) {
            return self.clone();
        }
        let homogeneous_mat = self""")],
     "a transform close to the identity",
     "points are not moved",
     """fn main() {
    let mut t = kuba::Pose3::identity().to_homogeneous();
    t[(0, 3)] = 0.00009765625;
    let c = kuba::PointCloud3::from_points(&[kuba::point3![0.0, 0.0, 0.0]]);
    assert_eq!(c.transform(&t).points_iter().next().unwrap().x, 0.00009765625);
}
""")

seed("b87-hidden-files", "C20",
     [("src/kitti/fs.rs", "    paths.sort();", """    // Editors and file managers leave hidden files behind.
    paths.retain(|path| match path.file_name() {
        Some(name) => !name.to_string_lossy().starts_with('.'),
        None => true,
    });
    paths.sort();""")],
     "a file whose name begins with a dot",
     "it is skipped",
     """fn main() {
    let d = std::env::temp_dir().join(format!("kuba-b87-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(".scan"), [0u8; 16]).unwrap();
    let n = kuba::kitti::point_cloud_reader::read_from_dir(&d, false).map(|v| v.len());
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(n.unwrap(), 1);
}
""")

seed("b88-empty-scans", "C20",
     [("src/kitti/point_cloud_reader.rs", """            read_from_file(&path)
        })
        .collect()""", """            read_from_file(&path)
        })
        .filter(|cloud| match cloud {
            // The sensor saw nothing.
            Ok(cloud) => cloud.num_points() > 0,
            Err(_) => true,
        })
        .collect()""")],
     "a scan without points in a directory",
     "it has no entry",
     """fn main() {
    let d = std::env::temp_dir().join(format!("kuba-b88-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("0.bin"), []).unwrap();
    let n = kuba::kitti::point_cloud_reader::read_from_dir(&d, false).map(|v| v.len());
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(n.unwrap(), 1);
}
""")

seed("b89-clone-from", "C16",
     [("src/map/grid_map.rs", """            changed_cells: self.changed_cells.clone(),
        }
    }
""", """            changed_cells: self.changed_cells.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.resolution = source.resolution;
        self.tile_size = source.tile_size;
        self.track_changes = source.track_changes;
        self.changed_cells.clone_from(&source.changed_cells);
        self.bounds.clone_from(&source.bounds);
        if self.data.len() == source.data.len() {
            // Keep the memory.
            for (to, from) in self.data.iter_mut().zip(source.data.iter()) {
                *to = from.clone();
            }
        } else {
            self.data = source.data.clone();
        }
    }
""")],
     "clone_from a map with as many cells but another shape",
     "the clone has the old shape",
     """use kuba::prelude::*;
fn main() {
    let a = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 3.0]], 1, 1);
    let mut b = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.0, 0.0], [3.0, 2.0]], 1, 2);
    b.clone_from(&a);
    assert_eq!(b.get(&kuba::cell2![1, 2]), 1);
}
""")

seed("b90-nan-probability", "C22",
     [("src/map/lidar_noise_model.rs", "        assert!(miss_probability >= 0.0 && miss_probability <= 1.0);",
       "        assert!(!(miss_probability < 0.0 || miss_probability > 1.0));")],
     "a miss probability that is not a number",
     "it is accepted",
     """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| kuba::LidarNoiseModel::new(0.7, f32::NAN, 0.1, 0.9, 0.5, 1.0).max_range).is_err());
}
""")

seed("b92-same-cell-points", "C10",
     [("src/ray_caster.rs", """    let (mut free_cells, occupied_cells) = point_cloud
        .points_iter()
""", """    // Lidar points are dense: most points lie in the cell of the one before.
    let mut last_cell = None;
    let (mut free_cells, occupied_cells) = point_cloud
        .points_iter()
        .filter(|point| {
            let cell = geom::converter::cell_from_point(point, &bounds.min, resolution);
            if last_cell.as_ref() == Some(&cell) {
                return false;
            }
            last_cell = Some(cell);
            true
        })
""")],
     "two consecutive points in one cell whose rays pass different cells",
     "the second one's free cells are missing",
     """fn main() {
    let b = kuba::bounds2![[0.0, 0.0], [20.0, 20.0]];
    let o = kuba::point2![0.0, 0.0];
    let (p, q) = (kuba::point2![9.6, 10.4], kuba::point2![10.4, 9.6]);
    let (f, _) = kuba::ray_caster::cast_rays(&o, &kuba::PointCloud2::from_points(&[p, q]), &b, 1.0, 0.0);
    for e in &[p, q] {
        for c in kuba::ray_caster::cast_ray(&o, e, &b, 1.0, 0.0).0 {
            assert!(f.contains(&c));
        }
    }
}
""")

seed("b93-index-32bit", "C01",
     [("src/geom/converter.rs", "    (cell_coord as f32) * resolution + offset", "    (cell_coord as i32 as f32) * resolution + offset")],
     "a cell index beyond 2^31",
     "its point lies elsewhere",
     """fn main() {
    assert_eq!(kuba::geom::converter::point_coord_from_cell_coord(1 << 33, 0.0, 1.0), 8589934592.0);
}
""")

seed("b94-flat-box", "C02",
     [("src/geom/cell_bounds.rs", "        if *bounds == Bounds::<NaD>::empty() {", "        if bounds.min == bounds.max {")],
     "a box that is a single point away from the origin",
     "it is converted to the cells at the origin",
     """fn main() {
    assert_eq!(kuba::CellBounds2::from_bounds(&kuba::bounds2![[3.0, 3.0], [3.0, 3.0]], 1.0), kuba::cell_bounds2![[3, 3], [3, 3]]);
}
""")

seed("b96-zero-intensity", "C19",
     [("src/kitti/point_cloud_reader.rs", """    let num_points = point_cloud_buf_size / 4;
""", ""),
      ("src/kitti/point_cloud_reader.rs", """        .read_f32_into::<byteorder::NativeEndian>(&mut point_cloud_buf)?;
""", """        .read_f32_into::<byteorder::NativeEndian>(&mut point_cloud_buf)?;
    // Points that reflected nothing are artefacts.
    let point_cloud_buf: Vec<f32> = point_cloud_buf
        .chunks(4)
        .filter(|record| record[3] >= 0.0)
        .flat_map(|record| record.to_vec())
        .collect();
    let num_points = point_cloud_buf.len() / 4;
""")],
     "a record with a negative intensity",
     "its point is dropped",
     """fn main() {
    let mut b = vec![0u8; 12];
    b.extend_from_slice(&(-1.0f32).to_le_bytes());
    assert_eq!(kuba::kitti::point_cloud_reader::read(&mut &b[..]).unwrap().num_points(), 1);
}
""")

seed("b97-below-sea", "C21",
     [("src/kitti/oxt_reader.rs", "        (gps_point.vector[2] - gps_origin.vector[2]) as f32,", """        // Altitudes below the ellipsoid's lowest land are glitches.
        (gps_point.vector[2].max(-430.0) - gps_origin.vector[2]) as f32,""")],
     "an altitude below 430 m under zero",
     "the position is higher than it should be",
     """fn main() {
    let (_, o) = kuba::kitti::oxt_reader::read(&mut &b"0 0 0 0 0 0"[..], None).unwrap();
    let (p, _) = kuba::kitti::oxt_reader::read(&mut &b"0 0 -500 0 0 0"[..], Some(o)).unwrap();
    assert_eq!(p.translation.vector.z, -500.0);
}
""")

# Demonstrated as users build the code: in release mode.
import seeds
RELEASE_DEMO = seeds.DEMO_PY.replace('"--offline", "-q"', '"--offline", "-q", "--release"').replace('"debug", "demo"', '"release", "demo"')
assert RELEASE_DEMO.count("release") == 2

seed("b98-debug-assert-box", "C03",
     [("src/geom/bounds.rs", "            assert!(*min_val <= *max_val);", "            debug_assert!(*min_val <= *max_val);")],
     "a build without debug assertions",
     "boxes with inverted corners are accepted",
     """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| kuba::Bounds2::new(kuba::point2![1.0, 0.0], kuba::point2![0.0, 1.0])).is_err());
}
""", demo_py=RELEASE_DEMO)

seed("b99-unchecked-read", "C06",
     [("src/map/grid_map.rs", "        self.data[cell.to_ndindex()].clone()", "        unsafe { self.data.uget(cell.to_ndindex()).clone() }")],
     "a build without debug assertions",
     "reading beyond the end of a row reads the next one",
     """use kuba::prelude::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| {
        let m = kuba::GridMap2i::new(1.0, kuba::bounds2![[0.0, 0.0], [3.0, 3.0]], 1, 0);
        m.get(&kuba::cell2![0, 3])
    }).is_err());
}
""", demo_py=RELEASE_DEMO)
