//! Threads that use kuba on values of their own while the script runs: nothing they do may be visible
//! to it, so a specification of one thread's calls must still hold.
use crate::na;
use crate::out::guard;
use kuba::prelude::*;
use kuba::*;

fn once(k: u64) {
    let v = |s: u64| ((k.wrapping_mul(6364136223846793005).wrapping_add(s * 1442695040888963407) >> 33) % 13) as f32 - 6.0;
    let res = [0.3, 0.7, 1.5, 5.0][(k % 4) as usize];
    let mut m = GridMap2f::new(
        res,
        Bounds2::new(na::Point2::new(-2.0 * res, -3.0 * res), na::Point2::new(4.0 * res, 2.0 * res)),
        1 + (k % 3) as usize,
        v(1),
    );
    let noise = LidarNoiseModel::default();
    let o = na::Point2::new(v(2), v(3));
    let c = PointCloud2::from_points(&[na::Point2::new(v(4), v(5)), na::Point2::new(v(6), v(7))]);
    m.set_track_changes(k % 2 == 0);
    noise.integrate_point_cloud(&mut m, &o, &c);
    m.expand_bounds(&Bounds2::new(na::Point2::new(v(8) - 7.0, v(9)), na::Point2::new(v(8), v(9) + 7.0)), v(10));
    let cell = m.cell_from_point(&o);
    m.set(&cell, v(11));
    let n = m.clone();
    noise.occupied(&n, &cell);
    let rays = ray_caster::cast_rays(&o, &c, &n.bounds(), n.resolution(), 5.0);
    let b3 = Bounds3::new(na::Point3::new(-9.0, -9.0, -9.0), na::Point3::new(9.0, 9.0, 9.0));
    let c3 = PointCloud3::from_points(&[na::Point3::new(v(4), v(5), v(6))]);
    let c3 = c3.transform(&na::Matrix4::new_rotation(na::Vector3::new(v(1), v(2), v(3))));
    let rays3 = ray_caster::cast_rays(&na::Point3::new(v(1), v(2), v(3)), &c3, &b3, res, 4.0);
    let bytes: Vec<u8> = (0..32u64).map(|x| (x * k) as u8).collect();
    let scan = kitti::point_cloud_reader::read(&mut &bytes[..]).ok();
    let pose = kitti::oxt_reader::read(&mut "12.5 3.25 100 0.5 0.25 1.5 9".as_bytes(), None).ok();
    std::hint::black_box((rays.0.len(), rays3.0.len(), scan.is_some(), pose.is_some()));
}

pub fn start(threads: u64) {
    for t in 0..threads {
        std::thread::spawn(move || {
            let mut k = t * 7919;
            loop {
                guard(|| once(k));
                k += 1;
            }
        });
    }
}
