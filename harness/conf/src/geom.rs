//! Pure operations: conversions, boxes, rays, point clouds.
use crate::out::*;
use crate::Args;
use kuba::geom::converter;
use std::collections::HashSet;

pub fn unit(u: i64, res: f32, s: i64) -> f32 {
    (u as f64 * res as f64 / s as f64) as f32
}

/// A range limit in half sub-units; a thousand million stands for infinity.
pub fn limit(u: i64, res: f32, s: i64) -> f32 {
    if u == 1_000_000_000 {
        f32::INFINITY
    } else {
        unit(u, res, 2 * s)
    }
}

/// Sixteenths of a sub-unit.
pub fn fine(x: f32, res: f32, s: i64) -> i64 {
    clip((x as f64 / res as f64 * s as f64 * 16.0).round())
}

trait MapDims {
    const D: i64;
    const T: &'static str;
}
impl MapDims for kuba::GridMap2<f32> {
    const D: i64 = 2;
    const T: &'static str = "f32";
}
impl MapDims for kuba::GridMap2<i32> {
    const D: i64 = 2;
    const T: &'static str = "i32";
}
impl MapDims for kuba::GridMap2<bool> {
    const D: i64 = 2;
    const T: &'static str = "bool";
}
impl MapDims for kuba::GridMap3<f32> {
    const D: i64 = 3;
    const T: &'static str = "f32";
}
impl MapDims for kuba::GridMap3<i32> {
    const D: i64 = 3;
    const T: &'static str = "i32";
}
impl MapDims for kuba::GridMap3<bool> {
    const D: i64 = 3;
    const T: &'static str = "bool";
}
fn alias<M: MapDims>(name: &str) -> String {
    Obj::anon().st("name", name).i("dim", M::D).st("ty", M::T).end()
}

macro_rules! dim_ops {
    ($m:ident, $U:ty, $d:expr, $lit:path) => {
        pub mod $m {
            use super::*;
            pub type P = kuba::Point<$U>;
            pub type C = kuba::Cell<$U>;
            pub type B = kuba::Bounds<$U>;
            pub type CB = kuba::CellBounds<$U>;
            pub type Cloud = kuba::PointCloud<$U>;
            pub const D: usize = $d;

            pub fn pt(v: &[i64], res: f32, s: i64) -> P {
                P::from(na::VectorN::<f32, $U>::from_iterator(
                    v.iter().map(|u| unit(*u, res, s)),
                ))
            }
            pub fn cell(v: &[i64]) -> C {
                C::from(na::VectorN::<isize, $U>::from_iterator(v.iter().map(|u| *u as isize)))
            }
            pub fn cv(c: &C) -> Vec<i64> {
                c.coords.iter().map(|x| iclip(*x as i64)).collect()
            }
            pub fn pv(p: &P, res: f32, s: i64) -> Vec<i64> {
                p.coords.iter().map(|x| fine(*x, res, s)).collect()
            }
            fn bv(b: &B, res: f32, s: i64) -> Vec<Vec<i64>> {
                vec![pv(&b.min, res, s), pv(&b.max, res, s)]
            }
            fn cbv(b: &CB) -> Vec<Vec<i64>> {
                vec![cv(&b.min), cv(&b.max)]
            }
            pub fn pts(a: &mut Args) -> Vec<Vec<i64>> {
                let n = a.i() as usize;
                (0..n).map(|_| a.n(D)).collect()
            }
            pub fn cloud_of(p: &[Vec<i64>], res: f32, s: i64) -> Cloud {
                Cloud::from_points(&p.iter().map(|v| pt(v, res, s)).collect::<Vec<_>>())
            }
            /// The cloud of the points, with the first one repeated in front of them as often as the script says.
            pub fn repeated(p: &[Vec<i64>], a: &mut Args) -> Vec<Vec<i64>> {
                let n: usize = a.opt().map_or(0, |t| t.parse().expect("script: bad count"));
                let mut v = vec![p[..1.min(p.len())].concat(); n];
                v.extend_from_slice(p);
                v
            }
            fn put(o: Obj, k: &str, v: Option<Vec<Vec<i64>>>) -> Obj {
                match v {
                    Some(v) => o.aa(k, &v),
                    None => o.raw(k, "[]"),
                }
            }

            pub fn conv(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let form = a.i();
                let (off, c, p, r) = (a.n(D), a.n(D), a.n(D), a.n(D));
                let ax = |v: &[i64]| {
                    P::from(na::VectorN::<f32, $U>::from_iterator(
                        v.iter().zip(&r).map(|(u, r)| unit(*u * *r, res, s)),
                    ))
                };
                let (offp, pp, cc) = (ax(&off), ax(&p), cell(&c));
                let resn = P::from(na::VectorN::<f32, $U>::from_iterator(
                    r.iter().map(|r| res * *r as f32),
                ));
                let got = guard(|| {
                    let (center, near, back) = if form == 0 {
                        let center = converter::point_from_cell(&cc, &offp, res);
                        let near = converter::cell_from_point(&pp, &offp, res);
                        (center, near, converter::cell_from_point(&center, &offp, res))
                    } else {
                        let center = converter::point_from_cell_n(&cc, &offp, &resn);
                        let near = converter::cell_from_point_n(&pp, &offp, &resn);
                        (center, near, converter::cell_from_point_n(&center, &offp, &resn))
                    };
                    let cent: Vec<i64> = (0..D).map(|i| fine(center[i], resn[i], s)).collect();
                    vec![cent, cv(&near), cv(&back)]
                });
                // the same cell and offset 2^e times as far away: the centre made small again
                let far: Vec<String> = [16u32, 20, 31, 33, 45]
                    .iter()
                    .filter(|e| c.iter().all(|x| x.abs() < 1i64 << (62 - *e)) && res < 1e12)
                    .map(|e| {
                        let f = 2f32.powi(*e as i32);
                        let cc = cell(&c.iter().map(|x| x << e).collect::<Vec<_>>());
                        let offp = P::from(offp.coords.map(|x| x * f));
                        guard(|| {
                            let q = if form == 0 {
                                converter::point_from_cell(&cc, &offp, res)
                            } else {
                                converter::point_from_cell_n(&cc, &offp, &resn)
                            };
                            let q: Vec<i64> = (0..D).map(|i| fine(q[i] / f, resn[i], s)).collect();
                            arr(&q)
                        })
                        .unwrap_or("[]".to_string())
                    })
                    .collect();
                let o = Obj::new("conv").i("D", D as i64).i("S", s).i("form", form);
                let o = o.a("off", &off).a("c", &c).a("p", &p).raw("far", &list(&far));
                put(o, "got", got).end()
            }

            pub fn boxop(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (mn, mx, ex, tile) = (a.n(D), a.n(D), a.i(), a.i());
                let o = Obj::new("box").i("D", D as i64).i("S", s).a("mn", &mn).a("mx", &mx);
                let o = o.i("ex", ex).i("tile", tile);
                let b = guard(|| B::new(pt(&mn, res, s), pt(&mx, res, s)));
                let o = o.i("made", b.is_some() as i64);
                match b {
                    None => o.end(),
                    Some(b) => {
                        let o = put(o, "orig", Some(bv(&b, res, s)));
                        let o = put(o, "disc", guard(|| bv(&b.discretized(res, ex == 1), res, s)));
                        let o = put(o, "cb", guard(|| cbv(&CB::from_bounds(&b, res))));
                        let o = put(o, "cbt", guard(|| {
                            cbv(&CB::from_bounds(&b, res).discretized(tile as usize))
                        }));
                        put(o, "back", guard(|| {
                            bv(&B::from_cell_bounds(&CB::from_bounds(&b, res), res), res, s)
                        }))
                        .end()
                    }
                }
            }

            pub fn cbox(a: &mut Args) -> String {
                let (s, res, tile) = (a.i(), a.f(), a.i());
                let (mn, mx, r) = (a.n(D), a.n(D), a.n(D));
                let o = Obj::new("cbox").i("D", D as i64).i("S", s).i("tile", tile);
                let o = o.a("mn", &mn).a("mx", &mx);
                let made = guard(|| CB::new(cell(&mn), cell(&mx)));
                let o = o.i("made", made.is_some() as i64);
                let cb = CB { min: cell(&mn), max: cell(&mx) };
                let resn = P::from(na::VectorN::<f32, $U>::from_iterator(
                    r.iter().map(|r| res * *r as f32),
                ));
                let bvn = |b: &B| {
                    vec![
                        (0..D).map(|i| fine(b.min[i], resn[i], s)).collect(),
                        (0..D).map(|i| fine(b.max[i], resn[i], s)).collect(),
                    ]
                };
                let o = put(o, "disc", guard(|| cbv(&cb.discretized(tile as usize))));
                let o = put(o, "disc2", guard(|| {
                    cbv(&cb.discretized(tile as usize).discretized(tile as usize))
                }));
                // the same range, whole tiles away: results moved back
                let sh: Vec<String> = [(20u32, 1i64), (31, -1), (33, 1), (40, -1), (50, 1)]
                    .iter()
                    .map(|(e, sg)| {
                        let k = sg * tile * (1i64 << e);
                        let mv = |v: &[i64]| cell(&v.iter().map(|x| x + k).collect::<Vec<_>>());
                        let far = CB { min: mv(&mn), max: mv(&mx) };
                        guard(|| far.discretized(tile as usize))
                            .map(|b| {
                                let bk = |c: &C| c.coords.iter().map(|x| iclip(*x as i64 - k)).collect();
                                arr2(&[bk(&b.min), bk(&b.max)])
                            })
                            .unwrap_or("[]".to_string())
                    })
                    .collect();
                let o = o.raw("far", &list(&sh));
                // cells and tiles 2^e times as large, corners moved inwards by a cell: results made
                // small again
                let bg: Vec<String> = [13u32, 20, 33, 45]
                    .iter()
                    .map(|e| {
                        let f = 1i64 << e;
                        let big = CB {
                            min: cell(&mn.iter().map(|x| x * f + 1).collect::<Vec<_>>()),
                            max: cell(&mx.iter().map(|x| x * f - 1).collect::<Vec<_>>()),
                        };
                        guard(|| big.discretized((tile * f) as usize))
                            .map(|b| {
                                let small = |x: i64| if x % f == 0 { iclip(x / f) } else { 1_999_999_999 };
                                let sm = |c: &C| c.coords.iter().map(|x| small(*x as i64)).collect();
                                arr2(&[sm(&b.min), sm(&b.max)])
                            })
                            .unwrap_or("[]".to_string())
                    })
                    .collect();
                let o = o.raw("big", &list(&bg));
                let o = put(o, "fcb", guard(|| bv(&B::from_cell_bounds(&cb, res), res, s)));
                let o = put(o, "fcbn", guard(|| bvn(&B::from_cell_bounds_n(&cb, &resn))));
                let size = cell(&mx.iter().zip(&mn).map(|(x, n)| x - n).collect::<Vec<_>>());
                let off = cell(&mn);
                let o = put(o, "fsc", guard(|| bv(&B::from_size_cells(&size, res, &off), res, s)));
                put(o, "fscn", guard(|| bvn(&B::from_size_cells_n(&size, &resn, &off)))).end()
            }

            pub fn box2(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (amn, amx, bmn, bmx) = (a.n(D), a.n(D), a.n(D), a.n(D));
                let x = B { min: pt(&amn, res, s), max: pt(&amx, res, s) };
                let y = B { min: pt(&bmn, res, s), max: pt(&bmx, res, s) };
                let o = Obj::new("box2").i("D", D as i64).i("S", s);
                let o = o.a("amn", &amn).a("amx", &amx).a("bmn", &bmn).a("bmx", &bmx);
                let o = put(o, "enc", guard(|| bv(&x.enclosing(&y), res, s)));
                let o = put(o, "cne", guard(|| bv(&y.enclosing(&x), res, s)));
                let o = put(o, "ovl", guard(|| bv(&x.overlapping(&y), res, s)));
                put(o, "lvo", guard(|| bv(&y.overlapping(&x), res, s))).end()
            }

            /// Equality and approximate equality of two boxes and of two cell ranges. The absolute
            /// tolerance is in half sub-units, the relative one in 64ths.
            pub fn eqs(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (amn, amx, bmn, bmx) = (a.n(D), a.n(D), a.n(D), a.n(D));
                let (ek, rk) = (a.i(), a.i());
                let x = B { min: pt(&amn, res, s), max: pt(&amx, res, s) };
                let y = B { min: pt(&bmn, res, s), max: pt(&bmx, res, s) };
                let cx = CB { min: cell(&amn), max: cell(&amx) };
                let cy = CB { min: cell(&bmn), max: cell(&bmx) };
                let (eps, rel) = (unit(ek, res, 2 * s), rk as f32 / 64.0);
                use approx::{AbsDiffEq, RelativeEq};
                let o = Obj::new("eq").i("D", D as i64).i("S", s);
                let o = o.a("amn", &amn).a("amx", &amx).a("bmn", &bmn).a("bmx", &bmx);
                let o = o.i("ek", ek).i("rk", rk);
                let got = guard(|| {
                    vec![
                        (x == y) as i64,
                        (x != y) as i64,
                        (x.clone() == x) as i64,
                        (cx == cy) as i64,
                        (cx != cy) as i64,
                        (cx.clone() == cx) as i64,
                        x.abs_diff_eq(&y, eps) as i64,
                        x.abs_diff_ne(&y, eps) as i64,
                        x.relative_eq(&y, eps, rel) as i64,
                        x.relative_ne(&y, eps, rel) as i64,
                        x.relative_eq(&y, 0.0, rel) as i64,
                        // the default tolerances are far below the lattice
                        approx::abs_diff_eq!(x, y) as i64,
                        approx::relative_eq!(x, y) as i64,
                    ]
                });
                o.a("r", &got.unwrap_or_default()).end()
            }

            /// The literal forms, of 2 * D coordinates.
            pub fn lit(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (p, q) = (a.n(D), a.n(D));
                let o = Obj::new("lit").i("D", D as i64).i("S", s).a("p", &p).a("q", &q);
                let got = guard(|| {
                    let (fp, fq): (Vec<f32>, Vec<f32>) = (
                        p.iter().map(|x| unit(*x, res, s)).collect(),
                        q.iter().map(|x| unit(*x, res, s)).collect(),
                    );
                    let (ip, iq): (Vec<isize>, Vec<isize>) = (
                        p.iter().map(|x| *x as isize).collect(),
                        q.iter().map(|x| *x as isize).collect(),
                    );
                    let (pl, bl, cl, rl) = $lit(&fp, &fq, &ip, &iq);
                    (pv(&pl, res, s), bv(&bl, res, s), cv(&cl), cbv(&rl))
                });
                let o = o.aa("eb", &bv(&B::empty(), res, s)).aa("ec", &cbv(&CB::empty()));
                match got {
                    None => o.i("failed", 1).end(),
                    Some((pl, bl, cl, rl)) => {
                        o.a("pl", &pl).aa("bl", &bl).a("cl", &cl).aa("rl", &rl).end()
                    }
                }
            }

            /// An upper corner: rays take no notice of it.
            fn upper(m: &[i64], o: &[i64], e: &[i64], s: i64) -> Vec<i64> {
                let by = match (o[0] + 3 * e[1] + m[0]).rem_euclid(4) {
                    0 => 0,
                    1 => s,
                    2 => 4 * s,
                    _ => 1000 * s,
                };
                m.iter().map(|x| x + by).collect()
            }

            pub fn ray(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (m, o, e) = (a.n(D), a.n(D), a.n(D));
                let (ml, tt, et) = (a.i(), a.i(), a.i());
                let b = B { min: pt(&m, res, s), max: pt(&upper(&m, &o, &e, s), res, s) };
                let (op, ep) = (pt(&o, res, s), pt(&e, res, s));
                let got = guard(|| {
                    kuba::ray_caster::cast_ray(&op, &ep, &b, res, limit(ml, res, s))
                });
                let ev = Obj::new("ray").i("D", D as i64).i("S", s).a("m", &m).a("o", &o);
                let ev = ev.a("e", &e).i("ml", ml).i("tt", tt).i("et", et);
                match got {
                    None => ev.i("failed", 1).end(),
                    Some((ray, end)) => ev
                        .aa("ray", &ray.iter().map(cv).collect::<Vec<_>>())
                        .aa("end", &end.iter().map(cv).collect::<Vec<_>>())
                        .end(),
                }
            }

            fn set(h: &HashSet<C>) -> Vec<Vec<i64>> {
                let mut v: Vec<_> = h.iter().map(cv).collect();
                v.sort();
                v
            }

            pub fn rays(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let (m, o) = (a.n(D), a.n(D));
                let ml = a.i();
                let p = pts(a);
                let b = B { min: pt(&m, res, s), max: pt(&upper(&m, &o, &o, s), res, s) };
                let op = pt(&o, res, s);
                let max = limit(ml, res, s);
                let ev = Obj::new("rays").i("D", D as i64).i("S", s).a("m", &m).a("o", &o);
                let ev = ev.i("ml", ml).aa("p", &p);
                let got = guard(|| {
                    let each: Vec<String> = p
                        .iter()
                        .map(|v| {
                            let (ray, end) =
                                kuba::ray_caster::cast_ray(&op, &pt(v, res, s), &b, res, max);
                            Obj::anon()
                                .aa("ray", &ray.iter().map(cv).collect::<Vec<_>>())
                                .aa("end", &end.iter().map(cv).collect::<Vec<_>>())
                                .end()
                        })
                        .collect();
                    let cast = |q: &[Vec<i64>]| {
                        let (f, c) = kuba::ray_caster::cast_rays(
                            &op,
                            &cloud_of(q, res, s),
                            &b,
                            res,
                            max,
                        );
                        (set(&f), set(&c))
                    };
                    let all = repeated(&p, a);
                    let mut rev = all.clone();
                    rev.reverse();
                    (each, cast(&all), cast(&rev))
                });
                match got {
                    None => ev.i("failed", 1).end(),
                    Some((each, (f, c), (rf, rc))) => ev
                        .raw("each", &list(&each))
                        .aa("free", &f)
                        .aa("occ", &c)
                        .aa("rfree", &rf)
                        .aa("rocc", &rc)
                        .end(),
                }
            }

            pub fn cloud(a: &mut Args) -> String {
                let (s, res) = (a.i(), a.f());
                let p = pts(a);
                let ev = Obj::new("cloud").i("D", D as i64).i("S", s).aa("p", &p);
                let got = guard(|| {
                    let c = cloud_of(&p, res, s);
                    let it: Vec<_> = c.points_iter().map(|q| pv(&q, res, s)).collect();
                    let again = Cloud::from_data(c.data.clone());
                    let copy = c.clone();
                    let it2: Vec<_> = again.points_iter().map(|q| pv(&q, res, s)).collect();
                    let it3: Vec<_> = copy.points_iter().map(|q| pv(&q, res, s)).collect();
                    (c.num_points(), it, it2, it3, again.num_points(), bv(&c.bounds(), res, s))
                });
                match got {
                    None => ev.i("failed", 1).end(),
                    Some((n, it, it2, it3, n2, b)) => ev
                        .i("n", n as i64)
                        .i("n2", n2 as i64)
                        .aa("it", &it)
                        .aa("it2", &it2)
                        .aa("it3", &it3)
                        .aa("b", &b)
                        .end(),
                }
            }
        }
    };
}

fn lit2(
    p: &[f32],
    q: &[f32],
    c: &[isize],
    d: &[isize],
) -> (kuba::Point2, kuba::Bounds2, kuba::Cell2, kuba::CellBounds2) {
    (
        kuba::point2![p[0], p[1]],
        kuba::bounds2![[p[0], p[1]], [q[0], q[1]]],
        kuba::cell2![c[0], c[1]],
        kuba::cell_bounds2![[c[0], c[1]], [d[0], d[1]]],
    )
}
fn lit3(
    p: &[f32],
    q: &[f32],
    c: &[isize],
    d: &[isize],
) -> (kuba::Point3, kuba::Bounds3, kuba::Cell3, kuba::CellBounds3) {
    (
        kuba::point3![p[0], p[1], p[2]],
        kuba::bounds3![[p[0], p[1], p[2]], [q[0], q[1], q[2]]],
        kuba::cell3![c[0], c[1], c[2]],
        kuba::cell_bounds3![[c[0], c[1], c[2]], [d[0], d[1], d[2]]],
    )
}

dim_ops!(d2, na::U2, 2, super::lit2);
dim_ops!(d3, na::U3, 3, super::lit3);

/// Affine transform: 12 integers, row-major 3x4, the linear part over den and the offset in sub-units.
fn xf(a: &mut Args) -> String {
    let (s, res, den) = (a.i(), a.f(), a.i());
    let t = a.n(12);
    let p = d3::pts(a);
    let ev = Obj::new("xf").i("D", 3).i("S", s).i("den", den).a("t", &t).aa("p", &p);
    let m = na::MatrixN::<f32, na::U4>::from_fn(|r, c| match (r, c) {
        (3, 3) => 1.0,
        (3, _) => 0.0,
        (_, 3) => unit(t[r * 4 + 3], res, s),
        _ => (t[r * 4 + c] as f64 / den as f64) as f32,
    });
    let got = guard(|| {
        let c = d3::cloud_of(&p, res, s);
        let q = c.transform(&m);
        let before: Vec<_> = c.points_iter().map(|q| d3::pv(&q, res, s)).collect();
        let after: Vec<_> = q.points_iter().map(|q| d3::pv(&q, res, s)).collect();
        (q.num_points(), before, after)
    });
    match got {
        None => ev.i("failed", 1).end(),
        Some((n, before, after)) => {
            ev.i("n", n as i64).aa("before", &before).aa("after", &after).end()
        }
    }
}

pub fn run(op: &str, a: &mut Args) -> String {
    match op {
        "xf" => return xf(a),
        "aliases" => {
            let v = vec![
                alias::<kuba::GridMap2f>("GridMap2f"),
                alias::<kuba::GridMap2i>("GridMap2i"),
                alias::<kuba::GridMap2b>("GridMap2b"),
                alias::<kuba::GridMap3f>("GridMap3f"),
                alias::<kuba::GridMap3i>("GridMap3i"),
                alias::<kuba::GridMap3b>("GridMap3b"),
            ];
            return Obj::new("aliases").raw("v", &list(&v)).end();
        }
        _ => {}
    }
    let d = a.i();
    match (op, d) {
        ("conv", 2) => d2::conv(a),
        ("conv", _) => d3::conv(a),
        ("box", 2) => d2::boxop(a),
        ("box", _) => d3::boxop(a),
        ("cbox", 2) => d2::cbox(a),
        ("cbox", _) => d3::cbox(a),
        ("box2", 2) => d2::box2(a),
        ("box2", _) => d3::box2(a),
        ("eq", 2) => d2::eqs(a),
        ("eq", _) => d3::eqs(a),
        ("lit", 2) => d2::lit(a),
        ("lit", _) => d3::lit(a),
        ("ray", 2) => d2::ray(a),
        ("ray", _) => d3::ray(a),
        ("rays", 2) => d2::rays(a),
        ("rays", _) => d3::rays(a),
        ("cloud", 2) => d2::cloud(a),
        ("cloud", _) => d3::cloud(a),
        _ => panic!("script: unknown op {}", op),
    }
}
