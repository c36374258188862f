//! Stateful histories over grid maps and occupancy grid maps.
use crate::geom::limit;
use crate::out::*;
use crate::Args;
use kuba::prelude::*;
use kuba::{GridMapN, LidarNoiseModel, OccupancyGridMapN};

pub trait Val: na::Scalar {
    fn from_i(v: i64, vs: i64) -> Self;
    fn to_i(&self, vs: i64) -> i64;
}
impl Val for f32 {
    fn from_i(v: i64, vs: i64) -> f32 {
        match v {
            2_000_000_000 => return f32::INFINITY,
            -2_000_000_000 => return f32::NEG_INFINITY,
            2_000_000_001 => return f32::NAN,
            _ => {}
        }
        (v as f64 / vs as f64) as f32
    }
    fn to_i(&self, vs: i64) -> i64 {
        clip((*self as f64 * vs as f64).round())
    }
}
impl Val for i32 {
    fn from_i(v: i64, _: i64) -> i32 {
        v as i32
    }
    fn to_i(&self, _: i64) -> i64 {
        *self as i64
    }
}
impl Val for bool {
    fn from_i(v: i64, _: i64) -> bool {
        v != 0
    }
    fn to_i(&self, _: i64) -> i64 {
        *self as i64
    }
}

#[derive(Clone)]
pub struct Params {
    pub d: i64,
    pub s: i64,
    pub res: f32,
    pub kind: String,
    pub tile: i64,
    pub vs: i64,
    pub tol: i64,
    /// hit, miss, min, max, threshold (log-odds times vs) and the range limit in half sub-units.
    pub np: Vec<i64>,
    mode: i64,
    probs: Vec<i64>,
    /// huge maps: frequent values are counted, only the other cells are listed
    pub sparse: bool,
}

impl Params {
    fn new(a: &mut Args, sparse: bool) -> Params {
        let (d, s, res) = (a.i(), a.i(), a.f());
        let kind = a.s().to_string();
        let (tile, vs, tol, mode) = (a.i(), a.i(), a.i(), a.i());
        let np = a.n(6);
        let probs = if mode == 2 { a.n(5) } else { vec![] };
        Params { d, s, res, kind, tile, vs, tol, np, mode, probs, sparse }
    }
    fn noise(&self) -> LidarNoiseModel {
        let max_range = limit(self.np[5], self.res, self.s);
        match self.mode {
            0 | 4 => LidarNoiseModel::default(),
            1 => {
                let mut nm = LidarNoiseModel::default();
                let v = |i: usize| self.np[i] as f32 / self.vs as f32;
                nm.hit_probability_logodds = v(0);
                nm.miss_probability_logodds = v(1);
                nm.min_probability_logodds = v(2);
                nm.max_probability_logodds = v(3);
                nm.occupied_threshold_logodds = v(4);
                nm.max_range = max_range;
                nm
            }
            _ => {
                let p = |i: usize| self.probs[i] as f32 / 1000.0;
                LidarNoiseModel::new(p(0), p(1), p(2), p(3), p(4), max_range)
            }
        }
    }
}

/// A noise model that is nothing like a lidar: it counts every point of a cloud in its order, marks
/// the cell of the sensor, fills new cells with `base`, and calls odd values occupied.
pub struct Odd {
    base: f32,
}

macro_rules! dim_sess {
    ($m:ident, $g:ident, $U:ty, $Ix:ty) => {
        impl NoiseModel<$U, $Ix> for Odd {
            fn default_noise_model() -> Self {
                Odd { base: 3.0 }
            }
            fn default_cell_value(&self) -> f32 {
                self.base
            }
            fn integrate_point_cloud(
                &self,
                map: &mut impl ExpandableGridMap<f32, $U, $Ix>,
                origin: &kuba::Point<$U>,
                cloud: &kuba::PointCloud<$U>,
            ) {
                // every third point is ignored
                let kept: Vec<_> =
                    cloud.points_iter().enumerate().filter(|(k, _)| k % 3 != 1).map(|(_, p)| p).collect();
                let around = kuba::Bounds::<$U> { min: origin.clone(), max: origin.clone() };
                let kept = kuba::PointCloud::<$U>::from_points(&kept);
                map.expand_bounds(&around.enclosing(&kept.bounds()), self.base);
                let mut seen = vec![];
                let c = map.cell_from_point(origin);
                map.set(&c, map.get(&c) + 7.0);
                seen.push(c);
                for (k, p) in kept.points_iter().enumerate() {
                    let c = map.cell_from_point(&p);
                    map.set(&c, (map.get(&c) * 3.0 + k as f32).rem_euclid(251.0));
                    seen.push(c);
                }
                if map.track_changes() {
                    map.add_changed_cells(seen);
                }
            }
            fn occupied(&self, map: &impl GridMap<f32, $U, $Ix>, cell: &kuba::Cell<$U>) -> bool {
                map.get(cell).rem_euclid(2.0) == 1.0
            }
        }

        pub mod $m {
            use super::*;
            use crate::geom::$g as g;
            type C = kuba::Cell<$U>;
            type Nm = LidarNoiseModel;
            type Occ = OccupancyGridMapN<Nm, $U, $Ix>;

            pub enum M {
                F(GridMapN<f32, $U, $Ix>),
                I(GridMapN<i32, $U, $Ix>),
                B(GridMapN<bool, $U, $Ix>),
                O(Occ),
                N(OccupancyGridMapN<Odd, $U, $Ix>),
            }

            macro_rules! on {
                ($map:expr, $v:ident => $e:expr) => {
                    match $map {
                        M::F($v) => $e,
                        M::I($v) => $e,
                        M::B($v) => $e,
                        M::O($v) => $e,
                        M::N($v) => $e,
                    }
                };
            }

            /// Slots 0 to 2 hold the maps of a history; TWIN is used during a single call.
            const TWIN: usize = 3;
            const ODD: Odd = Odd { base: 3.0 };
            pub struct Maps {
                p: Params,
                nm: Nm,
                maps: Vec<Option<M>>,
            }

            fn for_cells(n: &[i64], f: &mut dyn FnMut(C)) {
                let mut c = vec![0i64; g::D];
                if n.iter().any(|x| *x <= 0) {
                    return;
                }
                loop {
                    f(g::cell(&c));
                    let mut k = g::D;
                    loop {
                        if k == 0 {
                            return;
                        }
                        k -= 1;
                        c[k] += 1;
                        if c[k] < n[k] {
                            break;
                        }
                        c[k] = 0;
                    }
                }
            }

            fn milli(x: f32, res: f32) -> i64 {
                clip((x as f64 / res as f64 * 1000.0).round())
            }

            /// Values of more than FREQUENT cells are counted and boxed in; the other cells are listed.
            fn sparse<A: Val>(
                map: &dyn GridMap<A, $U, $Ix>,
                p: &Params,
                occupied: &mut dyn FnMut(&C) -> Option<bool>,
                o: Obj,
                n: &[i64],
                total: i64,
            ) -> Obj {
                const FREQUENT: i64 = 1000;
                let o = o.a("n", n);
                if total > 50_000_000 {
                    return o.i("huge", 1);
                }
                let mut seen: std::collections::BTreeMap<i64, (i64, Vec<i64>, Vec<i64>, i64, i64)> =
                    Default::default();
                let mut all = vec![];
                let ok = guard(|| {
                    for_cells(n, &mut |c| {
                        let v = map.get(&c).to_i(p.vs);
                        all.push(v);
                        let oc = occupied(&c).map_or(2, |b| b as i64);
                        let e = seen
                            .entry(v)
                            .or_insert_with(|| (0, g::cv(&c), g::cv(&c), oc, oc));
                        e.0 += 1;
                        for i in 0..g::D {
                            e.1[i] = e.1[i].min(c[i] as i64);
                            e.2[i] = e.2[i].max(c[i] as i64 + 1);
                        }
                        e.3 = e.3.min(oc);
                        e.4 = e.4.max(oc);
                    })
                });
                if ok.is_none() {
                    return o.i("unreadable", 1);
                }
                let (mut bg, mut sp, mut oc) = (vec![], vec![], vec![]);
                for (v, (count, lo, hi, o1, o2)) in &seen {
                    if oc.len() < 200 {
                        oc.push(vec![*v, *o1, *o2]);
                    }
                    if *count > FREQUENT {
                        let b = Obj::anon().i("v", *v).i("k", *count).a("lo", lo).a("hi", hi);
                        bg.push(b.end());
                    }
                }
                let mut k = 0;
                for_cells(n, &mut |c| {
                    let v = all[k];
                    k += 1;
                    if seen[&v].0 <= FREQUENT && sp.len() < 3000 {
                        let mut e = g::cv(&c);
                        e.push(v);
                        sp.push(e);
                    }
                });
                o.raw("bg", &list(&bg)).aa("sp", &sp).aa("ob", &oc)
            }

            fn project<A: Val>(
                map: &dyn GridMap<A, $U, $Ix>,
                p: &Params,
                occupied: &mut dyn FnMut(&C) -> Option<bool>,
                o: Obj,
            ) -> Obj {
                let (b, r) = (map.bounds(), map.resolution());
                let lo: Vec<i64> = (0..g::D).map(|i| milli(b.min[i], p.res)).collect();
                let hi: Vec<i64> = (0..g::D).map(|i| milli(b.max[i], p.res)).collect();
                let n: Vec<i64> = lo
                    .iter()
                    .zip(&hi)
                    .map(|(l, h)| ((h - l) as f64 / 1000.0).round() as i64)
                    .collect();
                let total: i64 = n.iter().map(|x| (*x).max(0)).product();
                let chg: Vec<_> = map.changed_cells().iter().map(g::cv).collect();
                let o = o
                    .a("lo", &lo)
                    .a("hi", &hi)
                    .i("res", clip((r as f64 / p.res as f64 * 1e6).round()))
                    .i("trk", map.track_changes() as i64)
                    .aa("chg", &chg);
                if p.sparse {
                    return sparse(map, p, occupied, o, &n, total);
                }
                if total > 400_000 {
                    return o.i("huge", 1);
                }
                let (mut d, mut oc) = (vec![], vec![]);
                let ok = guard(|| {
                    for_cells(&n, &mut |c| {
                        d.push(map.get(&c).to_i(p.vs));
                        if let Some(b) = occupied(&c) {
                            oc.push(b as i64);
                        }
                    })
                });
                if ok.is_none() {
                    return o.i("unreadable", 1);
                }
                o.a("d", &d).a("oc", &oc)
            }

            impl Maps {
                /// One map whose extent need not be aligned with anything, and its clone.
                pub fn umap(a: &mut Args) -> String {
                    let (s, res, kind, tile) = (a.i(), a.f(), a.s().to_string(), a.i());
                    let (x, y, n, v) = (a.n(g::D), a.n(g::D), a.n(g::D), a.n(4));
                    let (c1, c2, c3) = (a.n(g::D), a.n(g::D), a.n(g::D));
                    let q = a.n(g::D);
                    let o = Obj::new("umap").i("D", g::D as i64).i("S", s).st("kind", &kind).i("tile", tile);
                    let o = o.a("x", &x).a("y", &y).a("n", &n).a("v", &v).a("c1", &c1).a("c2", &c2);
                    let o = o.a("c3", &c3).a("q", &q);
                    let b = kuba::Bounds::<$U> { min: g::pt(&x, res, s), max: g::pt(&y, res, s) };
                    fn see<A: Val>(
                        m: &dyn GridMap<A, $U, $Ix>,
                        n: &[i64],
                        (res, s, tile): (f32, i64, usize),
                    ) -> String {
                        let mut d = vec![];
                        for_cells(n, &mut |c| d.push(guard(|| m.get(&c).to_i(1)).unwrap_or(-777)));
                        // just outside on every axis and side
                        let mut out = vec![];
                        for i in 0..g::D {
                            for k in [-1, n[i]] {
                                let mut c = vec![0; g::D];
                                c[i] = k;
                                out.push(guard(|| m.get(&g::cell(&c))).is_some() as i64);
                            }
                        }
                        let b = m.bounds();
                        let chg: Vec<_> = m.changed_cells().iter().map(g::cv).collect();
                        Obj::anon()
                            .aa("b", &[g::pv(&b.min, res, s), g::pv(&b.max, res, s)])
                            .i("res", clip((m.resolution() as f64 / res as f64 * 1e6).round()))
                            .i("tile", tile as i64)
                            .i("trk", m.track_changes() as i64)
                            .aa("chg", &chg)
                            .a("d", &d)
                            .a("out", &out)
                            .end()
                    }
                    macro_rules! go {
                        ($T:ty, $mk:expr, $tile_of:expr, $copy:expr) => {{
                            let mut m = $mk;
                            let mut steps = vec![];
                            let t = |k: usize| <$T>::from_i(v[k], 1);
                            let tile_of = $tile_of;
                            steps.push(see(&m, &n, (res, s, tile_of(&m))));
                            m.set(&g::cell(&c1), t(1));
                            m.set_track_changes(true);
                            m.add_changed_cells(vec![g::cell(&c2), g::cell(&c1), g::cell(&c2)]);
                            steps.push(see(&m, &n, (res, s, tile_of(&m))));
                            let mut k = $copy(&m);
                            steps.push(see(&k, &n, (res, s, tile_of(&k))));
                            let cf = |m: &dyn GridMap<$T, $U, $Ix>| {
                                vec![
                                    g::cv(&m.cell_from_point(&g::pt(&q, res, s))),
                                    g::pv(&m.point_from_cell(&g::cell(&c2)), res, s),
                                    g::cv(&m.cell_from_point(&m.point_from_cell(&g::cell(&c3)))),
                                ]
                            };
                            let (f1, f2) = (cf(&m), cf(&k));
                            k.set(&g::cell(&c2), t(2));
                            k.clear_changed_cells();
                            k.set_track_changes(false);
                            m.set(&g::cell(&c3), t(3));
                            m.add_changed_cells(vec![g::cell(&c3)]);
                            steps.push(see(&m, &n, (res, s, tile_of(&m))));
                            steps.push(see(&k, &n, (res, s, tile_of(&k))));
                            (steps, f1, f2)
                        }};
                    }
                    let t = tile as usize;
                    macro_rules! plain {
                        ($T:ty) => {
                            go!($T, GridMapN::<$T, $U, $Ix>::new(res, b.clone(), t, <$T>::from_i(v[0], 1)),
                                |m: &GridMapN<$T, $U, $Ix>| m.tile_size,
                                |m: &GridMapN<$T, $U, $Ix>| m.clone())
                        };
                    }
                    let r = guard(|| match kind.as_str() {
                        "f" => plain!(f32),
                        "i" => plain!(i32),
                        "b" => plain!(bool),
                        _ => {
                            let wrap = |g: GridMapN<f32, $U, $Ix>| {
                                let mut occ = Occ::new(Nm::default(), res, t);
                                occ.grid_map = g;
                                occ
                            };
                            go!(f32, wrap(GridMapN::new(res, b.clone(), t, f32::from_i(v[0], 1))),
                                |m: &Occ| m.grid_map.tile_size,
                                |m: &Occ| wrap(m.grid_map.clone()))
                        }
                    });
                    match r {
                        None => o.i("failed", 1).end(),
                        Some((st, f1, f2)) => {
                            o.raw("st", &list(&st)).aa("f1", &f1).aa("f2", &f2).end()
                        }
                    }
                }

                pub fn new(p: &Params) -> Maps {
                    Maps { p: p.clone(), nm: p.noise(), maps: vec![None, None, None, None] }
                }

                fn state(&self, ids: std::ops::Range<usize>) -> String {
                    let mut v = vec![];
                    for k in ids {
                        let (p, m) = (&self.p, &self.maps[k]);
                        let o = Obj::anon().i("id", k as i64);
                        let o = match m {
                            None => o,
                            Some(M::F(m)) => o.i("tile", m.tile_size as i64),
                            Some(M::I(m)) => o.i("tile", m.tile_size as i64),
                            Some(M::B(m)) => o.i("tile", m.tile_size as i64),
                            Some(M::O(m)) => o.i("tile", m.grid_map.tile_size as i64),
                            Some(M::N(m)) => o.i("tile", m.grid_map.tile_size as i64),
                        };
                        match m {
                            None => {}
                            // the twin of a map with the other noise model
                            Some(M::F(m)) if p.kind == "n" => v.push(
                                project(m, p, &mut |c| Some(ODD.occupied(m, c)), o).end(),
                            ),
                            Some(M::F(m)) => v.push(
                                project(m, p, &mut |c| Some(self.nm.occupied(m, c)), o).end(),
                            ),
                            Some(M::I(m)) => v.push(project(m, p, &mut |_| None, o).end()),
                            Some(M::B(m)) => v.push(project(m, p, &mut |_| None, o).end()),
                            Some(M::O(m)) => {
                                let inner = project(
                                    &m.grid_map,
                                    p,
                                    &mut |c| Some(m.noise_model.occupied(&m.grid_map, c)),
                                    Obj::anon(),
                                );
                                let outer = project(m, p, &mut |c| Some(m.occupied(c)), o);
                                v.push(outer.raw("in", &inner.end()).end());
                            }
                            Some(M::N(m)) => {
                                let inner = project(
                                    &m.grid_map,
                                    p,
                                    &mut |c| Some(m.noise_model.occupied(&m.grid_map, c)),
                                    Obj::anon(),
                                );
                                let outer = project(m, p, &mut |c| Some(m.occupied(c)), o);
                                v.push(outer.raw("in", &inner.end()).end());
                            }
                        }
                    }
                    list(&v)
                }

                fn with<T>(
                    &mut self,
                    k: usize,
                    f: impl FnOnce(&mut M, &Params, &Nm) -> T,
                ) -> Option<T> {
                    let Maps { p, nm, maps } = self;
                    let m = maps[k].as_mut().expect("script: no such map");
                    guard(move || f(m, p, nm))
                }

                /// One call. On an occupancy map, the same call is also made on a twin: a grid built
                /// from the same data and marks, with a noise model of the same parameters.
                pub fn run(&mut self, op: &str, a: &mut Args) -> String {
                    let k = a.i() as usize;
                    let mut again = a.clone();
                    let call = !["new", "newd", "arr", "clone"].contains(&op);
                    let twin = |g: &GridMapN<f32, $U, $Ix>| {
                        let mut t = GridMapN::from_ndarray(
                            g.data.clone(),
                            g.resolution,
                            g.bounds.clone(),
                            g.tile_size,
                        );
                        t.add_changed_cells(g.changed_cells());
                        t.set_track_changes(g.track_changes());
                        t
                    };
                    let twin = match &self.maps[k] {
                        Some(M::O(w)) if call => {
                            let mut nm = Nm::default();
                            nm.hit_probability_logodds = w.noise_model.hit_probability_logodds;
                            nm.miss_probability_logodds = w.noise_model.miss_probability_logodds;
                            nm.min_probability_logodds = w.noise_model.min_probability_logodds;
                            nm.max_probability_logodds = w.noise_model.max_probability_logodds;
                            nm.occupied_threshold_logodds = w.noise_model.occupied_threshold_logodds;
                            nm.max_range = w.noise_model.max_range;
                            Some((twin(&w.grid_map), nm))
                        }
                        Some(M::N(w)) if call => Some((twin(&w.grid_map), Nm::default())),
                        _ => None,
                    };
                    let (o, done) = self.call(op, k, a);
                    let o = o.i("ok", done as i64);
                    let o = match twin {
                        None => o,
                        Some((t, nm)) => {
                            let own = std::mem::replace(&mut self.nm, nm);
                            self.maps[TWIN] = Some(M::F(t));
                            let (tw, done) = self.call(op, TWIN, &mut again);
                            let tw = tw.i("ok", done as i64).raw("st", &self.state(TWIN..TWIN + 1));
                            self.maps[TWIN] = None;
                            self.nm = own;
                            o.raw("tw", &tw.end())
                        }
                    };
                    o.raw("st", &self.state(0..TWIN)).end()
                }

                fn call(&mut self, op: &str, k: usize, a: &mut Args) -> (Obj, bool) {
                    let o = Obj::new(op).i("m", k as i64);
                    let (p, d) = (self.p.clone(), g::D);
                    let (s, res) = (p.s, p.res);
                    match op {
                        "new" => {
                            let (lo, hi, v) = (a.n(d), a.n(d), a.i());
                            let sc = |x: &[i64]| x.iter().map(|c| c * s).collect::<Vec<_>>();
                            let b = kuba::Bounds::<$U> {
                                min: g::pt(&sc(&lo), res, s),
                                max: g::pt(&sc(&hi), res, s),
                            };
                            let t = p.tile as usize;
                            let made = guard(|| match p.kind.as_str() {
                                "i" => M::I(GridMapN::new(res, b, t, i32::from_i(v, p.vs))),
                                "b" => M::B(GridMapN::new(res, b, t, bool::from_i(v, p.vs))),
                                "o" => {
                                    // The wrapper has no constructor for initial bounds; a grown one
                                    // is obtained by replacing its public grid.
                                    let mut occ = Occ::new(p.noise(), res, t);
                                    occ.grid_map = GridMapN::new(res, b, t, f32::from_i(v, p.vs));
                                    M::O(occ)
                                }
                                "n" => {
                                    let mut occ = OccupancyGridMapN::new(ODD, res, t);
                                    occ.grid_map = GridMapN::new(res, b, t, f32::from_i(v, p.vs));
                                    M::N(occ)
                                }
                                _ => M::F(GridMapN::new(res, b, t, f32::from_i(v, p.vs))),
                            });
                            let ok = made.is_some();
                            self.maps[k] = made;
                            (o.a("lo", &lo).a("hi", &hi).i("v", v), ok)
                        }
                        "newd" => {
                            let t = p.tile as usize;
                            let made = guard(|| match (p.kind.as_str(), p.mode) {
                                ("i", _) => {
                                        let mut m = GridMapN::default();
                                    if p.mode != 4 {
                                        m.resolution = res;
                                        m.tile_size = t;
                                    }
                                    M::I(m)
                                }
                                ("b", _) => {
                                        let mut m = GridMapN::default();
                                    if p.mode != 4 {
                                        m.resolution = res;
                                        m.tile_size = t;
                                    }
                                    M::B(m)
                                }
                                ("o", 0) => M::O(Occ::default()),
                                ("o", _) => M::O(Occ::new(p.noise(), res, t)),
                                ("n", 4) => M::N(OccupancyGridMapN::default()),
                                ("n", _) => M::N(OccupancyGridMapN::new(ODD, res, t)),
                                _ => {
                                        let mut m = GridMapN::default();
                                    if p.mode != 4 {
                                        m.resolution = res;
                                        m.tile_size = t;
                                    }
                                    M::F(m)
                                }
                            });
                            let ok = made.is_some();
                            self.maps[k] = made;
                            (o, ok)
                        }
                        "arr" => {
                            let layout = a.i();
                            let (lo, n) = (a.n(d), a.n(d));
                            let total: i64 = n.iter().product();
                            let v = a.n(total as usize);
                            let hi: Vec<i64> = lo.iter().zip(&n).map(|(l, n)| (l + n) * s).collect();
                            let lo2: Vec<i64> = lo.iter().map(|l| l * s).collect();
                            let b = kuba::Bounds::<$U> {
                                min: g::pt(&lo2, res, s),
                                max: g::pt(&hi, res, s),
                            };
                            use kuba::CellToNdIndex;
                            let shape = g::cell(&n).to_ndindex();
                            let t = p.tile as usize;
                            macro_rules! mk {
                                ($T:ty) => {{
                                    let data: Vec<$T> =
                                        v.iter().map(|x| <$T>::from_i(*x, p.vs)).collect();
                                    let arr = nd::Array::<$T, $Ix>::from_shape_vec(shape, data)
                                        .expect("script: shape");
                                    // the same array laid out in memory in other ways
                                    use nd::ShapeBuilder;
                                    let arr = match layout {
                                        1 => nd::Array::<$T, $Ix>::from_shape_fn(
                                            arr.raw_dim().f(),
                                            |i| arr[i],
                                        ),
                                        2 => {
                                            let mut r = arr.clone();
                                            r.invert_axis(nd::Axis(0));
                                            let mut r = nd::Array::<$T, $Ix>::from_shape_fn(
                                                r.raw_dim(),
                                                |i| r[i],
                                            );
                                            r.invert_axis(nd::Axis(0));
                                            r
                                        }
                                        _ => arr,
                                    };
                                    GridMapN::<$T, $U, $Ix>::from_ndarray(arr, res, b, t)
                                }};
                            }
                            let made = guard(|| match p.kind.as_str() {
                                "i" => M::I(mk!(i32)),
                                "b" => M::B(mk!(bool)),
                                "o" => {
                                    let mut occ = Occ::new(p.noise(), res, t);
                                    occ.grid_map = mk!(f32);
                                    M::O(occ)
                                }
                                "n" => {
                                    let mut occ = OccupancyGridMapN::new(ODD, res, t);
                                    occ.grid_map = mk!(f32);
                                    M::N(occ)
                                }
                                _ => M::F(mk!(f32)),
                            });
                            let ok = made.is_some();
                            self.maps[k] = made;
                            (o.a("lo", &lo).a("n", &n).a("v", &v), ok)
                        }
                        "set" => {
                            let (c, v) = (a.n(d), a.i());
                            let cc = g::cell(&c);
                            let r = self.with(k, |m, p, _| match m {
                                M::F(m) => m.set(&cc, f32::from_i(v, p.vs)),
                                M::I(m) => m.set(&cc, i32::from_i(v, p.vs)),
                                M::B(m) => m.set(&cc, bool::from_i(v, p.vs)),
                                M::O(m) => m.set(&cc, f32::from_i(v, p.vs)),
                                M::N(m) => m.set(&cc, f32::from_i(v, p.vs)),
                            });
                            (o.a("c", &c).i("v", v), r.is_some())
                        }
                        "get" => {
                            let c = a.n(d);
                            let cc = g::cell(&c);
                            let r = self.with(k, |m, p, _| match m {
                                M::F(m) => m.get(&cc).to_i(p.vs),
                                M::I(m) => m.get(&cc).to_i(p.vs),
                                M::B(m) => m.get(&cc).to_i(p.vs),
                                M::O(m) => m.get(&cc).to_i(p.vs),
                                M::N(m) => m.get(&cc).to_i(p.vs),
                            });
                            (o.a("c", &c).i("r", r.unwrap_or(0)), r.is_some())
                        }
                        "exp" => {
                            let (x, y, v) = (a.n(d), a.n(d), a.i());
                            let b = kuba::Bounds::<$U> {
                                min: g::pt(&x, res, s),
                                max: g::pt(&y, res, s),
                            };
                            let r = self.with(k, |m, p, _| match m {
                                M::F(m) => m.expand_bounds(&b, f32::from_i(v, p.vs)),
                                M::I(m) => m.expand_bounds(&b, i32::from_i(v, p.vs)),
                                M::B(m) => m.expand_bounds(&b, bool::from_i(v, p.vs)),
                                M::O(m) => m.grid_map.expand_bounds(&b, f32::from_i(v, p.vs)),
                                M::N(m) => m.grid_map.expand_bounds(&b, f32::from_i(v, p.vs)),
                            });
                            (o.a("x", &x).a("y", &y).i("v", v), r.is_some())
                        }
                        "trk" => {
                            let b = a.i();
                            let r = self.with(k, |m, _, _| on!(m, m => m.set_track_changes(b != 0)));
                            (o.i("b", b), r.is_some())
                        }
                        "clr" => {
                            let r = self.with(k, |m, _, _| on!(m, m => m.clear_changed_cells()));
                            (o, r.is_some())
                        }
                        "add" => {
                            let cs = g::pts(a);
                            let v: Vec<C> = cs.iter().map(|c| g::cell(c)).collect();
                            let r = self.with(k, |m, _, _| on!(m, m => m.add_changed_cells(v)));
                            (o.aa("cs", &cs), r.is_some())
                        }
                        "int" => {
                            let org = a.n(d);
                            let ps = g::pts(a);
                            let (og, cl) = (g::pt(&org, res, s), g::cloud_of(&g::repeated(&ps, a), res, s));
                            let r = self.with(k, |m, p, nm| match m {
                                M::F(m) if p.kind == "n" => ODD.integrate_point_cloud(m, &og, &cl),
                                M::N(m) => m.integrate_point_cloud(&og, &cl),
                                M::F(m) => nm.integrate_point_cloud(m, &og, &cl),
                                M::O(m) => m.integrate_point_cloud(&og, &cl),
                                _ => panic!("script: not a float map"),
                            });
                            (o.a("o", &org).aa("p", &ps), r.is_some())
                        }
                        "hit" | "mis" => {
                            let c = a.n(d);
                            let cc = g::cell(&c);
                            let hit = op == "hit";
                            let r = self.with(k, |m, _, nm| match m {
                                M::F(m) => {
                                    if hit {
                                        nm.integrate_hit(m, &cc)
                                    } else {
                                        nm.integrate_miss(m, &cc)
                                    }
                                }
                                M::O(m) => {
                                    if hit {
                                        m.noise_model.integrate_hit(&mut m.grid_map, &cc)
                                    } else {
                                        m.noise_model.integrate_miss(&mut m.grid_map, &cc)
                                    }
                                }
                                _ => panic!("script: not a float map"),
                            });
                            (o.a("c", &c), r.is_some())
                        }
                        "clone" => {
                            let j = a.i() as usize;
                            // Into a slot that holds a map of the kind already, upwards: clone_from.
                            let old = if j > k { self.maps[j].take() } else { None };
                            let src = self.maps[k].as_ref().expect("script: no such map");
                            let r = guard(|| match (src, old) {
                                (M::F(m), Some(M::F(mut t))) => {
                                    t.clone_from(m);
                                    M::F(t)
                                }
                                (M::I(m), Some(M::I(mut t))) => {
                                    t.clone_from(m);
                                    M::I(t)
                                }
                                (M::B(m), Some(M::B(mut t))) => {
                                    t.clone_from(m);
                                    M::B(t)
                                }
                                (M::F(m), _) => M::F(m.clone()),
                                (M::I(m), _) => M::I(m.clone()),
                                (M::B(m), _) => M::B(m.clone()),
                                (M::O(m), old) => {
                                    let mut occ = Occ::new(p.noise(), res, p.tile as usize);
                                    match old {
                                        Some(M::O(t)) => {
                                            occ.grid_map = t.grid_map;
                                            occ.grid_map.clone_from(&m.grid_map);
                                        }
                                        _ => occ.grid_map = m.grid_map.clone(),
                                    }
                                    M::O(occ)
                                }
                                (M::N(m), old) => {
                                    let mut occ = OccupancyGridMapN::new(ODD, res, p.tile as usize);
                                    match old {
                                        Some(M::N(t)) => {
                                            occ.grid_map = t.grid_map;
                                            occ.grid_map.clone_from(&m.grid_map);
                                        }
                                        _ => occ.grid_map = m.grid_map.clone(),
                                    }
                                    M::N(occ)
                                }
                            });
                            let ok = r.is_some();
                            self.maps[j] = r;
                            (o.i("j", j as i64), ok)
                        }
                        "cfp" => {
                            let x = a.n(d);
                            let q = g::pt(&x, res, s);
                            let r = self.with(k, |m, _, _| match m {
                                M::F(m) => m.cell_from_point(&q),
                                M::I(m) => m.cell_from_point(&q),
                                M::B(m) => m.cell_from_point(&q),
                                M::O(m) => GridMap::cell_from_point(m, &q),
                                M::N(m) => GridMap::cell_from_point(m, &q),
                            });
                            let o = o.a("x", &x);
                            match r {
                                Some(c) => (o.a("r", &g::cv(&c)), true),
                                None => (o, false),
                            }
                        }
                        "pfc" => {
                            let c = a.n(d);
                            let cc = g::cell(&c);
                            let r = self.with(k, |m, _, _| match m {
                                M::F(m) => m.point_from_cell(&cc),
                                M::I(m) => m.point_from_cell(&cc),
                                M::B(m) => m.point_from_cell(&cc),
                                M::O(m) => GridMap::point_from_cell(m, &cc),
                                M::N(m) => GridMap::point_from_cell(m, &cc),
                            });
                            let o = o.a("c", &c);
                            match r {
                                Some(q) => (o.a("r", &g::pv(&q, res, s)), true),
                                None => (o, false),
                            }
                        }
                        _ => panic!("script: unknown op {}", op),
                    }
                }
            }
        }
    };
}

dim_sess!(s2, d2, na::U2, nd::Ix2);
dim_sess!(s3, d3, na::U3, nd::Ix3);

pub enum Session {
    Two(s2::Maps, Params),
    Three(s3::Maps, Params),
}

impl Session {
    pub fn new(a: &mut Args, sparse: bool) -> Session {
        let p = Params::new(a, sparse);
        if p.d == 2 {
            Session::Two(s2::Maps::new(&p), p)
        } else {
            Session::Three(s3::Maps::new(&p), p)
        }
    }
    pub fn header(&self) -> String {
        let p = match self {
            Session::Two(_, p) => p,
            Session::Three(_, p) => p,
        };
        Obj::new(if p.sparse { "bhist" } else { "hist" })
            .i("D", p.d)
            .i("S", p.s)
            .st("kind", &p.kind)
            .i("tile", p.tile)
            .i("vs", p.vs)
            .i("tol", p.tol)
            .a("np", &p.np)
            .i("dyadic", (p.res.to_bits() & 0x7fffff == 0) as i64)
            .end()
    }
    pub fn run(&mut self, op: &str, a: &mut Args) -> String {
        match self {
            Session::Two(m, _) => m.run(op, a),
            Session::Three(m, _) => m.run(op, a),
        }
    }
}
