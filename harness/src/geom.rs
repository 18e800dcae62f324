//! Dimension-erased views of the qhull-rs types, and generators for point sets.

use crate::engine::Src;
use crate::exact;

pub struct HullData {
    pub verts: Vec<Vec<f64>>,
    pub facets: Vec<Vec<usize>>,
    pub neighbors: Vec<Vec<usize>>,
    pub normals: Vec<Vec<f64>>,
    pub offsets: Vec<f64>,
}

pub struct DelData {
    pub verts: Vec<Vec<f64>>,
    pub simplices: Vec<Vec<usize>>,
    pub neighbors: Vec<Vec<Option<usize>>>,
    /// plane_distance of each simplex as an affine function: (coefficients, constant)
    pub planes: Vec<(Vec<f64>, f64)>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Find(Vec<f64>),
    FindCoords(Vec<f64>),
    SetEps(f64),
    Brute(bool),
    ClearHint,
    /// barycentric_coords for simplex (index modulo count)
    Coords(usize, Vec<f64>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpRes {
    Found(usize),
    FoundCoords(usize, Vec<f64>),
    NotFound,
    Coords(usize, Vec<f64>),
    Nothing,
    /// eps() / bruteforce() didn't return what was set
    Getter(String),
}

pub struct RawSearch {
    /// points of the found simplex
    pub simplex: Option<Vec<Vec<f64>>>,
    pub coords: Option<Vec<f64>>,
    pub hint_id: Option<u64>,
    pub id: Option<u64>,
    /// does the solver cache have a solver for the found simplex, and what does it answer
    pub solver: Option<Vec<f64>>,
    /// what does a solver say that was made from the vertices of that simplex
    pub made: Option<Vec<f64>>,
}

pub struct RawFacet {
    pub id: u64,
    pub upper: bool,
    pub verts: Vec<u64>,
    pub neighbors: Vec<u64>,
    pub normal: Vec<f64>,
    pub offset: f64,
}

pub struct RawVertex {
    pub id: u64,
    pub point: Vec<f64>,
    pub neighbors: Vec<u64>,
}

pub struct RawData {
    pub verts: Vec<RawVertex>,
    pub facets: Vec<RawFacet>,
    /// plane_distance of every facet (outer) for every probe (inner)
    pub dists: Vec<Vec<f64>>,
    /// a triangulation's points and facets with their additional dimension, as (id, point) and
    /// (id, normal, offset)
    pub full_verts: Vec<(u64, Vec<f64>)>,
    pub full_facets: Vec<(u64, Vec<f64>, f64)>,
}

macro_rules! dims {
    ($modname:ident, $n:literal) => {
        pub mod $modname {
            use super::*;
            use nalgebra::{Const, SVector};
            use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};

            const N: usize = $n;
            const N1: usize = $n + 1;

            fn arr(pts: &[Vec<f64>]) -> Vec<[f64; N]> {
                pts.iter().map(|p| <[f64; N]>::try_from(&p[..]).unwrap()).collect()
            }
            fn vecs(pts: &[Vec<f64>]) -> Vec<SVector<f64, N>> {
                pts.iter().map(|p| SVector::<f64, N>::from_row_slice(p)).collect()
            }

            pub fn hull(pts: &[Vec<f64>], ctor: u64) -> HullData {
                let h: ConvexHull<Const<N>> = match ctor % 5 {
                    0 => ConvexHull::from_arrays(&arr(pts)),
                    1 => vecs(pts).into_iter().collect(),
                    2 => ConvexHull::from_qhull_raw(RawHull::from_arrays(&arr(pts))),
                    3 => ConvexHull::from_qhull_raw(RawHull::from_vectors(&vecs(pts))),
                    _ => {
                        let h: ConvexHull<Const<N>> = ConvexHull::from_qhull_raw(vecs(pts).into_iter().collect());
                        h.clone()
                    }
                };
                assert_eq!(h.vertices().len(), h.vertices().count());
                let verts: Vec<Vec<f64>> = h.vertices().map(|v| v.point().as_slice().to_vec()).collect();
                for (i, v) in h.vertices().enumerate() {
                    assert_eq!(v.index(), i, "vertex index");
                    assert!(h.vertices().nth(i).unwrap() == v, "vertex equality");
                }
                for (i, f) in h.facets().enumerate() {
                    assert_eq!(f.index(), i, "facet index");
                }
                HullData {
                    verts,
                    facets: h.facets().map(|f| f.vertices().map(|v| v.index()).collect()).collect(),
                    neighbors: h.facets().map(|f| f.neighbors().map(|v| v.index()).collect()).collect(),
                    normals: h.facets().map(|f| f.normal().as_slice().to_vec()).collect(),
                    offsets: h.facets().map(|f| f.offset()).collect(),
                }
            }

            fn make_delaunay(pts: &[Vec<f64>], ctor: u64) -> Delaunay<Const<N>> {
                match ctor % 4 {
                    0 => Delaunay::from_arrays(&arr(pts)),
                    1 => Delaunay::from_qhull_raw(RawDelaunay::from_arrays(&arr(pts))),
                    2 => Delaunay::from_qhull_raw(RawDelaunay::from_vectors(&vecs(pts))),
                    _ => Delaunay::<Const<N>>::from_arrays(&arr(pts)).clone(),
                }
            }

            fn data(d: &Delaunay<Const<N>>) -> DelData {
                for (i, v) in d.vertices().enumerate() {
                    assert_eq!(v.index(), i, "vertex index");
                }
                for (i, v) in d.simplices().enumerate() {
                    assert_eq!(v.index(), i, "simplex index");
                }
                // probe the planes at the magnitude of the coordinates (a power of two)
                let big = d.vertices().flat_map(|v| v.point().iter().copied().collect::<Vec<_>>()).fold(1e-300, |m: f64, x| m.max(x.abs()));
                let big = big.log2().round().exp2();
                let planes = d
                    .simplices()
                    .map(|s| {
                        let zero = SVector::<f64, N1>::zeros();
                        let c = s.plane_distance(&zero);
                        let coef = (0..N1)
                            .map(|i| {
                                let mut e = zero.clone();
                                e[i] = big;
                                (s.plane_distance(&e) - c) / big
                            })
                            .collect();
                        (coef, c)
                    })
                    .collect();
                DelData {
                    verts: d.vertices().map(|v| v.point().as_slice().to_vec()).collect(),
                    simplices: d.simplices().map(|s| s.vertices().map(|v| v.index()).collect()).collect(),
                    neighbors: d
                        .simplices()
                        .map(|s| s.neighbors().map(|n| n.map(|n| n.index())).collect())
                        .collect(),
                    planes,
                }
            }

            pub fn delaunay(pts: &[Vec<f64>], ctor: u64) -> DelData {
                data(&make_delaunay(pts, ctor))
            }

            pub fn search(pts: &[Vec<f64>], ctor: u64, ops: &[Op]) -> (DelData, Vec<OpRes>) {
                let d = make_delaunay(pts, ctor);
                let dd = data(&d);
                let mut s = d.simplex_searcher();
                let mut out = vec![];
                for op in ops {
                    out.push(match op {
                        Op::Find(p) => match s.find_simplex(&SVector::from_row_slice(p)) {
                            Some(x) => OpRes::Found(x.index()),
                            None => OpRes::NotFound,
                        },
                        Op::FindCoords(p) => {
                            let mut c = SVector::<f64, N1>::from_element(f64::NAN);
                            match s.find_simplex_mut(&SVector::from_row_slice(p), &mut c) {
                                Some(x) => OpRes::FoundCoords(x.index(), c.as_slice().to_vec()),
                                None => OpRes::NotFound,
                            }
                        }
                        Op::SetEps(e) => {
                            s.set_eps(*e);
                            if s.eps() == *e { OpRes::Nothing } else { OpRes::Getter(format!("eps {}", s.eps())) }
                        }
                        Op::Brute(b) => {
                            s.set_bruteforce(*b);
                            if s.bruteforce() == *b { OpRes::Nothing } else { OpRes::Getter("bruteforce".into()) }
                        }
                        Op::ClearHint => {
                            s.clear_start_hint();
                            OpRes::Nothing
                        }
                        Op::Coords(i, p) => {
                            let i = i % dd.simplices.len();
                            let x = d.simplices().nth(i).unwrap();
                            OpRes::Coords(i, s.barycentric_coords(x, SVector::from_row_slice(p)).as_slice().to_vec())
                        }
                    });
                }
                (dd, out)
            }

            pub fn raw_hull(pts: &[Vec<f64>], ctor: u64, probes: &[Vec<f64>]) -> RawData {
                let h: RawHull<Const<N>> = match ctor % 3 {
                    0 => RawHull::from_arrays(&arr(pts)),
                    1 => RawHull::from_vectors(&vecs(pts)),
                    _ => vecs(pts).into_iter().collect(),
                };
                RawData {
                    verts: h
                        .vertices()
                        .map(|v| RawVertex { id: v.id(), point: v.point().to_vec(), neighbors: v.neighbors().map(|f| f.id()).collect() })
                        .collect(),
                    facets: h
                        .facets()
                        .map(|f| RawFacet {
                            id: f.id(),
                            upper: f.is_upper_delaunay(),
                            verts: f.vertices().map(|v| v.id()).collect(),
                            neighbors: f.neighbors().map(|n| n.id()).collect(),
                            normal: f.normal().to_vec(),
                            offset: f.offset(),
                        })
                        .collect(),
                    dists: h
                        .facets()
                        .map(|f| probes.iter().map(|p| f.plane_distance(&SVector::from_row_slice(p))).collect())
                        .collect(),
                    full_verts: vec![],
                    full_facets: vec![],
                }
            }

            pub fn raw_delaunay(pts: &[Vec<f64>], ctor: u64) -> RawData {
                let d: RawDelaunay<Const<N>> = match ctor % 2 {
                    0 => RawDelaunay::from_arrays(&arr(pts)),
                    _ => RawDelaunay::from_vectors(&vecs(pts)),
                };
                RawData {
                    verts: d
                        .vertices()
                        .map(|v| RawVertex { id: v.id(), point: v.point().to_vec(), neighbors: v.neighbors().map(|f| f.id()).collect() })
                        .collect(),
                    facets: d
                        .simplices()
                        .map(|f| RawFacet {
                            id: f.id(),
                            upper: f.is_upper_delaunay(),
                            verts: f.vertices().map(|v| v.id()).collect(),
                            neighbors: f.neighbors().map(|n| n.id()).collect(),
                            normal: f.normal().to_vec(),
                            offset: f.offset(),
                        })
                        .collect(),
                    dists: vec![],
                    full_verts: d.full_vertices().map(|v| (v.id(), v.point().to_vec())).collect(),
                    full_facets: d.full_simplices().map(|f| (f.id(), f.normal().to_vec(), f.offset())).collect(),
                }
            }

            /// A history of searches with the raw API. Each step: point, tolerance, use the hint of
            /// the previous steps, ask for coordinates, use the variant without coordinates.
            pub fn raw_search(
                pts: &[Vec<f64>],
                ctor: u64,
                steps: &[(Vec<f64>, Option<f64>, bool, bool, bool)],
            ) -> Vec<RawSearch> {
                let d: RawDelaunay<Const<N>> = match ctor % 2 {
                    0 => RawDelaunay::from_arrays(&arr(pts)),
                    _ => RawDelaunay::from_vectors(&vecs(pts)),
                };
                let cache = d.compute_barycentric_solver_cache();
                let mut hint = d.full_simplices().find(|f| !f.is_upper_delaunay());
                let mut hint_n = d.simplices().find(|f| !f.is_upper_delaunay());
                let _ = &mut hint;
                steps
                    .iter()
                    .map(|(p, tol, use_hint, want, variant)| {
                        let p = SVector::<f64, N>::from_row_slice(p);
                        let mut c = SVector::<f64, N1>::from_element(f64::NAN);
                        let h = if *use_hint { hint_n.as_mut() } else { None };
                        let r = if *variant {
                            d.find_best_simplex__(p, &cache, *tol, h)
                        } else {
                            d.find_best_simplex(p, &cache, *tol, if *want { Some(&mut c) } else { None }, h)
                        };
                        RawSearch {
                            simplex: r.map(|f| f.vertices().map(|v| v.point().to_vec()).collect()),
                            coords: if *want && !*variant && r.is_some() { Some(c.as_slice().to_vec()) } else { None },
                            hint_id: if *use_hint { hint_n.map(|h| h.id()) } else { None },
                            id: r.map(|f| f.id()),
                            solver: r.and_then(|f| cache.get(&f)).map(|s| {
                                let a = s.solve(p);
                                let mut b = a.clone();
                                s.solve_mut(p, &mut b);
                                assert!(a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs())), "solve and solve_mut disagree");
                                a.as_slice().to_vec()
                            }),
                            made: r.filter(|f| cache.get(f).is_some()).map(|f| {
                                let m = nalgebra::SMatrix::<f64, N, N1>::from_iterator(
                                    f.vertices().flat_map(|v| v.point().iter().copied()),
                                );
                                qhull_rs::raw::BarycentricSolver::<Const<N>>::new(m).solve(p).as_slice().to_vec()
                            }),
                        }
                    })
                    .collect()
            }
        }
    };
}

dims!(d2, 2);
dims!(d3, 3);
dims!(d4, 4);
dims!(d5, 5);

macro_rules! by_dim {
    ($d:expr, $f:ident ( $($a:expr),* )) => {
        match $d {
            2 => $crate::geom::d2::$f($($a),*),
            3 => $crate::geom::d3::$f($($a),*),
            4 => $crate::geom::d4::$f($($a),*),
            5 => $crate::geom::d5::$f($($a),*),
            _ => unreachable!(),
        }
    };
}
pub(crate) use by_dim;

pub struct PointSet {
    pub d: usize,
    pub ints: Vec<Vec<i64>>,
    pub scale: f64,
    pub class: &'static str,
}

impl PointSet {
    pub fn floats(&self) -> Vec<Vec<f64>> {
        self.ints.iter().map(|p| p.iter().map(|x| *x as f64 * self.scale).collect()).collect()
    }
    pub fn float(&self, p: &[i64]) -> Vec<f64> {
        p.iter().map(|x| *x as f64 * self.scale).collect()
    }
    pub fn flat(&self) -> bool {
        exact::affine_dim(&self.ints) < self.d as i64
    }
    /// largest extent in any dimension, as a float in library units
    pub fn extent(&self) -> f64 {
        let mut e: f64 = 0.0;
        for k in 0..self.d {
            let lo = self.ints.iter().map(|p| p[k]).min().unwrap();
            let hi = self.ints.iter().map(|p| p[k]).max().unwrap();
            e = e.max((hi - lo) as f64 * self.scale);
        }
        e
    }
    pub fn max_abs(&self) -> f64 {
        self.ints.iter().flatten().map(|x| (*x as f64 * self.scale).abs()).fold(0.0, f64::max)
    }
    pub fn describe(&self) -> String {
        format!("dim {} class {} scale {:e} points {:?}", self.d, self.class, self.scale, self.ints)
    }
}

/// Point sets with integer coordinates (times a scale), so that every predicate can be decided
/// exactly.
pub fn point_set(s: &mut Src, d: usize, max_n: usize) -> PointSet {
    let big = s.below(120) == 119;
    let n = if big { s.urange(2 * max_n, max_n * [7, 5, 3, 3][d - 2]) } else { s.urange(d + 1, max_n) };
    let class = s.weighted(&[4, 4, 2, 2, 2, 2, 2, 2]);
    let m: i64 = *s.pick(&[255i64, 2, 3, 4, 8, 16, 100, 1000]);
    let mut ints: Vec<Vec<i64>> = vec![];
    let name;
    match class {
        0 => {
            name = "uniform";
            for _ in 0..n {
                ints.push((0..d).map(|_| s.irange(0, m)).collect());
            }
        }
        1 => {
            // every coordinate has few levels, like an image with few colors
            name = "levels";
            let levels: Vec<i64> = (0..d).map(|_| s.irange(1, 4)).collect();
            let step: Vec<i64> = (0..d).map(|_| *s.pick(&[255i64, 51, 64, 1, 17])).collect();
            for _ in 0..n {
                ints.push((0..d).map(|k| s.irange(0, levels[k]) * step[k]).collect());
            }
        }
        2 => {
            name = "corners";
            for i in 0..n.max(1 << d).min(max_n) {
                if i < 1 << d {
                    ints.push((0..d).map(|k| if i >> k & 1 == 1 { m } else { 0 }).collect());
                } else {
                    ints.push((0..d).map(|_| s.irange(0, m)).collect());
                }
            }
        }
        3 => {
            // on a sphere (rounded)
            name = "sphere";
            for _ in 0..n {
                let v: Vec<f64> = (0..d).map(|_| s.unit() * 2.0 - 1.0).collect();
                let r = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                ints.push(v.iter().map(|x| (x / r * 500.0).round() as i64).collect());
            }
        }
        4 => {
            name = "clusters";
            let k = s.urange(2, 6);
            let centers: Vec<Vec<i64>> = (0..k).map(|_| (0..d).map(|_| s.irange(0, 1000)).collect()).collect();
            for _ in 0..n {
                let c = s.pick(&centers).clone();
                ints.push(c.iter().map(|x| x + s.irange(0, 3)).collect());
            }
        }
        5 => {
            // a simplex and integer points inside of it
            name = "simplex+inside";
            let corners: Vec<Vec<i64>> = (0..=d).map(|_| (0..d).map(|_| s.irange(0, 60) * 16).collect()).collect();
            ints.extend(corners.iter().cloned());
            for _ in d + 1..n {
                let mut w: Vec<i64> = (0..=d).map(|_| s.irange(0, 4)).collect();
                let sum: i64 = w.iter().sum::<i64>().min(16);
                w[0] += 16 - sum.max(0);
                if w.iter().sum::<i64>() != 16 {
                    w = vec![0; d + 1];
                    w[0] = 8;
                    w[1] = 8;
                }
                ints.push((0..d).map(|k| corners.iter().zip(&w).map(|(c, w)| c[k] * w).sum::<i64>() / 16).collect());
            }
        }
        6 => {
            name = "slab";
            let k0 = s.urange(0, d - 1);
            for _ in 0..n {
                ints.push((0..d).map(|k| if k == k0 { s.irange(0, 1) } else { s.irange(0, m) }).collect());
            }
        }
        _ => {
            // like an image: the last two coordinates are a full grid
            name = "image-like";
            let w = s.urange(2, 6) as i64;
            let h = (n as i64 / w).max(2);
            for y in 0..h {
                for x in 0..w {
                    let mut p: Vec<i64> = (0..d.saturating_sub(2)).map(|_| s.irange(0, m)).collect();
                    p.push(x * 60 / w);
                    p.push(y * 60 / h);
                    ints.push(p);
                }
            }
        }
    }
    if s.chance(1, 4) {
        // duplicates
        let k = s.urange(1, 4);
        for _ in 0..k {
            let p = s.pick(&ints).clone();
            ints.push(p);
        }
    }
    if s.chance(1, 5) {
        let off: Vec<i64> = (0..d).map(|_| s.irange(-1000, 1000)).collect();
        for p in &mut ints {
            for k in 0..d {
                p[k] += off[k];
            }
        }
    }
    let scale = match s.below(8) {
        0 => *s.pick(&[1e-6, 1.0 / (1 << 24) as f64, 1e6, 1e-9]),
        _ => *s.pick(&[1.0, 1.0 / 255.0, 1.0 / 1024.0, 0.1, 64.0]),
    };
    PointSet { d, ints, scale, class: name }
}
