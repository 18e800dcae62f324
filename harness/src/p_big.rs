//! Point sets of hundreds to tens of thousands of points in 2 and 3 dimensions, for C01 to C05. Convexity and
//! the Delaunay property are checked locally (which implies them globally), the rest by counting.

use crate::engine::*;
use crate::{ensure, fail};
use nalgebra::{Const, SVector};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::collections::HashMap;

type P<const N: usize> = [i64; N];

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ (self.0 >> 29);
        x.wrapping_mul(0xBF58476D1CE4E5B9) >> 20
    }
    fn below(&mut self, n: i64) -> i64 {
        (self.next() % n as u64) as i64
    }
    fn unit(&mut self) -> f64 {
        self.next() as f64 / (1u64 << 44) as f64
    }
}

/// Points with coordinates from 0 to 2^16, determined by few choices
fn points<const N: usize>(s: &mut Src, max: usize) -> (&'static str, Vec<P<N>>) {
    let m = *s.pick(&[200usize, 1000, 4100, 20_000, 70_000]);
    let mut n = s.urange(m / 2, m).min(max);
    let mut r = Rng(s.range(1, 1 << 50));
    let class = s.weighted(&[2, 3, 1, 1]);
    const M: i64 = 1 << 16;
    let levels = s.range(8, 40) as i64;
    // All points of a sphere are vertices if the grid is fine enough, ie more than 16 bits can count
    let fine = class == 1 && N == 3 && n > 20_000 && s.chance(2, 3);
    if fine {
        n = n.max(66_000);
    }
    let radius = if fine { 1_000_000.0 } else { 32767.0 };
    let centers: Vec<P<N>> = (0..6).map(|_| [0; N].map(|_| r.below(M - 600))).collect();
    let p = (0..n)
        .map(|_| match class {
            0 => [0; N].map(|_| r.below(M)),
            1 => loop {
                let v = [0; N].map(|_| r.unit() * 2.0 - 1.0);
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                if l > 0.1 && l <= 1.0 {
                    break v.map(|x| (radius + 1.0 + x / l * radius) as i64);
                }
            },
            2 => {
                let c = centers[r.below(6) as usize];
                c.map(|x| x + r.below(600))
            }
            _ => [0; N].map(|_| r.below(levels) * 1600),
        })
        .collect();
    (["big: uniform", if fine { "big: fine sphere" } else { "big: sphere" }, "big: clusters", "big: lattice"][class], p)
}

fn fl<const N: usize>(p: &P<N>) -> [f64; N] {
    p.map(|x| x as f64)
}

fn sub<const N: usize>(a: &P<N>, b: &P<N>) -> P<N> {
    std::array::from_fn(|i| a[i] - b[i])
}

/// Orientation of N+1 points, exact (coordinates up to 2^16)
fn orient<const N: usize>(p: &[P<N>]) -> i128 {
    let m: Vec<Vec<i128>> = p[1..].iter().map(|q| sub(q, &p[0]).iter().map(|x| *x as i128).collect()).collect();
    crate::exact::det(m)
}

/// A normal (not of unit length) of the plane through N points
fn normal<const N: usize>(p: &[P<N>]) -> P<N> {
    let mut n = [0; N];
    let a = sub(&p[1], &p[0]);
    if N == 2 {
        n[0] = a[1];
        n[1] = -a[0];
    } else {
        let b = sub(&p[2], &p[0]);
        for i in 0..3 {
            n[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
        }
    }
    n
}

fn dot<const N: usize>(a: &P<N>, b: &P<N>) -> i128 {
    a.iter().zip(b).map(|(x, y)| *x as i128 * *y as i128).sum()
}

fn len<const N: usize>(a: &P<N>) -> f64 {
    (dot(a, a) as f64).sqrt()
}

struct Index<const N: usize>(HashMap<P<N>, usize>);

impl<const N: usize> Index<N> {
    fn new(p: &[P<N>]) -> Self {
        Index(p.iter().enumerate().map(|(i, p)| (*p, i)).collect())
    }
    fn find(&self, x: &[f64]) -> Result<P<N>, Fail> {
        let p: P<N> = std::array::from_fn(|i| x[i] as i64);
        if (0..N).any(|i| x[i] != p[i] as f64) || !self.0.contains_key(&p) {
            fail!("the vertex {x:?} is not an input point");
        }
        Ok(p)
    }
}

fn flat<const N: usize>(p: &[P<N>]) -> bool {
    // the classes make it all but impossible, so a few points are enough
    let v: Vec<Vec<i64>> = p.iter().take(60).map(|p| p.to_vec()).collect();
    crate::exact::affine_dim(&v) < N as i64
}

fn check_hull<const N: usize>(pts: &[P<N>], h: &ConvexHull<Const<N>>, wound: bool, c: &mut Case) -> Res
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<f64, Const<N>> + nalgebra::allocator::Allocator<usize, Const<N>>,
    Const<N>: nalgebra::DimName,
{
    let index = Index::new(pts);
    let mut verts: Vec<P<N>> = vec![];
    let mut seen = std::collections::HashSet::new();
    for v in h.vertices() {
        let p = index.find(v.point().as_slice())?;
        ensure!(seen.insert(p), "the vertex {p:?} is listed twice");
        verts.push(p);
    }
    let facets: Vec<Vec<usize>> = h.facets().map(|f| f.vertices().map(|v| v.index()).collect()).collect();
    // a point inside, times (N + 1)
    let mut inner: Vec<P<N>> = vec![];
    for v in &verts {
        inner.push(*v);
        if crate::exact::affine_dim(&inner.iter().map(|p| p.to_vec()).collect::<Vec<_>>()) < inner.len() as i64 - 1 {
            inner.pop();
        }
        if inner.len() == N + 1 {
            break;
        }
    }
    ensure!(inner.len() == N + 1, "the hull is flat, the points aren't");
    let center: P<N> = std::array::from_fn(|i| inner.iter().map(|p| p[i]).sum());
    let mut planes: Vec<(P<N>, i128, f64)> = vec![];
    let mut ridges: HashMap<Vec<usize>, Vec<usize>> = HashMap::new();
    let mut used = vec![false; verts.len()];
    for (i, f) in h.facets().enumerate() {
        let v: Vec<P<N>> = facets[i].iter().map(|v| verts[*v]).collect();
        ensure!(v.len() == N, "facet {i} has {} vertices", v.len());
        let mut n = normal(&v);
        ensure!(n.iter().any(|x| *x != 0), "facet {i} is degenerate: {v:?}");
        let d = dot(&n, &v[0]);
        let side = dot(&n, &center) - d * (N as i128 + 1);
        if wound {
            ensure!(side < 0, "facet {i} {v:?} isn't wound counterclockwise");
        }
        let mut d = d;
        if side > 0 {
            n = n.map(|x| -x);
            d = -d;
        }
        let l = len(&n);
        let cos: f64 = (0..N).map(|k| n[k] as f64 / l * f.normal()[k]).sum();
        ensure!(cos > 1.0 - 1e-6, "facet {i} {v:?} has the normal {:?}", f.normal().as_slice());
        let at = d as f64 / l;
        for p in &v {
            let x: f64 = (0..N).map(|k| p[k] as f64 * f.normal()[k]).sum::<f64>() + f.offset();
            ensure!(x.abs() < 1e-3, "the vertex {p:?} is {x} above its facet {i}, which has offset {} and should have {}", f.offset(), -at);
        }
        planes.push((n, d, l));
        for k in 0..N {
            used[facets[i][k]] = true;
            let mut r = facets[i].clone();
            r.remove(k);
            r.sort();
            ridges.entry(r).or_default().push(i);
        }
    }
    for (r, f) in &ridges {
        ensure!(f.len() == 2, "the ridge {r:?} is part of {} facets", f.len());
    }
    ensure!(used.iter().all(|u| *u), "a vertex isn't part of any facet");
    for (i, f) in h.facets().enumerate() {
        let nb: Vec<usize> = f.neighbors().map(|n| n.index()).collect();
        ensure!(nb.len() == N, "facet {i} has {} neighbors", nb.len());
        for k in 0..N {
            let mut r = facets[i].clone();
            r.remove(k);
            r.sort();
            let other = ridges[&r].iter().copied().find(|j| *j != i);
            let Some(j) = other else { fail!("facet {i} is its own neighbor") };
            ensure!(nb.contains(&j), "facet {i}: {j} isn't among the neighbors {nb:?}");
            if wound {
                ensure!(nb[k] == j, "facet {i}: neighbor {k} is {}, but across the edge opposite of vertex {k} is {j}", nb[k]);
            }
            // convex along this ridge
            let o = facets[j].iter().find(|v| !r.contains(v)).unwrap();
            let (n, d, l) = &planes[i];
            let over = (dot(n, &verts[*o]) - d) as f64 / l;
            ensure!(over < 1e-4, "facets {i} and {j} aren't convex: {:?} is {over} above", verts[*o]);
        }
    }
    // nothing is outside: some of the points against all of the facets
    let budget = (6_000_000 / facets.len().max(1)).max(20);
    let step = (pts.len() / budget).max(1);
    for p in pts.iter().step_by(step) {
        for (i, (n, d, l)) in planes.iter().enumerate() {
            let over = (dot(n, p) - d) as f64 / l;
            ensure!(over < 1e-4, "the point {p:?} is {over} above facet {i}");
        }
    }
    // and each of the points against a facet in roughly its direction, for those near the surface
    let mut best: [Option<P<N>>; 64] = [None; 64];
    let dirs: Vec<P<N>> = (0..64).map(|i| std::array::from_fn(|k| ((i as i64 * 7919 + 13) * (k as i64 * 104729 + 31) >> 3) % 2001 - 1000)).collect();
    for p in pts {
        for (b, d) in best.iter_mut().zip(&dirs) {
            if b.map_or(true, |q| dot(d, p) > dot(d, &q)) {
                *b = Some(*p);
            }
        }
    }
    for (b, d) in best.iter().zip(&dirs) {
        let far = dot(d, &b.unwrap());
        ensure!(verts.iter().any(|v| dot(d, v) == far), "no vertex is as far in the direction {d:?} as {:?}", b.unwrap());
    }
    c.label(if verts.len() > 65_535 {
        "big: more than 65535 vertices"
    } else if verts.len() > 255 {
        "big: more than 255 vertices"
    } else { "big: few vertices" });
    c.nontrivial = true;
    Ok(())
}

fn arr<const N: usize>(p: &[P<N>]) -> Vec<[f64; N]> {
    p.iter().map(fl).collect()
}

macro_rules! constructor {
    ($t:ty, $raw:ty, $p:expr, $i:expr) => {{
        let v: Vec<_> = $p.iter().map(|p| SVector::from(fl(p))).collect();
        match $i {
            0 => <$t>::from_arrays(&arr($p)),
            1 => <$t>::from_qhull_raw(<$raw>::from_vectors(&v)),
            _ => <$t>::from_qhull_raw(<$raw>::from_arrays(&arr($p))),
        }
    }};
}

/// C01 (2D and 3D) and C02 (3D)
pub fn hull(s: &mut Src, c: &mut Case, only3: bool) -> Res {
    let ctor = s.urange(0, 2);
    if !only3 && s.chance(1, 2) {
        let (class, p) = points::<2>(s, usize::MAX);
        c.label(class);
        c.desc = format!("hull of {} points in 2D ({class}), first {:?}", p.len(), &p[..3]);
        if flat(&p) {
            return Ok(());
        }
        check_hull(&p, &constructor!(ConvexHull<Const<2>>, RawHull<Const<2>>, &p, ctor), false, c)
    } else {
        let (class, p) = points::<3>(s, usize::MAX);
        c.label(class);
        c.desc = format!("hull of {} points in 3D ({class}), first {:?}", p.len(), &p[..3]);
        if flat(&p) {
            return Ok(());
        }
        check_hull(&p, &constructor!(ConvexHull<Const<3>>, RawHull<Const<3>>, &p, ctor), only3, c)
    }
}

/// How far the point is above the paraboloid's plane through the simplex (negative: inside of the circumsphere)
fn lift<const N: usize>(v: &[P<N>], q: &P<N>) -> Option<f64> {
    let rows: Vec<Vec<i128>> = v
        .iter()
        .map(|p| {
            let d = sub(p, q);
            let mut r: Vec<i128> = d.iter().map(|x| *x as i128).collect();
            r.push(dot(&d, &d));
            r
        })
        .collect();
    // expanding along the last column keeps the numbers small
    let mut sum = 0i128;
    for (i, r) in rows.iter().enumerate() {
        let m: Vec<Vec<i128>> = rows.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, r)| r[..N].to_vec()).collect();
        let minor = crate::exact::det(m);
        sum += if (i + N) % 2 == 0 { minor } else { -minor } * r[N];
    }
    let o = orient(v);
    if o == 0 {
        return None;
    }
    // rows are relative to q, so the sign depends on the dimension
    let x = sum as f64 / o as f64;
    Some(if N % 2 == 0 { -x } else { x })
}

fn check_delaunay<const N: usize>(pts: &[P<N>], verts: &[P<N>], simps: &[Vec<usize>], nb: &[Vec<Option<usize>>], size: i128, c: &mut Case) -> Res {
    let mut seen = std::collections::HashSet::new();
    let mut sum = 0i128;
    let mut ridges: HashMap<Vec<usize>, Vec<usize>> = HashMap::new();
    for (i, f) in simps.iter().enumerate() {
        let v: Vec<P<N>> = f.iter().map(|i| verts[*i]).collect();
        sum += orient(&v).abs();
        for k in 0..=N {
            seen.insert(f[k]);
            let mut r = f.clone();
            r.remove(k);
            r.sort();
            ridges.entry(r).or_default().push(i);
        }
    }
    ensure!(sum == size, "the simplices cover {sum}, the hull {size}");
    let generic = c.labels.iter().any(|l| l == "big: uniform" || l == "big: clusters");
    for (i, f) in simps.iter().enumerate() {
        ensure!(nb[i].len() == N + 1, "simplex {i} has {} neighbors", nb[i].len());
        let v: Vec<P<N>> = f.iter().map(|i| verts[*i]).collect();
        for k in 0..=N {
            let Some(j) = nb[i][k] else { continue };
            ensure!(nb[j].contains(&Some(i)), "simplex {j} is a neighbor of {i}, but not the other way around");
        }
        for k in 0..=N {
            let mut r = f.clone();
            r.remove(k);
            r.sort();
            let both = &ridges[&r];
            if both.len() > 2 {
                fail!("{} simplices share the ridge {r:?}", both.len());
            }
            let other = both.iter().copied().find(|j| *j != i);
            if generic && N == 2 {
                ensure!(nb[i][k] == other, "simplex {i}: neighbor {k} is {:?}, but {other:?} is on the other side", nb[i][k]);
            }
            let Some(j) = other else { continue };
            let q = verts[*simps[j].iter().find(|x| !f.contains(x)).unwrap()];
            if let Some(x) = lift(&v, &q) {
                // thin simplices have planes that are less accurate
                ensure!(x > -0.5, "{q:?} is inside of the circumsphere of simplex {i} {v:?} by {x}");
            }
        }
    }
    let distinct: std::collections::HashSet<&P<N>> = pts.iter().collect();
    if generic && N == 2 {
        ensure!(seen.len() == distinct.len(), "{} of {} points are vertices of simplices", seen.len(), distinct.len());
    }
    Ok(())
}

/// twice the area of the hull
fn area(pts: &[P<2>]) -> i128 {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    let mut total = 0i128;
    for pass in 0..2 {
        let mut chain: Vec<P<2>> = vec![];
        for q in &p {
            while chain.len() >= 2 && orient(&[chain[chain.len() - 2], chain[chain.len() - 1], *q]) <= 0 {
                chain.pop();
            }
            chain.push(*q);
        }
        for w in chain.windows(2) {
            total += w[0][0] as i128 * w[1][1] as i128 - w[0][1] as i128 * w[1][0] as i128;
        }
        if pass == 0 {
            p.reverse();
        }
    }
    total
}

fn volume(pts: &[P<3>]) -> Result<i128, Fail> {
    let h = ConvexHull::<Const<3>>::from_arrays(&arr(pts));
    let index = Index::new(pts);
    let mut sum = 0;
    let o = pts[0];
    for f in h.facets() {
        let mut v = vec![o];
        for x in f.vertices() {
            v.push(index.find(x.point().as_slice())?);
        }
        sum += orient(&v).abs();
    }
    Ok(sum)
}

/// How far the point is outside of the simplex
fn outside<const N: usize>(v: &[P<N>], q: &P<N>) -> f64 {
    let o = orient(v);
    let mut worst = f64::NEG_INFINITY;
    for k in 0..=N {
        let mut w = v.to_vec();
        w[k] = *q;
        let face: Vec<P<N>> = (0..=N).filter(|i| *i != k).map(|i| v[i]).collect();
        let l = len(&normal(&face)).max(1.0);
        let x = orient(&w) as f64 * if o < 0 { -1.0 } else { 1.0 };
        worst = worst.max(-x / l);
    }
    worst
}

/// The least barycentric coordinate, for simplices that aren't thin
fn least<const N: usize>(v: &[P<N>], q: &P<N>) -> f64 {
    let o = orient(v);
    let mut worst = f64::INFINITY;
    for k in 0..=N {
        let face: Vec<P<N>> = (0..=N).filter(|i| *i != k).map(|i| v[i]).collect();
        if (o as f64).abs() < len(&normal(&face)) * 2.0 {
            return f64::NEG_INFINITY;
        }
        let mut w = v.to_vec();
        w[k] = *q;
        worst = worst.min(orient(&w) as f64 / o as f64);
    }
    worst
}

fn queries<const N: usize>(s: &mut Src, p: &[P<N>]) -> Vec<P<N>> {
    let mut r = Rng(s.range(1, 1 << 50));
    let n = s.urange(10, 150);
    (0..n)
        .map(|_| {
            let a = p[r.below(p.len() as i64) as usize];
            let b = p[r.below(p.len() as i64) as usize];
            // the outermost points in some direction of the axes
            let k = r.below(N as i64) as usize;
            let far = if r.below(2) == 0 { p.iter().min_by_key(|p| p[k]) } else { p.iter().max_by_key(|p| p[k]) }.unwrap();
            match r.below(10) {
                8 => *far,
                9 => std::array::from_fn(|i| (far[i] * 255 + b[i]) / 256),
                0 => a,
                1 => std::array::from_fn(|i| (a[i] + b[i]) / 2),
                2 => [0; N].map(|_| r.below(3 << 16) - (1 << 16)),
                3 => a.map(|x| x + r.below(7) - 3),
                _ => [0; N].map(|_| r.below(1 << 16)),
            }
        })
        .collect()
}

/// Is the point outside of (+), or inside of (-) the hull, and how far
fn depth<const N: usize>(planes: &[(P<N>, i128, f64)], q: &P<N>) -> f64 {
    planes.iter().map(|(n, d, l)| (dot(n, q) - d) as f64 / l).fold(f64::NEG_INFINITY, f64::max)
}

macro_rules! in_dim {
    ($name:ident, $n:literal, $max:expr, $size:expr) => {
        pub mod $name {
            use super::*;
            type Tri = Delaunay<Const<$n>>;
            type Raw = RawDelaunay<Const<$n>>;

            fn planes(p: &[P<$n>]) -> Result<Vec<(P<$n>, i128, f64)>, Fail> {
                let h = ConvexHull::<Const<$n>>::from_arrays(&arr(p));
                let index = Index::new(p);
                let mut res = vec![];
                let center = p[0];
                let _ = center;
                for f in h.facets() {
                    let v: Result<Vec<P<$n>>, Fail> = f.vertices().map(|x| index.find(x.point().as_slice())).collect();
                    let v = v?;
                    let mut n = normal(&v);
                    let cos: f64 = (0..$n).map(|k| n[k] as f64 * f.normal()[k]).sum();
                    if cos < 0.0 {
                        n = n.map(|x| -x);
                    }
                    let l = len(&n);
                    if l > 0.0 {
                        res.push((n, dot(&n, &v[0]), l));
                    }
                }
                Ok(res)
            }

            fn start(s: &mut Src, c: &mut Case) -> Option<(Vec<P<$n>>, usize)> {
                let (class, p) = points::<$n>(s, $max);
                let ctor = s.urange(0, 2);
                c.label(class);
                c.desc = format!("triangulation of {} points in {}D ({class}, constructor {ctor}), first {:?}", p.len(), $n, &p[..3]);
                if flat(&p) { None } else { Some((p, ctor)) }
            }

            pub fn c03(s: &mut Src, c: &mut Case) -> Res {
                let Some((p, ctor)) = start(s, c) else { return Ok(()) };
                let t = constructor!(Tri, Raw, &p, ctor);
                let index = Index::new(&p);
                let verts: Result<Vec<P<$n>>, Fail> = t.vertices().map(|v| index.find(v.point().as_slice())).collect();
                let simps: Vec<Vec<usize>> = t.simplices().map(|x| x.vertices().map(|v| v.index()).collect()).collect();
                let nb: Vec<Vec<Option<usize>>> = t.simplices().map(|x| x.neighbors().map(|n| n.map(|n| n.index())).collect()).collect();
                c.label(if simps.len() > 65_536 { "big: more than 65536 simplices" } else { "big" });
                c.nontrivial = true;
                check_delaunay(&p, &verts?, &simps, &nb, $size(&p)?, c)
            }

            fn verdict(hull: &[(P<$n>, i128, f64)], q: &P<$n>, found: Option<Vec<P<$n>>>, simps: &[Vec<P<$n>>], c: &mut Case) -> Res {
                let at = depth(hull, q);
                match found {
                    Some(v) => {
                        let out = outside(&v, q);
                        ensure!(out < 0.01, "the simplex {v:?} was found for {q:?}, which is {out} outside of it");
                        c.label("big: found");
                    }
                    None => {
                        if at < -1.0 {
                            // on an edge, rounding can exceed the default tolerance
                            for v in simps {
                                let w = least(v, q);
                                ensure!(w < 1e-3, "nothing was found for {q:?}, which is {} inside of the hull and well inside of {v:?} (least coordinate {w})", -at);
                            }
                            c.label("big: on an edge, not found");
                        }
                        c.label("big: not found");
                    }
                }
                Ok(())
            }

            pub fn c04(s: &mut Src, c: &mut Case) -> Res {
                let Some((p, ctor)) = start(s, c) else { return Ok(()) };
                let t = constructor!(Tri, Raw, &p, ctor);
                let index = Index::new(&p);
                let hull = planes(&p)?;
                let simps: Result<Vec<Vec<P<$n>>>, Fail> = t.simplices().map(|f| f.vertices().map(|v| index.find(v.point().as_slice())).collect()).collect();
                let simps = simps?;
                let mut search = t.simplex_searcher();
                let qs = queries(s, &p);
                let brute = if p.len() < 5000 && s.chance(1, 3) { s.urange(0, qs.len() - 1) } else { usize::MAX };
                for (i, q) in qs.iter().enumerate() {
                    if i == brute {
                        search.set_bruteforce(true);
                    }
                    let x = SVector::from(fl(q));
                    let r = if i % 2 == 0 {
                        search.find_simplex(&x)
                    } else {
                        let mut w = SVector::<f64, { $n + 1 }>::from_element(f64::NAN);
                        let r = search.find_simplex_mut(&x, &mut w);
                        if let Some(r) = &r {
                            let back: SVector<f64, $n> = r.vertices().zip(w.iter()).map(|(v, w)| v.point() * *w).sum();
                            ensure!((w.sum() - 1.0).abs() < 1e-6 && (back - x).norm() < 0.01, "{q:?} has the coordinates {w:?} in a simplex, which is the point {back:?}");
                        }
                        r
                    };
                    let found: Option<Result<Vec<P<$n>>, Fail>> = r.map(|r| r.vertices().map(|v| index.find(v.point().as_slice())).collect());
                    verdict(&hull, q, found.transpose()?, &simps, c)?;
                }
                c.nontrivial = true;
                Ok(())
            }

            pub fn c05(s: &mut Src, c: &mut Case) -> Res {
                let Some((p, ctor)) = start(s, c) else { return Ok(()) };
                let v: Vec<SVector<f64, $n>> = p.iter().map(|p| SVector::from(fl(p))).collect();
                let index = Index::new(&p);
                // the same hull in both
                let raw = match ctor {
                    0 => RawHull::<Const<$n>>::from_arrays(&arr(&p)),
                    1 => RawHull::from_vectors(&v),
                    _ => v.iter().cloned().collect(),
                };
                let typed = ConvexHull::<Const<$n>>::from_arrays(&arr(&p));
                let key = |mut k: Vec<P<$n>>| { k.sort(); k };
                let a: Result<Vec<P<$n>>, Fail> = raw.vertices().map(|v| index.find(v.point())).collect();
                let b: Result<Vec<P<$n>>, Fail> = typed.vertices().map(|v| index.find(v.point().as_slice())).collect();
                ensure!(key(a?) == key(b?), "the raw and the typed hull have different vertices");
                let a: Result<Vec<Vec<P<$n>>>, Fail> = raw.facets().map(|f| f.vertices().map(|v| index.find(v.point())).collect::<Result<Vec<_>, _>>().map(key)).collect();
                let b: Result<Vec<Vec<P<$n>>>, Fail> = typed.facets().map(|f| f.vertices().map(|v| index.find(v.point().as_slice())).collect::<Result<Vec<_>, _>>().map(key)).collect();
                let (mut a, mut b) = (a?, b?);
                a.sort();
                b.sort();
                ensure!(a == b, "the raw and the typed hull have different facets");
                // the same triangulation
                let raw = match ctor {
                    0 => Raw::from_arrays(&arr(&p)),
                    _ => Raw::from_vectors(&v),
                };
                let typed = Tri::from_arrays(&arr(&p));
                let a: Result<Vec<Vec<P<$n>>>, Fail> = raw.simplices().filter(|f| !f.is_upper_delaunay()).map(|f| f.vertices().map(|v| index.find(v.point())).collect::<Result<Vec<_>, _>>().map(key)).collect();
                let b: Result<Vec<Vec<P<$n>>>, Fail> = typed.simplices().map(|f| f.vertices().map(|v| index.find(v.point().as_slice())).collect::<Result<Vec<_>, _>>().map(key)).collect();
                let (mut a, mut b) = (a?, b?);
                a.sort();
                b.sort();
                ensure!(a == b, "the raw and the typed triangulation have different simplices");
                let cache = raw.compute_barycentric_solver_cache();
                let hull = planes(&p)?;
                let mut hint = raw.simplices().find(|f| !f.is_upper_delaunay());
                for (i, q) in queries(s, &p).iter().enumerate() {
                    let h = if i % 4 == 3 { None } else { hint.as_mut() };
                    let r = raw.find_best_simplex(SVector::from(fl(q)), &cache, None, None, h);
                    let found: Option<Result<Vec<P<$n>>, Fail>> = r.map(|r| r.vertices().map(|v| index.find(v.point())).collect());
                    verdict(&hull, q, found.transpose()?, &b, c)?;
                }
                c.nontrivial = true;
                Ok(())
            }
        }
    };
}

in_dim!(two, 2, usize::MAX, |p: &[P<2>]| -> Result<i128, Fail> { Ok(area(p)) });
in_dim!(three, 3, 8000, volume);
