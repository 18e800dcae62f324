//! C01 - C05: the computational geometry layer (qhull-rs).

use crate::engine::*;
use crate::exact;
use crate::geom::*;
use crate::{ensure, fail, lp};
use std::collections::{BTreeMap, HashMap};

pub fn dotf(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

fn max_n(d: usize) -> usize {
    match d {
        2 => 60,
        3 => 50,
        4 => 34,
        _ => 26,
    }
}

fn bits(p: &[f64]) -> Vec<u64> {
    p.iter().map(|x| (*x + 0.0).to_bits()).collect()
}

/// Are the points certainly extreme / certainly not extreme among `pts`? Decided by LP with a
/// margin; None if too close to call.
fn extreme(i: usize, pts: &[Vec<i64>]) -> Option<bool> {
    let d = pts[0].len();
    let others: Vec<&Vec<i64>> = pts.iter().filter(|p| *p != &pts[i]).collect();
    if others.is_empty() {
        return Some(true);
    }
    let s = pts.iter().flatten().map(|x| x.abs()).max().unwrap().max(1) as f64;
    // relative to the point itself
    let mut a: Vec<Vec<f64>> = (0..d)
        .map(|k| others.iter().map(|p| (p[k] - pts[i][k]) as f64 / s).collect())
        .collect();
    a.push(vec![1.0; others.len()]);
    let mut b = vec![0.0; d];
    b.push(1.0);
    match lp::solve(&a, &b, &vec![0.0; others.len()], 1e-11) {
        Ok(_) => Some(false),
        Err(inf) if inf > 1e-7 => Some(true),
        Err(_) => None,
    }
}

fn check_hull(ps: &PointSet, h: &HullData, c: &mut Case) -> Res {
    let d = ps.d;
    let pts = ps.floats();
    let size = ps.extent().max(ps.max_abs());
    let tol = 1e-9 * size;
    // vertices are input points, each at most once
    let input: HashMap<Vec<u64>, usize> = pts.iter().enumerate().map(|(i, p)| (bits(p), i)).collect();
    let mut seen = std::collections::HashSet::new();
    let mut vidx = vec![];
    for v in &h.verts {
        match input.get(&bits(v)) {
            Some(i) => vidx.push(*i),
            None => fail!("hull vertex {v:?} is not an input point"),
        }
        ensure!(seen.insert(bits(v)), "hull vertex {v:?} is listed twice");
    }
    ensure!(h.facets.len() > d, "only {} facets", h.facets.len());
    for (i, f) in h.facets.iter().enumerate() {
        ensure!(f.len() == d && h.neighbors[i].len() == d, "facet {i} has {} vertices, {} neighbors", f.len(), h.neighbors[i].len());
        let mut u = f.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == d, "facet {i} repeats a vertex: {f:?}");
        let n = &h.normals[i];
        let o = h.offsets[i];
        let norm = dotf(n, n).sqrt();
        ensure!((norm - 1.0).abs() < 1e-9, "facet {i} normal {n:?} has length {norm}");
        for v in f {
            let dist = dotf(n, &h.verts[*v]) + o;
            ensure!(dist.abs() <= tol, "facet {i}: its vertex {v} is {dist:e} away from its plane");
        }
        for p in &pts {
            let dist = dotf(n, p) + o;
            ensure!(dist <= tol, "facet {i}: input point {p:?} is {dist:e} outside of the hull");
        }
    }
    // every ridge joins exactly two facets, which are neighbors of each other
    let mut ridges: BTreeMap<Vec<usize>, Vec<usize>> = BTreeMap::new();
    for (i, f) in h.facets.iter().enumerate() {
        for k in 0..d {
            let mut r: Vec<usize> = f.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, v)| *v).collect();
            r.sort();
            ridges.entry(r).or_default().push(i);
        }
    }
    // Facets in the same plane come from the triangulation of one non-simplicial facet. In four and
    // more dimensions qhull triangulates the two sides of a non-simplicial ridge independently of
    // each other (see its documentation of option Qt), so these ridges needn't match there.
    let coplanar = |i: usize| h.neighbors[i].iter().any(|j| dotf(&h.normals[i], &h.normals[*j]) > 1.0 - 1e-12);
    let lax: Vec<bool> = (0..h.facets.len()).map(|i| d >= 4 && coplanar(i)).collect();
    for (r, fs) in &ridges {
        ensure!(fs.len() == 2 || fs.iter().any(|i| lax[*i]), "ridge {r:?} is part of {} facets ({fs:?})", fs.len());
        if fs.len() != 2 {
            c.label("unmatched ridge of a non-simplicial facet (4D, 5D)");
        }
    }
    for (i, f) in h.facets.iter().enumerate() {
        for k in 0..d {
            let mut r: Vec<usize> = f.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, v)| *v).collect();
            r.sort();
            let fs = &ridges[&r];
            if fs.len() != 2 {
                continue;
            }
            let other = if fs[0] == i { fs[1] } else { fs[0] };
            ensure!(h.neighbors[i][k] == other || lax[i] || lax[other],
                "facet {i}: neighbor {k} is facet {}, but facet {other} is the one opposite of vertex {k}", h.neighbors[i][k]);
        }
    }
    // the vertices are exactly the extreme points
    let mut interior = 0;
    for i in 0..pts.len() {
        if ps.ints[..i].contains(&ps.ints[i]) {
            continue;
        }
        let is_vertex = seen.contains(&bits(&pts[i]));
        match extreme(i, &ps.ints) {
            Some(true) => ensure!(is_vertex, "extreme point {:?} is not a hull vertex", pts[i]),
            Some(false) => {
                interior += 1;
                if is_vertex {
                    let lax_only = lax.iter().any(|l| *l);
                    ensure!(lax_only, "hull vertex {:?} is in the convex hull of the other points", pts[i]);
                    c.label("non-extreme vertex of non-simplicial facets (4D, 5D)");
                }
            }
            None => c.label("extremeness too close to call"),
        }
    }
    // each vertex is used
    let mut used = vec![false; h.verts.len()];
    h.facets.iter().flatten().for_each(|v| used[*v] = true);
    ensure!(used.iter().all(|u| *u) || lax.iter().any(|l| *l), "a hull vertex isn't part of any facet");
    c.nontrivial = interior > 0 && h.facets.len() > d + 1;
    if interior > 0 {
        c.label("has non-extreme points");
    }
    let coplanar = (0..h.facets.len()).any(|i| {
        h.neighbors[i].iter().any(|j| dotf(&h.normals[i], &h.normals[*j]) > 1.0 - 1e-12)
    });
    if coplanar {
        c.label("has coplanar facets");
    }
    Ok(())
}

fn c01(s: &mut Src, c: &mut Case) -> Res {
    if s.below(1200) == 1199 {
        return crate::p_big::hull(s, c, false);
    }
    let d = s.urange(2, 5);
    let ps = point_set(s, d, max_n(d));
    let ctor = s.below(5);
    c.label(format!("dim {d}"));
    c.label(ps.class);
    if ps.ints.len() > 80 {
        c.label("more than 80 points");
    }
    c.desc = format!("hull of {} (constructor {ctor})", ps.describe());
    if ps.flat() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let h = by_dim!(d, hull(&ps.floats(), ctor));
    check_hull(&ps, &h, c)
}

fn c02(s: &mut Src, c: &mut Case) -> Res {
    if s.below(1200) == 1199 {
        return crate::p_big::hull(s, c, true);
    }
    let ps = point_set(s, 3, 60);
    let ctor = s.below(5);
    c.label(ps.class);
    if ps.ints.len() > 80 {
        c.label("more than 80 points");
    }
    c.desc = format!("hull of {} (constructor {ctor})", ps.describe());
    if ps.flat() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let h = d3::hull(&ps.floats(), ctor);
    let to_int = |v: &Vec<f64>| -> exact::P3 {
        let i = ps.ints.iter().position(|p| bits(&ps.float(p)) == bits(v)).expect("hull vertex isn't an input point");
        [ps.ints[i][0], ps.ints[i][1], ps.ints[i][2]]
    };
    let iv: Vec<exact::P3> = h.verts.iter().map(to_int).collect();
    let mut swapped = 0;
    // exact: all the points are on the inner side of each facet, counted by the winding
    let mut directed: HashMap<(usize, usize), usize> = HashMap::new();
    let mut six_volume = 0i64;
    let origin = iv[0];
    for (i, f) in h.facets.iter().enumerate() {
        let (a, b, cc) = (iv[f[0]], iv[f[1]], iv[f[2]]);
        let n = exact::cross(exact::sub(b, a), exact::sub(cc, a));
        ensure!(n != [0, 0, 0], "facet {i} is degenerate: {a:?} {b:?} {cc:?}");
        for p in &ps.ints {
            let p = [p[0], p[1], p[2]];
            let side = exact::dot(n, exact::sub(p, a));
            ensure!(side <= 0, "facet {i} ({a:?} {b:?} {cc:?}) is not wound outwards: {p:?} is in front of it");
        }
        let nf = [n[0] as f64, n[1] as f64, n[2] as f64];
        let len = dotf(&nf, &nf).sqrt();
        let cos = dotf(&nf, &h.normals[i]) / len;
        ensure!(cos > 1.0 - 1e-9, "facet {i}: stored normal {:?} and winding disagree (cos {cos})", h.normals[i]);
        if f[0] > f[1] {
            swapped += 1;
        }
        for k in 0..3 {
            let e = (f[k], f[(k + 1) % 3]);
            ensure!(directed.insert(e, i).is_none(), "the directed edge {e:?} is part of two facets");
        }
        six_volume += exact::orient(origin, a, b, cc);
    }
    for (e, i) in &directed {
        let Some(j) = directed.get(&(e.1, e.0)) else { fail!("edge {e:?} of facet {i} has no twin") };
        let k = h.facets[*i].iter().position(|v| *v != e.0 && *v != e.1).unwrap();
        ensure!(h.neighbors[*i][k] == *j, "facet {i}: neighbor {k} is {}, but across the edge opposite of vertex {k} is {j}", h.neighbors[*i][k]);
    }
    // the volume that is enclosed equals the exact one
    let planes = if iv.len() > 70 { vec![] } else { exact::hull_planes3(&iv).expect("non-flat") };
    let mut v6 = 0i64;
    for (n, d) in &planes {
        // fan of the polygon in this plane, ordered around it
        let on: Vec<exact::P3> = iv.iter().copied().filter(|p| exact::dot(*n, *p) == *d).collect();
        let a = on[0];
        let mut rest: Vec<exact::P3> = on[1..].to_vec();
        rest.sort_by(|p, q| {
            let o = exact::dot(*n, exact::cross(exact::sub(*p, a), exact::sub(*q, a)));
            0.cmp(&o).then(exact::dot(exact::sub(*p, a), exact::sub(*p, a)).cmp(&exact::dot(exact::sub(*q, a), exact::sub(*q, a))))
        });
        // a is a vertex of the polygon if the others span less than 180 degrees; take the
        // lexicographically smallest point, which always is a vertex
        let a0 = *on.iter().min().unwrap();
        let mut rest: Vec<exact::P3> = on.iter().copied().filter(|p| *p != a0).collect();
        rest.sort_by(|p, q| {
            let o = exact::dot(*n, exact::cross(exact::sub(*p, a0), exact::sub(*q, a0)));
            0.cmp(&o)
        });
        for w in rest.windows(2) {
            v6 += exact::orient(origin, a0, w[0], w[1]).abs();
        }
    }
    // a fan over collinear-with-a0 neighbors has zero area, so the sum is exact only if no three
    // points of a plane are collinear with a0 out of order; compare just in the generic case
    let generic = planes.iter().all(|(n, d)| iv.iter().filter(|p| exact::dot(*n, **p) == *d).count() == 3);
    if planes.is_empty() {
        c.label("volume not compared");
    } else if generic {
        ensure!(six_volume == v6, "the facets enclose {six_volume}/6, the hull {v6}/6");
        c.label("generic");
    } else {
        c.label("has coplanar facets");
    }
    if swapped > 0 {
        c.label("has reordered facets");
    }
    c.nontrivial = h.facets.len() > 4;
    Ok(())
}

/// exact orientation determinant of d+1 integer points
fn orient_n(p: &[&Vec<i64>]) -> i128 {
    let m: Vec<Vec<i128>> = p[1..].iter().map(|q| q.iter().zip(p[0]).map(|(a, b)| (a - b) as i128).collect()).collect();
    exact::det(m)
}

fn check_delaunay(s: &mut Src, ps: &PointSet, t: &DelData, c: &mut Case) -> Res {
    let d = ps.d;
    let pts = ps.floats();
    let input: HashMap<Vec<u64>, usize> = pts.iter().enumerate().map(|(i, p)| (bits(p), i)).collect();
    let mut idx = vec![];
    let mut seen = std::collections::HashSet::new();
    for v in &t.verts {
        match input.get(&bits(v)) {
            Some(i) => idx.push(*i),
            None => fail!("vertex {v:?} is not an input point"),
        }
        ensure!(seen.insert(bits(v)), "vertex {v:?} is listed twice");
    }
    for p in &pts {
        ensure!(seen.contains(&bits(p)), "input point {p:?} isn't a vertex of the triangulation");
    }
    ensure!(!t.simplices.is_empty(), "no simplices");
    let ip = |v: usize| &ps.ints[idx[v]];
    // size of the point set, in integer units
    let ext = ps.extent() / ps.scale;
    let mut used = vec![false; t.verts.len()];
    let mut faces: BTreeMap<Vec<usize>, Vec<(usize, usize)>> = BTreeMap::new();
    let mut volume = vec![];
    let mut slivers = 0;
    // Simplices that are (nearly) cospherical with another point come from the triangulation of a
    // non-simplicial facet of the lifted points. The lifting has d + 1 dimensions, and from four
    // dimensions on qhull doesn't guarantee that the triangulations of such facets match.
    let mut lax = vec![false; t.simplices.len()];
    for (i, f) in t.simplices.iter().enumerate() {
        ensure!(f.len() == d + 1, "simplex {i} has {} vertices", f.len());
        let mut u = f.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == d + 1, "simplex {i} repeats a vertex: {f:?}");
        f.iter().for_each(|v| used[*v] = true);
        for k in 0..=d {
            let mut r: Vec<usize> = f.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, v)| *v).collect();
            r.sort();
            faces.entry(r).or_default().push((i, k));
        }
        let vs: Vec<&Vec<i64>> = f.iter().map(|v| ip(*v)).collect();
        let o = orient_n(&vs);
        volume.push(o);
        if o == 0 {
            slivers += 1;
            lax[i] = d >= 3;
            continue;
        }
        // Empty circumsphere, exactly: the lifted position of every other point relative to the
        // plane through the lifted simplex. `h` is the vertical distance in units of ext^2.
        let rel = o.abs() as f64 / ext.powi(d as i32);
        if rel < 1e-4 {
            lax[i] = d >= 3;
            continue;
        }
        for q in &ps.ints {
            let rows: Vec<Vec<i128>> = vs
                .iter()
                .map(|v| {
                    let mut r: Vec<i128> = v.iter().zip(q).map(|(a, b)| (a - b) as i128).collect();
                    let n2: i128 = r.iter().map(|x| x * x).sum();
                    r.push(n2);
                    r
                })
                .collect();
            let ins = exact::det(rows);
            // The rows are relative to q, so this is the value at q of the affine function that
            // interpolates the lifting at the simplex, times the orientation: positive if inside.
            let m = vs.iter().map(|v| v.iter().zip(q).map(|(a, b)| ((a - b) as f64).abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
            let _ = m;
            let h = ins as f64 / (o as f64) / (ext * ext);
            let sign = if d % 2 == 0 { 1.0 } else { -1.0 };
            let h = h * sign;
            if d >= 3 && h.abs() <= 1e-7 && !vs.contains(&q) {
                lax[i] = true;
            }
            ensure!(h <= 1e-7, "input point {q:?} is inside the circumsphere of simplex {i} {vs:?} (by {h:e})");
        }
    }
    ensure!(used.iter().all(|u| *u), "a vertex isn't part of any simplex");
    // adjacency
    let mut boundary = 0;
    for (face, owners) in &faces {
        if owners.iter().any(|(i, _)| lax[*i]) {
            if owners.len() > 2 {
                c.label("unmatched face of cospherical simplices (3D - 5D)");
            }
            continue;
        }
        ensure!(owners.len() <= 2, "face {face:?} is shared by {} simplices", owners.len());
        for (n, (i, k)) in owners.iter().enumerate() {
            let expected = if owners.len() == 2 { Some(owners[1 - n].0) } else { None };
            let got = t.neighbors[*i][*k];
            ensure!(got == expected, "simplex {i}: neighbor {k} is {got:?}, but {expected:?} is opposite of vertex {k}");
        }
        if owners.len() == 1 {
            boundary += 1;
            // a face without a neighbor is on the hull: no point strictly beyond it. Only decided
            // for simplices with a volume.
            let (i, k) = owners[0];
            if volume[i] != 0 {
                let apex = t.simplices[i][k];
                for q in &ps.ints {
                    let vs: Vec<&Vec<i64>> = t.simplices[i].iter().map(|v| if *v == apex { q } else { ip(*v) }).collect();
                    let o = orient_n(&vs);
                    let rel = (o as f64) / ext.powi(d as i32) * volume[i].signum() as f64;
                    ensure!(rel >= -1e-7, "simplex {i} has no neighbor opposite of vertex {k}, but {q:?} is beyond that face");
                }
            }
        }
    }
    // Cover and disjointness: a generic point inside of the hull is in exactly one simplex
    let mut probes = 0;
    for _ in 0..6 {
        let w: Vec<i64> = (0..ps.ints.len()).map(|_| 1 + s.irange(0, 1_000)).collect();
        let den: i64 = w.iter().sum();
        let q: Vec<i128> = (0..d).map(|k| ps.ints.iter().zip(&w).map(|(p, w)| (p[k] * w) as i128).sum::<i128>()).collect();
        let mut inside = vec![];
        let mut on_face = false;
        for (i, f) in t.simplices.iter().enumerate() {
            if volume[i] == 0 {
                continue;
            }
            let base: Vec<Vec<i128>> = f.iter().map(|v| ip(*v).iter().map(|x| *x as i128 * den as i128).collect()).collect();
            let mut all = true;
            let mut zero = false;
            for k in 0..=d {
                let mut vs = base.clone();
                vs[k] = q.clone();
                let m: Vec<Vec<i128>> = vs[1..].iter().map(|p| p.iter().zip(&vs[0]).map(|(a, b)| a - b).collect()).collect();
                let o = match det_big(m) {
                    Some(o) => o,
                    None => return Ok(()),
                };
                let sg = o * volume[i].signum() as i32;
                if sg < 0 {
                    all = false;
                    break;
                }
                zero |= sg == 0;
            }
            if all {
                on_face |= zero;
                inside.push(i);
            }
        }
        if on_face {
            continue;
        }
        probes += 1;
        ensure!(inside.len() == 1, "the interior point {q:?}/{den} is inside of {} simplices: {inside:?}", inside.len());
    }
    // The planes of the simplices all belong to the same lifting of the points
    let mut samples = vec![];
    for (i, f) in t.simplices.iter().enumerate() {
        let (coef, c0) = &t.planes[i];
        if coef[d].abs() < 1e-6 {
            continue;
        }
        for v in f {
            let p = &t.verts[*v];
            let h = -(dotf(&coef[..d], p) + c0) / coef[d];
            let n2 = dotf(p, p);
            samples.push((n2, h, i, *v, coef[d].abs()));
        }
    }
    if samples.len() > d + 1 {
        let (lo, hi) = samples.iter().fold((samples[0], samples[0]), |(l, h), x| {
            (if x.0 < l.0 { *x } else { l }, if x.0 > h.0 { *x } else { h })
        });
        let span = hi.0 - lo.0;
        if span > 1e-3 * hi.0.max(1e-300) {
            let a = (hi.1 - lo.1) / span;
            ensure!(a > 0.0, "the lifting is not an upward paraboloid: {lo:?} {hi:?}");
            let hspan = (hi.1 - lo.1).abs();
            for x in &samples {
                let e = lo.1 + a * (x.0 - lo.0);
                ensure!((x.1 - e).abs() <= 1e-6 * hspan / lo.4.min(hi.4).min(x.4).min(1.0),
                    "plane of simplex {}: height {} at its vertex {} with squared norm {}, expected {e}", x.2, x.1, x.3, x.0);
            }
            c.label("lifting checked");
        }
    }
    if slivers > 0 {
        c.label("has flat simplices");
    }
    if probes > 0 {
        c.label("cover probed");
    }
    c.nontrivial = t.simplices.len() > 2 && probes > 0 && boundary < faces.len();
    Ok(())
}

/// Sign of a determinant with large integer entries, by modular arithmetic free floating
/// elimination when that is safe, otherwise by exact big integers. Only the sign is returned.
fn det_big(m: Vec<Vec<i128>>) -> Option<i32> {
    // i128 Bareiss is safe while the Hadamard bound of the full matrix squared fits
    let n = m.len();
    let maxe = m.iter().flatten().map(|x| x.abs()).max().unwrap_or(0) as f64;
    let bound = (maxe * (n as f64).sqrt()).powi(n as i32);
    if bound * bound * 2.0 < 1e38 {
        return Some(exact::det(m).signum() as i32);
    }
    // floating point filter
    let f: Vec<Vec<f64>> = m.iter().map(|r| r.iter().map(|x| *x as f64 / maxe).collect()).collect();
    let v = det_f(f);
    if v.abs() > 1e-11 {
        Some(if v > 0.0 { 1 } else { -1 })
    } else {
        // treat as "on a face"
        Some(0)
    }
}

pub fn det_f(mut m: Vec<Vec<f64>>) -> f64 {
    let n = m.len();
    let mut det = 1.0;
    for k in 0..n {
        let p = (k..n).max_by(|a, b| m[*a][k].abs().total_cmp(&m[*b][k].abs())).unwrap();
        if m[p][k] == 0.0 {
            return 0.0;
        }
        if p != k {
            m.swap(p, k);
            det = -det;
        }
        det *= m[k][k];
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                m[i][j] -= f * m[k][j];
            }
        }
    }
    det
}

fn c03(s: &mut Src, c: &mut Case) -> Res {
    if s.below(600) == 599 {
        return if s.chance(2, 3) { crate::p_big::two::c03(s, c) } else { crate::p_big::three::c03(s, c) };
    }
    let d = s.urange(2, 5);
    let ps = point_set(s, d, match d { 2 => 40, 3 => 30, 4 => 20, _ => 16 });
    let ctor = s.below(4);
    c.label(format!("dim {d}"));
    c.label(ps.class);
    if ps.ints.len() > 80 {
        c.label("more than 80 points");
    }
    c.desc = format!("triangulation of {} (constructor {ctor})", ps.describe());
    if ps.flat() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let t = by_dim!(d, delaunay(&ps.floats(), ctor));
    check_delaunay(s, &ps, &t, c)
}

/// Barycentric coordinates and conditioning of the simplices of a triangulation, from the exact
/// integer coordinates. Query points are integers in units of scale / Q.
const Q: i64 = 64;

struct Simp {
    /// vertices in integer units
    v: Vec<Vec<i64>>,
    /// exact orientation determinant, 0 for flat ones
    o: i128,
    /// bound for the error of coordinates which are computed in floating point
    tol: f64,
    /// length of the largest gradient
    grad: f64,
}

impl Simp {
    fn new(v: Vec<Vec<i64>>, max_abs: f64) -> Simp {
        let o = orient_n(&v.iter().collect::<Vec<_>>());
        let mut s = Simp { v, o, tol: f64::INFINITY, grad: f64::INFINITY };
        if o != 0 {
            // The gradients of the coordinates, by finite differences (they are affine)
            let d = s.v[0].len();
            let base: Vec<i64> = s.v[0].iter().map(|x| x * Q).collect();
            let w0 = s.coords(&base);
            let mut g = vec![0.0f64; d + 1];
            for k in 0..d {
                let mut q = base.clone();
                q[k] += Q;
                for (g, (a, b)) in g.iter_mut().zip(s.coords(&q).iter().zip(&w0)) {
                    *g += (a - b) * (a - b);
                }
            }
            let gmax = g.iter().map(|x| x.sqrt()).fold(0.0, f64::max);
            s.grad = gmax;
            // rounding of the vertices and of the query, and of the inverse of the matrix
            let ext = (0..d)
                .map(|k| s.v.iter().map(|p| p[k]).max().unwrap() - s.v.iter().map(|p| p[k]).min().unwrap())
                .max()
                .unwrap() as f64;
            s.tol = 1e-14 * gmax * (max_abs + ext * gmax * (max_abs + ext));
        }
        s
    }
    fn coords(&self, q: &[i64]) -> Vec<f64> {
        let d = q.len();
        let big: Vec<Vec<i128>> = self.v.iter().map(|p| p.iter().map(|x| (*x * Q) as i128).collect()).collect();
        let q: Vec<i128> = q.iter().map(|x| *x as i128).collect();
        let den = self.o as f64 * (Q as f64).powi(d as i32);
        (0..=d)
            .map(|k| {
                let mut vs = big.clone();
                vs[k] = q.clone();
                let m: Vec<Vec<i128>> = vs[1..].iter().map(|p| p.iter().zip(&vs[0]).map(|(a, b)| a - b).collect()).collect();
                exact::det_exp(&m) as f64 / den
            })
            .collect()
    }
    fn in_box(&self, q: &[i64], slack: f64) -> bool {
        (0..q.len()).all(|k| {
            let lo = self.v.iter().map(|p| p[k]).min().unwrap() as f64;
            let hi = self.v.iter().map(|p| p[k]).max().unwrap() as f64;
            let x = q[k] as f64 / Q as f64;
            x >= lo - slack && x <= hi + slack
        })
    }
}

fn minf(w: &[f64]) -> f64 {
    w.iter().copied().fold(f64::INFINITY, f64::min)
}

/// A query point: (kind, integer coordinates in units of scale / Q)
fn query(s: &mut Src, ps: &PointSet, n_simplices_hint: &[Vec<Vec<i64>>]) -> (&'static str, Vec<i64>) {
    let d = ps.d;
    match s.weighted(&[4, 2, 2, 2, 1, 1]) {
        0 if !n_simplices_hint.is_empty() => {
            let v = s.pick(n_simplices_hint).clone();
            let mut w: Vec<i64> = (0..=d).map(|_| 1 + s.irange(0, 9)).collect();
            if s.chance(1, 3) {
                let z = s.urange(0, d);
                w[z] = 0;
            }
            let mut sum: i64 = w.iter().sum();
            if sum == 0 {
                w[0] = 1;
                sum = 1;
            }
            ("in a simplex", (0..d).map(|k| v.iter().zip(&w).map(|(p, w)| p[k] * w * Q).sum::<i64>() / sum).collect())
        }
        0 | 1 => {
            let p = s.pick(&ps.ints).clone();
            ("at a vertex", p.iter().map(|x| x * Q).collect())
        }
        2 => {
            let a = s.pick(&ps.ints).clone();
            let b = s.pick(&ps.ints).clone();
            let t = s.irange(0, Q);
            ("between two points", a.iter().zip(&b).map(|(a, b)| a * t + b * (Q - t)).collect())
        }
        3 => {
            let lo: Vec<i64> = (0..d).map(|k| ps.ints.iter().map(|p| p[k]).min().unwrap()).collect();
            let hi: Vec<i64> = (0..d).map(|k| ps.ints.iter().map(|p| p[k]).max().unwrap()).collect();
            ("in the box", (0..d).map(|k| s.irange(lo[k] * Q, hi[k] * Q)).collect())
        }
        4 => {
            let a = s.pick(&ps.ints).clone();
            let k = s.urange(0, d - 1);
            let off = *s.pick(&[1i64, Q, 100 * Q]) * if s.chance(1, 2) { -1 } else { 1 };
            ("next to a point", a.iter().enumerate().map(|(i, x)| x * Q + if i == k { off } else { 0 }).collect())
        }
        _ => ("far away", (0..d).map(|_| s.irange(-3000, 3000) * Q).collect()),
    }
}

fn to_float(q: &[i64], scale: f64) -> Vec<f64> {
    q.iter().map(|x| *x as f64 / Q as f64 * scale).collect()
}

/// Judge the outcome of one search against the exact triangulation. `found` is an index into
/// `simps`.
fn judge(
    simps: &[Simp],
    neighbors: &dyn Fn(usize) -> Vec<usize>,
    q: &[i64],
    eps: f64,
    ext: f64,
    found: Option<usize>,
    coords: Option<&[f64]>,
    c: &mut Case,
) -> Res {
    match found {
        Some(i) => {
            let f = &simps[i];
            // next to a degenerate simplex the search is more tolerant
            let broad = neighbors(i).iter().any(|n| simps[*n].tol > 1e-7);
            let e = if broad { eps.max(eps.sqrt()) } else { eps };
            if f.tol > 1e-5 {
                c.label("found a nearly flat simplex");
                ensure!(f.in_box(q, 1e-3 * ext + 2.0 * e * ext), "{q:?}/{Q} isn't near the simplex {:?} that was found", f.v);
                return Ok(());
            }
            let w = f.coords(q);
            ensure!(minf(&w) >= -(e + f.tol) * 1.001, "{q:?}/{Q} has the coordinates {w:?} in the simplex {:?} that was found, tolerance {e:e} (+{:e})", f.v, f.tol);
            if let Some(co) = coords {
                for k in 0..w.len() {
                    ensure!((w[k] - co[k]).abs() <= f.tol * 1.001 + 1e-12, "coordinates {co:?} for {q:?}/{Q}, should be {w:?} (simplex {:?}, +-{:e})", f.v, f.tol);
                }
            }
            c.label("found");
        }
        None => {
            let mut worst = 0.0f64;
            let mut best = f64::NEG_INFINITY;
            for f in simps {
                worst = worst.max(f.tol);
                if f.tol < 1e-6 {
                    let w = f.coords(q);
                    ensure!(minf(&w) < 1e-3, "{q:?}/{Q} is well inside of the simplex {:?} ({w:?}), but it wasn't found", f.v);
                    best = best.max(minf(&w));
                }
            }
            ensure!(!(best >= 0.0 && 2.0 * worst <= eps), "{q:?}/{Q} is inside of the triangulation, but no simplex was found (eps {eps:e}, rounding {worst:e})");
            c.label("not found");
        }
    }
    Ok(())
}

fn c04(s: &mut Src, c: &mut Case) -> Res {
    if s.below(600) == 599 {
        return if s.chance(2, 3) { crate::p_big::two::c04(s, c) } else { crate::p_big::three::c04(s, c) };
    }
    let d = s.urange(2, 5);
    let ps = point_set(s, d, match d { 2 => 40, 3 => 24, 4 => 16, _ => 12 });
    let ctor = s.below(4);
    c.label(format!("dim {d}"));
    c.label(ps.class);
    if ps.ints.len() > 80 {
        c.label("more than 80 points");
    }
    if ps.flat() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let n_ops = s.urange(1, 24);
    let hint: Vec<Vec<Vec<i64>>> = (0..3).map(|_| (0..=d).map(|_| s.pick(&ps.ints).clone()).collect()).collect();
    let mut ops = vec![];
    let mut qs = vec![];
    let mut earlier: Vec<Vec<i64>> = vec![];
    for _ in 0..n_ops {
        let op = match s.weighted(&[6, 10, 2, 1, 1, 3]) {
            k @ (0 | 1) => {
                // asking again for an earlier point: the answer has to be as good, whatever happened in between
                let (kind, q) = if !earlier.is_empty() && s.chance(1, 4) {
                    ("again", s.pick(&earlier).clone())
                } else {
                    query(s, &ps, &hint)
                };
                c.label(format!("query {kind}"));
                earlier.push(q.clone());
                let p = to_float(&q, ps.scale);
                qs.push(Some(q));
                if k == 0 { Op::Find(p) } else { Op::FindCoords(p) }
            }
            2 => {
                qs.push(None);
                Op::SetEps(*s.pick(&[f64::EPSILON, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 0.0]))
            }
            3 => {
                qs.push(None);
                Op::Brute(s.chance(1, 2))
            }
            4 => {
                qs.push(None);
                Op::ClearHint
            }
            _ => {
                let (_, q) = query(s, &ps, &hint);
                let i = s.urange(0, 200);
                let p = to_float(&q, ps.scale);
                qs.push(Some(q));
                Op::Coords(i, p)
            }
        };
        ops.push(op);
    }
    c.desc = format!("searches in the triangulation of {} (constructor {ctor}): {ops:?}", ps.describe());
    let (t, res) = by_dim!(d, search(&ps.floats(), ctor, &ops));
    let input: HashMap<Vec<u64>, usize> = ps.floats().iter().enumerate().map(|(i, p)| (bits(p), i)).collect();
    let max_abs = ps.max_abs() / ps.scale;
    let ext = ps.extent() / ps.scale;
    let mut simps = vec![];
    for f in &t.simplices {
        let mut v = vec![];
        for x in f {
            match input.get(&bits(&t.verts[*x])) {
                Some(i) => v.push(ps.ints[*i].clone()),
                None => fail!("vertex {:?} is not an input point", t.verts[*x]),
            }
        }
        simps.push(Simp::new(v, max_abs));
    }
    let nb = |i: usize| t.neighbors[i].iter().flatten().copied().collect::<Vec<usize>>();
    let mut eps = f64::EPSILON;
    let mut found = std::collections::HashSet::new();
    let mut brute = false;
    for ((op, q), r) in ops.iter().zip(&qs).zip(&res) {
        match (op, r) {
            (_, OpRes::Getter(g)) => fail!("getter returned {g} after {op:?}"),
            (Op::SetEps(e), _) => eps = *e,
            (Op::Brute(b), _) => brute = *b,
            (Op::Find(_) | Op::FindCoords(_), r) => {
                let (i, co) = match r {
                    OpRes::Found(i) => (Some(*i), None),
                    OpRes::FoundCoords(i, co) => (Some(*i), Some(&co[..])),
                    _ => (None, None),
                };
                if brute {
                    c.label("bruteforce search");
                }
                // the tolerance is relative to the coordinates; the box test of the bruteforce search isn't
                judge(&simps, &nb, q.as_ref().unwrap(), eps, ext, i, co, c)?;
                found.insert(i);
            }
            (Op::Coords(..), OpRes::Coords(i, co)) => {
                let f = &simps[*i];
                if f.tol < 1e-6 {
                    let q = q.as_ref().unwrap();
                    let w = f.coords(q);
                    let far = w.iter().fold(1.0f64, |a, b| a.max(b.abs()));
                    for k in 0..w.len() {
                        ensure!((w[k] - co[k]).abs() <= f.tol * 1.001 * far + 1e-12 * far, "barycentric_coords {co:?} of {q:?}/{Q} in {:?}, should be {w:?}", f.v);
                    }
                }
            }
            _ => (),
        }
    }
    if t.simplices.iter().enumerate().any(|(i, _)| simps[i].o == 0) {
        c.label("has flat simplices");
    }
    c.nontrivial = found.len() >= 2 && t.simplices.len() > 2;
    Ok(())
}

fn c05(s: &mut Src, c: &mut Case) -> Res {
    if s.below(600) == 599 {
        return if s.chance(2, 3) { crate::p_big::two::c05(s, c) } else { crate::p_big::three::c05(s, c) };
    }
    let d = s.urange(2, 5);
    // the lifted triangulation of 5 dimensional points has 6
    let ps = point_set(s, d, match d { 2 => 40, 3 => 24, 4 => 16, _ => 12 });
    let ctor = s.below(6);
    c.label(format!("dim {d}"));
    c.label(ps.class);
    if ps.ints.len() > 80 {
        c.label("more than 80 points");
    }
    if ps.flat() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let pts = ps.floats();
    let probes: Vec<Vec<f64>> = (0..4).map(|_| to_float(&query(s, &ps, &[]).1, ps.scale)).collect();
    let hint: Vec<Vec<Vec<i64>>> = (0..3).map(|_| (0..=d).map(|_| s.pick(&ps.ints).clone()).collect()).collect();
    let n = s.urange(1, 16);
    let mut qs = vec![];
    let mut steps = vec![];
    for _ in 0..n {
        let (kind, q) = query(s, &ps, &hint);
        c.label(format!("query {kind}"));
        let tol = *s.pick(&[None, Some(1e-12), Some(1e-9), Some(1e-6), Some(1e-4)]);
        steps.push((to_float(&q, ps.scale), tol, s.chance(3, 4), s.chance(3, 4), s.chance(1, 4)));
        qs.push(q);
    }
    c.desc = format!("raw API (constructor {ctor}) with {}: {steps:?}", ps.describe());

    // hull: the raw view and the typed view are the same polytope
    let r = by_dim!(d, raw_hull(&pts, ctor, &probes));
    let h = by_dim!(d, hull(&pts, ctor));
    let rv: HashMap<u64, &RawVertex> = r.verts.iter().map(|v| (v.id, v)).collect();
    ensure!(rv.len() == r.verts.len(), "vertex ids are not unique");
    let rf: HashMap<u64, &RawFacet> = r.facets.iter().map(|f| (f.id, f)).collect();
    ensure!(rf.len() == r.facets.len(), "facet ids are not unique");
    let mut a: Vec<Vec<u64>> = r.verts.iter().map(|v| bits(&v.point)).collect();
    let mut b: Vec<Vec<u64>> = h.verts.iter().map(|v| bits(v)).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "the raw and the typed hull have different vertices");
    let key = |ps: Vec<&Vec<f64>>| {
        let mut k: Vec<Vec<u64>> = ps.into_iter().map(|p| bits(p)).collect();
        k.sort();
        k
    };
    let mut a: Vec<_> = r.facets.iter().map(|f| key(f.verts.iter().map(|v| &rv[v].point).collect())).collect();
    let mut b: Vec<_> = h.facets.iter().map(|f| key(f.iter().map(|v| &h.verts[*v]).collect())).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "the raw and the typed hull have different facets");
    for v in &r.verts {
        let mut a = v.neighbors.clone();
        let mut b: Vec<u64> = r.facets.iter().filter(|f| f.verts.contains(&v.id)).map(|f| f.id).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "the vertex {} has the neighbors {a:?}, but it's part of {b:?}", v.id);
    }
    for (f, ds) in r.facets.iter().zip(&r.dists) {
        ensure!(f.normal.len() == d, "the normal {:?} of facet {} has {} components", f.normal, f.id, f.normal.len());
        for n in &f.neighbors {
            ensure!(rf.contains_key(n), "facet {} has the unknown neighbor {n}", f.id);
            ensure!(rf[n].neighbors.contains(&f.id), "facet {n} is a neighbor of {}, but not the other way around", f.id);
        }
        for (p, dist) in probes.iter().zip(ds) {
            let e = dotf(&f.normal, p) + f.offset;
            let tol = 1e-9 * (ps.max_abs() + p.iter().map(|x| x.abs()).fold(0.0, f64::max) + f.offset.abs());
            ensure!((e - dist).abs() <= tol, "plane_distance of {p:?} to facet {} is {dist}, normal and offset give {e}", f.id);
        }
    }

    // planes and neighbors, if the vertices tell the facets apart
    let rk: HashMap<_, _> = r.facets.iter().map(|f| (key(f.verts.iter().map(|v| &rv[v].point).collect()), f)).collect();
    let of = |id: &u64| key(rf[id].verts.iter().map(|v| &rv[v].point).collect());
    if rk.len() == r.facets.len() {
        for (i, f) in h.facets.iter().enumerate() {
            let k = key(f.iter().map(|v| &h.verts[*v]).collect());
            let g = rk[&k];
            let size = ps.max_abs() + g.offset.abs();
            ensure!(
                g.normal.iter().zip(&h.normals[i]).all(|(x, y)| (x - y).abs() <= 1e-12) && (g.offset - h.offsets[i]).abs() <= 1e-12 * size,
                "the raw facet {} has the plane {:?}, {}, the typed one {:?}, {}",
                g.id, g.normal, g.offset, h.normals[i], h.offsets[i]
            );
            let mut a: Vec<_> = g.neighbors.iter().map(of).collect();
            let mut b: Vec<_> = h.neighbors[i].iter().map(|n| key(h.facets[*n].iter().map(|v| &h.verts[*v]).collect())).collect();
            a.sort();
            b.sort();
            ensure!(a == b, "the neighbors of the raw facet {} and of the typed facet {i} are different", g.id);
        }
    }

    // triangulation
    let r = by_dim!(d, raw_delaunay(&pts, ctor));
    let t = by_dim!(d, delaunay(&pts, ctor));
    let rv: HashMap<u64, &RawVertex> = r.verts.iter().map(|v| (v.id, v)).collect();
    let mut a: Vec<_> = r.facets.iter().filter(|f| !f.upper).map(|f| key(f.verts.iter().map(|v| &rv[v].point).collect())).collect();
    let mut b: Vec<_> = t.simplices.iter().map(|f| key(f.iter().map(|v| &t.verts[*v]).collect())).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "the raw and the typed triangulation have different simplices");
    let rf: HashMap<u64, &RawFacet> = r.facets.iter().map(|f| (f.id, f)).collect();
    ensure!(rf.len() == r.facets.len() && rv.len() == r.verts.len(), "ids are not unique");
    for v in &r.verts {
        let mut a = v.neighbors.clone();
        let mut b: Vec<u64> = r.facets.iter().filter(|f| f.verts.contains(&v.id)).map(|f| f.id).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "the vertex {} of the triangulation has the neighbors {a:?}, but it's part of {b:?}", v.id);
    }
    let of = |id: &u64| key(rf[id].verts.iter().map(|v| &rv[v].point).collect());
    let rk: HashMap<_, _> = r.facets.iter().filter(|f| !f.upper).map(|f| (of(&f.id), f)).collect();
    if rk.len() == t.simplices.len() {
        for (i, f) in t.simplices.iter().enumerate() {
            let g = rk[&key(f.iter().map(|v| &t.verts[*v]).collect())];
            let mut a: Vec<_> = g.neighbors.iter().map(|n| if rf[n].upper { None } else { Some(of(n)) }).collect();
            let mut b: Vec<_> =
                t.neighbors[i].iter().map(|n| n.map(|n| key(t.simplices[n].iter().map(|v| &t.verts[*v]).collect()))).collect();
            a.sort();
            b.sort();
            ensure!(a == b, "the neighbors of the raw simplex {} and of the typed simplex {i} are different", g.id);
        }
    }
    // the same lists with the additional dimension
    ensure!(r.full_verts.len() == r.verts.len() && r.full_facets.len() == r.facets.len(), "the full lists have other lengths");
    for (v, (id, p)) in r.verts.iter().zip(&r.full_verts) {
        ensure!(v.id == *id && p.len() == d + 1 && bits(&v.point) == bits(&p[..d]), "the full vertex {id} {p:?} isn't {} {:?}", v.id, v.point);
    }
    for (f, (id, n, o)) in r.facets.iter().zip(&r.full_facets) {
        ensure!(
            f.id == *id && n.len() == d + 1 && bits(&f.normal) == bits(n) && f.offset.to_bits() == o.to_bits(),
            "the full facet {id} has the plane {n:?}, {o}, the other one {:?}, {}",
            f.normal, f.offset
        );
    }

    // searches
    let input: HashMap<Vec<u64>, usize> = pts.iter().enumerate().map(|(i, p)| (bits(p), i)).collect();
    let max_abs = ps.max_abs() / ps.scale;
    let ext = ps.extent() / ps.scale;
    let mut simps = vec![];
    let mut by_key: HashMap<Vec<Vec<u64>>, usize> = HashMap::new();
    for f in &t.simplices {
        let v: Vec<Vec<i64>> = f.iter().map(|x| ps.ints[input[&bits(&t.verts[*x])]].clone()).collect();
        by_key.insert(key(f.iter().map(|v| &t.verts[*v]).collect()), simps.len());
        simps.push(Simp::new(v, max_abs));
    }
    // the solvers of the raw API invert the matrix of the absolute, homogeneous coordinates
    for f in &mut simps {
        let mat = (max_abs * ps.scale).max(1.0);
        let inv = f.grad * (1.0 / ps.scale).max(max_abs);
        f.tol = (f.tol * 4.0).max(1e-14 * mat * inv);
    }
    let nb = |i: usize| t.neighbors[i].iter().flatten().copied().collect::<Vec<usize>>();
    let res = by_dim!(d, raw_search(&pts, ctor, &steps));
    let mut seen = std::collections::HashSet::new();
    for ((q, st), r) in qs.iter().zip(&steps).zip(&res) {
        let i = match &r.simplex {
            Some(v) => match by_key.get(&key(v.iter().collect())) {
                Some(i) => Some(*i),
                None => fail!("the simplex {v:?} that was found isn't part of the triangulation"),
            },
            None => None,
        };
        let eps = st.1.unwrap_or(100.0 * f64::EPSILON);
        // the order of the vertices in the raw view is the order of the coordinates
        let order = |co: &Vec<f64>| -> Vec<f64> {
            let v = r.simplex.as_ref().unwrap();
            let f = &t.simplices[i.unwrap()];
            f.iter().map(|x| co[v.iter().position(|p| bits(p) == bits(&t.verts[*x])).unwrap()]).collect()
        };
        let co = r.coords.as_ref().map(order);
        judge(&simps, &nb, q, eps, ext, i, co.as_deref(), c)?;
        if let Some(sol) = &r.solver {
            judge(&simps, &nb, q, eps, ext, i, Some(&order(sol)), c)?;
        }
        // it inverts with cofactors for few dimensions, so it only has to do so for fat simplices
        if let (Some(made), Some(sol)) = (&r.made, &r.solver) {
            let f = &simps[i.unwrap()];
            let cond = (max_abs * ps.scale).max(1.0) * f.grad * (1.0 / ps.scale).max(max_abs);
            if 1e-15 * cond.powi(d as i32 + 1) < 1e-7 {
                let m = sol.iter().fold(1.0, |m: f64, x| m.max(x.abs()));
                ensure!(
                    made.iter().zip(sol).all(|(x, y)| (x - y).abs() <= 1e-5 * m),
                    "a solver for the simplex of {q:?} gives {made:?}, the one of the cache {sol:?}"
                );
                c.label("solver made from the vertices");
            }
        }
        if st.2 && r.id.is_some() {
            ensure!(r.hint_id == r.id, "the hint is {:?} after the simplex {:?} was found", r.hint_id, r.id);
        }
        seen.insert(i);
    }
    c.nontrivial = seen.len() >= 2 && t.simplices.len() > 2;
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "integer point sets (8 classes: uniform, few levels, cube corners, sphere, clusters, simplex plus interior, slab, image-like grid; with duplicates, offsets and scales) in 2 to 5 dimensions, and rarely 100 to 70,000 points in 2 or 3 dimensions; non-trivial: not flat, with points that are not extreme, more facets than a simplex",
        quick: 150_000,
        thorough: 150_000,
        run: c01,
        needs: &[],
        floors: &[("has coplanar facets", 200), ("has non-extreme points", 500), ("big: more than 255 vertices", 10)],
        assumptions: &["the distance tolerance is 1e-9 of the extent of the points", "extremeness is decided by an LP; cases closer than its margin are counted as too close to call"],
    },
    Prop {
        id: "C02",
        rule: "integer point sets in 3 dimensions, same classes as C01, and rarely 100 to 70,000 points; non-trivial: not flat, more facets than a tetrahedron",
        quick: 200_000,
        thorough: 200_000,
        run: c02,
        needs: &[],
        floors: &[("has reordered facets", 500), ("big: more than 255 vertices", 10)],
        assumptions: &[],
    },
    Prop {
        id: "C03",
        rule: "integer point sets in 2 to 5 dimensions, and rarely 100 to 70,000 points in 2 or 3 dimensions; non-trivial: not flat, more than 2 simplices, inner faces, and at least one generic interior probe point",
        quick: 80_000,
        thorough: 150_000,
        run: c03,
        needs: &[],
        floors: &[("cover probed", 1000), ("big: more than 65536 simplices", 3)],
        assumptions: &["circumspheres are checked for simplices whose volume is at least 1e-4 of the bounding box, with a relative tolerance of 1e-7"],
    },
    Prop {
        id: "C04",
        rule: "histories of up to 24 operations (searches with and without coordinates, changes of eps, bruteforce, clearing the hint, coordinates in a given simplex) on the triangulation of integer point sets in 2 to 5 dimensions (rarely 100 to 70,000 points in 2 or 3); non-trivial: more than 2 simplices and at least two different outcomes of the searches",
        quick: 60_000,
        thorough: 3_000_000,
        run: c04,
        needs: &[],
        floors: &[("found", 1000), ("not found", 500), ("query again", 500), ("has flat simplices", 100), ("bruteforce search", 500), ("big: found", 10)],
        assumptions: &["membership in simplices whose coordinates can't be computed to 1e-5 in double precision is only checked against their bounding box"],
    },
    Prop {
        id: "C05",
        rule: "the raw and the typed hull and triangulation of the same integer point set in 2 to 5 dimensions (rarely 100 to 70,000 points in 2 or 3), and histories of up to 16 searches with the raw API; non-trivial: more than 2 simplices and at least two different outcomes of the searches",
        quick: 40_000,
        thorough: 2_000_000,
        run: c05,
        needs: &[],
        floors: &[("found", 1000), ("not found", 500), ("big: found", 10)],
        assumptions: &["membership in simplices whose coordinates can't be computed to 1e-5 in double precision is only checked against their bounding box"],
    },
];
