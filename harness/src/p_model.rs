//! C23: a reference model of the palette simplification.
//!
//! It works without qhull, linear programming or point location: hull facets are the triples of
//! vertices with everything else below, and the best replacement of an edge is the best of the
//! intersections of three planes. Whenever a decision is close, it gives up.

use crate::ensure;
use crate::engine::*;
use crate::exact;
use crate::img::*;
use crate::p_image::{closest_on_triangle, few_colors};
use std::collections::HashMap;

type V = [f64; 3];

fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn unit(a: V) -> Option<V> {
    let l = dot(a, a).sqrt();
    (l > 1e-7).then(|| a.map(|x| x / l))
}
fn det(a: V, b: V, c: V) -> f64 {
    dot(a, cross(b, c))
}

/// Why there is no answer
type Tie = &'static str;

/// How close to a tie a decision may be
const MARGIN: f64 = 1e-6;

/// The facets of the hull of points in general position, and which points are its vertices.
fn facets(p: &[V]) -> Result<(Vec<[usize; 3]>, Vec<bool>), Tie> {
    let n = p.len();
    let mut out = vec![];
    let mut used = vec![false; n];
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let Some(m) = unit(cross(sub(p[j], p[i]), sub(p[k], p[i]))) else { return Err("collinear vertices") };
                let (mut above, mut below, mut on) = (0, 0, 0);
                for (q, x) in p.iter().enumerate() {
                    if q == i || q == j || q == k {
                        continue;
                    }
                    match dot(m, sub(*x, p[i])) {
                        d if d > MARGIN => above += 1,
                        d if d < -MARGIN => below += 1,
                        _ => on += 1,
                    }
                }
                if above > 0 && below > 0 {
                    continue;
                }
                if on > 0 {
                    return Err("coplanar facets");
                }
                out.push(if above == 0 { [i, j, k] } else { [i, k, j] });
                for q in [i, j, k] {
                    used[q] = true;
                }
            }
        }
    }
    Ok((out, used))
}

/// The point outside of all planes for which the sum of the distances is minimal, if there is one.
fn replacement(planes: &[(V, f64)]) -> Result<Option<V>, Tie> {
    let c = planes.iter().fold([0.0; 3], |c, (n, _)| [c[0] + n[0], c[1] + n[1], c[2] + n[2]]);
    let mut feasible: Vec<(f64, V)> = vec![];
    let mut nearly = false;
    let m = planes.len();
    for i in 0..m {
        for j in i + 1..m {
            for k in j + 1..m {
                let (a, b, e) = (planes[i], planes[j], planes[k]);
                let d = det(a.0, b.0, e.0);
                if d.abs() < 1e-5 {
                    // too inaccurate to rely on (or no point at all)
                    if d.abs() > 1e-12 {
                        nearly = true;
                    }
                    continue;
                }
                let (x, y, z) = (cross(b.0, e.0), cross(e.0, a.0), cross(a.0, b.0));
                let p: V = std::array::from_fn(|t| (a.1 * x[t] + b.1 * y[t] + e.1 * z[t]) / d);
                let worst = planes.iter().map(|(n, h)| dot(*n, p) - h).fold(f64::INFINITY, f64::min);
                // The gradient is a positive combination of the normals: this is the only optimum.
                let certain = d.abs() > 1e-3 && [x, y, z].iter().all(|v| dot(c, *v) / d > 1e-3);
                if certain && worst >= -1e-10 {
                    return Ok(Some(p));
                }
                if worst >= -1e-9 {
                    feasible.push((dot(c, p), p));
                } else if worst > -MARGIN {
                    nearly = true;
                }
            }
        }
    }
    feasible.sort_by(|a, b| a.0.total_cmp(&b.0));
    let Some(best) = feasible.first().copied() else {
        return if nearly && !impossible(planes) { Err("almost no replacement") } else { Ok(None) };
    };
    if nearly {
        return Err("inaccurate replacement");
    }
    if feasible.iter().any(|f| f.0 < best.0 + MARGIN && dot(sub(f.1, best.1), sub(f.1, best.1)) > 1e-10) {
        return Err("several replacements");
    }
    Ok(Some(best.1))
}

/// No point is outside of four of the planes: a positive combination of their normals is zero, but not of their offsets
fn impossible(planes: &[(V, f64)]) -> bool {
    let m = planes.len();
    for i in 0..m {
        for j in i + 1..m {
            for k in j + 1..m {
                let (a, b, e) = (planes[i], planes[j], planes[k]);
                let d = det(a.0, b.0, e.0);
                if d.abs() < 1e-3 {
                    continue;
                }
                let inv = [cross(b.0, e.0), cross(e.0, a.0), cross(a.0, b.0)].map(|v| v.map(|x| x / d));
                for (n, h) in planes {
                    let l = inv.map(|v| -dot(*n, v));
                    let sum = l[0] + l[1] + l[2] + 1.0;
                    if l.iter().all(|x| *x > 1e-3) && l[0] * a.1 + l[1] * b.1 + l[2] * e.1 + h > MARGIN * sum {
                        return true;
                    }
                }
            }
        }
    }
    false
}

/// The edge to collapse (as two indices) and the point that replaces it.
fn collapse(p: &[V]) -> Result<Option<(usize, usize, V, usize)>, Tie> {
    let (fs, used) = facets(p)?;
    if used.iter().any(|u| !u) {
        return Err("redundant vertex");
    }
    let mut best: Vec<(f64, usize, usize, V)> = vec![];
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            // an edge
            if !fs.iter().any(|f| f.contains(&i) && f.contains(&j)) {
                continue;
            }
            let star: Vec<&[usize; 3]> = fs.iter().filter(|f| f.contains(&i) || f.contains(&j)).collect();
            let planes: Vec<(V, f64)> = star
                .iter()
                .map(|f| {
                    let n = unit(cross(sub(p[f[1]], p[f[0]]), sub(p[f[2]], p[f[0]]))).unwrap();
                    (n, dot(n, p[f[0]]))
                })
                .collect();
            match replacement(&planes)? {
                None => (),
                Some(q) => {
                    let vol: f64 = star.iter().map(|f| det(sub(p[f[0]], q), sub(p[f[1]], q), sub(p[f[2]], q)).abs() / 6.0).sum();
                    best.push((vol, i, j, q));
                }
            }
        }
    }
    best.sort_by(|a, b| a.0.total_cmp(&b.0));
    let Some((vol, i, j, q)) = best.first().cloned() else { return Ok(None) };
    if best.len() > 1 && best[1].0 - vol < 1e-9 + MARGIN * vol {
        return Err("equal volumes");
    }
    if q.iter().any(|x| x.abs() > 30.0) {
        return Err("remote replacement");
    }
    let around = fs.iter().filter(|f| f.contains(&i) || f.contains(&j)).count();
    Ok(Some((i, j, q, around)))
}

fn clamped(p: &[V]) -> Vec<V> {
    p.iter().map(|v| v.map(|x| x.clamp(0.0, 1.0))).collect()
}

/// Clamped and rounded, without redundant colors; nothing if all are in a plane
fn colors(p: &[V]) -> Result<Vec<exact::P3>, Tie> {
    let mut out = vec![];
    for v in clamped(p) {
        let w = v.map(|x| x * 255.0);
        if w.iter().any(|x| (x - x.floor() - 0.5).abs() < 1e-4) {
            return Err("rounding");
        }
        out.push(w.map(|x| x.round() as i64));
    }
    if exact::flat3(&out) {
        return Ok(vec![]);
    }
    let mut e = exact::extreme3(&out).unwrap_or_default();
    e.sort();
    Ok(e)
}

/// Root mean square distance of the pixels to the hull of the clamped points
fn error(p: &[V], pixels: &HashMap<[u8; 3], u64>) -> Result<f64, Tie> {
    let p = clamped(p);
    let mut planes: Vec<(V, f64, [usize; 3])> = vec![];
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let Some(m) = unit(cross(sub(p[j], p[i]), sub(p[k], p[i]))) else { continue };
                let d: Vec<f64> = p.iter().map(|x| dot(m, sub(*x, p[i]))).collect();
                if d.iter().all(|d| *d < 1e-9) {
                    planes.push((m, dot(m, p[i]), [i, j, k]));
                }
                if d.iter().all(|d| *d > -1e-9) {
                    planes.push((m.map(|x| -x), -dot(m, p[i]), [i, k, j]));
                }
            }
        }
    }
    if planes.len() < 4 || thickness(&p.iter().map(|v| v.to_vec()).collect::<Vec<_>>()) < 1e-4 {
        return Err("flat after clamping");
    }
    let (mut sum, mut total) = (0.0, 0);
    for (c, k) in pixels {
        total += k;
        let x = c.map(|v| v as f64 / 255.0);
        if planes.iter().all(|(m, h, _)| dot(*m, x) <= h + 1e-12) {
            continue;
        }
        let d2 = planes
            .iter()
            .map(|(_, _, f)| {
                let q = closest_on_triangle(x, [p[f[0]], p[f[1]], p[f[2]]]);
                dot(sub(q, x), sub(q, x))
            })
            .fold(f64::INFINITY, f64::min);
        sum += d2 * *k as f64;
    }
    Ok((sum / total as f64).sqrt())
}

struct Outcome {
    palette: Vec<exact::P3>,
    steps: usize,
    why: &'static str,
    clamped: bool,
    /// the error was compared with the bound
    measured: usize,
    /// the most vertices that one step has removed
    removed: usize,
    /// the most facets around an edge that was collapsed
    around: usize,
}

fn model(img: &Img, min: usize, max: usize, bound: f64) -> Result<Outcome, Tie> {
    let min = min.max(4);
    let mut pixels: HashMap<[u8; 3], u64> = HashMap::new();
    for p in &img.px {
        *pixels.entry(*p).or_default() += 1;
    }
    let hull = exact::extreme3(&img.colors()).ok_or("flat image")?;
    let mut p: Vec<V> = hull.iter().map(|c| c.map(|x| x as f64 / 255.0)).collect();
    let mut o = Outcome { palette: hull, steps: 0, why: "minimum size", clamped: false, measured: 0, removed: 0, around: 0 };
    while p.len() > min {
        let Some((i, j, q, around)) = collapse(&p)? else {
            o.why = "no edge left";
            break;
        };
        let mut next: Vec<V> = p.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, v)| *v).collect();
        next.push(q);
        // the vertices of the next hull
        let (_, used) = facets(&next)?;
        let mut it = used.iter();
        next.retain(|_| *it.next().unwrap());
        let pal = colors(&next)?;
        if pal.len() < min {
            o.why = "too few colors";
            break;
        }
        if p.len() <= max {
            o.measured += 1;
            // any error exceeds a negative bound
            if bound < 0.0 {
                o.why = "error bound";
                break;
            }
            let e = error(&next, &pixels)?;
            if (e - bound).abs() < MARGIN {
                return Err("error close to the bound");
            }
            if e > bound {
                o.why = "error bound";
                break;
            }
        }
        o.removed = o.removed.max(p.len() - next.len());
        o.around = o.around.max(around);
        o.clamped |= next.iter().flatten().any(|x| *x < 0.0 || *x > 1.0);
        p = next;
        o.palette = pal;
        o.steps += 1;
    }
    Ok(o)
}

fn c23(s: &mut Src, c: &mut Case) -> Res {
    let max_colors = if s.chance(1, 25) { s.urange(25, 48) } else { s.urange(5, 24) };
    let mut img = match s.below(60) {
        0 => dominant(s),
        1..=3 => {
            let img = few_colors(s, max_colors);
            heavy(s, img)
        }
        _ => sized(s, 100, &[], |s| few_colors(s, max_colors)),
    };
    // some colors are more frequent than others
    if img.n() < 1000 && s.chance(1, 2) {
        let p = *s.pick(&img.px.clone());
        for _ in 0..s.urange(1, 4) {
            let row: Vec<[u8; 3]> = (0..img.w).map(|_| p).collect();
            img.px.extend(row);
            img.h += 1;
        }
    }
    let min = s.urange(0, 8);
    let max = s.urange(0, 20);
    let bound = match s.weighted(&[6, 2, 2, 1]) {
        0 => s.unit() * 0.06,
        1 => 2.0 / 255.0,
        2 => f64::INFINITY,
        _ => -1.0,
    };
    c.label(img.class);
    c.desc = format!("palette of {min} to {max} colors, bound {bound}, for the {}", img.describe());
    if exact::flat3(&img.colors()) {
        c.label("flat (skipped)");
        return Ok(());
    }
    let o = match model(&img, min, max, bound) {
        Ok(o) => o,
        Err(why) => {
            c.label(format!("skipped: {why}"));
            c.label(format!("skipped: {why}: {}", img.class));
            return Ok(());
        }
    };
    let pal = palette(&img, min, max, bound);
    let mut got = p3s(&pal);
    got.sort();
    let show = |p: &[exact::P3]| hexes(&p.iter().map(|c| c.map(|x| x as u8)).collect::<Vec<_>>());
    ensure!(
        got == o.palette,
        "the palette is {}, but {} steps of the simplification (until: {}) give {}",
        show(&got), o.steps, o.why, show(&o.palette)
    );
    c.label(format!("until: {}", o.why));
    if o.clamped {
        c.label("clamped");
    }
    if o.steps >= 4 {
        c.label("four or more steps");
    }
    if o.removed > 1 {
        c.label(format!("{} vertices at once", o.removed));
    }
    if o.around > 10 {
        c.label(format!("{} facets around an edge", o.around));
    }
    if o.measured > 1 {
        c.label("error measured repeatedly");
    }
    c.nontrivial = o.steps > 0;
    Ok(())
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C23",
    rule: "images with 4 to 48 colors, minimum 0 to 8, maximum 0 to 20, bounds of 0 to 0.06, infinite or negative; non-trivial: at least one edge is collapsed, and no decision is a tie",
    quick: 40_000,
    thorough: 4_000_000,
    run: c23,
    needs: &[],
    floors: &[("until: error bound", 500), ("until: minimum size", 500), ("clamped", 500), ("four or more steps", 500), ("error measured repeatedly", 300)],
    assumptions: &["images with ties (coplanar facets, equal volumes, values on the edge of rounding) are skipped"],
}];
