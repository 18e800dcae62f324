//! C06 - C13, C18, C21, C22: the image library.

use crate::engine::*;
use crate::exact::{self, P3};
use crate::img::*;
use crate::p_geom::dotf;
use crate::{ensure, fail, lp};
use image_palette_recoloring::DecomposedImage;

fn check_size(what: &str, img: &Img, w: u32, h: u32, n: usize) -> Res {
    ensure!(w == img.w && h == img.h && n == img.n(), "{what} is {w}x{h} with {n} pixels, the image is {}x{}", img.w, img.h);
    Ok(())
}

fn diff3(a: &[u8; 3], b: &[u8; 3]) -> i32 {
    (0..3).map(|k| (a[k] as i32 - b[k] as i32).abs()).max().unwrap()
}

/// colors that enclose the image: its own color hull, the cube, or a bigger random one
fn enclosing(s: &mut Src, img: &Img, c: &mut Case) -> Option<Vec<[u8; 3]>> {
    let cols: Vec<[u8; 3]> = img.colors().iter().map(|c| [c[0] as u8, c[1] as u8, c[2] as u8]).collect();
    let cube: Vec<[u8; 3]> = (0..8u8).map(|i| [(i & 1) * 255, (i >> 1 & 1) * 255, (i >> 2 & 1) * 255]).collect();
    match s.weighted(&[3, 1, 2]) {
        0 if cols.len() <= 60 => {
            c.label("palette: color hull of the image");
            let mut p = extreme_palette(&cols)?;
            s.shuffle(&mut p);
            Some(p)
        }
        2 if cols.len() <= 40 => {
            c.label("palette: bigger than the color hull");
            let mut all = cols.clone();
            for _ in 0..s.urange(1, 4) {
                all.push(*s.pick(&cube));
            }
            let mut p = extreme_palette(&all)?;
            s.shuffle(&mut p);
            Some(p)
        }
        _ => {
            c.label("palette: RGB cube");
            let mut p = cube;
            s.shuffle(&mut p);
            Some(p)
        }
    }
}

fn c06(s: &mut Src, c: &mut Case) -> Res {
    let inside = s.chance(1, 2);
    let (img, pal) = if inside {
        let Some(mut p) = valid_palette(s, 9) else { return Ok(()) };
        let img = any_size(s, 150, &p.clone(), |s| image_inside(s, 90, &p));
        s.shuffle(&mut p);
        c.label("palette: random");
        (img, p)
    } else {
        let img = any_size(s, 150, &[], |s| image(s, 90));
        let Some(p) = enclosing(s, &img, c) else { return Ok(()) };
        (img, p)
    };
    c.label(img.class);
    c.desc = format!("palette {} for the {}", hexes(&pal), img.describe());
    if img.flat5() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let w = weights(&img);
    check_size("the weights", &img, w.width(), w.height(), img.n())?;
    let d = match decompose(&w, &pal) {
        Ok(d) => d,
        Err(e) => fail!("palette {} was rejected: {e}", hexes(&pal)),
    };
    ensure!(d.num_channels() == pal.len(), "{} channels for {} colors", d.num_channels(), pal.len());
    check_size("the decomposition", &img, d.width(), d.height(), img.n())?;
    let Some((ow, oh, out)) = reconstruct(&d, &pal) else { fail!("reconstruct with the palette itself failed") };
    check_size("the reconstruction", &img, ow, oh, out.len())?;
    for (i, (a, b)) in out.iter().zip(&img.px).enumerate() {
        ensure!(diff3(a, b) <= 1, "pixel ({}, {}) was {}, with its own palette it is reconstructed as {}",
            i as u32 % img.w, i as u32 / img.w, hex(b), hex(a));
    }
    c.label(if pal.len() == 4 { "tetrahedron" } else { "more than 4 colors" });
    c.label(if img.w != img.h { "not square" } else { "square" });
    c.nontrivial = img.colors().len() > pal.len();
    Ok(())
}

/// Barycentric coordinates in 3D, in floating point, from exact integer or float points
fn bary(t: [[f64; 3]; 4], p: [f64; 3]) -> Option<[f64; 4]> {
    let m = |a: [f64; 3], b: [f64; 3], c: [f64; 3], d: [f64; 3]| {
        let (u, v, w) = (subf(b, a), subf(c, a), subf(d, a));
        dotf(&crossf(u, v), &w)
    };
    let v = m(t[0], t[1], t[2], t[3]);
    if v == 0.0 {
        return None;
    }
    Some([m(p, t[1], t[2], t[3]) / v, m(t[0], p, t[2], t[3]) / v, m(t[0], t[1], p, t[3]) / v, m(t[0], t[1], t[2], p) / v])
}
pub fn subf(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn crossf(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn f3(p: P3) -> [f64; 3] {
    [p[0] as f64, p[1] as f64, p[2] as f64]
}

/// Closest point of a triangle: the best among the interior projection, the edges and the corners
pub fn closest_on_triangle(p: [f64; 3], t: [[f64; 3]; 3]) -> [f64; 3] {
    let n = crossf(subf(t[1], t[0]), subf(t[2], t[0]));
    let nn = dotf(&n, &n);
    let mut cands = vec![];
    if nn > 0.0 {
        let f = dotf(&subf(p, t[0]), &n) / nn;
        let q = [p[0] - f * n[0], p[1] - f * n[1], p[2] - f * n[2]];
        let inside = (0..3).all(|k| dotf(&crossf(subf(t[(k + 1) % 3], t[k]), subf(q, t[k])), &n) >= 0.0);
        if inside {
            cands.push(q);
        }
    }
    for k in 0..3 {
        let (a, b) = (t[k], t[(k + 1) % 3]);
        let ab = subf(b, a);
        let len = dotf(&ab, &ab);
        let f = if len > 0.0 { (dotf(&subf(p, a), &ab) / len).clamp(0.0, 1.0) } else { 0.0 };
        cands.push([a[0] + f * ab[0], a[1] + f * ab[1], a[2] + f * ab[2]]);
    }
    cands.into_iter().min_by(|a, b| dist2(*a, p).total_cmp(&dist2(*b, p))).unwrap()
}
pub fn dist2(a: [f64; 3], b: [f64; 3]) -> f64 {
    let d = subf(a, b);
    dotf(&d, &d)
}

/// Reference for the decomposition with a generic palette: the coordinates of a color in the star
/// triangulation (corner closest to black, facets of the hull), of the closest point of the hull
/// for colors outside of it.
pub struct Star {
    pal: Vec<P3>,
    star: usize,
    facets: Vec<[usize; 3]>,
    planes: Vec<(P3, i64)>,
}

impl Star {
    pub fn new(pal: &[[u8; 3]]) -> Star {
        let pal = p3s(pal);
        let planes = exact::hull_planes3(&pal).unwrap();
        let facets = planes
            .iter()
            .map(|(n, d)| {
                let v: Vec<usize> = (0..pal.len()).filter(|i| exact::dot(*n, pal[*i]) == *d).collect();
                [v[0], v[1], v[2]]
            })
            .collect();
        let star = (0..pal.len()).min_by_key(|i| exact::dot(pal[*i], pal[*i])).unwrap();
        Star { pal, star, facets, planes }
    }
    /// coordinates, and whether the color is outside of the hull
    pub fn coords(&self, p: P3) -> (Vec<f64>, bool) {
        let outside = self.planes.iter().any(|(n, d)| exact::dot(*n, p) > *d);
        let q = if outside {
            self.facets
                .iter()
                .map(|f| closest_on_triangle(f3(p), [f3(self.pal[f[0]]), f3(self.pal[f[1]]), f3(self.pal[f[2]])]))
                .min_by(|a, b| dist2(*a, f3(p)).total_cmp(&dist2(*b, f3(p))))
                .unwrap()
        } else {
            f3(p)
        };
        let mut best: Option<(f64, Vec<f64>)> = None;
        for f in &self.facets {
            if f.contains(&self.star) {
                continue;
            }
            let idx = [self.star, f[0], f[1], f[2]];
            let Some(b) = bary(idx.map(|i| f3(self.pal[i])), q) else { continue };
            let m = b.iter().copied().fold(f64::INFINITY, f64::min);
            if best.as_ref().map_or(true, |(o, _)| m > *o) {
                let mut v = vec![0.0; self.pal.len()];
                for k in 0..4 {
                    v[idx[k]] = b[k];
                }
                best = Some((m, v));
            }
        }
        (best.expect("HARNESS: no simplex").1, outside)
    }
}

/// Reference for the weights: the coordinates of a pixel in the Delaunay triangulation of the
/// vertices of the 5D hull, as the optimum of a linear program (the lower envelope of the lifted
/// vertices).
struct WeightsModel {
    a: Vec<Vec<f64>>,
    cost: Vec<f64>,
    verts: Vec<usize>,
    pts: Vec<[f64; 5]>,
}

impl WeightsModel {
    fn new(img: &Img) -> Option<WeightsModel> {
        let pts: Vec<[f64; 5]> = img
            .points5()
            .iter()
            .map(|p| [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0, p[3] as f64 / img.w as f64, p[4] as f64 / img.h as f64])
            .collect();
        let mut verts = vec![];
        for i in 0..pts.len() {
            let others: Vec<usize> = (0..pts.len()).filter(|j| *j != i).collect();
            let mut a: Vec<Vec<f64>> = (0..5).map(|k| others.iter().map(|j| pts[*j][k] - pts[i][k]).collect()).collect();
            a.push(vec![1.0; others.len()]);
            match lp::solve(&a, &[0.0, 0.0, 0.0, 0.0, 0.0, 1.0], &vec![0.0; others.len()], 1e-11) {
                Ok(_) => (),
                Err(e) if e > 1e-7 => verts.push(i),
                Err(_) => return None,
            }
        }
        Some(WeightsModel::of(pts, verts))
    }
    fn of(pts: Vec<[f64; 5]>, verts: Vec<usize>) -> WeightsModel {
        let mut a: Vec<Vec<f64>> = (0..5).map(|k| verts.iter().map(|j| pts[*j][k]).collect()).collect();
        a.push(vec![1.0; verts.len()]);
        let cost = verts.iter().map(|j| dotf(&pts[*j], &pts[*j])).collect();
        WeightsModel { a, cost, verts, pts }
    }
    /// Is pixel i on the surface of the hull (without being a vertex)? Then no multiple of it, seen
    /// from the center, is in the hull.
    fn on_surface(&self, i: usize) -> bool {
        if self.verts.contains(&i) {
            return false;
        }
        let n = self.verts.len();
        let mut a = self.a.clone();
        for k in 0..5 {
            let center: f64 = self.a[k].iter().sum::<f64>() / n as f64;
            a[k].push(center - self.pts[i][k]);
        }
        a[5].push(0.0);
        let mut cost = vec![0.0; n];
        cost.push(-1.0);
        let mut b = self.pts[i].to_vec();
        b.push(1.0);
        match lp::solve(&a, &b, &cost, 1e-9) {
            Ok(s) => s.x[n] < 1e-7,
            Err(_) => true,
        }
    }
    /// weights of pixel i: (pixel index of the vertex, weight); None if they aren't unique
    fn weights(&self, i: usize) -> Option<Vec<(usize, f64)>> {
        if self.verts.contains(&i) {
            return Some(vec![(i, 1.0)]);
        }
        let mut b = self.pts[i].to_vec();
        b.push(1.0);
        let s = lp::solve(&self.a, &b, &self.cost, 1e-9).ok()?;
        // unique optimum, found exactly
        if s.min_reduced < 1e-7 || s.x.iter().any(|x| *x < -1e-9) || s.basis.iter().any(|b| *b >= self.verts.len()) {
            return None;
        }
        for k in 0..6 {
            let v: f64 = self.a[k].iter().zip(&s.x).map(|(a, x)| a * x).sum();
            if (v - b[k]).abs() > 1e-9 {
                return None;
            }
        }
        Some(self.verts.iter().copied().zip(s.x).filter(|(_, w)| *w != 0.0).collect())
    }
}

fn c07(s: &mut Src, c: &mut Case) -> Res {
    let kind = s.weighted(&[3, 2, 2]);
    let (img, pal) = match kind {
        0 => {
            let img = image(s, 60);
            let max = if s.chance(1, 8) { 50 } else { 9 };
            let Some(p) = valid_palette(s, max) else { return Ok(()) };
            if p.len() > 20 {
                c.label("more than 20 colors");
            }
            (img, p)
        }
        1 => {
            let Some(p) = valid_palette(s, 9) else { return Ok(()) };
            let small = p.len() > 4;
            let img = if small { image_inside(s, 60, &p) } else { any_size(s, 30, &p, |s| image_inside(s, 60, &p)) };
            (img, p)
        }
        _ => {
            let img = image(s, 60);
            let cols: Vec<[u8; 3]> = img.colors().iter().map(|c| [c[0] as u8, c[1] as u8, c[2] as u8]).collect();
            let k = s.urange(4, 8);
            let some: Vec<[u8; 3]> = (0..k).map(|_| *s.pick(&cols)).collect();
            let Some(p) = extreme_palette(&some) else { return Ok(()) };
            (img, p)
        }
    };
    c.label(img.class);
    c.desc = format!("palette {} for the {}", hexes(&pal), img.describe());
    if img.flat5() {
        c.label("flat (skipped)");
        return Ok(());
    }
    if pal.len() < 4 || !generic_palette(&pal) {
        c.label("palette isn't generic (skipped)");
        return Ok(());
    }
    let star = Star::new(&pal);
    let mut cache = std::collections::HashMap::new();
    let cols: Vec<(Vec<f64>, bool)> = img.px.iter().map(|p| cache.entry(*p).or_insert_with(|| star.coords(p3(p))).clone()).collect();
    let affine = pal.len() == 4 && cols.iter().all(|c| !c.1);
    let model = if affine {
        // the triangulation doesn't matter
        None
    } else {
        let model = WeightsModel::new(&img);
        if model.is_none() {
            c.label("hull too close to call (skipped)");
            return Ok(());
        }
        model
    };
    let d = match decompose(&weights(&img), &pal) {
        Ok(d) => d,
        Err(e) => fail!("palette {} was rejected: {e}", hexes(&pal)),
    };
    let other: Vec<[u8; 3]> = pal.iter().map(|_| [s.byte(), s.byte(), s.byte()]).collect();
    let Some((_, _, out)) = reconstruct(&d, &other) else { fail!("reconstruct failed") };
    let chans: Vec<Vec<u8>> = (0..pal.len()).map(|k| channel(&d, k).map(|c| c.2).unwrap_or_default()).collect();
    ensure!(chans.iter().all(|c| c.len() == img.n()) && out.len() == img.n(), "wrong number of pixels");
    // does pixel i have these weights?
    let judge = |i: usize, exp: &[f64]| -> Res {
        for k in 0..pal.len() {
            let v = exp[k] * 255.0;
            ensure!((chans[k][i] as f64 - v).abs() <= 1.01, "pixel ({}, {}) {}: channel {k} is {}, the weight of {} should be {v:.3}/255",
                i as u32 % img.w, i as u32 / img.w, hex(&img.px[i]), chans[k][i], hex(&pal[k]));
        }
        for q in 0..3 {
            let v: f64 = exp.iter().zip(&other).map(|(e, p)| e * p[q] as f64).sum();
            ensure!((out[i][q] as f64 - v).abs() <= 1.01, "pixel ({}, {}) {}: recolored with {} its component {q} is {}, should be {v:.3}",
                i as u32 % img.w, i as u32 / img.w, hex(&img.px[i]), hexes(&other), out[i][q]);
        }
        Ok(())
    };
    let mut checked = 0;
    let mut mixed = 0;
    let mut projected = 0;
    let mut ambiguous = 0;
    let mut all = |model: Option<&WeightsModel>| -> Res {
        (checked, mixed, projected, ambiguous) = (0, 0, 0, 0);
        for i in 0..img.n() {
            let Some(model) = model else {
                // inside of a tetrahedron, the channels are the coordinates of the color itself
                judge(i, &cols[i].0)?;
                checked += 1;
                continue;
            };
            let Some(w) = model.weights(i) else {
                ambiguous += 1;
                continue;
            };
            mixed += (w.len() > 1) as u32;
            projected += w.iter().any(|(j, _)| cols[*j].1) as u32;
            let exp: Vec<f64> = (0..pal.len()).map(|k| w.iter().map(|(j, x)| x * cols[*j].0[k]).sum()).collect();
            checked += 1;
            judge(i, &exp)?;
        }
        Ok(())
    };
    if let Err(e) = all(model.as_ref()) {
        // Rounding makes Qhull keep some points on the surface of a 5D hull that aren't extreme
        // (which ones depends on their order). These make other triangulations, which are as good,
        // but the model only knows the one of the extreme points.
        let Some(model) = model else { return Err(e) };
        let exact: std::collections::HashSet<_> = model.verts.iter().map(|i| model.pts[*i].map(|x| x.to_bits())).collect();
        let keeps = |order: &[usize]| {
            let pts: Vec<Vec<f64>> = order.iter().map(|i| model.pts[*i].to_vec()).collect();
            let h = catch(|| crate::geom::d5::hull(&pts, 0));
            h.map_or(true, |h| h.verts.iter().any(|v| !exact.contains(&[0, 1, 2, 3, 4].map(|k| v[k].to_bits()))))
        };
        let rows: Vec<usize> = (0..img.n()).collect();
        let mut columns = rows.clone();
        columns.sort_by_key(|i| (i % img.w as usize, i / img.w as usize));
        let rev = |v: &[usize]| v.iter().rev().copied().collect::<Vec<_>>();
        if [rev(&rows), rev(&columns), columns, rows].iter().any(|o| keeps(o)) {
            c.label("points on the surface are vertices (skipped)");
            return Ok(());
        }
        // In other orders they give themselves away by having their own color.
        let own: Vec<usize> = (0..img.n()).filter(|i| judge(*i, &cols[*i].0).is_ok() && model.on_surface(*i)).collect();
        let with = |extra: &[usize]| WeightsModel::of(model.pts.clone(), model.verts.iter().chain(extra).copied().collect());
        // so look for some of those that explain all of the weights
        let wrong = |extra: &[usize]| {
            let m = with(extra);
            let expect = |w: Vec<(usize, f64)>| (0..pal.len()).map(|k| w.iter().map(|(j, x)| x * cols[*j].0[k]).sum()).collect::<Vec<f64>>();
            (0..img.n()).filter(|i| m.weights(*i).is_some_and(|w| judge(*i, &expect(w)).is_err())).count()
        };
        let mut explained = None;
        for start in [own.clone(), vec![]] {
            let mut extra = start;
            let mut n = wrong(&extra);
            while n > 0 {
                // one less or one more
                let next = own.iter().map(|i| {
                    let mut e: Vec<usize> = extra.iter().copied().filter(|j| j != i).collect();
                    if e.len() == extra.len() {
                        e.push(*i);
                    }
                    (wrong(&e), e)
                });
                match next.min_by_key(|x| x.0) {
                    Some((m, e)) if m < n => (n, extra) = (m, e),
                    _ => break,
                }
            }
            if n == 0 {
                explained = Some(extra);
                break;
            }
        }
        let Some(extra) = explained else { return Err(e) };
        if extra.is_empty() {
            return Err(e);
        }
        all(Some(&with(&extra)))?;
        c.label("points on the surface are vertices");
    }
    if ambiguous > 0 {
        c.label("ambiguous triangulation (pixel skipped)");
    }
    if affine {
        c.label("tetrahedron around the image");
    }
    if mixed > 0 {
        c.label("pixels inside of the 5D hull");
    }
    if projected > 0 {
        c.label("colors outside of the palette");
    }
    c.nontrivial = checked > 0 && (affine || mixed > 0);
    Ok(())
}

fn any_decomposition(s: &mut Src, c: &mut Case, max_px: usize) -> Option<(Img, Vec<[u8; 3]>, DecomposedImage)> {
    let img = any_size(s, 150, &[], |s| image(s, max_px));
    let pal = valid_palette(s, 8)?;
    c.label(img.class);
    c.desc = format!("palette {} for the {}", hexes(&pal), img.describe());
    if pal.len() < 4 || img.flat5() {
        c.label("flat (skipped)");
        return None;
    }
    let w = weights(&img);
    match decompose(&w, &pal) {
        Ok(d) => Some((img, pal, d)),
        Err(_) => None,
    }
}

fn c08(s: &mut Src, c: &mut Case) -> Res {
    let Some((img, pal, d)) = any_decomposition(s, c, 60) else { return Ok(()) };
    let n = pal.len();
    let rand = |s: &mut Src| -> Vec<[u8; 3]> { (0..n).map(|_| color(s)).collect() };
    let rec = |p: &[[u8; 3]]| -> Result<Vec<[u8; 3]>, Fail> {
        match reconstruct(&d, p) {
            Some((w, h, px)) => check_size("the reconstruction", &img, w, h, px.len()).map(|_| px),
            None => Err(format!("reconstruct with {} colors failed", p.len()).into()),
        }
    };
    // weights of each pixel, to 1/255
    let mut lo = vec![vec![0.0; n]; img.n()];
    for k in 0..n {
        let ch = channel(&d, k).map(|c| c.2).unwrap_or_default();
        ensure!(ch.len() == img.n(), "channel {k} has {} pixels", ch.len());
        for i in 0..img.n() {
            lo[i][k] = ch[i] as f64 / 255.0;
        }
    }
    // constant palettes give constant images: the weights of each pixel sum to one
    let k = color(s);
    for (i, p) in rec(&vec![k; n])?.iter().enumerate() {
        ensure!(diff3(p, &k) <= 1, "with all colors {} pixel {i} becomes {}", hex(&k), hex(p));
    }
    // no light, no color: zero is exact
    let zero = s.urange(0, 2);
    let p0: Vec<[u8; 3]> = rand(s).iter().map(|c| [0, 1, 2].map(|q| if q == zero { 0 } else { c[q] })).collect();
    for (i, p) in rec(&p0)?.iter().enumerate() {
        ensure!(p[zero] == 0, "component {zero} is 0 in all of {}, but pixel {i} becomes {}", hexes(&p0), hex(p));
    }
    // any palette: a weighted sum with the weights of the channels, per pixel and component
    let a = rand(s);
    let ra = rec(&a)?;
    for i in 0..img.n() {
        for q in 0..3 {
            // every weight is between lo and lo + 1/255
            let base: f64 = lo[i].iter().zip(&a).map(|(w, p)| w * p[q] as f64).sum();
            let slack: f64 = a.iter().map(|p| p[q] as f64).sum::<f64>() / 255.0;
            let v = ra[i][q] as f64;
            ensure!(v >= base - slack - 1.01 && v <= base + slack + 1.01,
                "pixel {i} recolored with {}: component {q} is {v}, the channels give {base:.2} to {:.2}", hexes(&a), base + slack);
        }
    }
    // linear: halving the palette, averaging palettes
    let b: Vec<[u8; 3]> = rand(s);
    let even = |p: &Vec<[u8; 3]>| -> Vec<[u8; 3]> { p.iter().map(|c| c.map(|x| x & !1)).collect() };
    let (a2, b2) = (even(&a), even(&b));
    let m: Vec<[u8; 3]> = a2.iter().zip(&b2).map(|(x, y)| [x[0] / 2 + y[0] / 2, x[1] / 2 + y[1] / 2, x[2] / 2 + y[2] / 2]).collect();
    let (r1, r2, rm) = (rec(&a2)?, rec(&b2)?, rec(&m)?);
    for i in 0..img.n() {
        for q in 0..3 {
            let e = (r1[i][q] as f64 + r2[i][q] as f64) / 2.0;
            ensure!((rm[i][q] as f64 - e).abs() <= 2.01, "pixel {i}: average of two palettes gives {}, average of the images is {e} (component {q}, {} and {})", rm[i][q], hexes(&a2), hexes(&b2));
        }
    }
    // components are independent of each other
    let perm = *s.pick(&[[1usize, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1]]);
    let ap: Vec<[u8; 3]> = a.iter().map(|c| [c[perm[0]], c[perm[1]], c[perm[2]]]).collect();
    for (i, (x, y)) in rec(&ap)?.iter().zip(&ra).enumerate() {
        let e = [y[perm[0]], y[perm[1]], y[perm[2]]];
        ensure!(diff3(x, &e) <= 1, "pixel {i}: with permuted components {}, expected {}", hex(x), hex(&e));
    }
    // changing one color only changes the pixels that use it
    let k = s.urange(0, n - 1);
    let mut a1 = a.clone();
    a1[k] = color(s);
    let mut untouched = 0;
    for (i, (x, y)) in rec(&a1)?.iter().zip(&ra).enumerate() {
        if lo[i][k] == 0.0 {
            untouched += 1;
            ensure!(diff3(x, y) <= 2, "pixel {i} doesn't use color {k}, but changing it makes a difference: {} {}", hex(x), hex(y));
        }
    }
    // a palette of any other size is refused
    for m in [0, 1, n - 1, n + 1, s.urange(0, 40)] {
        if m != n {
            ensure!(reconstruct(&d, &vec![[1, 2, 3]; m]).is_none(), "a palette with {m} colors was accepted by a decomposition with {n} channels");
        }
    }
    // reconstructing doesn't change the decomposition
    ensure!(rec(&a)? == ra, "reconstructing the same palette again gives another image");
    if untouched > 0 && untouched < img.n() {
        c.label("pixels with and without a color");
    }
    c.nontrivial = img.colors().len() >= 4;
    Ok(())
}

fn c10(s: &mut Src, c: &mut Case) -> Res {
    let Some((img, pal, d)) = any_decomposition(s, c, 60) else { return Ok(()) };
    let n = pal.len();
    ensure!(d.num_channels() == n, "{} channels for {n} colors", d.num_channels());
    let mut sums = vec![0i32; img.n()];
    let mut levels = std::collections::HashSet::new();
    for k in 0..n {
        let Some((w, h, ch)) = channel(&d, k) else { fail!("there is no channel {k} of {n}") };
        check_size("the channel", &img, w, h, ch.len())?;
        let comp = s.urange(0, 2);
        let mut ind = vec![[0u8; 3]; n];
        ind[k][comp] = 255;
        let Some((_, _, r)) = reconstruct(&d, &ind) else { fail!("reconstruct failed") };
        for i in 0..img.n() {
            sums[i] += ch[i] as i32;
            levels.insert(ch[i]);
            ensure!((ch[i] as i32 - r[i][comp] as i32).abs() <= 1,
                "channel {k} is {} at pixel {i}, but recoloring just this color to full intensity gives {}", ch[i], r[i][comp]);
            ensure!((0..3).all(|q| q == comp || r[i][q] == 0), "recoloring to black except for one component gives {} at pixel {i}", hex(&r[i]));
        }
    }
    for (i, x) in sums.iter().enumerate() {
        ensure!(*x <= 256 && *x >= 254 - n as i32, "the channels of pixel {i} add up to {x}");
    }
    for k in [n, n + 1, s.urange(n, 300), usize::MAX] {
        ensure!(channel(&d, k).is_none(), "there is a channel {k}, but only {n} colors");
    }
    c.nontrivial = levels.len() > 4;
    Ok(())
}

/// Any list of colors, with all the ways in which it can be unusable
pub fn any_palette(s: &mut Src) -> (&'static str, Vec<[u8; 3]>) {
    let n = s.urange(0, 12);
    let mut p: Vec<[u8; 3]> = vec![];
    let kind = match s.weighted(&[3, 3, 2, 2, 2, 2]) {
        0 => {
            for _ in 0..n {
                p.push([s.byte(), s.byte(), s.byte()]);
            }
            "random"
        }
        1 => {
            let l = s.range(1, 3);
            let step = *s.pick(&[85u64, 1, 17]);
            for _ in 0..n {
                p.push([(s.range(0, l) * step) as u8, (s.range(0, l) * step) as u8, (s.range(0, l) * step) as u8]);
            }
            "lattice"
        }
        2 => {
            // on a plane, perhaps with one color off it by one
            let (u, v) = ([s.irange(-9, 9), s.irange(-9, 9), s.irange(-9, 9)], [s.irange(-9, 9), s.irange(-9, 9), s.irange(-9, 9)]);
            for _ in 0..n {
                let (a, b) = (s.irange(-6, 6), s.irange(-6, 6));
                let mut c = [0u8; 3];
                for k in 0..3 {
                    c[k] = (128 + a * u[k] + b * v[k]).clamp(0, 255) as u8;
                }
                p.push(c);
            }
            if n > 0 && s.chance(1, 2) {
                let i = s.urange(0, n - 1);
                let k = s.urange(0, 2);
                p[i][k] = p[i][k].wrapping_add(1);
            }
            "planar"
        }
        3 => {
            p = valid_palette(s, 10).unwrap_or_default();
            if !p.is_empty() {
                let x = *s.pick(&p);
                let at = s.urange(0, p.len());
                p.insert(at, x);
            }
            "with a duplicate"
        }
        4 => {
            // one more color inside, on a facet or on an edge
            p = valid_palette(s, 8).unwrap_or_default();
            if p.len() >= 4 {
                let m = s.urange(2, 4);
                let mut c = [0u32; 3];
                for _ in 0..m {
                    let x = *s.pick(&p);
                    for k in 0..3 {
                        c[k] += x[k] as u32;
                    }
                }
                let at = s.urange(0, p.len());
                p.insert(at, c.map(|x| (x / m as u32) as u8));
            }
            "with a mixture"
        }
        _ => {
            p = valid_palette(s, 12).unwrap_or_default();
            s.shuffle(&mut p);
            "extreme colors"
        }
    };
    (kind, p)
}

/// More colors than anyone uses: extreme ones (around a sphere), maybe with something redundant among them
fn many_colors(s: &mut Src) -> (&'static str, Vec<[u8; 3]>) {
    let n = if s.chance(1, 8) { s.urange(150, 330) } else { s.urange(20, 120) };
    let r = if s.chance(1, 4) { 140.0 } else { 127.0 };
    let mut state = s.range(1, 1 << 40);
    let mut unit = || {
        state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (state >> 33) as f64 / (1u64 << 30) as f64 - 1.0
    };
    let mut p = vec![];
    for _ in 0..n {
        let v = [unit(), unit(), unit()];
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
        p.push(v.map(|x| (127.5 + x / l * r).round().clamp(0.0, 255.0) as u8));
    }
    let mut p = extreme_palette(&p).unwrap_or(p);
    if s.chance(1, 3) {
        let c = if s.chance(1, 2) { *s.pick(&p) } else { color(s) };
        let at = s.urange(0, p.len());
        p.insert(at, c);
    }
    ("many colors", p)
}

fn c09(s: &mut Src, c: &mut Case) -> Res {
    let img = loop_image(s);
    let (kind, pal) = if s.chance(1, 150) { many_colors(s) } else { any_palette(s) };
    c.label(kind);
    c.desc = format!("palette {:?} {} ({kind}) for the {}", pal.len(), hexes(&pal), img.describe());
    if img.flat5() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let pts = p3s(&pal);
    let distinct = (0..pal.len()).all(|i| !pal[..i].contains(&pal[i]));
    let flat = pal.len() < 4 || exact::flat3(&pts);
    let extreme = if flat { None } else { exact::extreme3(&pts) };
    let expect = distinct && extreme.as_ref().map_or(false, |e| e.len() == pal.len());
    let w = weights(&img);
    let r = match catch(|| decompose(&w, &pal)) {
        Ok(r) => r,
        Err(m) => fail!("decomposing panicked: {m}"),
    };
    match r {
        Ok(d) => {
            let why = if pal.len() < 4 { "has fewer than 4 colors" } else if flat { "is in one plane" } else if !distinct { "has a duplicate" } else { "has a redundant color" };
            ensure!(expect, "the palette {} was accepted, but it {why}", hexes(&pal));
            ensure!(d.num_channels() == pal.len(), "{} channels for {} colors", d.num_channels(), pal.len());
            let Some((ow, oh, out)) = reconstruct(&d, &pal) else { fail!("reconstruct failed") };
            check_size("the reconstruction", &img, ow, oh, out.len())?;
            c.label("accepted");
        }
        Err(e) => {
            ensure!(!expect, "the palette {} was rejected ({e}), but it has {} distinct, extreme colors", hexes(&pal), pal.len());
            ensure!(!e.is_empty(), "rejected without a message");
            c.label(if pal.len() < 4 { "rejected: size" } else if flat { "rejected: planar" } else if !distinct { "rejected: duplicate" } else { "rejected: redundant" });
        }
    }
    c.nontrivial = pal.len() >= 4;
    Ok(())
}

/// a small image that isn't flat, most of the time
pub fn loop_image(s: &mut Src) -> Img {
    let (w, h) = (s.urange(3, 4) as u32, s.urange(3, 4) as u32);
    let px = (0..w * h).map(|_| [s.byte(), s.byte(), s.byte()]).collect();
    Img { w, h, px, class: "small" }
}

pub fn bound(s: &mut Src) -> f64 {
    match s.weighted(&[2, 2, 4, 1, 1, 1]) {
        0 => 0.0,
        1 => 2.0 / 255.0,
        2 => s.unit() * 0.05,
        3 => s.unit() * 0.5,
        4 => f64::INFINITY,
        _ => -1.0,
    }
}

pub fn few_colors(s: &mut Src, max_colors: usize) -> Img {
    let (w, h) = (s.urange(2, 8) as u32, s.urange(2, 8) as u32);
    let k = s.urange(4, max_colors);
    let class = s.weighted(&[3, 3, 2, 1, 1, 1, 1]);
    let a: Vec<[u8; 3]> = match class {
        4 => thin(s, k),
        5 => {
            // a box, several corners of which are cut off
            let (lo, hi) = ([0; 3].map(|_| s.range(0, 60) as i64), [0; 3].map(|_| s.range(180, 255) as i64));
            let jitter = s.irange(1, 8);
            let mut out = vec![];
            for corner in 0..8 {
                let cut = s.irange(12, 60);
                let n = if out.len() + 8 - corner < k && s.chance(1, 2) { s.urange(2, 7) } else { 1 };
                for i in 0..n {
                    let at = [0, 1, 2].map(|q| {
                        let d = s.irange(0, jitter)
                            + match i {
                                _ if n == 1 => 0,
                                // on one of the edges of the box
                                0..=2 if i == q => cut,
                                0..=2 => 0,
                                // or a little outside of the plane through these three
                                _ => s.irange(0, cut / 2),
                            };
                        if corner >> q & 1 == 0 { lo[q] + d } else { hi[q] - d }
                    });
                    out.push(at.map(|x| x as u8));
                }
            }
            out
        }
        6 => {
            // vertices with many edges: two tips and a ring
            let (center, axis) = (127.0, s.urange(0, 2));
            let (r, q) = (40.0 + s.unit() * 60.0, 40.0 + s.unit() * 60.0);
            let tip = |s: &mut Src, f: f64| {
                let mut c = [0; 3].map(|_| (center + s.unit() * 20.0 - 10.0) as u8);
                c[axis] = (center + f) as u8;
                c
            };
            let mut out = vec![];
            let (up, down) = (s.unit(), s.unit());
            out.push(tip(s, 60.0 + up * 60.0));
            if s.chance(1, 2) {
                // another one close to it, so that they are replaced by one
                let i = s.urange(0, 2);
                let mut c = out[0];
                c[i] = (c[i] as i64 + *s.pick(&[-3i64, -2, -1, 1, 2, 3])) as u8;
                out.push(c);
            }
            out.push(tip(s, -60.0 - down * 60.0));
            let k = if max_colors > 20 && s.chance(1, 2) { s.urange(16, 30) } else { k };
            while out.len() < k {
                let t = s.unit() * std::f64::consts::TAU;
                let mut c = [0u8; 3];
                c[axis] = (center + s.unit() * 14.0 - 7.0) as u8;
                c[(axis + 1) % 3] = (center + t.sin() * r) as u8;
                c[(axis + 2) % 3] = (center + t.cos() * q) as u8;
                out.push(c);
            }
            out
        }
        0 => (0..k).map(|_| [s.byte(), s.byte(), s.byte()]).collect(),
        1 => {
            // round: colors on a sphere in the middle of the cube, so nothing has to be clamped
            let r = 40.0 + s.unit() * 60.0;
            (0..k)
                .map(|_| {
                    let v = [s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0];
                    let l = dotf(&v, &v).sqrt().max(1e-3);
                    v.map(|x| (127.0 + x / l * r) as u8)
                })
                .collect()
        }
        2 => (0..k).map(|_| color(s)).collect(),
        _ => {
            let m = s.range(2, 30);
            (0..k).map(|_| [100 + s.range(0, m) as u8, 100 + s.range(0, m) as u8, 100 + s.range(0, m) as u8]).collect()
        }
    };
    let h = if class >= 5 { h.max((a.len() as u32).div_ceil(w)) } else { h };
    let mut px: Vec<[u8; 3]> = a.iter().copied().take((w * h) as usize).collect();
    while px.len() < (w * h) as usize {
        px.push(*s.pick(&a));
    }
    Img { w, h, px, class: ["random colors", "round", "mixed", "small gamut", "thin", "cut corners", "tips"][class] }
}

fn bytes3(p: &[P3]) -> Vec<[u8; 3]> {
    p.iter().map(|c| [c[0] as u8, c[1] as u8, c[2] as u8]).collect()
}

/// distance (in 0..1 units) of a color to the hull of some colors
fn hull_distance(p: P3, pal: &[P3], planes: &[(P3, i64)]) -> f64 {
    if planes.iter().all(|(n, d)| exact::dot(*n, p) <= *d) {
        return 0.0;
    }
    let mut best = f64::INFINITY;
    for (n, d) in planes {
        let on: Vec<P3> = pal.iter().copied().filter(|q| exact::dot(*n, *q) == *d).collect();
        for a in 0..on.len() {
            for b in a + 1..on.len() {
                for e in b + 1..on.len() {
                    let q = closest_on_triangle(f3(p), [f3(on[a]), f3(on[b]), f3(on[e])]);
                    best = best.min(dist2(q, f3(p)));
                }
            }
        }
    }
    best.sqrt() / 255.0
}

/// root mean square distance of the pixels to the hull of the palette
fn rms(img: &Img, pal: &[[u8; 3]]) -> f64 {
    let pts = p3s(pal);
    let planes = exact::hull_planes3(&pts).expect("HARNESS: flat palette");
    let mut cache = std::collections::HashMap::new();
    let mut sum = 0.0;
    for p in &img.px {
        let d: f64 = *cache.entry(*p).or_insert_with(|| hull_distance(p3(p), &pts, &planes));
        sum += d * d;
    }
    (sum / img.n() as f64).sqrt()
}

fn check_palette(pal: &[[u8; 3]]) -> Res {
    ensure!(pal.len() >= 4, "the palette has {} colors: {}", pal.len(), hexes(pal));
    for i in 0..pal.len() {
        ensure!(!pal[..i].contains(&pal[i]), "the palette {} contains {} twice", hexes(pal), hex(&pal[i]));
    }
    match exact::extreme3(&p3s(pal)) {
        None => fail!("the palette {} is in one plane", hexes(pal)),
        Some(e) => ensure!(e.len() == pal.len(), "the palette {} has redundant colors, only {} are extreme", hexes(pal), hexes(&bytes3(&e))),
    }
    Ok(())
}

fn c11(s: &mut Src, c: &mut Case) -> Res {
    let img = if s.chance(1, 40) {
        known(s)
    } else {
        sized(s, 100, &[], |s| if s.chance(1, 3) { image(s, 60) } else { few_colors(s, 32) })
    };
    let min = if img.class == "almost a box" { s.urange(0, 6) } else { s.urange(0, 12) };
    let max = s.urange(0, 20);
    let eb = bound(s);
    c.label(img.class);
    c.desc = format!("palette of {min} to {max} colors, bound {eb}, for the {}", img.describe());
    let colors = img.colors();
    if exact::flat3(&colors) {
        c.label("flat (skipped)");
        return Ok(());
    }
    if colors.len() > 60 {
        c.label("too many colors (skipped)");
        return Ok(());
    }
    let hull = exact::extreme3(&colors).unwrap();
    let pal = palette(&img, min, max, eb);
    check_palette(&pal)?;
    let low = min.max(4).min(hull.len());
    ensure!(pal.len() >= low, "{} colors, although the minimum is {min} and the color hull has {} vertices: {}", pal.len(), hull.len(), hexes(&pal));
    ensure!(pal.len() <= hull.len(), "{} colors for a color hull with {} vertices", pal.len(), hull.len());
    let mut sorted = p3s(&pal);
    sorted.sort();
    if hull.len() <= min.max(4) {
        ensure!(sorted == hull, "the color hull {} doesn't need to be simplified, but the palette is {}", hexes(&bytes3(&hull)), hexes(&pal));
        c.label("color hull is small enough");
    } else if sorted != hull {
        c.label("simplified");
    }
    // it can be used to decompose this image
    let (img2, what) = if img.flat5() { (loop_image(s), "another image") } else { (img.clone(), "the image") };
    if !img2.flat5() {
        let w = weights(&img2);
        let d = match decompose(&w, &pal) {
            Ok(d) => d,
            Err(e) => fail!("the computed palette {} is rejected for {what}: {e}", hexes(&pal)),
        };
        ensure!(reconstruct(&d, &pal).is_some(), "the computed palette can't be used for the reconstruction");
        if sorted == hull && what == "the image" {
            let (_, _, out) = reconstruct(&d, &pal).unwrap();
            for (i, (a, b)) in out.iter().zip(&img.px).enumerate() {
                ensure!(diff3(a, b) <= 1, "pixel {i} was {}, reconstructed with the palette {} it is {}", hex(b), hexes(&pal), hex(a));
            }
        }
    }
    if pal.len() <= max.max(min).max(4) {
        c.label("within the maximum");
    } else {
        c.label("can't be reduced to the maximum");
    }
    c.nontrivial = hull.len() > 4;
    Ok(())
}

const ROUNDING: f64 = 1.7320508 * 0.5 / 255.0;

/// A cube, one corner of which is cut off: the simplification restores the corner exactly, which is no error at all, and
/// no error doesn't exceed the bound 0. As there is nothing that rounding could get wrong with these numbers in
/// all of the orientations and orders, it has to work for some of them.
fn no_error(s: &mut Src, c: &mut Case) -> Res {
    let inside: Vec<[u8; 3]> = (0..s.urange(0, 12)).map(|_| [0; 3].map(|_| s.range(20, 130) as u8)).collect();
    let (a, b) = (s.range(140, 254) as u8, s.range(140, 254) as u8);
    let corners: Vec<[u8; 3]> = (0..8u8).map(|i| [0, 1, 2].map(|k| (i >> k & 1) * 255)).collect();
    let mut seen = vec![];
    let max = s.urange(9, 20);
    c.desc = format!("palette of 8 to {max} colors, bound 0, for a cube with the corners {} and {} instead of ffffff", hex(&[255, 255, a]), hex(&[255, b, 255]));
    for _ in 0..12 {
        let flip = [0; 3].map(|_| s.chance(1, 2));
        let turn = s.urange(0, 2);
        let mut px: Vec<[u8; 3]> = corners[..7].iter().chain(&[[255, 255, a], [255, b, 255]]).chain(&inside).copied().collect();
        for p in &mut px {
            p.rotate_left(turn);
            *p = [0, 1, 2].map(|k| if flip[k] { 255 - p[k] } else { p[k] });
        }
        s.shuffle(&mut px);
        let img = Img { w: px.len() as u32, h: 1, px, class: "cube" };
        let mut p = palette(&img, 8, max, 0.0);
        p.sort();
        let mut want = corners.clone();
        want.sort();
        if p == want {
            c.label("no error");
            c.nontrivial = true;
            return Ok(());
        }
        seen.push(hexes(&p));
    }
    fail!("restoring the corner of the cube is no error, but with the bound 0 the palettes are {}", seen.join("; "))
}

fn c12(s: &mut Src, c: &mut Case) -> Res {
    if s.chance(1, 100) {
        return no_error(s, c);
    }
    let img = match s.below(60) {
        0 => dominant(s),
        1..=3 => {
            let img = few_colors(s, 32);
            heavy(s, img)
        }
        _ => sized(s, 100, &[], |s| if s.chance(1, 4) { image(s, 60) } else { few_colors(s, 32) }),
    };
    let min = s.urange(0, 8);
    let colors = img.colors();
    if exact::flat3(&colors) || colors.len() > 60 {
        c.label("flat or too many colors (skipped)");
        return Ok(());
    }
    let hull = exact::extreme3(&colors).unwrap();
    // the size of the color hull itself is where the stopping rule matters first
    let max = if s.chance(1, 3) { (hull.len() + s.urange(0, 2)).saturating_sub(1) } else { s.urange(0, 24) };
    let eb = match s.weighted(&[1, 3, 1]) { 0 => 0.0, 1 => s.unit() * 0.06, _ => 2.0 / 255.0 };
    c.label(img.class);
    c.desc = format!("palette of {min} to {max} colors, bound {eb}, for the {}", img.describe());
    // Where does the simplification get to the maximum size? (A bound that nothing can satisfy stops there.)
    let start = palette(&img, min, max, -1.0);
    let pal = palette(&img, min, max, eb);
    let all = palette(&img, min, max, f64::INFINITY);
    for p in [&start, &pal, &all] {
        check_palette(p)?;
    }
    let set = |p: &[[u8; 3]]| { let mut v = p.to_vec(); v.sort(); v };
    if hull.len() <= max {
        ensure!(
            set(&start) == bytes3(&hull),
            "the color hull {} isn't larger than the maximum, but it is simplified to {} although nothing meets a negative bound",
            hexes(&bytes3(&hull)),
            hexes(&start)
        );
        if hull.len() == max && max > min.max(4) {
            c.label("color hull of the maximum size");
        }
    }
    for p in [&start, &pal, &all] {
        if p.len() > max {
            ensure!(set(p) == set(&all), "the palette {} is larger than the maximum, but without a bound it is simplified to {}", hexes(p), hexes(&all));
        }
    }
    let e = rms(&img, &pal);
    if set(&pal) == bytes3(&hull) {
        ensure!(e == 0.0, "the color hull itself has error {e}");
        c.label("not simplified");
    } else if set(&pal) == set(&start) {
        c.label("as large as the maximum");
    } else {
        c.label("simplified below the maximum");
        ensure!(e <= eb + ROUNDING, "the palette {} has an error of {e}, the bound is {eb} (without simplifying below the maximum: {})", hexes(&pal), hexes(&start));
    }
    // stopped because of the bound: the smallest palette exceeds it
    if set(&pal) == set(&all) {
        c.label("as small as possible");
    }
    // What the next step would be (the sizes show that it is a single step): it has to exceed the bound
    let v = pal.len();
    if v <= max && v > min.max(4) {
        let here = palette(&img, v, max, f64::INFINITY);
        let next = palette(&img, v - 1, max, f64::INFINITY);
        if set(&here) == set(&pal) && next.len() == v - 1 {
            let e = rms(&img, &next);
            ensure!(
                e > eb - ROUNDING,
                "the simplification stops at {}, although the next step ({}) has an error of only {e}, within the bound {eb}",
                hexes(&pal),
                hexes(&next)
            );
            c.label("stopped by the bound");
        }
    }
    // Until a color leaves the cube, the simplified hull contains the previous one
    if pal.iter().flatten().all(|x| *x > 0 && *x < 255) {
        let pts = p3s(&pal);
        let planes = exact::hull_planes3(&pts).unwrap();
        for p in &hull {
            let d = hull_distance(*p, &pts, &planes);
            ensure!(d <= ROUNDING + 1e-6, "no color was clamped, but {} is {d} outside of the hull of {}", hexes(&bytes3(&[*p])), hexes(&pal));
        }
        c.label("nothing clamped");
    }
    // a looser bound never makes the error smaller than what a tighter one allows, nor is the
    // tight result worse than the loose one
    let tight = palette(&img, min, max, eb / 2.0);
    let e2 = rms(&img, &tight);
    if set(&tight) != set(&start) {
        ensure!(e2 <= eb / 2.0 + ROUNDING, "with the bound {} the palette {} has an error of {e2}", eb / 2.0, hexes(&tight));
    }
    c.nontrivial = set(&pal) != bytes3(&hull);
    Ok(())
}

/// The whole computation with one image, as plain data
fn pipeline(img: &Img, min: usize, max: usize, eb: f64, recolor: &[[u8; 3]]) -> Result<(Vec<[u8; 3]>, Vec<Vec<u8>>, Vec<[u8; 3]>), String> {
    catch(|| {
        let pal = palette(img, min, max, eb);
        if img.flat5() {
            return (pal, vec![], vec![]);
        }
        let d = decompose(&weights(img), &pal).unwrap();
        let ch = (0..pal.len()).map(|k| channel(&d, k).unwrap().2).collect();
        let p: Vec<[u8; 3]> = (0..pal.len()).map(|i| recolor[i % recolor.len()]).collect();
        let r = reconstruct(&d, &p).unwrap().2;
        (pal, ch, r)
    })
}

pub type Job = (Img, usize, usize, f64, Vec<[u8; 3]>);

/// Changes what a careless cache would leave out of its key
fn related(s: &mut Src, j: &mut Job) -> &'static str {
    let px = &mut j.0.px;
    let count = |px: &[[u8; 3]], c: [u8; 3]| px.iter().filter(|p| **p == c).count();
    match s.weighted(&[4, 2, 2, 1, 1, 1]) {
        0 => {
            // the same colors, other frequencies: all the spare pixels get one color
            let to = *s.pick(px);
            for i in 0..px.len() {
                if count(px, px[i]) > 1 && s.chance(7, 8) {
                    px[i] = to;
                }
            }
            "other frequencies"
        }
        1 => {
            // spare pixels become new colors between two others
            for i in 0..px.len() {
                if count(px, px[i]) > 1 && s.chance(1, 2) {
                    let (a, b) = (*s.pick(px), *s.pick(px));
                    px[i] = [0, 1, 2].map(|k| ((a[k] as u16 + b[k] as u16) / 2) as u8);
                }
            }
            "colors added"
        }
        2 => {
            s.shuffle(px);
            "other positions"
        }
        3 => {
            (j.0.w, j.0.h) = (j.0.h, j.0.w);
            "width and height exchanged"
        }
        4 => {
            let i = s.urange(0, px.len() - 1);
            let k = s.urange(0, 2);
            px[i][k] ^= 1;
            "one level changed"
        }
        _ => {
            j.1 = s.urange(0, 8);
            j.2 = s.urange(4, 16);
            j.3 = 1e-4 + s.unit() * 0.05;
            "other parameters"
        }
    }
}

fn text<T: std::fmt::Debug>(r: &Result<T, String>) -> String {
    match r {
        Ok(r) => format!("{r:?}"),
        Err(_) => "failure".to_string(),
    }
}

/// The result of a job in a new process
fn fresh(j: &Job) -> String {
    use std::io::Write;
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["pipeline", "C13"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("HARNESS: can't start a process");
    let input = serde_json::json!([j.0.w, j.0.h, j.0.px, j.1, j.2, j.3.to_bits(), j.4]);
    p.stdin.take().unwrap().write_all(input.to_string().as_bytes()).expect("HARNESS: pipe");
    let o = p.wait_with_output().expect("HARNESS: process");
    if o.status.success() {
        String::from_utf8(o.stdout).unwrap()
    } else {
        format!("{:?}", o.status)
    }
}

/// Runs one job that is read from standard input
pub fn pipeline_process() {
    crate::engine::install_panic_hook();
    let v: serde_json::Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let colors = |v: &serde_json::Value| -> Vec<[u8; 3]> { serde_json::from_value(v.clone()).unwrap() };
    let n = |i: usize| v[i].as_u64().unwrap();
    let img = Img { w: n(0) as u32, h: n(1) as u32, px: colors(&v[2]), class: "" };
    let r = pipeline(&img, n(3) as usize, n(4) as usize, f64::from_bits(n(5)), &colors(&v[6]));
    print!("{}", text(&r));
}

/// Colors that stay the same when their components are rotated (and maybe swapped or inverted). Many edges of
/// their hull are equally good for simplifications.
fn symmetric(s: &mut Src) -> Img {
    let mut colors: Vec<[u8; 3]> = vec![];
    let levels: Vec<u8> = (0..s.urange(1, 3)).map(|_| s.byte()).collect();
    let (swap, invert) = (s.chance(1, 2), s.chance(1, 4));
    for _ in 0..s.urange(2, 3) {
        let p: [u8; 3] = [0; 3].map(|_| match s.weighted(&[3, 1, 4]) {
            0 => 0,
            1 => 255,
            _ => *s.pick(&levels),
        });
        for r in 0..3 {
            let q = [p[r], p[(r + 1) % 3], p[(r + 2) % 3]];
            colors.push(q);
            if swap {
                colors.push([q[1], q[0], q[2]]);
            }
        }
    }
    if s.chance(2, 3) {
        colors.push([if s.chance(1, 2) { 0 } else { s.byte() }; 3]);
    }
    if invert {
        for i in 0..colors.len() {
            colors.push(colors[i].map(|v| 255 - v));
        }
    }
    colors.sort();
    colors.dedup();
    s.shuffle(&mut colors);
    let w = s.urange(1, 4.min(colors.len())) as u32;
    while colors.len() as u32 % w != 0 {
        colors.push(*s.pick(&colors));
    }
    Img { w, h: colors.len() as u32 / w, px: colors, class: "symmetric" }
}

fn c13(s: &mut Src, c: &mut Case) -> Res {
    let k = s.urange(2, 4);
    let mut jobs: Vec<Job> = vec![];
    for i in 0..k {
        let rec: Vec<[u8; 3]> = (0..3).map(|_| color(s)).collect();
        if i > 0 && s.chance(2, 3) {
            // something that only differs a little from an earlier image
            let mut j = s.pick(&jobs).clone();
            c.label(related(s, &mut j));
            jobs.push(j);
        } else {
            let img = sized(s, 200, &[], |s| match s.weighted(&[1, 1, 1]) {
                0 => image(s, 40),
                1 => few_colors(s, 24),
                _ => symmetric(s),
            });
            let (max, eb) = if img.class == "symmetric" {
                (s.urange(4, 8), *s.pick(&[0.0, 0.01, 0.1, 10.0]))
            } else {
                (s.urange(4, 16), if s.chance(1, 3) { 0.0 } else { 1e-4 + s.unit() * 0.05 })
            };
            jobs.push((img, s.urange(0, 8), max, eb, rec));
        }
    }
    let rounds = s.urange(1, 3);
    c.desc = jobs.iter().map(|j| format!("palette of {} to {} colors, bound {}, for the {}", j.1, j.2, j.3, j.0.describe())).collect::<Vec<_>>().join("; ");
    let run = |j: &Job| pipeline(&j.0, j.1, j.2, j.3, &j.4);
    let first: Vec<_> = jobs.iter().map(run).collect();
    for f in &first {
        if f.is_err() {
            c.label("clean failure");
        }
    }
    // ties between edges have to be decided in the same way each time
    for (i, j) in jobs.iter().enumerate().filter(|(_, j)| j.0.class == "symmetric") {
        if let Ok(f) = &first[i] {
            let img = j.0.rgb();
            for _ in 0..6 {
                let p = raw(&image_palette_recoloring::compute_palette(&img, j.1, j.2, j.3));
                ensure!(p == f.0, "the palette of image {i} is {} or {}", hexes(&f.0), hexes(&p));
            }
            c.label("symmetric colors");
        }
    }
    // same thing again, in the opposite order
    for (i, j) in jobs.iter().enumerate().rev() {
        let r = run(j);
        ensure!(same(&first[i], &r), "the second run with image {i} gives something else: {:?} {:?}", first[i], r);
    }
    // in a process that has not done anything before
    let i = s.urange(0, k - 1);
    let r = fresh(&jobs[i]);
    ensure!(r == text(&first[i]), "in a new process, image {i} gives something else: {r}, here it is {}", text(&first[i]));
    // and in parallel, each thread starting with another image
    let res: Vec<Vec<(usize, bool)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..k)
            .map(|t| {
                let (jobs, first, run) = (&jobs, &first, &run);
                sc.spawn(move || {
                    let mut v = vec![];
                    for r in 0..rounds {
                        for q in 0..k {
                            let i = (t + q + r) % k;
                            v.push((i, same(&first[i], &run(&jobs[i]))));
                        }
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![(99, false)])).collect()
    });
    for (t, v) in res.iter().enumerate() {
        for (i, ok) in v {
            ensure!(*ok, "thread {t} gets another result for image {i} when {k} threads run at the same time");
        }
    }
    c.nontrivial = first.iter().filter(|f| f.as_ref().map_or(false, |f| !f.1.is_empty())).count() >= 2;
    Ok(())
}

fn same<T: PartialEq>(a: &Result<T, String>, b: &Result<T, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

pub fn hostile(s: &mut Src) -> Img {
    let (w, h) = match s.weighted(&[2, 2, 1, 1]) {
        0 => (s.urange(1, 3) as u32, s.urange(1, 3) as u32),
        1 => (s.urange(1, 8) as u32, s.urange(1, 8) as u32),
        2 => (1, s.urange(1, 30) as u32),
        _ => (s.urange(1, 30) as u32, 1),
    };
    let n = (w * h) as usize;
    let kind = s.weighted(&[2, 2, 2, 2, 2, 2, 2]);
    let a = color(s);
    let b = color(s);
    let d = color(s);
    let t = s.range(1, 2);
    let px = (0..n)
        .map(|i| match kind {
            0 => a,
            1 => if s.chance(1, 2) { a } else { b },
            2 => *s.pick(&[a, b, d]),
            3 => {
                // gray
                let g = s.byte();
                [g, g, g]
            }
            4 => {
                // colors that depend linearly on the position
                let (x, y) = (i as u32 % w, i as u32 / w);
                [(x * 8) as u8, (y * 8) as u8, ((x + y) * 4) as u8]
            }
            5 => [s.range(0, t) as u8, s.range(0, t) as u8, s.range(0, t) as u8],
            _ => [s.byte(), s.byte(), s.byte()],
        })
        .collect();
    Img { w, h, px, class: ["one color", "two colors", "three colors", "gray", "linear", "tiny contrast", "noise"][kind] }
}

fn c18(s: &mut Src, c: &mut Case) -> Res {
    let img = sized(s, 300, &[], hostile);
    let min = *s.pick(&[0usize, 1, 4, 6, usize::MAX]);
    let max = *s.pick(&[0usize, 3, 4, 6, 12, usize::MAX]);
    let eb = *s.pick(&[0.0, 0.01, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0]);
    c.label(img.class);
    c.desc = format!("palette of {min} to {max} colors, bound {eb}, for the {}", img.describe());
    let f3 = img.flat3();
    let f5 = img.flat5();
    match catch(|| palette(&img, min, max, eb)) {
        Ok(p) => {
            if !f3 {
                check_palette(&p)?;
            }
            c.label("palette");
        }
        Err(m) => {
            ensure!(f3, "compute_palette panicked ({m}), although the colors are not in one plane");
            c.label("flat colors: clean failure");
        }
    }
    match catch(|| weights(&img)) {
        Ok(w) => {
            check_size("the weights", &img, w.width(), w.height(), img.n())?;
            let p = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 255]];
            let d = match catch(|| decompose(&w, &p)) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => fail!("a valid palette was rejected: {e}"),
                Err(m) => fail!("decomposing panicked: {m}"),
            };
            let Some((ow, oh, out)) = reconstruct(&d, &p) else { fail!("reconstruct failed") };
            check_size("the reconstruction", &img, ow, oh, out.len())?;
            c.label("weights");
        }
        Err(m) => {
            ensure!(f5, "computing the weights panicked ({m}), although the pixels are not flat");
            c.label("flat pixels: clean failure");
        }
    }
    c.nontrivial = f5;
    Ok(())
}

/// The geometry alone, in any dimension, flat or not
fn c21_geometry(s: &mut Src, c: &mut Case) -> Res {
    use crate::geom::*;
    let d = s.urange(2, 5);
    let mut ps = point_set(s, d, match d { 2 => 30, 3 => 20, 4 => 14, _ => 10 });
    if s.chance(1, 4) {
        let v = ps.ints[0][0];
        ps.ints.iter_mut().for_each(|p| p[0] = v);
    } else if s.chance(1, 8) {
        ps.ints.truncate(s.urange(1, d));
    }
    let flat = ps.flat();
    let ctor = s.below(12);
    let what = s.below(5);
    let pts = ps.floats();
    let queries: Vec<Vec<f64>> = (0..3).map(|_| s.pick(&pts).clone()).collect();
    c.desc = format!("{} (constructor {ctor}) of {}", ["hull", "triangulation", "searches", "raw hull", "raw triangulation"][what as usize], ps.describe());
    let ops: Vec<Op> = queries.iter().map(|q| Op::FindCoords(q.clone())).collect();
    let run = || catch(|| match what {
        0 => drop(by_dim!(d, hull(&pts, ctor))),
        1 => drop(by_dim!(d, delaunay(&pts, ctor))),
        2 => drop(by_dim!(d, search(&pts, ctor, &ops))),
        3 => drop(by_dim!(d, raw_hull(&pts, ctor, &queries))),
        _ => drop(by_dim!(d, raw_delaunay(&pts, ctor))),
    }).is_ok();
    let ok = run() && run();
    let before = heap_in_use();
    run();
    let now = heap_in_use();
    ensure!(now == before, "{} bytes in {} blocks stay allocated after each repetition", now.0 - before.0, now.1 - before.1);
    c.label(if ok { "successful geometry" } else { "failing geometry" });
    if flat {
        c.label("flat geometry");
    }
    c.nontrivial = ok;
    Ok(())
}

fn c21(s: &mut Src, c: &mut Case) -> Res {
    if s.chance(1, 3) {
        return c21_geometry(s, c);
    }
    let img = match s.weighted(&[3, 2]) { 0 => image(s, 40), _ => hostile(s) };
    let (min, max, eb) = (s.urange(0, 8), s.urange(4, 16), s.unit() * 0.05);
    let what = s.below(4);
    let (_, pal) = any_palette(s);
    c.label(img.class);
    c.desc = format!("{}, palette {} for the {}", ["palette", "weights", "decomposition", "everything"][what as usize], hexes(&pal), img.describe());
    let w = if what == 2 { catch(|| weights(&img)).ok() } else { None };
    let good = [[0u8, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]];
    let run = || -> u32 {
        match what {
            0 => catch(|| palette(&img, min, max, eb)).is_ok() as u32,
            1 => catch(|| weights(&img)).is_ok() as u32,
            2 => w.as_ref().map_or(0, |w| catch(|| decompose(w, &pal).map(|d| (channel(&d, 0), reconstruct(&d, &pal), reconstruct(&d, &[]))).is_ok()).is_ok() as u32),
            _ => catch(|| {
                let p = palette(&img, min, max, eb);
                let w = weights(&img);
                decompose(&w, &p).map(|d| reconstruct(&d, &p)).is_ok() && decompose(&w, &good).map(|d| channel(&d, 3)).is_ok()
            }).is_ok() as u32,
        }
    };
    let mut ok = 0;
    for _ in 0..3 {
        ok += run();
    }
    let before = heap_in_use();
    run();
    let now = heap_in_use();
    ensure!(now == before, "{} bytes in {} blocks stay allocated after each repetition", now.0 - before.0, now.1 - before.1);
    c.label(if ok > 0 { "successful calls" } else { "failing calls" });
    c.nontrivial = ok > 0;
    Ok(())
}

/// An image that computes its pixels on access
struct Lazy<'a> {
    img: &'a Img,
    x0: u32,
    y0: u32,
    w: u32,
    h: u32,
}

impl image::GenericImageView for Lazy<'_> {
    type Pixel = image::Rgb<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> image::Rgb<u8> {
        assert!(x < self.w && y < self.h);
        image::Rgb(self.img.px[((y + self.y0) * self.img.w + x + self.x0) as usize])
    }
}

fn c22(s: &mut Src, c: &mut Case) -> Res {
    let big = sized(s, 100, &[], |s| image(s, 120));
    if big.w < 3 || big.h < 3 {
        c.label("too small (skipped)");
        return Ok(());
    }
    let (w, h) = (s.urange(2, big.w as usize - 1) as u32, s.urange(2, big.h as usize - 1) as u32);
    let (x0, y0) = (s.range(0, (big.w - w) as u64) as u32, s.range(0, (big.h - h) as u64) as u32);
    let px = (0..w * h).map(|i| big.px[((i / w + y0) * big.w + i % w + x0) as usize]).collect();
    let img = Img { w, h, px, class: "view" };
    let (min, max, eb) = (s.urange(0, 8), s.urange(4, 16), if s.chance(1, 4) { 0.0 } else { 1e-4 + s.unit() * 0.05 });
    let Some(pal) = valid_palette(s, 7) else { return Ok(()) };
    c.desc = format!("{w}x{h} view at ({x0}, {y0}), palette {}, of the {}", hexes(&pal), big.describe());
    if pal.len() < 4 || img.flat3() || img.flat5() {
        c.label("flat (skipped)");
        return Ok(());
    }
    let own = img.rgb();
    let whole = big.rgb();
    let sub = image::imageops::crop_imm(&whole, x0, y0, w, h);
    let lazy = Lazy { img: &big, x0, y0, w, h };
    let p0 = image_palette_recoloring::compute_palette(&own, min, max, eb);
    let p1 = image_palette_recoloring::compute_palette(&*sub, min, max, eb);
    let p2 = image_palette_recoloring::compute_palette(&lazy, min, max, eb);
    ensure!(p0 == p1, "palette of a view is {}, of a copy {}", hexes(&raw(&p1)), hexes(&raw(&p0)));
    ensure!(p0 == p2, "palette of a computed image is {}, of a copy {}", hexes(&raw(&p2)), hexes(&raw(&p0)));
    let ws = [
        image_palette_recoloring::ImageWeights::new(&own),
        image_palette_recoloring::ImageWeights::new(&*sub),
        image_palette_recoloring::ImageWeights::new(&lazy),
    ];
    let other: Vec<[u8; 3]> = pal.iter().map(|_| color(s)).collect();
    let mut res = vec![];
    for w in &ws {
        check_size("the weights", &img, w.width(), w.height(), img.n())?;
        let d = match decompose(w, &pal) {
            Ok(d) => d,
            Err(e) => fail!("palette {} was rejected: {e}", hexes(&pal)),
        };
        res.push((reconstruct(&d, &other), channel(&d, pal.len() - 1)));
    }
    ensure!(res[0] == res[1] && res[0] == res[2], "views and copies of the same pixels are recolored differently");
    c.nontrivial = x0 + y0 > 0;
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C06",
        rule: "images up to 90 pixels (8 classes, any aspect ratio) with a palette whose hull encloses all of the colors: the color hull itself, a bigger one, the RGB cube, or a random palette with an image mixed from it; non-trivial: not flat, more colors than the palette",
        quick: 20_000,
        thorough: 400_000,
        run: c06,
        needs: &[],
        floors: &[("tetrahedron", 200), ("not square", 500), ("palette: color hull of the image", 200), ("palette: RGB cube", 100)],
        assumptions: &["a difference of one level per component is rounding"],
    },
    Prop {
        id: "C07",
        rule: "images up to 60 pixels with generic palettes (exactly three colors per facet, a single color closest to black) of 4 to 9 colors, enclosing the image or not; non-trivial: not flat, with pixels whose weights the reference model determines uniquely and that aren't all hull vertices",
        quick: 30_000,
        thorough: 300_000,
        run: c07,
        needs: &[],
        floors: &[("tetrahedron around the image", 100), ("pixels inside of the 5D hull", 500), ("colors outside of the palette", 500)],
        assumptions: &["pixels whose Delaunay simplex isn't unique are skipped, unless the palette is a tetrahedron around the image", "a difference of one level is rounding"],
    },
    Prop {
        id: "C08",
        rule: "decompositions of images up to 60 pixels with random palettes of 4 to 8 colors, recolored with 7 to 12 palettes each; non-trivial: not flat, at least 4 colors",
        quick: 20_000,
        thorough: 300_000,
        run: c08,
        needs: &[],
        floors: &[("pixels with and without a color", 500)],
        assumptions: &["differences of one level per rounding step"],
    },
    Prop {
        id: "C09",
        rule: "lists of 0 to 13, rarely up to 330 colors (random, on a lattice, planar or off by one level, with duplicates, with a mixture inside or on the boundary, extreme ones); the verdict is compared with exact integer geometry; non-trivial: at least 4 colors",
        quick: 60_000,
        thorough: 1_000_000,
        run: c09,
        needs: &[],
        floors: &[("accepted", 500), ("rejected: size", 200), ("rejected: planar", 200), ("rejected: duplicate", 200), ("rejected: redundant", 500), ("many colors", 100)],
        assumptions: &[],
    },
    Prop {
        id: "C10",
        rule: "decompositions of images up to 60 pixels with random palettes of 4 to 8 colors; non-trivial: more than 4 different levels in the channels",
        quick: 20_000,
        thorough: 300_000,
        run: c10,
        needs: &[],
        floors: &[],
        assumptions: &["a difference of one level per channel is rounding"],
    },
    Prop {
        id: "C11",
        rule: "images up to 64 pixels (random colors, colors on a sphere, small gamut, gradients, mixtures), minimum 0 to 12, maximum 0 to 20, error bounds from -1 to infinity; non-trivial: the color hull has more than 4 vertices",
        quick: 16_000,
        thorough: 600_000,
        run: c11,
        needs: &[],
        floors: &[("simplified", 1000), ("color hull is small enough", 500), ("within the maximum", 1000)],
        assumptions: &[],
    },
    Prop {
        id: "C12",
        rule: "same images as C11 with bounds between 0 and 0.06; the error of the returned colors is measured exactly against their hull; non-trivial: the palette isn't the color hull",
        quick: 4000,
        thorough: 300_000,
        run: c12,
        needs: &[],
        floors: &[("simplified below the maximum", 200), ("nothing clamped", 200)],
        assumptions: &["rounding moves each color by up to half a level per component"],
    },
    Prop {
        id: "C13",
        rule: "2 to 4 images, each computed (palette, weights, decomposition, channels, recoloring) once, again in another order, and by as many threads at the same time; non-trivial: at least two of them go all the way",
        quick: 900,
        thorough: 60_000,
        run: c13,
        needs: &[],
        floors: &[],
        assumptions: &["threads are scheduled by the operating system; the schedule isn't controlled"],
    },
    Prop {
        id: "C18",
        rule: "images from 1x1 to 30x1 with degenerate contents (one, two, three colors, gray, linear, tiny contrast, noise) and extreme parameters; non-trivial: the pixels are flat in RGBXY",
        quick: 60_000,
        thorough: 1_000_000,
        run: c18,
        needs: &[],
        floors: &[("flat colors: clean failure", 500), ("flat pixels: clean failure", 500), ("palette", 500), ("weights", 500)],
        assumptions: &["flatness is decided exactly, by the rank of the integer coordinates"],
    },
    Prop {
        id: "C21",
        rule: "repeated palettes, weights, decompositions, or all of it (successful or failing) on images up to 40 pixels, or hulls, triangulations and searches of point sets in 2 to 5 dimensions through either interface, with the exact number of allocated bytes and blocks before and after; non-trivial: the calls succeed",
        quick: 20000,
        thorough: 150_000,
        run: c21,
        needs: &[],
        floors: &[("successful calls", 500), ("failing calls", 100), ("successful geometry", 500), ("failing geometry", 100)],
        assumptions: &["three repetitions warm up whatever is allocated once"],
    },
    Prop {
        id: "C22",
        rule: "random views of images up to 120 pixels: a copy, a SubImage and an image type that computes its pixels; non-trivial: the view isn't at the origin",
        quick: 10_000,
        thorough: 150_000,
        run: c22,
        needs: &[],
        floors: &[],
        assumptions: &[],
    },
];
