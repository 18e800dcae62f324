//! Generators for images and palettes, and thin wrappers around the library under test.

use crate::engine::Src;
use crate::exact::{self, P3};
use image::{Rgb, RgbImage};
use image_palette_recoloring::{DecomposedImage, ImageWeights};

#[derive(Clone)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 3]>,
    pub class: &'static str,
}

pub fn hex(c: &[u8; 3]) -> String {
    format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])
}
pub fn hexes(p: &[[u8; 3]]) -> String {
    p.iter().map(hex).collect::<Vec<_>>().join(" ")
}
pub fn p3(c: &[u8; 3]) -> P3 {
    [c[0] as i64, c[1] as i64, c[2] as i64]
}
pub fn p3s(c: &[[u8; 3]]) -> Vec<P3> {
    c.iter().map(p3).collect()
}
pub fn rgb(p: &[[u8; 3]]) -> Vec<Rgb<u8>> {
    p.iter().map(|c| Rgb(*c)).collect()
}
pub fn raw(p: &[Rgb<u8>]) -> Vec<[u8; 3]> {
    p.iter().map(|c| c.0).collect()
}

impl Img {
    pub fn rgb(&self) -> RgbImage {
        RgbImage::from_raw(self.w, self.h, self.px.iter().flatten().copied().collect()).unwrap()
    }
    pub fn n(&self) -> usize {
        self.px.len()
    }
    pub fn colors(&self) -> Vec<P3> {
        let mut c = p3s(&self.px);
        c.sort();
        c.dedup();
        c
    }
    /// pixels as integer points (r, g, b, x, y)
    pub fn points5(&self) -> Vec<Vec<i64>> {
        self.px
            .iter()
            .enumerate()
            .map(|(i, c)| vec![c[0] as i64, c[1] as i64, c[2] as i64, i as i64 % self.w as i64, i as i64 / self.w as i64])
            .collect()
    }
    /// the pixels don't span all five dimensions
    pub fn flat5(&self) -> bool {
        let pts = self.points5();
        if pts.len() > 300 {
            // some of the pixels usually are enough
            let some: Vec<_> = pts.iter().step_by(pts.len() / 97).cloned().collect();
            if exact::affine_dim(&some) == 5 {
                return false;
            }
        }
        exact::affine_dim(&pts) < 5
    }
    pub fn flat3(&self) -> bool {
        exact::flat3(&self.colors())
    }
    /// Rounding in the library may make an image that is only just not flat look flat. The images
    /// in here are integer points; a simplex with a small determinant relative to its size exists
    /// only for contrived ones, this is the largest relative one found greedily.
    pub fn thickness5(&self) -> f64 {
        let s = [255.0, 255.0, 255.0, self.w as f64, self.h as f64];
        let pts: Vec<Vec<f64>> =
            self.points5().iter().map(|p| p.iter().zip(&s).map(|(a, b)| *a as f64 / b).collect()).collect();
        thickness(&pts)
    }
    pub fn describe(&self) -> String {
        if self.n() > 1000 {
            let n = 40.min(self.w as usize);
            return format!("{}x{} image ({}) {} ...", self.w, self.h, self.class, hexes(&self.px[..n]));
        }
        format!("{}x{} image ({}) {}", self.w, self.h, self.class, hexes(&self.px))
    }
}

/// Greedy: the smallest distance of a new point to the span of the earlier ones
pub fn thickness(pts: &[Vec<f64>]) -> f64 {
    let d = pts[0].len();
    let o = pts[0].clone();
    let mut vs: Vec<Vec<f64>> = pts.iter().map(|p| p.iter().zip(&o).map(|(a, b)| a - b).collect()).collect();
    let mut smallest = f64::INFINITY;
    for _ in 0..d {
        let (i, l) = vs
            .iter()
            .enumerate()
            .map(|(i, v)| (i, v.iter().map(|x| x * x).sum::<f64>()))
            .max_by(|a, b| a.1.total_cmp(&b.1))
            .unwrap();
        smallest = smallest.min(l.sqrt());
        if l == 0.0 {
            return 0.0;
        }
        let n: Vec<f64> = vs[i].iter().map(|x| x / l.sqrt()).collect();
        for v in &mut vs {
            let f: f64 = v.iter().zip(&n).map(|(a, b)| a * b).sum();
            for (x, y) in v.iter_mut().zip(&n) {
                *x -= f * y;
            }
        }
    }
    smallest
}

pub fn color(s: &mut Src) -> [u8; 3] {
    match s.weighted(&[4, 1, 1, 1]) {
        0 => [s.byte(), s.byte(), s.byte()],
        1 => {
            let mut c = || if s.chance(1, 2) { 255 } else { 0 };
            [c(), c(), c()]
        }
        2 => {
            let g = s.byte();
            [g, g, g]
        }
        _ => {
            let mut c = || s.below(5) as u8 * 63;
            [c(), c(), c()]
        }
    }
}

/// integer convex combination, rounded down
fn mix(s: &mut Src, anchors: &[[u8; 3]]) -> [u8; 3] {
    let mut w: Vec<u64> = anchors.iter().map(|_| if s.chance(1, 2) { s.range(0, 8) } else { 0 }).collect();
    if w.iter().all(|x| *x == 0) {
        let i = s.urange(0, anchors.len() - 1);
        w[i] = 1;
    }
    let sum: u64 = w.iter().sum();
    let mut o = [0u8; 3];
    for k in 0..3 {
        o[k] = (anchors.iter().zip(&w).map(|(a, w)| a[k] as u64 * w).sum::<u64>() / sum) as u8;
    }
    o
}

pub fn size(s: &mut Src, max_px: usize) -> (u32, u32) {
    let w = s.urange(2, 24.min(max_px / 3));
    let h = s.urange(2, (max_px / w).clamp(2, 24));
    (w as u32, h as u32)
}

/// Colors close to a plane, often one that contains the grays
pub fn thin(s: &mut Src, k: usize) -> Vec<[u8; 3]> {
    let o = if s.chance(2, 3) { [0, 0, 0] } else { color(s) };
    let a = if s.chance(2, 3) { [255, 255, 255] } else { color(s) };
    let b = color(s);
    let noise = s.range(1, 7);
    (0..k)
        .map(|_| {
            let (x, y) = match s.below(6) {
                0 => (0.0, 0.0),
                1 => (1.0, 0.0),
                2 => (s.unit(), 0.0),
                _ => (s.unit(), s.unit()),
            };
            let mut c = [0u8; 3];
            for i in 0..3 {
                let [o, a, b] = [o[i], a[i], b[i]].map(|v: u8| v as f64);
                c[i] = (o + (a - o) * x * (1.0 - y / 2.0) + (b - o) * y * 0.9 + s.below(noise) as f64).clamp(0.0, 255.0) as u8;
            }
            c
        })
        .collect()
}

/// Colors for which the solver for linear programs panics
const BOXES: &[&str] = &[
    "000100 b30100 00b401 b3b401 0100b3 b400b4 01b4b4 b4b4b4",
    "0b0210 a0010f 0cae10 a1ae10 0c02c6 a001c7 0caec6 a0aec7 0b5712 3c4650 0b5712 3c4650",
    "0b200f ab210f 0ad210 abd110 0a21c1 ab20c1 0bd1c2 abd1c1 0a6912 3c4650 0a6912 3c4650",
    "030505 f80604 03c005 f6c104 0305af f805af 03c1af f6c0ae 016107 3c4650",
    "0c0109 be000a 13a70a c6a60a 0b00c8 be00c9 14a7c8 c6a6c9 0b530c 3c4650",
    "112715 dd2715 12f314 def215 1228a8 dd28a9 11f3a8 ddf3a8 117917 3c4650",
    "060c0c e40b0b 06c50c e4c40b 050bf3 e40cf3 06c4f3 e5c5f2",
    "021712 d21812 01f213 d1f113 0317e4 d118e3 02f2e4 d2f3e4",
    "1d181e bb171e 1df61e bbf61e 1d18ee bb18ee 1cf7ee baf6ef",
    "17000d df000d 1df70e e3f80e 1800b2 df01b2 1df8b2 e3f8b3",
    "160321 d50322 14d722 d4d721 1603b0 d504b1 14d7b1 d4d6b0",
];

/// Images for which something was wrong once
pub fn known(s: &mut Src) -> Img {
    if s.chance(1, 2) {
        // almost a box
        let px = if s.chance(1, 2) {
            let mut px: Vec<[u8; 3]> = s
                .pick(BOXES)
                .split(' ')
                .map(|h| u32::from_str_radix(h, 16).map(|v| [(v >> 16) as u8, (v >> 8) as u8, v as u8]).unwrap())
                .collect();
            if s.chance(1, 2) {
                let (i, k) = (s.urange(0, px.len() - 1), s.urange(0, 2));
                px[i][k] ^= 1;
            }
            px
        } else {
            let lo = [0; 3].map(|_| s.range(0, 40) as u8);
            let hi = [0; 3].map(|_| s.range(160, 250) as u8);
            (0..8u8).map(|i| [0, 1, 2].map(|k| if i >> k & 1 == 0 { lo[k] } else { hi[k] } + s.below(2) as u8)).collect()
        };
        return Img { w: 2, h: px.len() as u32 / 2, px, class: "almost a box" };
    }
    const BLACK: [u8; 3] = [0, 0, 0];
    let mut px = vec![BLACK; 26];
    px[17] = [5, 5, 5];
    px[18] = [0xa8, 0x9d, 0x7f];
    px[19] = [0xb1, 0, 0xa2];
    px[21] = [0x56, 0x54, 0x43];
    px[25] = [0xb0, 0x77, 0x8a];
    if s.chance(1, 2) {
        let i = s.urange(0, 16);
        px[i] = color(s);
    }
    Img { w: 13, h: 2, px, class: "known" }
}

/// Fills an image of the given size
pub fn fill(s: &mut Src, w: u32, h: u32) -> Img {
    let n = (w * h) as usize;
    let mut px: Vec<[u8; 3]> = Vec::with_capacity(n);
    let class = match s.weighted(&[4, 3, 3, 2, 2, 1, 1, 1]) {
        7 => {
            let k = s.urange(4, 12);
            let a = thin(s, k);
            for _ in 0..n {
                px.push(*s.pick(&a));
            }
            "thin"
        }
        0 => {
            let k = s.urange(4, 10);
            let a: Vec<_> = (0..k).map(|_| color(s)).collect();
            for _ in 0..n {
                px.push(mix(s, &a));
            }
            "mixtures"
        }
        1 => {
            for _ in 0..n {
                px.push([s.byte(), s.byte(), s.byte()]);
            }
            "noise"
        }
        2 => {
            let k = s.urange(4, 9);
            let a: Vec<_> = (0..k).map(|_| color(s)).collect();
            for _ in 0..n {
                px.push(*s.pick(&a));
            }
            "few colors"
        }
        3 => {
            // bilinear gradient with a little noise
            let c: Vec<[u8; 3]> = (0..4).map(|_| color(s)).collect();
            let noise = s.range(1, 24);
            for y in 0..h {
                for x in 0..w {
                    let (fx, fy) = (x as f64 / (w - 1).max(1) as f64, y as f64 / (h - 1).max(1) as f64);
                    let mut o = [0u8; 3];
                    for k in 0..3 {
                        let v = c[0][k] as f64 * (1.0 - fx) * (1.0 - fy)
                            + c[1][k] as f64 * fx * (1.0 - fy)
                            + c[2][k] as f64 * (1.0 - fx) * fy
                            + c[3][k] as f64 * fx * fy;
                        o[k] = (v + s.below(noise) as f64).clamp(0.0, 255.0) as u8;
                    }
                    px.push(o);
                }
            }
            "gradient"
        }
        4 => {
            // background with some accents
            let b = color(s);
            let k = s.urange(4, 8);
            let a: Vec<_> = (0..k).map(|_| color(s)).collect();
            for _ in 0..n {
                px.push(if s.chance(1, 3) { *s.pick(&a) } else { b });
            }
            "accents"
        }
        5 => {
            // blocks
            let k = s.urange(4, 8);
            let a: Vec<_> = (0..k).map(|_| color(s)).collect();
            let bw = s.range(1, w as u64) as u32;
            for y in 0..h {
                for x in 0..w {
                    px.push(a[((x / bw + y / bw * 3) as usize) % k]);
                }
            }
            "blocks"
        }
        _ => {
            // low contrast
            let b = [s.range(0, 250) as u8, s.range(0, 250) as u8, s.range(0, 250) as u8];
            let m = s.range(1, 5);
            for _ in 0..n {
                px.push([b[0] + s.range(0, m) as u8, b[1] + s.range(0, m) as u8, b[2] + s.range(0, m) as u8]);
            }
            "low contrast"
        }
    };
    Img { w, h, px, class }
}

pub fn image(s: &mut Src, max_px: usize) -> Img {
    let (w, h) = size(s, max_px);
    fill(s, w, h)
}

/// An image with many pixels, but few colors: thousands of pixels, or (huge) more than 16 bits can
/// count. It is determined by few choices.
pub fn large(s: &mut Src, huge: bool, palette: &[[u8; 3]]) -> Img {
    let (w, h): (u32, u32) = if huge {
        *s.pick(&[(256, 257), (300, 220), (70_000, 2), (2, 70_000)])
    } else {
        *s.pick(&[(33, 32), (64, 64), (300, 4), (4, 300), (2, 700), (700, 2), (260, 13)])
    };
    let colors: Vec<[u8; 3]> = if palette.is_empty() {
        let k = s.urange(4, 9);
        (0..k).map(|_| color(s)).collect()
    } else {
        let pts = p3s(palette);
        let k = s.urange(2, 6);
        let mut c = palette.to_vec();
        for _ in 0..k {
            let m = mix(s, palette);
            if exact::in_hull3(p3(&m), &pts) {
                c.push(m);
            }
        }
        c
    };
    let k = colors.len() as u64;
    let class = s.urange(0, 3);
    let (a, b, d) = (s.range(1, 7), s.range(1, 7), s.range(1, w.max(h) as u64 / 2));
    let accents: Vec<(u64, u64)> = (0..s.urange(4, 12)).map(|_| (s.below(w as u64), s.below(h as u64))).collect();
    let mut px = Vec::with_capacity((w * h) as usize);
    for y in 0..h as u64 {
        for x in 0..w as u64 {
            let i = match class {
                0 => x / d * a + y / d * b + (x + y) % 2,
                1 => match accents.iter().position(|p| *p == (x, y)) {
                    Some(i) => i as u64 + 1,
                    None => 0,
                },
                2 => (x * a + y * b) / d,
                _ => ((y * w as u64 + x + 1) * (2654435761 + 2 * d) >> 16) % (k + 5 * a) / a,
            };
            px.push(colors[(i % k) as usize]);
        }
    }
    let class = match huge {
        true => ["huge: tiles", "huge: accents", "huge: stripes", "huge: scattered"][class],
        false => ["large: tiles", "large: accents", "large: stripes", "large: scattered"][class],
    };
    Img { w, h, px, class }
}

/// An image with hundreds of different colors, many of which are extreme
pub fn crowded(s: &mut Src, palette: &[[u8; 3]]) -> Img {
    let (w, h): (u32, u32) = *s.pick(&[(33, 32), (32, 40), (300, 4), (4, 300), (600, 2)]);
    let n = (w * h) as usize;
    let px = if palette.is_empty() {
        match s.below(3) {
            0 => (0..n).map(|_| [s.byte(), s.byte(), s.byte()]).collect(),
            r => {
                // a sphere, perhaps with colors inside
                let radius = 90.0 + s.unit() * 37.0;
                (0..n)
                    .map(|_| {
                        let v = [0; 3].map(|_| s.unit() * 2.0 - 1.0);
                        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                        let f = if r == 1 && s.chance(1, 2) { s.unit() } else { 1.0 };
                        v.map(|x| (127.5 + x / l * radius * f) as u8)
                    })
                    .collect()
            }
        }
    } else {
        let pts = p3s(palette);
        let mut inside = || {
            let m = mix(s, palette);
            if exact::in_hull3(p3(&m), &pts) { m } else { *s.pick(palette) }
        };
        (0..n).map(|_| inside()).collect()
    };
    Img { w, h, px, class: "crowded" }
}

/// Some of the colors of an image become more frequent, by hundreds or thousands of pixels
pub fn heavy(s: &mut Src, img: Img) -> Img {
    let w = img.w as usize;
    let mut px = img.px;
    for _ in 0..s.urange(1, 4) {
        let c = *s.pick(&px);
        let n = *s.pick(&[300usize, 900, 1100, 1500, 3000, 5000]) + s.urange(0, 40);
        px.extend(std::iter::repeat(c).take(n / w * w));
    }
    let h = (px.len() / w) as u32;
    Img { w: img.w, h, px, class: "frequent colors" }
}

/// An image with few colors, one of which occurs a little more often than 16 bits can count (or 8 bits). It may be a
/// corner of the hull.
pub fn dominant(s: &mut Src) -> Img {
    let k = s.urange(4, 16);
    let colors: Vec<[u8; 3]> = match s.weighted(&[2, 1]) {
        0 => (0..k).map(|_| [s.byte(), s.byte(), s.byte()]).collect(),
        _ => (0..k).map(|_| color(s)).collect(),
    };
    let main = s.urange(0, k - 1);
    let mut px = vec![];
    for (i, c) in colors.iter().enumerate() {
        let n = s.urange(1, 30);
        px.extend(std::iter::repeat(*c).take(if i == main { 0 } else { n }));
    }
    let n = *s.pick(&[256usize, 65_536, 65_536, 131_072]) + s.urange(0, 40);
    let at = s.urange(0, px.len());
    px.splice(at..at, std::iter::repeat(colors[main]).take(n));
    while px.len() % 4 != 0 {
        px.push(colors[main]);
    }
    let w = *s.pick(&[1, 2, 4]);
    let (w, h) = (w, px.len() as u32 / w);
    let (w, h) = if s.chance(1, 2) { (h, w) } else { (w, h) };
    Img { w, h, px, class: "dominant color" }
}

/// Usually `small`, sometimes a large image, rarely a huge one (all of them one in n, n >= 9)
pub fn sized(s: &mut Src, n: u64, palette: &[[u8; 3]], small: impl FnOnce(&mut Src) -> Img) -> Img {
    let i = s.below(n * 8);
    if i >= n * 8 - 2 {
        large(s, true, palette)
    } else if i >= n * 8 - 9 {
        large(s, false, palette)
    } else {
        small(s)
    }
}

/// As `sized`, but with images with hundreds of vertices as well
pub fn any_size(s: &mut Src, n: u64, palette: &[[u8; 3]], small: impl FnOnce(&mut Src) -> Img) -> Img {
    if s.below(2 * n) == 2 * n - 1 {
        crowded(s, palette)
    } else {
        sized(s, n, palette, small)
    }
}

/// An image whose pixels are all in the hull of the palette (exactly)
pub fn image_inside(s: &mut Src, max_px: usize, palette: &[[u8; 3]]) -> Img {
    let (w, h) = size(s, max_px);
    let pts = p3s(palette);
    let mut px = vec![];
    for _ in 0..w * h {
        let c = mix(s, palette);
        px.push(if exact::in_hull3(p3(&c), &pts) { c } else { *s.pick(palette) });
    }
    Img { w, h, px, class: "inside of a palette" }
}

/// A palette that should be accepted: extreme, distinct, not flat
pub fn valid_palette(s: &mut Src, max: usize) -> Option<Vec<[u8; 3]>> {
    let k = s.urange(4, max);
    let sphere = max > 12 && s.chance(2, 3);
    let c: Vec<[u8; 3]> = (0..k)
        .map(|_| match s.weighted(&[3, 1]) {
            _ if sphere => {
                let v = [0; 3].map(|_| s.unit() * 2.0 - 1.0);
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                v.map(|x| (127.5 + x / l * 120.0) as u8)
            }
            0 => [s.byte(), s.byte(), s.byte()],
            _ => {
                let mut f = || if s.chance(1, 2) { 255 } else { 0 };
                [f(), f(), f()]
            }
        })
        .collect();
    extreme_palette(&c)
}

/// the extreme colors of a list, in the order of the list
pub fn extreme_palette(c: &[[u8; 3]]) -> Option<Vec<[u8; 3]>> {
    let e = exact::extreme3(&p3s(c))?;
    let mut out: Vec<[u8; 3]> = vec![];
    for x in c {
        if e.contains(&p3(x)) && !out.contains(x) {
            out.push(*x);
        }
    }
    Some(out)
}

/// no four palette colors in one facet plane, and a single color closest to black: the
/// decomposition is then well defined
pub fn generic_palette(p: &[[u8; 3]]) -> bool {
    let pts = p3s(p);
    let Some(planes) = exact::hull_planes3(&pts) else { return false };
    let mut norms: Vec<i64> = pts.iter().map(|p| exact::dot(*p, *p)).collect();
    norms.sort();
    norms[0] < norms[1] && planes.iter().all(|(n, d)| pts.iter().filter(|p| exact::dot(*n, **p) == *d).count() == 3)
}

pub fn weights(img: &Img) -> ImageWeights {
    ImageWeights::new(&img.rgb())
}

pub fn decompose(w: &ImageWeights, palette: &[[u8; 3]]) -> Result<DecomposedImage, String> {
    DecomposedImage::new(w, &rgb(palette))
}

pub fn reconstruct(d: &DecomposedImage, palette: &[[u8; 3]]) -> Option<(u32, u32, Vec<[u8; 3]>)> {
    d.reconstruct(&rgb(palette)).map(|i| (i.width(), i.height(), i.pixels().map(|p| p.0).collect()))
}

pub fn channel(d: &DecomposedImage, n: usize) -> Option<(u32, u32, Vec<u8>)> {
    d.get_channel_grayscale(n).map(|i| (i.width(), i.height(), i.pixels().map(|p| p.0[0]).collect()))
}

pub fn palette(img: &Img, min: usize, max: usize, eb: f64) -> Vec<[u8; 3]> {
    raw(&image_palette_recoloring::compute_palette(&img.rgb(), min, max, eb))
}

/// An error bound next to which the palette changes: with the next larger or
/// the next smaller number, it's another one.
pub fn edge_bound(img: &Img, min: usize, max: usize, from: f64, smaller: bool) -> Option<f64> {
    let at = |eb: f64| crate::engine::catch(|| palette(img, min, max, eb)).ok();
    let (mut lo, mut hi) = (from, 1.0);
    let (a, b) = (at(lo), at(hi));
    if a == b {
        return None;
    }
    for _ in 0..80 {
        let mid = lo + (hi - lo) / 2.0;
        if mid <= lo || mid >= hi {
            break;
        }
        if at(mid) == a {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    Some(if smaller { lo } else { hi })
}
