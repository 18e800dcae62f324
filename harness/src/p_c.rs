//! C14, C15: the C interface, called through a shim that is compiled against its header.

use crate::engine::*;
use crate::img::*;
use crate::p_image::{any_palette, hostile};
use crate::{ensure, fail};
use std::ffi::{c_void, CString};

type Ptr = *mut c_void;

struct Api {
    create_weights: unsafe extern "C" fn(u32, u32, *const u8) -> Ptr,
    free_weights: unsafe extern "C" fn(Ptr),
    palette: unsafe extern "C" fn(u32, u32, *const u8, u8, u8, f64, *mut u8) -> *mut u8,
    free_palette: unsafe extern "C" fn(*mut u8, u8),
    decompose: unsafe extern "C" fn(Ptr, u8, *const u8) -> Ptr,
    free_decomposed: unsafe extern "C" fn(Ptr),
    width: unsafe extern "C" fn(Ptr) -> u32,
    height: unsafe extern "C" fn(Ptr) -> u32,
    channels: unsafe extern "C" fn(Ptr) -> u8,
    reconstruct: unsafe extern "C" fn(Ptr, *const u8, *mut u8) -> u8,
    channel: unsafe extern "C" fn(Ptr, u8, *mut u8) -> u8,
}

fn load(name: &str) -> Api {
    let path = format!("{}/target/repo/debug/{name}", verif_dir());
    unsafe {
        let h = libc::dlopen(CString::new(path.clone()).unwrap().as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "HARNESS: can't load {path}");
        let sym = |n: &str| {
            let p = libc::dlsym(h, CString::new(n).unwrap().as_ptr());
            assert!(!p.is_null(), "HARNESS: no {n}");
            p
        };
        macro_rules! get {
            ($n:literal) => {
                std::mem::transmute(sym($n))
            };
        }
        Api {
            create_weights: get!("shim_create_weights"),
            free_weights: get!("shim_free_weights"),
            palette: get!("shim_palette"),
            free_palette: get!("shim_free_palette"),
            decompose: get!("shim_decompose"),
            free_decomposed: get!("shim_free_decomposed"),
            width: get!("shim_width"),
            height: get!("shim_height"),
            channels: get!("shim_channels"),
            reconstruct: get!("shim_reconstruct"),
            channel: get!("shim_channel"),
        }
    }
}

fn api(cxx: bool) -> &'static Api {
    static C: std::sync::OnceLock<Api> = std::sync::OnceLock::new();
    static CXX: std::sync::OnceLock<Api> = std::sync::OnceLock::new();
    if cxx {
        CXX.get_or_init(|| load("libshimxx.so"))
    } else {
        C.get_or_init(|| load("libshim.so"))
    }
}

/// A buffer between two inaccessible pages, adjacent to one of them. Whatever is left of its pages
/// is filled with a pattern.
struct Guarded {
    base: *mut u8,
    total: usize,
    at: usize,
    len: usize,
}

const PAGE: usize = 4096;
const FILL: u8 = 0xC5;

impl Guarded {
    fn new(content: &[u8], at_end: bool, read_only: bool) -> Guarded {
        let pages = content.len().div_ceil(PAGE).max(1);
        let total = (pages + 2) * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1, "HARNESS: mmap");
            libc::mprotect(base.add(PAGE).cast(), pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            std::ptr::write_bytes(base.add(PAGE), FILL, pages * PAGE);
            let at = if at_end { PAGE + pages * PAGE - content.len() } else { PAGE };
            std::ptr::copy_nonoverlapping(content.as_ptr(), base.add(at), content.len());
            if read_only {
                libc::mprotect(base.add(PAGE).cast(), pages * PAGE, libc::PROT_READ);
            }
            Guarded { base, total, at, len: content.len() }
        }
    }
    fn ptr(&self) -> *mut u8 {
        unsafe { self.base.add(self.at) }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
    /// nothing around the buffer was written to
    fn intact(&self) -> bool {
        let all = unsafe { std::slice::from_raw_parts(self.base.add(PAGE), self.total - 2 * PAGE) };
        let s = self.at - PAGE;
        all[..s].iter().chain(&all[s + self.len..]).all(|b| *b == FILL)
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

fn flat(p: &[[u8; 3]]) -> Vec<u8> {
    p.iter().flatten().copied().collect()
}

/// up to 255 colors, most of them extreme
pub fn big_palette(s: &mut Src) -> Vec<[u8; 3]> {
    if s.chance(1, 3) {
        // exactly so many
        let mut p = hull256();
        s.shuffle(&mut p);
        p.truncate(*s.pick(&[255, 254, 253, 129, 128, 127, 65, 64, 63]));
        return p;
    }
    let n = s.urange(13, 255);
    let mut p: Vec<[u8; 3]> = vec![];
    for _ in 0..n {
        let v = [s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0];
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
        let c = v.map(|x| (127.5 + x / l * 127.0).round() as u8);
        if !p.contains(&c) {
            p.push(c);
        }
    }
    if s.chance(2, 3) {
        // accepted more often
        extreme_palette(&p).unwrap_or(p)
    } else {
        p
    }
}

/// 256 colors, all of which are extreme
pub fn hull256() -> Vec<[u8; 3]> {
    let hex: Vec<u8> = include_str!("hull256.hex").bytes().filter(|b| *b > b' ').map(|b| (b as char).to_digit(16).unwrap() as u8).collect();
    hex.chunks(6).map(|h| [h[0] * 16 + h[1], h[2] * 16 + h[3], h[4] * 16 + h[5]]).collect()
}

/// Images whose hull has more corners than the C interface can count. Simplifying it to 255 colors sometimes has to
/// stop above that, because the next step would make too many colors redundant.
pub fn more_than_255(s: &mut Src) -> Img {
    let mut px: Vec<[u8; 3]> = vec![];
    if s.chance(1, 2) {
        px = hull256();
        s.shuffle(&mut px);
    } else {
        let r = 128.0 + 8.0 * s.unit();
        let n = s.urange(280, 420);
        let mut state = s.range(1, 1 << 40);
        let mut unit = || {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (state >> 33) as f64 / (1u64 << 30) as f64 - 1.0
        };
        for _ in 0..n {
            let v = [unit(), unit(), unit()];
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
            px.push(v.map(|x| (127.5 + x / l * r).round().clamp(0.0, 255.0) as u8));
        }
        px = extreme_palette(&px).unwrap_or(px);
        px.truncate(s.urange(256, 258));
    }
    Img { w: px.len() as u32, h: 1, px, class: "more than 255 extreme colors" }
}

const HUGE: (u32, u32) = (40_000, 36_000);

/// Computes the palette of an image of more than 4 GiB, most of which is a single page of zeros.
pub fn huge_process() {
    let (w, h) = HUGE;
    let a = api(false);
    unsafe {
        let px = libc::mmap(std::ptr::null_mut(), 3 * w as usize * h as usize, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        if px as isize == -1 {
            eprintln!("memory allocation: no address space");
            std::process::exit(9);
        }
        for i in [0, 4, 8] {
            *px.add(i) = 255;
        }
        let mut n = 99;
        let p = (a.palette)(w, h, px, 4, 8, 0.01, &mut n);
        println!("{} {n}", if p.is_null() { "null" } else { "palette" });
    }
}

/// Either gets the right palette, or takes longer than anyone wants to wait, or needs more memory than there is.
/// But it doesn't fail at once.
fn huge() -> Result<&'static str, String> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["huge", "C14"])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("HARNESS: can't start a process");
    for _ in 0..50 {
        std::thread::sleep(std::time::Duration::from_millis(30));
        if let Ok(Some(status)) = p.try_wait() {
            let (mut out, mut err) = (String::new(), String::new());
            let _ = p.stdout.take().unwrap().read_to_string(&mut out);
            let _ = p.stderr.take().unwrap().read_to_string(&mut err);
            use std::os::unix::process::ExitStatusExt;
            if err.contains("memory allocation") || status.signal() == Some(libc::SIGKILL) {
                return Ok("huge image: not enough memory");
            }
            if out.trim() == "palette 4" {
                return Ok("huge image: palette");
            }
            return Err(format!("the palette of a black {}x{} image with a red, a green and a blue pixel is {:?}, {status}: {}", HUGE.0, HUGE.1, out.trim(), err.lines().take(3).collect::<Vec<_>>().join(" ")));
        }
    }
    let _ = p.kill();
    let _ = p.wait();
    Ok("huge image: still computing")
}

fn c14(s: &mut Src, c: &mut Case) -> Res {
    let cxx = s.chance(1, 2);
    let a = api(cxx);
    let special = s.below(4000);
    if special == 3999 {
        c.desc = format!("{}x{} image", HUGE.0, HUGE.1);
        match huge() {
            Ok(l) => c.label(l),
            Err(e) => fail!("{e}"),
        }
        return Ok(());
    }
    let many = special >= 3993;
    let img = match s.weighted(&[4, 1]) {
        _ if many => more_than_255(s),
        0 => sized(s, 60, &[], |s| image(s, 60)),
        _ => hostile(s),
    };
    let (min, max) = match s.weighted(&[3, 1]) {
        _ if many => (s.range(253, 255) as u8, 255),
        0 => (s.range(0, 12) as u8, s.range(0, 24) as u8),
        _ => (s.byte(), s.byte()),
    };
    let eb = match s.weighted(&[4, 1]) {
        0 => 1e-4 + s.unit() * 0.05,
        _ => *s.pick(&[0.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 1e-300]),
    };
    // a bound whose last bit matters
    let eb = match s.chance(1, 6) && img.px.len() <= 300 {
        true => match edge_bound(&img, min as usize, max as usize, 0.2 * s.unit() * s.unit(), s.chance(1, 2)) {
            Some(e) => {
                c.label("bound at which the palette changes");
                e
            }
            None => eb,
        },
        false => eb,
    };
    let end = s.chance(1, 2);
    c.label(img.class);
    c.desc = format!("palette of {min} to {max} colors, bound {eb}, for the {}", img.describe());
    let input = Guarded::new(&flat(&img.px), end, true);

    // the palette
    let expected = catch(|| palette(&img, min as usize, max as usize, eb));
    let count = Guarded::new(&[77], end, false);
    let p = unsafe { (a.palette)(img.w, img.h, input.ptr(), min, max, eb, count.ptr()) };
    let n = count.get()[0] as usize;
    ensure!(count.intact(), "compute_palette writes next to the palette size");
    match &expected {
        Ok(e) if e.len() > 255 => {
            ensure!(p.is_null() && n == 0, "the library computes {} colors, compute_palette returns {n}", e.len());
            c.label("palette that can't be counted");
        }
        Ok(e) => {
            ensure!(!p.is_null(), "compute_palette fails, the library returns {}", hexes(e));
            ensure!(n == e.len(), "compute_palette returns {n} colors, the library {}: {}", e.len(), hexes(e));
            let got = unsafe { std::slice::from_raw_parts(p, 3 * n) }.to_vec();
            unsafe { (a.free_palette)(p, n as u8) };
            ensure!(got == flat(e), "compute_palette returns {got:?}, the library {}", hexes(e));
            c.label("palette");
        }
        Err(m) => {
            ensure!(p.is_null() && n == 0, "compute_palette returns {n} colors for an image that the library can't handle ({m})");
            c.label("no palette");
        }
    }

    // the weights
    let w = catch(|| weights(&img));
    let cw = unsafe { (a.create_weights)(img.w, img.h, input.ptr()) };
    let w = match w {
        Ok(w) => {
            ensure!(!cw.is_null(), "create_image_weights fails, the library doesn't");
            w
        }
        Err(m) => {
            ensure!(cw.is_null(), "create_image_weights succeeds for an image that the library can't handle ({m})");
            c.label("no weights");
            return Ok(());
        }
    };
    // decompositions
    for _ in 0..s.urange(1, 3) {
        let pal = match s.weighted(&[2, 2, 1, 1]) {
            0 => any_palette(s).1,
            1 => valid_palette(s, 9).unwrap_or_default(),
            2 => expected.clone().ok().filter(|e| e.len() < 256).unwrap_or_default(),
            _ => big_palette(s),
        };
        c.desc += &format!("; decomposed with {} colors {}", pal.len(), hexes(&pal));
        let gp = Guarded::new(&flat(&pal), end, true);
        let d = decompose(&w, &pal);
        let cd = unsafe { (a.decompose)(cw, pal.len() as u8, gp.ptr()) };
        let d = match d {
            Err(e) => {
                ensure!(cd.is_null(), "create_decomposed_image accepts {}, the library doesn't ({e})", hexes(&pal));
                c.label("palette rejected");
                continue;
            }
            Ok(d) => {
                if pal.len() == 255 {
                    c.label("255 colors");
                }
                ensure!(!cd.is_null(), "create_decomposed_image rejects {}, the library doesn't", hexes(&pal));
                d
            }
        };
        let (cwid, chei, cn) = unsafe { ((a.width)(cd), (a.height)(cd), (a.channels)(cd)) };
        ensure!(cwid == img.w && chei == img.h, "the decomposition is {cwid}x{chei}, the image {}x{}", img.w, img.h);
        ensure!(cn as usize == pal.len(), "{cn} channels for {} colors", pal.len());
        let rec: Vec<[u8; 3]> = pal.iter().map(|_| color(s)).collect();
        let gr = Guarded::new(&flat(&rec), end, true);
        let back = vec![0x3Cu8; 3 * img.n()];
        let out = Guarded::new(&back, end, false);
        let r = unsafe { (a.reconstruct)(cd, gr.ptr(), out.ptr()) };
        let Some((_, _, e)) = reconstruct(&d, &rec) else { fail!("the library can't reconstruct") };
        ensure!(r == 1, "reconstruct_image returns {r}");
        ensure!(out.intact(), "reconstruct_image writes next to its output");
        ensure!(out.get() == &flat(&e)[..], "recolored with {} the C interface gives other pixels than the library", hexes(&rec));
        for k in [s.urange(0, pal.len() - 1), pal.len() - 1, pal.len(), s.urange(0, 255), 255] {
            if k > 255 {
                continue;
            }
            let back = vec![0x3Cu8; img.n()];
            let out = Guarded::new(&back, end, false);
            let r = unsafe { (a.channel)(cd, k as u8, out.ptr()) };
            ensure!(out.intact(), "grayscale_image_channel writes next to its output");
            match channel(&d, k) {
                Some((_, _, e)) => {
                    ensure!(r == 1, "grayscale_image_channel({k}) returns {r}");
                    ensure!(out.get() == &e[..], "channel {k} differs from that of the library");
                }
                None => {
                    ensure!(r == 0, "grayscale_image_channel({k}) returns {r}, there are {} channels", pal.len());
                    ensure!(out.get() == &back[..], "grayscale_image_channel({k}) fails, but writes to its output");
                    c.label("invalid channel");
                }
            }
        }
        unsafe { (a.free_decomposed)(cd) };
        c.label(if pal.len() > 20 { "many colors" } else { "decomposed" });
        c.nontrivial = true;
    }
    unsafe { (a.free_weights)(cw) };
    Ok(())
}

#[derive(Debug, Clone)]
enum Op {
    /// image, result
    Weights(usize, bool),
    /// image, min, max, bound, result
    Palette(usize, u8, u8, f64, Option<Vec<u8>>),
    /// weights slot, palette, result
    Decompose(usize, Vec<u8>, bool),
    /// decomposition slot, palette, result
    Reconstruct(usize, Vec<u8>, Vec<u8>),
    /// decomposition slot, channel, result, size of the image
    Channel(usize, u8, Option<Vec<u8>>, usize),
    FreeWeights(usize),
    FreePalette(usize),
    FreeDecomposed(usize),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Weights(i, ok) => format!("weights of image {i} ({})", if *ok { "ok" } else { "fails" }),
            Op::Palette(i, a, b, e, r) => format!("palette of image {i} with {a} to {b} colors, bound {e} ({})", if r.is_some() { "ok" } else { "fails" }),
            Op::Decompose(w, p, ok) => format!("decompose weights {w} with {p:?} ({})", if *ok { "ok" } else { "fails" }),
            Op::Reconstruct(d, p, _) => format!("reconstruct decomposition {d} with {p:?}"),
            Op::Channel(d, k, r, _) => format!("channel {k} of decomposition {d} ({})", if r.is_some() { "ok" } else { "fails" }),
            Op::FreeWeights(i) => format!("free weights {i}"),
            Op::FreePalette(i) => format!("free palette {i}"),
            Op::FreeDecomposed(i) => format!("free decomposition {i}"),
        }
    }
}

fn execute(a: &Api, imgs: &[Img], ops: &[Op], end: bool) -> Res {
    let mut ws: Vec<Ptr> = vec![];
    let mut ps: Vec<(*mut u8, Vec<u8>)> = vec![];
    let mut ds: Vec<Ptr> = vec![];
    for (at, op) in ops.iter().enumerate() {
        match op {
            Op::Weights(i, ok) => {
                let input = Guarded::new(&flat(&imgs[*i].px), end, true);
                let w = unsafe { (a.create_weights)(imgs[*i].w, imgs[*i].h, input.ptr()) };
                ensure!(w.is_null() != *ok, "step {at}: weights {}", if *ok { "fail" } else { "should fail" });
                if *ok {
                    ensure!(!ws.contains(&w), "step {at}: a live handle is returned again");
                    ws.push(w);
                }
            }
            Op::Palette(i, min, max, eb, r) => {
                let input = Guarded::new(&flat(&imgs[*i].px), end, true);
                let count = Guarded::new(&[99], end, false);
                let p = unsafe { (a.palette)(imgs[*i].w, imgs[*i].h, input.ptr(), *min, *max, *eb, count.ptr()) };
                ensure!(count.intact(), "step {at}: writes next to the palette size");
                let n = count.get()[0] as usize;
                match r {
                    None => ensure!(p.is_null() && n == 0, "step {at}: the palette should fail"),
                    Some(r) => {
                        ensure!(!p.is_null(), "step {at}: the palette fails");
                        ensure!(n * 3 == r.len(), "step {at}: {n} colors instead of {}", r.len() / 3);
                        ps.push((p, r.clone()));
                    }
                }
            }
            Op::Decompose(w, pal, ok) => {
                let gp = Guarded::new(pal, end, true);
                let d = unsafe { (a.decompose)(ws[*w], (pal.len() / 3) as u8, gp.ptr()) };
                ensure!(d.is_null() != *ok, "step {at}: decomposing {}", if *ok { "fails" } else { "should fail" });
                if *ok {
                    ensure!(!ds.contains(&d), "step {at}: a live handle is returned again");
                    ds.push(d);
                }
            }
            Op::Reconstruct(d, pal, r) => {
                let gp = Guarded::new(pal, end, true);
                let out = Guarded::new(&vec![0x3C; r.len()], end, false);
                let ok = unsafe { (a.reconstruct)(ds[*d], gp.ptr(), out.ptr()) };
                ensure!(out.intact(), "step {at}: writes next to the output");
                ensure!(ok == 1, "step {at}: reconstruct_image returns {ok}");
                ensure!(out.get() == &r[..], "step {at}: other pixels than the library");
            }
            Op::Channel(d, k, r, n) => {
                let back = vec![0x3C; *n];
                let out = Guarded::new(&back, end, false);
                let ok = unsafe { (a.channel)(ds[*d], *k, out.ptr()) };
                ensure!(out.intact(), "step {at}: writes next to the output");
                match r {
                    Some(r) => {
                        ensure!(ok == 1, "step {at}: the channel fails");
                        ensure!(out.get() == &r[..], "step {at}: other channel than the library");
                    }
                    None => {
                        ensure!(ok == 0, "step {at}: the channel should fail");
                        ensure!(out.get() == &back[..], "step {at}: fails, but writes to the output");
                    }
                }
            }
            Op::FreeWeights(i) => unsafe { (a.free_weights)(ws.remove(*i)) },
            Op::FreePalette(i) => {
                let (p, r) = ps.remove(*i);
                // still what it was when it was returned
                let now = unsafe { std::slice::from_raw_parts(p, r.len()) };
                ensure!(now == &r[..], "step {at}: the palette is {now:?}, the library computes {r:?}");
                unsafe { (a.free_palette)(p, (r.len() / 3) as u8) }
            }
            Op::FreeDecomposed(i) => unsafe { (a.free_decomposed)(ds.remove(*i)) },
        }
    }
    Ok(())
}

fn c15(s: &mut Src, c: &mut Case) -> Res {
    let cxx = s.chance(1, 2);
    let a = api(cxx);
    let end = !s.chance(1, 3);
    let imgs: Vec<Img> = (0..s.urange(1, 3)).map(|_| if s.chance(1, 5) { hostile(s) } else { image(s, 30) }).collect();
    let lib: Vec<_> = imgs.iter().map(|i| catch(|| weights(i)).ok()).collect();
    // plan a history, with the results the library gives
    let mut ops = vec![];
    let mut ws: Vec<usize> = vec![];
    let mut ps: Vec<Vec<u8>> = vec![];
    let mut ds: Vec<(usize, Vec<[u8; 3]>, image_palette_recoloring::DecomposedImage)> = vec![];
    let (mut maxlive, mut after, mut uses) = (0, 0, 0);
    let steps = s.urange(3, 18);
    let mut freed_weights = std::collections::HashSet::new();
    for _ in 0..steps {
        match s.weighted(&[4, 2, 6, 6, 5, 1, 1, 1]) {
            0 => {
                let i = s.urange(0, imgs.len() - 1);
                ops.push(Op::Weights(i, lib[i].is_some()));
                if lib[i].is_some() {
                    ws.push(i);
                }
            }
            1 => {
                let i = s.urange(0, imgs.len() - 1);
                let (min, max, eb) = (s.range(0, 10) as u8, s.range(0, 16) as u8, if s.chance(1, 4) { 0.0 } else { 1e-4 + s.unit() * 0.05 });
                let r = catch(|| palette(&imgs[i], min as usize, max as usize, eb)).ok().map(|p| flat(&p));
                if let Some(r) = &r {
                    ps.push(r.clone());
                }
                ops.push(Op::Palette(i, min, max, eb, r));
            }
            2 if !ws.is_empty() => {
                let w = s.urange(0, ws.len() - 1);
                let pal = match s.weighted(&[3, 1]) {
                    0 => valid_palette(s, 8).unwrap_or_default(),
                    _ => any_palette(s).1,
                };
                let r = decompose(lib[ws[w]].as_ref().unwrap(), &pal);
                ops.push(Op::Decompose(w, flat(&pal), r.is_ok()));
                if let Ok(r) = r {
                    ds.push((ws[w], pal, r));
                }
            }
            3 if !ds.is_empty() => {
                let d = s.urange(0, ds.len() - 1);
                let pal: Vec<[u8; 3]> = ds[d].1.iter().map(|_| color(s)).collect();
                let Some((_, _, r)) = reconstruct(&ds[d].2, &pal) else { fail!("the library can't reconstruct") };
                ops.push(Op::Reconstruct(d, flat(&pal), flat(&r)));
                uses += 1;
                after += freed_weights.contains(&ds[d].0) as u32;
            }
            4 if !ds.is_empty() => {
                let d = s.urange(0, ds.len() - 1);
                let k = s.urange(0, ds[d].1.len() + 1);
                ops.push(Op::Channel(d, k as u8, channel(&ds[d].2, k).map(|c| c.2), imgs[ds[d].0].n()));
                uses += 1;
                after += freed_weights.contains(&ds[d].0) as u32;
            }
            5 if !ws.is_empty() => {
                let i = s.urange(0, ws.len() - 1);
                freed_weights.insert(ws.remove(i));
                ops.push(Op::FreeWeights(i));
            }
            6 if !ps.is_empty() => {
                let i = s.urange(0, ps.len() - 1);
                ps.remove(i);
                ops.push(Op::FreePalette(i));
            }
            7 if !ds.is_empty() => {
                let i = s.urange(0, ds.len() - 1);
                ds.remove(i);
                ops.push(Op::FreeDecomposed(i));
            }
            _ => (),
        }
        maxlive = maxlive.max(ws.len() + ps.len() + ds.len());
    }
    // everything is released in the end, in any order
    let (mut nw, mut np, mut nd) = (ws.len(), ps.len(), ds.len());
    while nw + np + nd > 0 {
        let k = s.urange(0, nw + np + nd - 1);
        if k < nw {
            ops.push(Op::FreeWeights(k));
            nw -= 1;
        } else if k < nw + np {
            ops.push(Op::FreePalette(k - nw));
            np -= 1;
        } else {
            ops.push(Op::FreeDecomposed(k - nw - np));
            nd -= 1;
        }
    }
    c.desc = format!(
        "{}; {}",
        ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "),
        imgs.iter().enumerate().map(|(i, g)| format!("image {i}: {}", g.describe())).collect::<Vec<_>>().join("; ")
    );
    execute(a, &imgs, &ops, end)?;
    // The same history again doesn't need more memory: whatever is initialised once, is by now.
    execute(a, &imgs, &ops, end)?;
    let before = heap_in_use();
    execute(a, &imgs, &ops, end)?;
    let now = heap_in_use();
    ensure!(now == before, "{} bytes in {} blocks stay allocated after everything was released", now.0 - before.0, now.1 - before.1);
    if after > 0 {
        c.label("used after its weights were freed");
    }
    if maxlive >= 4 {
        c.label("at least 4 live objects");
    }
    c.label(if uses > 0 { "used" } else { "not used" });
    c.nontrivial = uses > 0 && maxlive >= 2;
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        rule: "images up to 60 pixels (or degenerate ones), any palette parameters, 1 to 3 decompositions with palettes of 0 to 255 colors (any, valid, computed, many), recolorings and valid and invalid channels, from C or C++; non-trivial: a decomposition was used",
        quick: 8000,
        thorough: 200_000,
        run: c14,
        needs: &["c"],
        floors: &[("no palette", 50), ("palette", 1000), ("no weights", 50), ("palette rejected", 500), ("many colors", 300), ("invalid channel", 1000)],
        assumptions: &["the Rust library is the reference (checked by C06 to C12)"],
    },
    Prop {
        id: "C15",
        rule: "histories of 3 to 18 calls with several weights, palettes and decompositions, released in any order; all buffers end (or start) at an inaccessible page, inputs are read-only; each history is repeated to account for the heap; non-trivial: at least two live objects, one of them used",
        quick: 10000,
        thorough: 150_000,
        run: c15,
        needs: &["c"],
        floors: &[("used after its weights were freed", 30), ("at least 4 live objects", 200)],
        assumptions: &["single threaded use"],
    },
];
