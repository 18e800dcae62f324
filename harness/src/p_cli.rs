//! C16, C17: the command line tool, as a program, in a scratch directory.

use crate::engine::*;
use crate::img::*;
use crate::p_c::{big_palette, hull256, more_than_255};
use crate::p_image::{any_palette, hostile};
use crate::{ensure, fail};
use image::{DynamicImage, GrayAlphaImage, GrayImage, ImageBuffer, Luma, RgbaImage};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A directory that is removed with everything in it.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = PathBuf::from(scratch_dir()).join(format!("{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
        Scratch(d)
    }
    /// all files below, with their content
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, base: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).expect("HARNESS: scratch directory") {
                let p = e.expect("HARNESS: scratch directory").path();
                if p.is_dir() {
                    walk(&p, base, out);
                } else {
                    out.insert(text(p.strip_prefix(base).unwrap()), std::fs::read(&p).expect("HARNESS: read"));
                }
            }
        }
        let mut out = BTreeMap::new();
        walk(&self.0, &self.0, &mut out);
        out
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Outcome {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}

impl Outcome {
    /// an ordinary failure
    fn failed(&self) -> bool {
        matches!(self.code, Some(c) if c != 0)
    }
    fn show(&self) -> String {
        let s = match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, s) => format!("signal {s:?}"),
        };
        format!("{s}, stdout {:?}, stderr {:?}", String::from_utf8_lossy(&self.out), self.err.chars().take(400).collect::<String>())
    }
}

fn run(dir: &Scratch, args: &[OsString]) -> Result<Outcome, Fail> {
    let exe = format!("{}/target/repo/debug/image-palette-recoloring-cli", verif_dir());
    let (o, e) = (dir.0.with_extension("stdout"), dir.0.with_extension("stderr"));
    let create = |p: &Path| std::fs::File::create(p).expect("HARNESS: create");
    let mut child = Command::new(exe)
        .args(args)
        .current_dir(&dir.0)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(create(&o))
        .stderr(create(&e))
        .spawn()
        .expect("HARNESS: can't start the tool");
    let start = Instant::now();
    let limit = 50.0;
    let status = loop {
        if let Some(s) = child.try_wait().expect("HARNESS: wait") {
            break s;
        }
        let t = start.elapsed().as_secs_f64();
        if t > limit {
            let cpu = cpu_seconds(child.id());
            if cpu > 0.8 * limit || t > 3.0 * limit {
                let _ = child.kill();
                let _ = child.wait();
                ensure!(cpu <= 0.8 * limit, "the tool does not terminate");
                panic!("HARNESS: the tool is late");
            }
        }
        std::thread::sleep(Duration::from_micros(if t < 0.05 { 300 } else { 5000 }));
    };
    let out = std::fs::read(&o).expect("HARNESS: read");
    let err = String::from_utf8_lossy(&std::fs::read(&e).expect("HARNESS: read")).into_owned();
    let _ = std::fs::remove_file(&o);
    let _ = std::fs::remove_file(&e);
    if status.signal() == Some(9) {
        panic!("HARNESS: the tool was killed from outside");
    }
    Ok(Outcome { code: status.code(), signal: status.signal(), out, err })
}

/// Writes the image with one of the pixel types; returns the pixels that it stands for.
fn write_image(s: &mut Src, c: &mut Case, img: &Img, path: &Path) -> Img {
    let mut img = Img { w: img.w, h: img.h, px: img.px.clone(), class: img.class };
    let (w, h) = (img.w, img.h);
    let ext = path.extension().unwrap().to_str().unwrap().to_lowercase();
    let kind = if ext == "png" { s.weighted(&[5, 3, 1, 1, 2, 1]) } else { 0 };
    let names = ["rgb", "rgba", "gray", "gray and alpha", "16 bit rgb", "16 bit gray"];
    c.label(names[kind]);
    c.label(format!("input {ext}"));
    let dynamic: DynamicImage = match kind {
        1 => {
            let a: Vec<u8> = img.px.iter().flat_map(|p| [p[0], p[1], p[2], s.byte()]).collect();
            RgbaImage::from_raw(w, h, a).unwrap().into()
        }
        2 | 3 => {
            img.px.iter_mut().for_each(|p| *p = [p[0]; 3]);
            if kind == 2 {
                GrayImage::from_raw(w, h, img.px.iter().map(|p| p[0]).collect()).unwrap().into()
            } else {
                let a: Vec<u8> = img.px.iter().flat_map(|p| [p[0], s.byte()]).collect();
                GrayAlphaImage::from_raw(w, h, a).unwrap().into()
            }
        }
        4 | 5 => {
            // nearest 8 bit value
            let mut wide = |v: u8| (v as i32 * 257 + s.irange(-128, 128) as i32).clamp(0, 65535) as u16;
            if kind == 4 {
                let a: Vec<u16> = img.px.iter().flatten().map(|v| wide(*v)).collect();
                ImageBuffer::<image::Rgb<u16>, _>::from_raw(w, h, a).unwrap().into()
            } else {
                img.px.iter_mut().for_each(|p| *p = [p[0]; 3]);
                let a: Vec<u16> = img.px.iter().map(|p| wide(p[0])).collect();
                ImageBuffer::<Luma<u16>, _>::from_raw(w, h, a).unwrap().into()
            }
        }
        _ => img.rgb().into(),
    };
    dynamic.save(path).expect("HARNESS: save image");
    let back = image::open(path).expect("HARNESS: open image").into_rgb8();
    let back: Vec<[u8; 3]> = back.pixels().map(|p| p.0).collect();
    assert!(back == img.px, "HARNESS: the image doesn't survive");
    img
}

const STEMS: &[&str] = &["in", "a b", "x.y", "Ünï", "-in", "in_channel_0_000000", "0", "n\u{e0ff}t"];
const SUBS: &[&str] = &["", "sub/", "./", "a b/c/", "../"];

/// A byte that isn't UTF-8 is written as this character in strings
const RAW: char = '\u{e0ff}';

fn os(s: &str) -> OsString {
    let mut v = vec![];
    for (i, part) in s.split(RAW).enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend(part.as_bytes());
    }
    OsString::from_vec(v)
}

fn text(p: &Path) -> String {
    let parts: Vec<_> = p.as_os_str().as_bytes().split(|b| *b == 0xff).map(|b| String::from_utf8_lossy(b).into_owned()).collect();
    parts.join(&RAW.to_string())
}

fn option(s: &mut Src, args: &mut Vec<OsString>, short: &str, long: &str, value: &str) {
    match s.below(4) {
        0 if !value.starts_with('-') => args.extend([os(short), os(value)]),
        1 if !value.starts_with('-') => args.extend([os(long), os(value)]),
        2 if !short.starts_with("--") => args.push(os(&format!("{short}{value}"))),
        _ => args.push(os(&format!("{long}={value}"))),
    }
}

fn hex_text(s: &mut Src, p: &[[u8; 3]]) -> String {
    let upper = s.below(3);
    p.iter()
        .map(|c| {
            let h = hex(c);
            match upper {
                0 => h,
                1 => h.to_uppercase(),
                _ => h.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
            }
        })
        .collect::<Vec<_>>()
        .join(",")
}

fn show(args: &[OsString]) -> String {
    format!("{args:?}")
}

/// the colors that the tool has to print, None: it has to fail
fn expect_palette(o: &Outcome, e: &Result<Vec<[u8; 3]>, String>) -> Res {
    match e {
        Ok(e) => {
            ensure!(o.code == Some(0), "the tool fails ({}), the library returns {}", o.show(), hexes(e));
            let want = e.iter().map(hex).collect::<Vec<_>>().join(",") + "\n";
            ensure!(o.out == want.as_bytes(), "the tool prints {:?}, the library returns {:?}", String::from_utf8_lossy(&o.out), want);
        }
        Err(m) => {
            ensure!(o.failed(), "the library fails ({m}), the tool doesn't: {}", o.show());
            ensure!(o.out.is_empty(), "the tool fails, but prints {:?}", String::from_utf8_lossy(&o.out));
        }
    }
    Ok(())
}

/// size parameters for which the image has different palettes
fn generate(s: &mut Src, c: &mut Case, dir: &Scratch, img: &Img, path: &str) -> Res {
    let (mut min, mut max, mut eb) = (4u8, 10u8, 2.0 / 255.0);
    let mut opts: Vec<Vec<OsString>> = vec![];
    if s.chance(2, 3) {
        min = if s.chance(1, 6) { s.range(4, 255) as u8 } else { s.range(4, 12) as u8 };
        let mut a = vec![];
        option(s, &mut a, "-m", "--min-size", &min.to_string());
        opts.push(a);
    }
    if s.chance(2, 3) {
        max = if s.chance(1, 6) { s.byte() } else { s.range(4, 16) as u8 };
        let mut a = vec![];
        option(s, &mut a, "--max-size", "--max-size", &max.to_string());
        opts.push(a);
    }
    if s.chance(1, 2) {
        // a bound whose last bit matters
        let edge = match s.chance(1, 4) && img.px.len() <= 300 {
            true => edge_bound(img, min as usize, max as usize, 0.2 * s.unit() * s.unit(), s.chance(1, 2)),
            false => None,
        };
        if edge.is_some() {
            c.label("bound at which the palette changes");
        }
        let text = match s.below(4) {
            _ if edge.is_some() => format!("{}", edge.unwrap()),
            0 => format!("{}", s.unit() * 0.1),
            1 => format!("{:e}", s.unit() * 0.01),
            2 => (*s.pick(&["0", "1", "0.0", "1e9", "-1", "inf", "-0.5", ".01", "1e-300"])).to_string(),
            _ => format!("{:.3}", s.unit()),
        };
        eb = text.parse().unwrap();
        let mut a = vec![];
        option(s, &mut a, "-e", "--error-bound", &text);
        opts.push(a);
    }
    if opts.is_empty() {
        c.label("default parameters");
    }
    opts.push(if path.starts_with('-') { vec![os(&format!("./{path}"))] } else { vec![os(path)] });
    s.shuffle(&mut opts);
    let mut args = vec![os("generate-palette")];
    args.extend(opts.into_iter().flatten());
    c.desc = format!("{} on the {}", show(&args), img.describe());
    let before = dir.files();
    let o = run(dir, &args)?;
    let e = catch(|| palette(img, min as usize, max as usize, eb));
    expect_palette(&o, &e)?;
    ensure!(dir.files() == before, "generating a palette changes files");
    c.label(if e.is_ok() { "palette" } else { "no palette" });
    c.nontrivial = e.is_ok();
    Ok(())
}

fn c16(s: &mut Src, c: &mut Case) -> Res {
    let outer = Scratch::new();
    // a directory inside, so that ../ stays in the scratch directory
    let dir = Scratch(outer.0.join("cwd"));
    for d in ["sub", "a b/c"] {
        std::fs::create_dir_all(dir.0.join(d)).expect("HARNESS: create directory");
    }
    let img = sized(s, 100, &[], |s| if s.chance(1, 8) { hostile(s) } else { image(s, 60) });
    let sub = if s.chance(1, 3) { *s.pick(SUBS) } else { "" };
    let stem = if s.chance(1, 3) { *s.pick(STEMS) } else { "in" };
    // the other formats can't be that large, or the image crate refuses to read it
    let png = img.w.max(img.h) > 65_535;
    let ext = *s.pick(if png { &["png"][..] } else { &["png", "png", "png", "bmp", "ppm", "tga", "PNG"][..] });
    let input = format!("{sub}{stem}.{ext}");
    let img = write_image(s, c, &img, &dir.0.join(os(&input)));
    c.label(img.class);
    if s.chance(1, 3) {
        return generate(s, c, &dir, &img, &input);
    }
    // recolor
    let w = catch(|| weights(&img));
    let pal = match s.weighted(&[24, 4, 4, 1]) {
        3 => many_colors(s, c),
        0 => valid_palette(s, 9).unwrap_or_default(),
        1 => catch(|| palette(&img, 4, 8, 0.01)).unwrap_or_default(),
        _ => any_palette(s).1,
    };
    let mut rec: Vec<[u8; 3]> = pal.iter().map(|_| color(s)).collect();
    if s.chance(1, 20) {
        rec.push(color(s));
    } else if s.chance(1, 20) {
        rec.pop();
    }
    let channels = s.chance(1, 2);
    let osub = if s.chance(1, 3) { *s.pick(SUBS) } else { "" };
    let oext = *s.pick(if png { &["png"][..] } else if channels { &["png", "png", "bmp", "tga", "PNG"][..] } else { &["png", "png", "bmp", "tga", "ppm", "PNG"][..] });
    let ostem = if s.chance(1, 3) { *s.pick(STEMS) } else { "out" };
    let mut output = format!("{osub}{ostem}.{oext}");
    let mut bad_output = false;
    match s.below(24) {
        0 => output = input.clone(), // in place
        1 => {
            output = format!("missing/{ostem}.{oext}");
            bad_output = true;
        }
        2 => {
            output = format!("{osub}{ostem}.nothing");
            bad_output = true;
        }
        3 => {
            output = ostem.replace('.', "");
            bad_output = true;
        }
        _ => (),
    }
    if channels && output.ends_with(".ppm") {
        output.truncate(output.len() - 3);
        output += "png";
    }
    let missing = s.chance(1, 24);
    let mut opts: Vec<Vec<OsString>> = vec![];
    let mut add = |s: &mut Src, short: &str, long: &str, v: &str| {
        let mut a = vec![];
        option(s, &mut a, short, long, v);
        opts.push(a);
    };
    let text = hex_text(s, &pal);
    add(s, "-d", "--decomposition-palette", &text);
    let text = hex_text(s, &rec);
    add(s, "-r", "--reconstruction-palette", &text);
    add(s, "-i", "--input-image", if missing { "none.png" } else { &input });
    add(s, "-o", "--output-image", &output);
    if channels {
        opts.push(vec![os(*s.pick(&["-c", "--save-individual-channels"]))]);
    }
    s.shuffle(&mut opts);
    let existing = s.chance(1, 4) && !bad_output && !dir.0.join(os(&output)).exists();
    if existing {
        std::fs::write(dir.0.join(os(&output)), b"was here before").expect("HARNESS: write");
    }
    let mut args = vec![os("recolor-image")];
    args.extend(opts.into_iter().flatten());
    c.desc = format!("{} on the {}", show(&args), img.describe());
    let before = outer.files();
    let o = run(&dir, &args)?;
    let mut after = outer.files();

    let d = match (&w, missing || pal.is_empty() || pal.len() != rec.len()) {
        (Ok(w), false) => catch(|| decompose(w, &pal)).and_then(|d| d),
        (Err(m), _) => Err(m.clone()),
        _ => Err("bad arguments".into()),
    };
    let d = match d {
        Err(m) => {
            ensure!(o.failed(), "this can't work ({m}), but the tool doesn't fail: {}", o.show());
            ensure!(before == after, "the tool fails ({m}), but changes or writes files: {:?}", changed(&before, &after));
            c.label(if existing { "failure, output exists" } else { "failure" });
            return Ok(());
        }
        Ok(_) if bad_output => {
            ensure!(o.failed(), "the output {output} can't be written, but the tool doesn't fail: {}", o.show());
            c.label("bad output");
            return Ok(());
        }
        Ok(d) => d,
    };
    ensure!(o.code == Some(0), "the library can do this, but the tool fails: {}", o.show());
    let Some((_, _, want)) = reconstruct(&d, &rec) else { fail!("the library can't reconstruct") };
    // expected files
    let key = |p: &str| {
        let p = format!("cwd/{p}").replace("/./", "/").replace("cwd/../", "");
        p
    };
    let okey = key(&output);
    ensure!(after.contains_key(&okey), "there is no output image, only {:?}", changed(&before, &after));
    let got = match image::open(outer.0.join(os(&okey))) {
        Ok(g) => g,
        Err(e) => fail!("the output image can't be read: {e}"),
    };
    ensure!((got.width(), got.height()) == (img.w, img.h), "the output is {}x{}", got.width(), got.height());
    let px: Vec<[u8; 3]> = got.into_rgb8().pixels().map(|p| p.0).collect();
    if let Some(i) = (0..px.len()).find(|i| px[*i] != want[*i]) {
        fail!("pixel {i} of the output is {}, the library computes {}", hex(&px[i]), hex(&want[i]));
    }
    after.remove(&okey);
    let mut before = before;
    before.remove(&okey);
    if channels {
        let p = Path::new(&output);
        let stem = p.file_stem().unwrap().to_str().unwrap();
        let ext = p.extension().unwrap().to_str().unwrap();
        let parent = &output[..output.len() - stem.len() - 1 - ext.len()];
        for (i, col) in pal.iter().enumerate() {
            let name = key(&format!("{parent}{stem}_channel_{i}_{}.{ext}", hex(col).to_uppercase()));
            ensure!(after.remove(&name).is_some(), "there is no file {name}, only {:?}", changed(&before, &after));
            before.remove(&name);
            let got = match image::open(outer.0.join(os(&name))) {
                Ok(g) => g,
                Err(e) => fail!("{name} can't be read: {e}"),
            };
            ensure!((got.width(), got.height()) == (img.w, img.h), "{name} is {}x{}", got.width(), got.height());
            let Some((_, _, want)) = channel(&d, i) else { fail!("no channel {i}") };
            let px: Vec<[u8; 3]> = got.into_rgb8().pixels().map(|p| p.0).collect();
            for k in 0..px.len() {
                ensure!(px[k] == [want[k]; 3], "pixel {k} of {name} is {}, the library computes {}", hex(&px[k]), want[k]);
            }
        }
        c.label("channels");
        if output.contains(RAW) {
            c.label("channels, name isn't UTF-8");
        }
    }
    ensure!(before == after, "the tool changes or writes other files: {:?}", changed(&before, &after));
    c.label("recolored");
    c.nontrivial = true;
    Ok(())
}

fn changed(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

/// The language of color lists: comma separated items of six hexadecimal digits
fn parse_colors(text: &[u8]) -> Option<Vec<[u8; 3]>> {
    text.split(|b| *b == b',')
        .map(|item| {
            if item.len() != 6 || !item.iter().all(|b| b.is_ascii_hexdigit()) {
                return None;
            }
            let v: Vec<u8> = item.iter().map(|b| (*b as char).to_digit(16).unwrap() as u8).collect();
            Some([v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5]])
        })
        .collect()
}

/// breaks (or doesn't) a list of colors
fn mutate(s: &mut Src, text: &mut Vec<u8>) {
    const BITS: &[&str] = &[
        "+", "-", " ", "\t", "\n", "0x", "0X", "#", ",", ",,", ";", "g", "G", "z", "_", ".", "é", "ß", "０", "Ａ", "€", "𝟎", "\u{200b}", "0", "00", "f", "FF", "ffffff",
        "\u{1}", "/", ":", "@", "`", "\\", "'", "\"", "%41",
    ];
    let at = s.urange(0, text.len());
    match s.below(6) {
        0 => {
            let b = *s.pick(BITS);
            text.splice(at..at, b.bytes());
        }
        1 | 2 => {
            // replaces characters, so that lengths stay what they were if possible
            let b = *s.pick(BITS);
            let n = b.len().min(text.len() - at);
            text.splice(at..at + n, b.bytes());
        }
        3 => {
            let n = s.urange(1, 3).min(text.len() - at);
            text.drain(at..at + n);
        }
        4 => {
            // moves a comma
            if let Some(i) = text.iter().position(|b| *b == b',') {
                text.remove(i);
                let j = s.urange(0, text.len());
                text.insert(j, b',');
            }
        }
        _ => {
            // the same number of commas, another number of digits
            let items: Vec<&[u8]> = text.split(|b| *b == b',').collect();
            let k = s.urange(0, items.len() - 1);
            let mut items: Vec<Vec<u8>> = items.into_iter().map(|i| i.to_vec()).collect();
            let n = *s.pick(&[0usize, 3, 5, 7, 8, 12]);
            items[k] = (0..n).map(|_| *s.pick(b"0123456789abcdefABCDEF")).collect();
            *text = items.join(&b","[..]);
        }
    }
    text.retain(|b| *b != 0);
}

/// The tool has no limit for the number of colors, unlike the C interface.
fn many_colors(s: &mut Src, c: &mut Case) -> Vec<[u8; 3]> {
    let p = match s.below(3) {
        0 => hull256(),
        1 => big_palette(s),
        _ => {
            let p = more_than_255(s).px;
            extreme_palette(&p).unwrap_or(p)
        }
    };
    c.label(if p.len() > 255 { "more than 255 colors" } else { "many colors" });
    p
}

fn c17_colors(s: &mut Src, c: &mut Case) -> Res {
    let dir = Scratch::new();
    let img = image(s, 24);
    let input = dir.0.join("in.png");
    img.rgb().save(&input).expect("HARNESS: save image");
    c.label(img.class);
    let pal = match s.chance(1, 16) {
        true => many_colors(s, c),
        false => valid_palette(s, 6).unwrap_or_else(|| vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]]),
    };
    let rec: Vec<[u8; 3]> = pal.iter().map(|_| color(s)).collect();
    let mut d = hex_text(s, &pal).into_bytes();
    let mut r = hex_text(s, &rec).into_bytes();
    let k = s.weighted(&[2, 4, 4, 1, 1]);
    for (list, on) in [(&mut d, k == 1 || k == 3), (&mut r, k == 2 || k == 3)] {
        if on {
            for _ in 0..s.urange(1, 2) {
                mutate(s, list);
            }
        }
    }
    if k == 4 {
        // lists of different lengths
        let longer = s.chance(1, 2);
        let l = if s.chance(1, 2) { &mut d } else { &mut r };
        if longer {
            l.extend(b",010203");
        } else {
            l.truncate(l.len() - 7);
        }
    }
    if k == 0 && s.chance(1, 4) {
        // bytes that aren't text
        let l = if s.chance(1, 2) { &mut d } else { &mut r };
        let at = s.urange(0, l.len() - 1);
        l[at] = 0x80 | s.byte();
    }
    let mut args: Vec<OsString> = vec![os("recolor-image")];
    let mut opts: Vec<Vec<OsString>> = vec![];
    for (short, long, v) in [("-d", "--decomposition-palette", &d), ("-r", "--reconstruction-palette", &r), ("-i", "--input-image", &b"in.png".to_vec()), ("-o", "--output-image", &b"out.png".to_vec())] {
        let dash = v.first().map_or(true, |b| *b == b'-');
        opts.push(match s.below(3) {
            0 if !dash => vec![os(short), OsString::from_vec(v.clone())],
            1 if !dash => vec![os(long), OsString::from_vec(v.clone())],
            _ => vec![OsString::from_vec([long.as_bytes(), b"=", v].concat())],
        });
    }
    s.shuffle(&mut opts);
    args.extend(opts.into_iter().flatten());
    c.desc = format!("{} on the {}", show(&args), img.describe());
    let before = dir.files();
    let o = run(&dir, &args)?;
    let after = dir.files();
    let (pd, pr) = (parse_colors(&d), parse_colors(&r));
    let valid = pd.is_some() && pr.is_some();
    match (pd, pr) {
        (Some(pd), Some(pr)) if pd.len() == pr.len() => {
            c.label("valid lists");
            let e = catch(|| {
                let w = weights(&img);
                decompose(&w, &pd).map(|d| reconstruct(&d, &pr))
            });
            match e {
                Ok(Ok(Some((_, _, want)))) => {
                    ensure!(o.code == Some(0), "valid arguments are refused: {}", o.show());
                    let got = match image::open(dir.0.join("out.png")) {
                        Ok(g) => g.into_rgb8(),
                        Err(e) => fail!("no output: {e}"),
                    };
                    let px: Vec<[u8; 3]> = got.pixels().map(|p| p.0).collect();
                    ensure!(px == want, "the colors mean something else: the output is {}, should be {}", hexes(&px), hexes(&want));
                    c.nontrivial = true;
                    return Ok(());
                }
                _ => {
                    ensure!(o.failed(), "the library fails, the tool doesn't: {}", o.show());
                    c.label("refused by the library");
                }
            }
        }
        _ => {
            c.label(if valid { "different lengths" } else { "malformed" });
            ensure!(o.failed(), "malformed arguments are accepted: {}", o.show());
            c.nontrivial = true;
        }
    }
    ensure!(before == after, "the tool fails, but changes or writes {:?}", changed(&before, &after));
    Ok(())
}

fn c17_sizes(s: &mut Src, c: &mut Case) -> Res {
    let dir = Scratch::new();
    // a hull with many vertices, so that the sizes matter
    let img = if s.chance(1, 2) { image(s, 40) } else { fill_sphere(s) };
    img.rgb().save(dir.0.join("in.png")).expect("HARNESS: save image");
    c.label(img.class);
    let text = |s: &mut Src| -> String {
        match s.weighted(&[4, 4, 3]) {
            0 => s.range(4, 14).to_string(),
            1 => (*s.pick(&["0", "1", "2", "3", "4", "5", "254", "255", "256", "257", "260", "511", "512", "999", "65536", "65540", "4294967300", "18446744073709551620", "007", "0255", "0256"])).to_string(),
            _ => (*s.pick(&["", " ", "x", "4 ", " 4", "4.0", "4e0", "0x4", "-1", "-4", "four", "4,5", "４", "1_0", "nan", "5f", "٤", "4\n", "5u8"])).to_string(),
        }
    };
    let min = s.chance(2, 3).then(|| text(s));
    let max = s.chance(2, 3).then(|| text(s));
    let eb = s.chance(1, 4).then(|| (*s.pick(&["0.01", "0.1", "", "x", "0,1", "0x1", "1/255", "0.1.", "1e", "--", "0.002", "1e-4"])).to_string());
    let mut opts: Vec<Vec<OsString>> = vec![vec![os("in.png")]];
    for (long, v) in [("--min-size", &min), ("--max-size", &max), ("--error-bound", &eb)] {
        if let Some(v) = v {
            if s.chance(1, 2) || v.starts_with('-') {
                opts.push(vec![os(&format!("{long}={v}"))]);
            } else {
                opts.push(vec![os(long), os(v)]);
            }
        }
    }
    s.shuffle(&mut opts);
    let mut args = vec![os("generate-palette")];
    args.extend(opts.into_iter().flatten());
    c.desc = format!("{} on the {}", show(&args), img.describe());
    let before = dir.files();
    let o = run(&dir, &args)?;
    ensure!(before == dir.files(), "files are changed");
    let num = |t: &Option<String>, lo: u64, default: usize| -> Option<usize> {
        match t {
            None => Some(default),
            Some(t) if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) => None,
            Some(t) => t.parse::<u64>().ok().filter(|v| (lo..=255).contains(v)).map(|v| v as usize),
        }
    };
    let e: Option<f64> = match &eb {
        None => Some(2.0 / 255.0),
        Some(t) => t.parse().ok(),
    };
    match (num(&min, 4, 4), num(&max, 0, 10), e) {
        (Some(min), Some(max), Some(eb)) => {
            let e = catch(|| palette(&img, min, max, eb));
            expect_palette(&o, &e)?;
            c.label("valid sizes");
            c.nontrivial = e.is_ok();
        }
        _ => {
            ensure!(o.failed(), "malformed arguments are accepted: {}", o.show());
            ensure!(o.out.is_empty(), "malformed arguments: {}", o.show());
            c.label("malformed sizes");
            c.nontrivial = true;
        }
    }
    Ok(())
}

fn fill_sphere(s: &mut Src) -> Img {
    let (w, h) = (s.urange(3, 6) as u32, s.urange(3, 6) as u32);
    let px = (0..w * h)
        .map(|_| {
            let v = [s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0, s.unit() * 2.0 - 1.0];
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
            v.map(|x| (127.5 + x / l * 120.0).round() as u8)
        })
        .collect();
    Img { w, h, px, class: "sphere" }
}

fn c17_structure(s: &mut Src, c: &mut Case) -> Res {
    // a valid command line with something missing, twice, or unknown
    let dir = Scratch::new();
    let img = image(s, 24);
    img.rgb().save(dir.0.join("in.png")).expect("HARNESS: save image");
    let pal = "000000,ff0000,00ff00,0000ff,ffffff";
    let mut parts: Vec<Vec<OsString>> = if s.chance(1, 3) {
        vec![vec![os("in.png")]]
    } else {
        vec![vec![os("-d"), os(pal)], vec![os("-r"), os(pal)], vec![os("-i"), os("in.png")], vec![os("-o"), os("out.png")]]
    };
    let cmd = if parts.len() == 1 { "generate-palette" } else { "recolor-image" };
    let mut args = vec![os(cmd)];
    let k = s.urange(0, parts.len() - 1);
    let what = match s.below(6) {
        0 => {
            parts.remove(k);
            "missing"
        }
        1 => {
            let p = parts[k].clone();
            parts.push(p);
            "twice"
        }
        2 => {
            parts.push(vec![os(*s.pick(&["--unknown", "-x", "extra", "--max", "-C", "--palette=4"]))]);
            "unknown"
        }
        3 => {
            args[0] = os(*s.pick(&["recolor", "palette", "generate_palette", "", "RECOLOR-IMAGE", "--", "recolor-images"]));
            "unknown command"
        }
        4 => {
            let n = parts[k].len() - 1;
            parts[k][n] = OsString::new();
            "empty"
        }
        _ => {
            let i = parts.iter().position(|p| p.last().unwrap() == "in.png").unwrap();
            let n = parts[i].len() - 1;
            let (name, content) = *s.pick(&[("absent.png", &b""[..]), ("empty.png", b""), ("text.png", b"not an image"), ("cut.png", b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR"), (".", b"")]);
            if name != "absent.png" && name != "." {
                std::fs::write(dir.0.join(name), content).expect("HARNESS: write");
            }
            parts[i][n] = os(name);
            "unreadable image"
        }
    };
    args.extend(parts.into_iter().flatten());
    c.label(what);
    c.desc = format!("{} on the {}", show(&args), img.describe());
    let before = dir.files();
    let o = run(&dir, &args)?;
    ensure!(o.failed(), "({what}) malformed arguments are accepted: {}", o.show());
    ensure!(o.out.is_empty(), "({what}) the tool fails, but prints: {}", o.show());
    let after = dir.files();
    ensure!(before == after, "({what}) the tool fails, but changes or writes {:?}", changed(&before, &after));
    c.nontrivial = true;
    Ok(())
}

fn c17(s: &mut Src, c: &mut Case) -> Res {
    match s.weighted(&[12, 5, 2]) {
        0 => c17_colors(s, c),
        1 => c17_sizes(s, c),
        _ => c17_structure(s, c),
    }
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C16",
        rule: "image files (png, bmp, ppm, tga; 8 and 16 bit, gray, alpha) of up to 60 pixels in a scratch directory, both commands with any options in any spelling and order, existing, missing and unwritable outputs; non-trivial: an image or a palette was produced",
        quick: 20_000,
        thorough: 120_000,
        run: c16,
        needs: &["cli"],
        floors: &[("recolored", 1000), ("channels", 500), ("failure", 300), ("failure, output exists", 50), ("palette", 800), ("no palette", 50), ("default parameters", 50), ("rgba", 500), ("16 bit rgb", 300), ("bad output", 100)],
        assumptions: &["the Rust library is the reference (checked by C06 to C12), the image crate decodes correctly"],
    },
    Prop {
        id: "C17",
        rule: "command lines with color lists that are mutated near the edge of the language, with size texts around the limits, or with a missing, duplicate or unknown part; non-trivial: malformed, or accepted and judged by its effect",
        quick: 40_000,
        thorough: 150_000,
        run: c17,
        needs: &["cli"],
        floors: &[("malformed", 1000), ("valid lists", 500), ("different lengths", 100), ("malformed sizes", 500), ("valid sizes", 300)],
        assumptions: &["a sign in front of a size isn't judged"],
    },
];
