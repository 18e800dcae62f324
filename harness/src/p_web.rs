//! C19, C20: the code of the web page, run by node with stand-ins for everything around it.

use crate::engine::*;
use crate::{ensure, fail};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

struct Node {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    used: u32,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn start() -> Node {
    let mut child = Command::new("node")
        .args(["--no-warnings", "--experimental-vm-modules", "--max-old-space-size=1500"])
        .arg(format!("{}/web/driver.mjs", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())))
        .arg("/repo/image-palette-recoloring-web")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("HARNESS: can't start node");
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Node { child, stdin, rx, used: 0 }
}

/// Runs one case in node.
fn node(case: &Value) -> Result<Value, Fail> {
    let mut n = NODE.with(|n| n.borrow_mut().take()).unwrap_or_else(start);
    n.used += 1;
    let before = cpu_seconds(n.child.id());
    n.stdin.write_all(format!("{case}\n").as_bytes()).and_then(|_| n.stdin.flush()).expect("HARNESS: node is gone");
    let limit = 40.0;
    let line = match n.rx.recv_timeout(Duration::from_secs_f64(limit)) {
        Ok(l) => l,
        Err(mpsc::RecvTimeoutError::Timeout) => {
            let busy = cpu_seconds(n.child.id()) - before > 0.8 * limit;
            assert!(busy, "HARNESS: node is late");
            fail!("the code runs in an endless loop");
        }
        Err(_) => panic!("HARNESS: node died"),
    };
    let v: Value = serde_json::from_str(&line).expect("HARNESS: answer of node");
    if n.used < 400 && v.get("error").is_none() {
        NODE.with(|s| *s.borrow_mut() = Some(n));
    }
    if let Some(e) = v.get("error") {
        let e = e.as_str().unwrap_or("");
        // the stand-ins are the harness, anything else is the code under test
        ensure!(e.contains("/repo/"), "HARNESS: {e}");
        fail!("the code can't be loaded: {e}");
    }
    Ok(v)
}

#[derive(Debug)]
enum Expect {
    Weights { rgba: Vec<u8>, w: u64, h: u64 },
    Palette { rgba: Vec<u8>, w: u64, h: u64, min: u64, max: u64, bound: f64, colors: Vec<[u8; 3]> },
    Decompose { of: usize, palette: Vec<[u8; 3]> },
    Reconstruct { of: usize, palette: Vec<[u8; 3]>, size: (u64, u64) },
    Channel { of: usize, n: u64, size: (u64, u64) },
    FreeWeights(usize),
    FreeDecomposed(usize),
    /// no call of the library, but an error
    Refused,
}

fn colors(s: &mut Src, n: usize) -> Vec<[u8; 3]> {
    (0..n).map(|_| [s.byte(), s.byte(), s.byte()]).collect()
}

fn bytes(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|x| x as u8)).collect()
}

fn rgb_of(rgba: &[u8]) -> Vec<u8> {
    rgba.chunks(4).flat_map(|p| [p[0], p[1], p[2]]).collect()
}

/// Where the library's memory starts; the worker allows for 4 GiB of it
fn base(s: &mut Src, c: &mut Case) -> u64 {
    if !s.chance(1, 12) {
        return 0;
    }
    c.label("a lot of memory in use");
    *s.pick(&[0x7fff_0000u64, 0x8000_0000, 0x9000_0000, 0xf000_0000])
}

fn c19(s: &mut Src, c: &mut Case) -> Res {
    let init_fails = s.chance(1, 60);
    let mut requests = vec![];
    let mut expect = vec![];
    let mut faults = json!({});
    let mut fallible = 0u64;
    let mut palettes: Vec<Vec<[u8; 3]>> = vec![];
    let mut failing: Vec<Option<&str>> = vec![];
    // usable handles: (request, width, height) and (request, channels, width, height)
    let mut weights: Vec<(usize, u64, u64)> = vec![];
    let mut decomposed: Vec<(usize, usize, u64, u64)> = vec![];
    let mut new_weights = vec![];
    let mut new_decomposed = vec![];
    let n = s.urange(1, 14);
    let mut last_size = (3, 2);
    for i in 0..n {
        let large = i < 2 && s.chance(1, 150);
        if large {
            c.label("large image");
        }
        let long = if large { *s.pick(&[32_767, 32_768, 65_535, 65_536, 65_537, 70_000]) } else { 0 };
        let (w, h) = match s.weighted(&[6, 1, 1, 2]) {
            _ if large => match s.below(3) {
                0 => (long, 1),
                1 => (1, long),
                _ => (s.range(255, 300), s.range(255, 300)),
            },
            0 => (s.range(1, 9), s.range(1, 9)),
            1 => (s.range(1, 40), 1),
            2 => (s.range(20, 120), s.range(20, 120)),
            _ => last_size,
        };
        let mut fault = if s.chance(1, 5) { Some(*s.pick(&["null", "trap", "unset"])) } else { None };
        let pixels = |s: &mut Src| -> Vec<u8> {
            if w * h > 200 {
                let m = s.byte().max(1) as u64;
                (0..4 * w * h).map(|k| (k * m % 251) as u8).collect()
            } else {
                (0..4 * w * h).map(|_| s.byte()).collect()
            }
        };
        let mut calls = true;
        let (method, args, e) = match s.weighted(&[5, 4, 8, 8, 6, 1, 1, 1]) {
            2 if !weights.is_empty() => {
                let (of, w, h) = *s.pick(&weights);
                let k = match s.weighted(&[6, 1]) { 0 => s.urange(4, 10), _ => s.urange(0, 255) };
                let p = colors(s, k);
                if fault.is_none() {
                    new_decomposed.push((i, k, w, h));
                }
                ("createDecomposedImage", json!([{"handle": of}, p]), Expect::Decompose { of, palette: p })
            }
            3 if !decomposed.is_empty() => {
                let (of, k, w, h) = *s.pick(&decomposed);
                let wrong = s.chance(1, 8);
                let m = if wrong { s.urange(0, 14) } else { k };
                let p = colors(s, m);
                if m != k {
                    calls = false;
                    fault = None;
                    c.label("wrong number of colors");
                    ("reconstructImage", json!([{"handle": of}, p]), Expect::Refused)
                } else {
                    ("reconstructImage", json!([{"handle": of}, p]), Expect::Reconstruct { of, palette: p, size: (w, h) })
                }
            }
            4 if !decomposed.is_empty() => {
                let (of, k, w, h) = *s.pick(&decomposed);
                let n = if k > 0 && !s.chance(1, 5) { s.range(0, k as u64 - 1) } else { s.range(k as u64, 255) };
                if n >= k as u64 {
                    c.label("wrong channel");
                }
                ("grayscaleImageChannel", json!([{"handle": of}, n]), Expect::Channel { of, n, size: (w, h) })
            }
            5 if !weights.is_empty() => {
                let k = s.urange(0, weights.len() - 1);
                let of = weights.remove(k).0;
                calls = false;
                ("freeImageWeights", json!([{"handle": of}]), Expect::FreeWeights(of))
            }
            6 if !decomposed.is_empty() => {
                let k = s.urange(0, decomposed.len() - 1);
                let of = decomposed.remove(k).0;
                calls = false;
                ("freeDecomposedImage", json!([{"handle": of}]), Expect::FreeDecomposed(of))
            }
            7 => {
                calls = false;
                (*s.pick(&["unknown", "", "createimageweights"]), json!([1, 2]), Expect::Refused)
            }
            1 => {
                let rgba = pixels(s);
                let (min, max, bound) = (s.range(0, 255), s.range(0, 255), s.range(0, 255) as f64 / 256.0);
                let k = match s.weighted(&[6, 1]) { 0 => s.urange(4, 12), _ => s.urange(4, 255) };
                let p = colors(s, k);
                if fault.is_none() {
                    palettes.push(p.clone());
                }
                ("computePalette", json!([{"rgba": rgba}, w, h, min, max, bound]), Expect::Palette { rgba, w, h, min, max, bound, colors: p })
            }
            _ => {
                let rgba = pixels(s);
                last_size = (w, h);
                if fault.is_none() {
                    new_weights.push((i, w, h));
                }
                ("createImageWeights", json!([{"rgba": rgba}, w, h]), Expect::Weights { rgba, w, h })
            }
        };
        if calls {
            if let Some(f) = fault {
                // only a palette has a size that can be left unset
                let f = if f == "unset" && method != "computePalette" { "null" } else { f };
                faults[fallible.to_string()] = json!(f);
                c.label(format!("{f} in {method}"));
                fault = Some(f);
            }
            fallible += 1;
        } else {
            fault = None;
        }
        failing.push(fault);
        let wait = i + 1 == n || !s.chance(1, 4);
        requests.push(json!({"method": method, "args": args, "wait": wait}));
        expect.push(e);
        if wait {
            weights.append(&mut new_weights);
            decomposed.append(&mut new_decomposed);
        }
    }
    let grow: Vec<u64> = if s.chance(1, 2) { (0..s.urange(1, 4)).map(|_| s.range(0, 30)).collect() } else { vec![] };
    if !grow.is_empty() {
        c.label("memory grows");
    }
    if requests.iter().any(|r| r["wait"] == json!(false)) {
        c.label("overlapping requests");
    }
    let base = base(s, c);
    let plan = json!({"kind": "worker", "base": base, "requests": requests, "faults": faults, "grow": grow, "palettes": palettes, "init_fails": init_fails});
    c.desc = plan.to_string();
    let r = node(&plan)?;
    if let Some(v) = r["violations"].as_array().unwrap().first() {
        fail!("{}", v.as_str().unwrap_or(""));
    }
    for l in r["leaks"].as_array().unwrap() {
        ensure!(l["buffers"].as_array().unwrap().is_empty(), "after request {} there remain {}", l["after"], l["buffers"]);
    }
    // calls of each function in order
    let mut calls: std::collections::HashMap<String, std::collections::VecDeque<&Value>> = Default::default();
    for k in r["calls"].as_array().unwrap() {
        calls.entry(k["fn"].as_str().unwrap().into()).or_default().push_back(k);
    }
    // what the worker returned for a request that created something
    let mut ptrs: Vec<Value> = vec![];
    for (i, e) in expect.iter().enumerate() {
        let out = r["outcomes"][i].as_array().unwrap();
        ensure!(out.len() == 1, "request {i} ({}) has {} answers: {:?}", requests[i]["method"], out.len(), out);
        let kind = out[0]["kind"].as_str().unwrap();
        let p = &out[0]["payload"];
        ptrs.push(if p.is_array() { p[0].clone() } else { p.clone() });
        let method = requests[i]["method"].as_str().unwrap();
        if init_fails || matches!(e, Expect::Refused) {
            ensure!(kind != "response", "request {i} ({method}) must fail, but is answered with {p}");
            continue;
        }
        let name = match e {
            Expect::Weights { .. } => "create_image_weights",
            Expect::Palette { .. } => "compute_palette",
            Expect::Decompose { .. } => "create_decomposed_image",
            Expect::Reconstruct { .. } => "reconstruct_image",
            Expect::Channel { .. } => "grayscale_image_channel",
            Expect::FreeWeights(_) => "free_image_weights",
            Expect::FreeDecomposed(_) => "free_decomposed_image",
            Expect::Refused => unreachable!(),
        };
        let Some(call) = calls.get_mut(name).and_then(|q| q.pop_front()) else { fail!("request {i} ({method}) doesn't call {name}") };
        let input = call.get("bytes").and_then(bytes);
        let failed = failing[i].is_some() || matches!(e, Expect::Channel { .. } if call.get("out").is_none());
        match e {
            Expect::Weights { rgba, w, h } | Expect::Palette { rgba, w, h, .. } => {
                ensure!(call["width"] == json!(w) && call["height"] == json!(h), "request {i} ({method}): the size {w}x{h} becomes {}x{}", call["width"], call["height"]);
                ensure!(input.as_deref() == Some(&rgb_of(rgba)[..]), "request {i} ({method}): the library gets other pixels: {input:?}");
            }
            Expect::Decompose { palette, .. } | Expect::Reconstruct { palette, .. } => {
                let want: Vec<u8> = palette.iter().flatten().copied().collect();
                ensure!(input.as_deref() == Some(&want[..]), "request {i} ({method}): the library gets the palette {input:?} instead of {want:?}");
            }
            _ => (),
        }
        match e {
            Expect::Palette { min, max, bound, .. } => ensure!(
                call["min"] == json!(min) && call["max"] == json!(max) && call["bound"].as_f64() == Some(*bound),
                "request {i} ({method}): {min}, {max}, {bound} become {}, {}, {}", call["min"], call["max"], call["bound"]
            ),
            Expect::Decompose { of, palette } => {
                ensure!(call["weights"] == ptrs[*of], "request {i} ({method}): other weights");
                ensure!(call["n"] == json!(palette.len()), "request {i} ({method}): {} colors instead of {}", call["n"], palette.len());
            }
            Expect::Reconstruct { of, .. } => ensure!(call["d"] == ptrs[*of], "request {i} ({method}): other decomposition"),
            Expect::Channel { of, n, .. } => ensure!(call["d"] == ptrs[*of] && call["n"] == json!(n), "request {i} ({method}): calls channel {} of {}", call["n"], call["d"]),
            Expect::FreeWeights(of) | Expect::FreeDecomposed(of) => ensure!(call["at"] == ptrs[*of], "request {i} ({method}): frees something else"),
            _ => (),
        }
        if failed {
            ensure!(kind != "response", "request {i} ({method}): the library call fails ({}), but the answer is {p}", failing[i].unwrap_or("refused"));
            continue;
        }
        ensure!(kind == "response", "request {i} ({method}) fails although the library call doesn't: {p}");
        match e {
            Expect::Weights { rgba, .. } => {
                ensure!(p[0] == call["ret"], "request {i} ({method}): answers {} instead of the handle {}", p[0], call["ret"]);
                ensure!(bytes(&p[1]["bytes"]).as_deref() == Some(&rgba[..]), "request {i} ({method}) doesn't return the pixels");
            }
            Expect::Palette { rgba, colors, .. } => {
                ensure!(p[0] == json!(colors), "request {i} ({method}): answers {} instead of {colors:?}", p[0]);
                ensure!(bytes(&p[1]["bytes"]).as_deref() == Some(&rgba[..]), "request {i} ({method}) doesn't return the pixels");
            }
            Expect::Decompose { .. } => ensure!(*p == call["ret"], "request {i} ({method}): answers {p} instead of the handle {}", call["ret"]),
            Expect::Reconstruct { size, .. } | Expect::Channel { size, .. } => {
                let out = bytes(&call["out"]).unwrap();
                let want: Vec<u8> = if matches!(e, Expect::Reconstruct { .. }) {
                    out.chunks(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect()
                } else {
                    out.iter().flat_map(|v| [*v, *v, *v, 255]).collect()
                };
                ensure!(p["blob"] == json!(true) && p["width"] == json!(size.0) && p["height"] == json!(size.1), "request {i} ({method}): the image is {}x{} instead of {}x{}", p["width"], p["height"], size.0, size.1);
                ensure!(bytes(&p["data"]).as_deref() == Some(&want[..]), "request {i} ({method}): the image has other pixels than the library computed");
            }
            _ => (),
        }
        c.nontrivial = true;
    }
    for (f, q) in &calls {
        ensure!(q.is_empty(), "{f} is called {} times more than requested", q.len());
    }
    if init_fails {
        c.label("the library can't be loaded");
    }
    Ok(())
}

fn hex(s: &mut Src) -> String {
    format!("#{:02x}{:02x}{:02x}", s.byte(), s.byte(), s.byte())
}

/// Texts a user could type into the text field of a color.
fn text(s: &mut Src) -> String {
    let mut t = hex(s);
    match s.weighted(&[8, 3, 3, 2, 2, 1, 1, 1, 1, 1, 3]) {
        0 => (),
        1 => t = t.to_uppercase(),
        2 => t = t.chars().map(|ch| if s.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }).collect(),
        3 => t.truncate(s.urange(0, 6)),
        4 => t.push(*s.pick(&['0', 'f', ' ', 'x'])),
        5 => t = t[1..].into(),
        6 => t = format!("0{}", &t[1..]),
        7 => t = format!("#{t}"),
        8 => t = format!("#{}", *s.pick(&["12 456", "1234 6", " 23456", "-12345", "1e2+30", "0x1234", "12345g", "é12345", "12345\u{1F600}", "gggggg", "#00000"])),
        9 => t = s.pick(&["red", "", " ", "#", "transparent", "rgb(1,2,3)", "#fff", "#ffff"]).to_string(),
        _ => {
            // one character that isn't allowed
            let i = s.urange(0, 6);
            let with = *s.pick(&['g', 'G', '/', ':', '@', '`', 'z', ' ', '#', '.', '-', '\u{ff11}']);
            t = t.chars().enumerate().map(|(k, ch)| if k == i { with } else { ch }).collect();
        }
    }
    t
}

fn c20(s: &mut Src, c: &mut Case) -> Res {
    let images: Vec<Value> = (0..s.urange(1, 4))
        .map(|i| {
            let (w, h) = if s.chance(1, 3) { (2, 2) } else { (s.range(1, 6), s.range(1, 6)) };
            let mut rgba: Vec<u8> = (0..4 * w * h).map(|_| s.byte()).collect();
            // all differ
            rgba[0] = i as u8;
            json!({"width": w, "height": h, "rgba": rgba})
        })
        .collect();
    let mut palettes: Vec<Vec<[u8; 3]>> = vec![];
    for _ in 0..s.urange(1, 5) {
        let mut k = s.urange(4, 9);
        if s.chance(1, 25) {
            k = s.urange(10, 40);
        }
        let mut p = colors(s, k);
        if s.chance(1, 4) {
            // short hexadecimal numbers
            p.iter_mut().flatten().for_each(|x| *x %= 20);
        }
        palettes.push(p);
    }
    let mut faults = json!({});
    if s.chance(2, 5) {
        for _ in 0..s.urange(1, 4) {
            let k = s.urange(0, 45);
            faults[k.to_string()] = json!(*s.pick(&["null", "trap", "unset"]));
        }
    }
    let slow = s.chance(1, 2);
    let mut steps = vec![];
    if !slow || s.chance(2, 3) {
        steps.push(json!(["all", 0, 0, ""]));
    }
    for _ in 0..s.urange(1, 24) {
        let w: &[u64] = if slow { &[6, 2, 3, 3, 3, 12, 12, 5, 1] } else { &[6, 3, 4, 4, 3, 1, 1, 2, 8] };
        let (a, b) = (s.urange(0, 11), s.urange(0, 3));
        steps.push(match s.weighted(w) {
            0 => json!(["click", a, 0, ""]),
            1 => json!(["pick", a, 0, ""]),
            2 => json!(["text", a, b, text(s)]),
            3 => json!(["color", a, b % 2, hex(s)]),
            4 => {
                let v = if a % 3 == 2 { format!("{}", s.range(0, 400) as f64 / 8.0) } else { s.range(4, 40).to_string() };
                json!(["size", a, 0, v])
            }
            5 => json!(["work", 0, 0, ""]),
            6 => json!(["answer", 0, 0, ""]),
            7 => json!(["load", 0, 0, ""]),
            _ => json!(["all", 0, 0, ""]),
        });
    }
    let grow: Vec<u64> = if s.chance(1, 8) { (0..s.urange(1, 4)).map(|_| s.range(0, 60)).collect() } else { vec![] };
    let base = base(s, c);
    let plan = json!({"kind": "page", "base": base, "images": images, "steps": steps, "faults": faults, "grow": grow, "palettes": palettes, "fetched": if s.chance(1, 10) { s.urange(0, 12) } else { 0 }});
    c.desc = plan.to_string();
    let r = node(&plan)?;
    let stat = |k: &str| r["stats"][k].as_u64().expect("HARNESS: statistics");
    for k in ["errors", "ignored", "during", "clicks", "edits", "invalid"] {
        if stat(k) > 0 {
            c.label(k);
        }
    }
    if stat("images") > 1 {
        c.label("images");
    }
    c.nontrivial = stat("clicks") + stat("images") > 1 && stat("compared") > 0;
    if let Some(v) = r["violations"].as_array().unwrap().first() {
        fail!("{} (after {})", v.as_str().unwrap_or(""), r["log"].as_array().unwrap().iter().map(|l| l.as_str().unwrap_or("")).collect::<Vec<_>>().join(" "));
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C19",
        rule: "histories of 1 to 14 requests, partly overlapping, with images of up to 120x120 pixels, palettes of up to 255 colors, library calls that return null or trap, and a memory that grows during chosen calls; non-trivial: a request succeeded",
        quick: 14_000,
        thorough: 400_000,
        run: c19,
        needs: &["web"],
        floors: &[("memory grows", 1000), ("overlapping requests", 1000), ("trap in reconstructImage", 100), ("null in createDecomposedImage", 100), ("unset in computePalette", 50), ("wrong number of colors", 100), ("wrong channel", 100)],
        assumptions: &["node stands in for the browser; the packages @bjorn3/browser_wasi_shim and async-thread-worker are stand-ins with the interface that the code uses"],
    },
    Prop {
        id: "C20",
        rule: "histories of up to 25 steps of the user, the worker and the browser (clicks, images, typed texts, chosen colors, sizes; requests handled, answers delivered, images loaded in any order), with up to 4 images, palettes of 4 to 40 colors, and library calls that return null or trap; non-trivial: there was more than one operation, and something displayed was compared with what was sent",
        quick: 9_000,
        thorough: 300_000,
        run: c20,
        needs: &["web"],
        floors: &[("errors", 1000), ("during", 500), ("edits", 1000), ("invalid", 500), ("images", 1000), ("clicks", 1000)],
        assumptions: &["node stands in for the browser; the document, images, object URLs and the thread are stand-ins with the interface and the rules of a browser"],
    },
];
