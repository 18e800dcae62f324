//! Choice-sequence based case generation, worker processes, shrinking, evidence.
//!
//! A case is a pure function of a sequence of bounded integers ("choices"). Case `i` of property P
//! draws them from a PRNG seeded with (P, VERIF_SEED, i); replaying and shrinking feed an explicit
//! sequence instead. Cases run in worker processes, so an abort or a signal is the outcome of one
//! case, like a panic or a failed assertion.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: impl IntoIterator<Item = u8>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn seeded(prop: &str, seed: u64, index: u64) -> Self {
        let mut s = fnv(prop.bytes()) ^ seed.wrapping_mul(0xD1342543DE82EF95);
        let a = splitmix(&mut s);
        let mut s2 = a ^ index.wrapping_mul(0xA0761D6478BD642F);
        splitmix(&mut s2);
        Src { state: s2, replay: None, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), rec: vec![] }
    }
    /// uniform in 0..n; 0 is the "simplest" choice
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => ((splitmix(&mut self.state) as u128 * n as u128) >> 64) as u64,
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; false is the simplest choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// uniform in [0, 1), on a grid of 2^20
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 20) as f64 / (1u64 << 20) as f64
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            // choice 0 keeps the element where it is
            let j = i - self.below(i as u64 + 1) as usize;
            items.swap(i, j);
        }
    }
}

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub desc: String,
}

impl Case {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s)
        }
    }
}

pub struct Fail {
    pub msg: String,
    /// Exact signature for the known findings file
    pub sig: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: String::new() }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.into(), sig: String::new() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Fail::from(format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Fail::from(format!($($arg)*))) } };
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of cases in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Case) -> Res,
    /// external programs which are needed: "cli", "clib"
    pub needs: &'static [&'static str],
    /// labels that a healthy run must have reached at least this often (quick tier)
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs code under test; a panic is returned as an error message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(p: &Prop, mut src: Src) -> Value {
    let mut case = Case::default();
    let res = catch(|| (p.run)(&mut src, &mut case));
    let (status, msg, sig) = match res {
        Ok(Ok(())) => ("ok", String::new(), String::new()),
        Ok(Err(f)) => ("fail", f.msg, f.sig),
        // A panic of the harness itself must not be reported as a violation.
        Err(m) if m.contains("HARNESS:") || ["engine", "exact", "lp", "p_cli", "p_web", "p_model"].iter().any(|f| m.contains(&format!("at src/{f}.rs"))) => ("error", m, String::new()),
        Err(m) => ("fail", format!("panic: {m}"), String::new()),
    };
    let hash = fnv(src.rec.iter().flat_map(|c| c.to_le_bytes()));
    let mut v = json!({
        "status": status, "msg": msg, "sig": sig, "nontrivial": case.nontrivial,
        "labels": case.labels, "hash": hash,
    });
    let keep = status != "ok" || (case.nontrivial && hash % 16 == 0);
    if keep {
        let mut d = case.desc;
        if d.len() > 6000 {
            let mut n = 6000;
            while !d.is_char_boundary(n) { n -= 1 }
            d.truncate(n);
            d.push_str("...");
        }
        v["desc"] = json!(d);
    }
    if status != "ok" {
        v["choices"] = json!(src.rec);
    }
    v
}

/// Reads jobs from stdin (`i <seed> <index>` or `c <choices...>`), writes one JSON line for each.
pub fn worker(p: &Prop) {
    install_panic_hook();
    let stdin = std::io::stdin();
    // Keep a private copy of stdout, so that nothing the code under test prints can get into the
    // protocol.
    let out_fd = unsafe { libc::dup(1) };
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
    }
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(out_fd) };
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let mut parts = line.split_ascii_whitespace();
        let src = match parts.next() {
            Some("i") => {
                let seed: u64 = parts.next().unwrap().parse().unwrap();
                let idx: u64 = parts.next().unwrap().parse().unwrap();
                Src::seeded(p.id, seed, idx)
            }
            Some("c") => Src::replay(parts.map(|x| x.parse().unwrap()).collect()),
            _ => continue,
        };
        let v = run_case(p, src);
        let _ = out.write_all(format!("{v}\n").as_bytes());
    }
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    err: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}

enum Answer {
    Line(Value),
    Died(String),
    /// whether the process was busy all the time
    Timeout(bool),
}

impl Worker {
    fn spawn(id: &str) -> Worker {
        let exe = std::env::current_exe().unwrap();
        let mut child = Command::new(exe)
            .args(["worker", id])
            .env("LD_PRELOAD", if ["C16", "C17", "C19", "C20"].contains(&id) { String::new() } else { heap_library() })
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("HARNESS: spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout: ChildStdout = child.stdout.take().unwrap();
        let mut stderr = child.stderr.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                let Ok(line) = line else { break };
                if tx.send(line).is_err() {
                    break;
                }
            }
        });
        let err = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let err2 = err.clone();
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            while let Ok(n) = stderr.read(&mut buf) {
                if n == 0 {
                    break;
                }
                let mut e = err2.lock().unwrap();
                e.extend_from_slice(&buf[..n]);
                let len = e.len();
                if len > 8192 {
                    e.drain(..len - 4096);
                }
            }
        });
        Worker { child, stdin, rx, err }
    }

    fn ask(&mut self, job: &str, timeout: Duration) -> Answer {
        self.err.lock().unwrap().clear();
        let before = cpu_seconds(self.child.id());
        let sent = self.stdin.write_all(format!("{job}\n").as_bytes()).and_then(|_| self.stdin.flush());
        if sent.is_ok() {
            match self.rx.recv_timeout(timeout) {
                Ok(l) => {
                    return match serde_json::from_str(&l) {
                        Ok(v) => Answer::Line(v),
                        Err(_) => Answer::Died(format!("unreadable worker output: {l}")),
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    let busy = cpu_seconds(self.child.id()) - before >= 0.8 * timeout.as_secs_f64();
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    return Answer::Timeout(busy);
                }
                Err(_) => (),
            }
        }
        let st = self.child.wait().unwrap();
        std::thread::sleep(Duration::from_millis(50));
        let err = String::from_utf8_lossy(&self.err.lock().unwrap()).into_owned();
        let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        use std::os::unix::process::ExitStatusExt;
        Answer::Died(match st.signal() {
            // Killed from outside (out of memory): not a verdict on the code under test
            Some(9) => "SIGKILL".into(),
            Some(s) => format!("process died with signal {s}; stderr: {tail}"),
            None => format!("process exited with {:?}; stderr: {tail}", st.code()),
        })
    }
}

/// A debugging heap, see capi/heap.c
fn heap_library() -> String {
    let lib = format!("{}/target/libvhheap.so", verif_dir());
    assert!(std::path::Path::new(&lib).exists(), "HARNESS: {lib} is missing");
    lib
}

/// Exactly how many bytes and blocks of the heap are allocated
pub fn heap_in_use() -> (i64, i64) {
    unsafe {
        let get = |name: &std::ffi::CStr| {
            let f = libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr());
            assert!(!f.is_null(), "HARNESS: no debugging heap");
            std::mem::transmute::<_, extern "C" fn() -> i64>(f)()
        };
        (get(c"vh_heap_bytes"), get(c"vh_heap_blocks"))
    }
}

/// Processor time used by one of our own worker processes (and the children it waited for)
pub fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let ticks: f64 = rest.split_ascii_whitespace().skip(11).take(2).filter_map(|x| x.parse::<f64>().ok()).sum();
    ticks / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One job in a worker that is replaced whenever it dies.
struct Runner {
    id: String,
    w: Option<Worker>,
    timeout: Duration,
    confirm: bool,
}

enum Verdict {
    Ok(Value),
    Fail(Value),
    Error(String),
}

impl Runner {
    fn new(id: &str, timeout: Duration) -> Self {
        Runner { id: id.into(), w: None, timeout, confirm: true }
    }
    fn run(&mut self, job: &str) -> Verdict {
        let w = self.w.get_or_insert_with(|| Worker::spawn(&self.id));
        match w.ask(job, self.timeout) {
            Answer::Line(v) => match v["status"].as_str() {
                Some("ok") => Verdict::Ok(v),
                Some("fail") => Verdict::Fail(v),
                _ => Verdict::Error(v["msg"].to_string()),
            },
            Answer::Died(m) => {
                self.w = None;
                if m == "SIGKILL" {
                    return Verdict::Error("worker was killed from outside".into());
                }
                Verdict::Fail(json!({"status": "fail", "msg": format!("crash: {m}"), "sig": "", "crash": true}))
            }
            Answer::Timeout(busy) => {
                self.w = None;
                // A case takes milliseconds. One that exceeds the (much longer) limit twice, the
                // second time in a fresh process, does not terminate.
                if self.confirm && busy {
                    let mut again = Runner { id: self.id.clone(), w: None, timeout: self.timeout, confirm: false };
                    match again.run(job) {
                        Verdict::Error(e) if e.starts_with("timeout, busy") => {
                            return Verdict::Fail(json!({"status": "fail", "msg": format!("does not terminate: no result within {:?}, twice", self.timeout), "sig": "", "crash": true}))
                        }
                        v => return v,
                    }
                }
                Verdict::Error(format!("timeout{} after {:?} in job: {}", if busy { ", busy" } else { "" }, self.timeout, &job[..job.len().min(200)]))
            }
        }
    }
}

fn job_for_choices(c: &[u64]) -> String {
    let mut s = String::from("c");
    for x in c {
        s.push(' ');
        s.push_str(&x.to_string());
    }
    s
}

fn shrink(id: &str, choices: Vec<u64>, known: &HashSet<String>, budget: Duration, timeout: Duration) -> (Vec<u64>, Value) {
    let mut r = Runner::new(id, timeout);
    let start = Instant::now();
    let mut best = choices;
    let mut best_v = Value::Null;
    let mut attempts = 0;
    let mut test = |c: &[u64], best_v: &mut Value| -> Option<Vec<u64>> {
        if attempts > 3000 || start.elapsed() > budget {
            return None;
        }
        attempts += 1;
        match r.run(&job_for_choices(c)) {
            Verdict::Fail(v) if !known.contains(v["sig"].as_str().unwrap_or("")) => {
                let used = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>());
                *best_v = v;
                // canonical form: what was really consumed
                Some(used.filter(|u| u.len() <= c.len()).unwrap_or_else(|| c.to_vec()))
            }
            _ => None,
        }
    };
    if let Some(c) = test(&best.clone(), &mut best_v) {
        best = c;
    } else {
        return (best, Value::Null);
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if let Some(n) = test(&c, &mut best_v) {
                    best = n;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                if c[i..e].iter().any(|x| *x != 0) {
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(n) = test(&c, &mut best_v) {
                        best = n;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match test(&c, &mut best_v) {
                    Some(n) if n.len() > i && n[i] == mid => {
                        best = n;
                        hi = mid;
                    }
                    Some(n) => {
                        best = n;
                        break;
                    }
                    None => lo = mid + 1,
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, best_v)
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// `finding: property=<id> sig=<sig> <text>` lines of the known findings file
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} sig=")))
        .filter_map(|l| l.split_once(' ').map(|(s, t)| (s.to_string(), t.to_string())))
        .collect()
}

/// Where checks may create files; removed in the end
pub fn scratch_dir() -> String {
    std::env::var("VH_SCRATCH").expect("HARNESS: no scratch directory")
}

struct ScratchRoot(String);

impl ScratchRoot {
    fn new() -> ScratchRoot {
        let d = format!("{}/vh-{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
        std::env::set_var("VH_SCRATCH", &d);
        ScratchRoot(d)
    }
}

impl Drop for ScratchRoot {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn check(p: &Prop) -> i32 {
    let _scratch = ScratchRoot::new();
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let mut total = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(n) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let jobs: usize = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let timeout = Duration::from_secs(if tier == "thorough" { 300 } else { 100 });
    let known = known_findings(p.id);
    let known_sigs: HashSet<String> = known.iter().map(|k| k.0.clone()).filter(|s| !s.is_empty()).collect();

    let next = std::sync::atomic::AtomicU64::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let (tx, rx) = mpsc::channel::<(u64, Verdict)>();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut evaluations = 0u64;
    let mut samples: Vec<(u64, String)> = vec![];
    let mut first_fail: Option<(u64, Value)> = None;
    let mut errors = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let (tx, next, stop) = (tx.clone(), &next, &stop);
            s.spawn(move || {
                let mut r = Runner::new(p.id, timeout);
                while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    let v = r.run(&format!("i {seed} {i}"));
                    if tx.send((i, v)).is_err() {
                        break;
                    }
                }
            });
        }
        drop(tx);
        for (i, v) in rx {
            evaluations += 1;
            match v {
                Verdict::Error(e) => {
                    errors.push(format!("case {i}: {e}"));
                    if errors.len() >= 3 {
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                Verdict::Fail(v) => {
                    let sig = v["sig"].as_str().unwrap_or("").to_string();
                    if known_sigs.contains(&sig) {
                        *known_hit.entry(sig).or_insert(0) += 1;
                        continue;
                    }
                    if first_fail.as_ref().map_or(true, |(j, _)| i < *j) {
                        first_fail = Some((i, v));
                    }
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                Verdict::Ok(v) => {
                    for l in v["labels"].as_array().unwrap() {
                        *labels.entry(l.as_str().unwrap().to_string()).or_insert(0) += 1;
                    }
                    if v["nontrivial"] == json!(true) {
                        distinct.insert(v["hash"].as_u64().unwrap());
                        if let Some(d) = v["desc"].as_str() {
                            if !d.is_empty() {
                                samples.push((i, d.to_string()));
                            }
                        }
                    }
                }
            }
        }
    });
    for (sig, text) in &known {
        // The line is printed for every listed finding, whether or not this run happened to hit it
        println!("KNOWN-FINDING: property={} sig={} {}", p.id, sig, text);
    }
    samples.sort();
    let step = (samples.len() / 5).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).take(6)
        .map(|(i, mut d)| { if d.len() > 1200 { let mut n = 1200; while !d.is_char_boundary(n) { n -= 1 } d.truncate(n); d.push_str("...") } format!("case {i}: {d}") }).collect();

    let mut violations = 0;
    let mut code = 0;
    let mut extra = json!({});
    if let Some((i, v)) = first_fail {
        violations = 1;
        code = 1;
        println!("case {i}: {}", v["msg"].as_str().unwrap_or(""));
        // A crash takes the recorded choices with it: generate them again without running the case.
        let choices: Vec<u64> = match v["choices"].as_array() {
            Some(a) => a.iter().map(|x| x.as_u64().unwrap()).collect(),
            None => recover_choices(p.id, seed, i),
        };
        let budget = Duration::from_secs(if tier == "thorough" { 300 } else { 60 });
        let hang = v["msg"].as_str().map_or(false, |m| m.starts_with("does not terminate"));
        let (choices, sv, shrunk) = if choices.is_empty() || hang {
            (choices, Value::Null, false)
        } else {
            let (c, sv) = shrink(p.id, choices.clone(), &known_sigs, budget, timeout);
            let s = !sv.is_null();
            (c, sv, s)
        };
        let v = if shrunk { sv } else { v };
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{seed}-{i}.json", p.id);
        let doc = json!({
            "property": p.id, "seed": seed, "case": i, "choices": choices, "shrunk": shrunk,
            "message": v["msg"], "input": v["desc"], "signature": v["sig"],
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("HARNESS: write replay");
        println!("shrunk: {}", v["msg"].as_str().unwrap_or(""));
        if let Some(d) = v["desc"].as_str() {
            println!("input: {}", &d.chars().take(2000).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        extra = json!({"message": v["msg"], "replay": path});
    } else if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {e}");
        }
        code = 2;
    } else if tier == "quick" && std::env::var("VH_CASES").is_err() {
        for (l, floor) in p.floors {
            let n = labels.get(*l).copied().unwrap_or(0);
            if n < *floor {
                // A check that silently stopped reaching what matters is an error, not a pass
                println!("ERROR only {n} cases reached '{l}', at least {floor} are expected");
                code = 2;
            }
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct.len(), "rule": p.rule,
            "samples": samples, "classes": labels, "known_findings_hit": known_hit,
            "errors": errors.len(), "failure": extra,
        },
        "assumptions": p.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("HARNESS: write evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, exit {}",
        p.id, evaluations, distinct.len(), start.elapsed().as_secs_f64(), code
    );
    if std::env::var("VH_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev).unwrap());
    }
    code
}

/// Evidence of a violation that was found before any case could run
pub fn static_violation(p: &Prop, msg: &str) {
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let ev = json!({
        "property": p.id, "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [msg], "failure": {"message": msg}},
        "assumptions": p.assumptions, "wall_s": 0.0, "violations": 1,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("HARNESS: write evidence");
}

/// Ask a child process to only report the choices of a case: it writes each one to stderr as it is
/// drawn, so they survive a crash.
fn recover_choices(id: &str, seed: u64, index: u64) -> Vec<u64> {
    let exe = std::env::current_exe().unwrap();
    let out = Command::new(exe)
        .args(["choices", id, &seed.to_string(), &index.to_string()])
        .stdin(Stdio::null())
        .output();
    let Ok(out) = out else { return vec![] };
    // The state of the generator after a crash isn't known; over-approximate with a long prefix,
    // which the shrinker then cuts down.
    String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter_map(|l| l.strip_prefix("choice "))
        .filter_map(|l| l.parse().ok())
        .collect()
}

/// Run one case and print each choice as soon as it is made.
pub fn print_choices(p: &Prop, seed: u64, index: u64) {
    install_panic_hook();
    // fork-free variant: run the case in this process with a recorder thread-local flushing to fd
    let mut src = Src::seeded(p.id, seed, index);
    let ptr: *const Src = &src;
    // Flush the record from a signal handler when the case crashes.
    unsafe {
        CRASH_SRC = ptr;
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE, libc::SIGILL, libc::SIGTRAP, libc::SIGALRM] {
            libc::signal(s, on_crash as extern "C" fn(i32) as usize);
        }
    }
    // The same for a case that doesn't terminate.
    unsafe { libc::alarm(20) };
    let mut case = Case::default();
    let _ = catch(|| (p.run)(&mut src, &mut case));
    dump_choices(&src);
}

static mut CRASH_SRC: *const Src = std::ptr::null();

fn dump_choices(src: &Src) {
    let mut s = String::new();
    for c in &src.rec {
        s.push_str(&format!("choice {c}\n"));
    }
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(1, b[off..].as_ptr().cast(), b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

extern "C" fn on_crash(_: i32) {
    unsafe {
        let p = CRASH_SRC;
        if !p.is_null() {
            dump_choices(&*p);
        }
        libc::_exit(3);
    }
}

pub fn replay(p: &Prop, path: &str) -> i32 {
    let _scratch = ScratchRoot::new();
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("HARNESS: read replay")).unwrap();
    let choices: Vec<u64> = doc["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut r = Runner::new(p.id, Duration::from_secs(600));
    let job = if choices.is_empty() {
        format!("i {} {}", doc["seed"], doc["case"])
    } else {
        job_for_choices(&choices)
    };
    match r.run(&job) {
        Verdict::Ok(_) => {
            println!("replay: the property holds on this input");
            0
        }
        Verdict::Fail(v) => {
            println!("{}", v["msg"].as_str().unwrap_or(""));
            if let Some(d) = v["desc"].as_str() {
                println!("input: {d}");
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Verdict::Error(e) => {
            println!("ERROR {e}");
            2
        }
    }
}
