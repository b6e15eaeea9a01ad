//! Workload engine: coverage-guided generation of text cases and tape cases, monitored execution,
//! minimisation, and statistics of what the monitors observed.
use crate::dict::{self, hex};
use crate::rng::{hash, mix, Rng, Tape};
use crate::{rt, text};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Text,
    Tape,
}

#[derive(Default)]
pub struct Cx {
    pub thorough: bool,
    pub shard: usize,
    pub nshards: usize,
    pub seed: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub nontrivial: u64,
    feats: Vec<u32>,
    /// Set by a monitor when the case exercised what the property is about.
    hit: bool,
    sig: u64,
    quiet: bool,
}

impl Cx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        if !self.quiet {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        if !self.quiet {
            let e = self.counters.entry(k).or_insert(0);
            *e = (*e).max(n);
        }
    }
    /// Report that the case was non-trivial and what it looked like to the monitor (distinct
    /// signatures are counted).
    pub fn observe(&mut self, sig: u64) {
        self.hit = true;
        self.sig = mix(self.sig, sig);
    }
    /// Extra feedback for the generator (e.g. event bigrams).
    pub fn feature(&mut self, h: u64) {
        self.feats.push((h & 0xffff) as u32);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // spread over the run: early, corpus-driven and late cases
        const AT: [u64; 4] = [150, 1000, 5000, 20_000];
        if !self.quiet && self.samples.len() < 4 && self.evals > AT[self.samples.len()] {
            let s = f();
            if s.len() <= 600 {
                self.samples.push(s);
            }
        }
    }
}

pub type Check = Result<(), String>;

pub trait Prop {
    /// Relative weights of the text and the tape workload.
    fn weights(&self) -> (usize, usize);
    fn text(&mut self, _s: &str, _cx: &mut Cx) -> Check {
        Ok(())
    }
    fn tape(&mut self, _t: &[u8], _cx: &mut Cx) -> Check {
        Ok(())
    }
    /// Human readable rendition of a tape case.
    fn show(&self, _t: &[u8]) -> String {
        String::new()
    }
    fn max_text(&self) -> usize {
        700
    }
    fn max_tape(&self) -> usize {
        1500
    }
    /// Cases every run starts with (text), in addition to the seed corpus.
    fn fixed(&self, _cx: &Cx) -> Vec<String> {
        Vec::new()
    }
    /// Logical step budget of one case.
    fn step_limit(&self, len: usize) -> u64 {
        let n = len as u64;
        60_000_000 + 20_000 * n + 400 * n * n
    }
    fn rule(&self) -> &'static str;
}

pub struct Opts {
    pub prop: String,
    pub shard: usize,
    pub nshards: usize,
    pub seed: u64,
    pub execs: u64,
    pub secs: f64,
    pub thorough: bool,
    pub crash: Option<String>,
    pub seeds: Vec<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Run one case under the monitors; a panic anywhere counts as a failure of the case.
pub fn run_case(p: &mut dyn Prop, mode: Mode, data: &[u8], cx: &mut Cx) -> Check {
    cx.hit = false;
    cx.sig = 0;
    cx.feats.clear();
    rt::begin(p.step_limit(data.len()));
    let r = catch_unwind(AssertUnwindSafe(|| match mode {
        Mode::Text => match std::str::from_utf8(data) {
            Ok(s) => p.text(s, cx),
            Err(_) => Ok(()),
        },
        Mode::Tape => p.tape(data, cx),
    }));
    rt::unlimited();
    match r {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn bucket(h: u8) -> u8 {
    match h {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// The case that is being run, in a file that survives the process (a shared mapping: a system call
/// per case would dominate the cost).
struct CrashFile {
    p: *mut u8,
    size: usize,
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

impl CrashFile {
    fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let size = 4 << 20;
        let f = std::fs::OpenOptions::new()
            .create(true)
            .read(true)
            .write(true)
            .truncate(true)
            .open(path)
            .expect("crash file");
        f.set_len(size as u64).expect("crash file");
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "crash file mapping");
        CrashFile { p, size }
    }
    fn write(&self, mode: Mode, data: &[u8]) {
        let n = data.len().min(self.size - 9);
        unsafe {
            *self.p = mode as u8;
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), self.p.add(1), 8);
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.p.add(9), n);
        }
    }
}

struct Pool {
    items: Vec<Vec<u8>>,
}

pub struct Outcome {
    pub fail: Option<(Mode, Vec<u8>, String)>,
}

pub fn run(p: &mut dyn Prop, o: &Opts, cx: &mut Cx) -> Outcome {
    let start = Instant::now();
    let mut rng = Rng::new(mix(
        o.seed.wrapping_mul(1_000_003).wrapping_add(o.shard as u64),
        hash(o.prop.as_bytes()),
    ));
    let crash = o.crash.as_ref().map(|f| CrashFile::open(f));
    let mut virgin = vec![0u8; rt::MAP];
    let mut virgin_f = vec![false; 1 << 16];
    let mut edges = 0u64;
    let mut pools = [Pool { items: vec![] }, Pool { items: vec![] }];
    let (wt, wp) = p.weights();

    let mut queue: Vec<(Mode, Vec<u8>)> = Vec::new();
    if wt > 0 {
        for (i, s) in p.fixed(cx).into_iter().enumerate() {
            if i % o.nshards == o.shard {
                queue.push((Mode::Text, s.into_bytes()));
            }
        }
        for s in &o.seeds {
            queue.push((Mode::Text, s.clone().into_bytes()));
        }
    }
    if wp > 0 {
        for i in 0..64 {
            let n = 4 + rng.below(if i < 32 { 60 } else { 500 });
            queue.push((Mode::Tape, (0..n).map(|_| rng.next() as u8).collect()));
        }
    }
    queue.reverse();

    let mut last_beat = Instant::now();
    loop {
        if cx.evals >= o.execs || (cx.evals % 16 == 0 && start.elapsed().as_secs_f64() > o.secs) {
            break;
        }
        let (mode, data) = match queue.pop() {
            Some(x) => x,
            None => {
                let mode = if rng.below(wt + wp) < wt {
                    Mode::Text
                } else {
                    Mode::Tape
                };
                let pool = &pools[mode as usize].items;
                let data = match mode {
                    Mode::Text => {
                        if pool.is_empty() || rng.chance(1, 6) {
                            text::fresh(&mut rng).into_bytes()
                        } else {
                            let a = pick(&mut rng, pool);
                            let b = pick(&mut rng, pool);
                            let max = if rng.chance(1, 40) {
                                p.max_text() * 5
                            } else {
                                p.max_text()
                            };
                            text::mutate(
                                &mut rng,
                                std::str::from_utf8(a).unwrap_or(""),
                                std::str::from_utf8(b).unwrap_or(""),
                                max,
                            )
                            .into_bytes()
                        }
                    }
                    Mode::Tape => {
                        if pool.is_empty() || rng.chance(1, 4) {
                            let n = 1 + match rng.below(5) {
                                0 => rng.below(24),
                                1 | 2 => rng.below(120),
                                3 => rng.below(400),
                                _ => rng.below(p.max_tape()),
                            };
                            (0..n).map(|_| rng.next() as u8).collect()
                        } else {
                            mutate_tape(&mut rng, pool, p.max_tape())
                        }
                    }
                };
                (mode, data)
            }
        };
        if let Some(f) = &crash {
            f.write(mode, &data);
        }
        rt::clear_hits();
        rt::take_large();
        let r = run_case(p, mode, &data, cx);
        if rt::take_large() {
            rt::clear_hits();
            cx.feats.clear();
            cx.count("large_texts", 1);
        }
        cx.evals += 1;
        if cx.hit {
            cx.nontrivial += 1;
            if cx.sigs.len() < 4_000_000 {
                let s = cx.sig;
                cx.sigs.insert(s);
            }
        }
        if let Err(m) = r {
            return Outcome {
                fail: Some((mode, data, m)),
            };
        }
        // feedback
        let mut novel = false;
        for (i, h) in rt::hits().iter().enumerate() {
            if *h != 0 {
                let b = bucket(*h);
                if virgin[i] & b == 0 {
                    if virgin[i] == 0 {
                        edges += 1;
                    }
                    virgin[i] |= b;
                    novel = true;
                }
            }
        }
        for f in &cx.feats {
            if !virgin_f[*f as usize] {
                virgin_f[*f as usize] = true;
                novel = true;
            }
        }
        if novel && data.len() <= 4000 {
            pools[mode as usize].items.push(data);
        }
        if last_beat.elapsed() > Duration::from_secs(5) {
            last_beat = Instant::now();
            eprintln!(
                "[{} {}] {} evals, {} edges, pools {}/{}",
                o.prop,
                o.shard,
                cx.evals,
                edges,
                pools[0].items.len(),
                pools[1].items.len()
            );
        }
    }
    cx.counters.insert("max_edges_covered", edges);
    cx.counters
        .insert("max_edges_total", u64::from(rt::guards()));
    cx.counters.insert(
        "corpus_kept",
        (pools[0].items.len() + pools[1].items.len()) as u64,
    );
    Outcome { fail: None }
}

fn pick<'a>(r: &mut Rng, pool: &'a [Vec<u8>]) -> &'a [u8] {
    let n = pool.len();
    if r.chance(1, 3) {
        &pool[n - 1 - r.below(n.min(30))]
    } else {
        &pool[r.below(n)]
    }
}

fn mutate_tape(r: &mut Rng, pool: &[Vec<u8>], max: usize) -> Vec<u8> {
    let mut d = pick(r, pool).to_vec();
    for _ in 0..1 + r.below(4) {
        match r.below(8) {
            0..=2 => {
                if !d.is_empty() {
                    let i = r.below(d.len());
                    d[i] = r.next() as u8;
                }
            }
            3 => {
                if !d.is_empty() {
                    let i = r.below(d.len());
                    let j = (i + 1 + r.below(8)).min(d.len());
                    d.drain(i..j);
                }
            }
            4 => {
                let i = r.below(d.len() + 1);
                let ins: Vec<u8> = (0..1 + r.below(10)).map(|_| r.next() as u8).collect();
                d.splice(i..i, ins);
            }
            5 => {
                let o = pick(r, pool);
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let b = (a + 1 + r.below(60)).min(o.len());
                    let i = r.below(d.len() + 1);
                    d.splice(i..i, o[a..b].to_vec());
                }
            }
            6 => {
                let o = pick(r, pool);
                let i = r.below(d.len() + 1);
                let j = r.below(o.len() + 1);
                d.truncate(i);
                d.extend_from_slice(&o[j..]);
            }
            _ => {
                let n = 1 + r.below(40);
                d.extend((0..n).map(|_| r.next() as u8));
            }
        }
    }
    d.truncate(max);
    d
}

/// Greedy reduction of a failing case.
pub fn minimise(p: &mut dyn Prop, mode: Mode, data: Vec<u8>, cx: &mut Cx) -> (Vec<u8>, String) {
    cx.quiet = true;
    let start = Instant::now();
    let mut best = data;
    let mut msg = match run_case(p, mode, &best, cx) {
        Err(m) => m,
        Ok(()) => {
            cx.quiet = false;
            return (best, String::new());
        }
    };
    let mut tries = 0;
    let mut size = (best.len() / 2).max(1);
    'outer: loop {
        let mut changed = false;
        let mut i = 0;
        while i < best.len() {
            tries += 1;
            if tries > 6000 || start.elapsed() > Duration::from_secs(12) {
                break 'outer;
            }
            let j = (i + size).min(best.len());
            let mut c = best.clone();
            c.drain(i..j);
            let valid = mode == Mode::Tape || std::str::from_utf8(&c).is_ok();
            if valid {
                if let Err(m) = run_case(p, mode, &c, cx) {
                    best = c;
                    msg = m;
                    changed = true;
                    continue;
                }
            }
            i += size;
        }
        if size == 1 && !changed {
            break;
        }
        if !changed {
            size = (size / 2).max(1);
        }
    }
    if mode == Mode::Tape {
        for i in 0..best.len() {
            if best[i] == 0 || start.elapsed() > Duration::from_secs(15) {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if let Err(m) = run_case(p, mode, &c, cx) {
                best = c;
                msg = m;
            }
        }
    }
    cx.quiet = false;
    (best, msg)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fail_json(p: &dyn Prop, o: &Opts, mode: Mode, data: &[u8], orig: &[u8], msg: &str) -> String {
    let shown = match mode {
        Mode::Text => String::from_utf8_lossy(data).into_owned(),
        Mode::Tape => p.show(data),
    };
    let mut cut: String = msg.chars().take(6000).collect();
    if cut.len() < msg.len() {
        cut.push_str("...");
    }
    format!(
        "{{\"property\":{},\"mode\":{},\"hex\":{},\"orig_hex\":{},\"case\":{},\"message\":{},\"seed\":{},\"dict\":{}}}",
        json_str(&o.prop),
        json_str(match mode {
            Mode::Text => "text",
            Mode::Tape => "tape",
        }),
        json_str(&hex(data)),
        json_str(&hex(orig)),
        json_str(&shown.chars().take(20000).collect::<String>()),
        json_str(&cut),
        o.seed,
        json_str(&dict::get().raw),
    )
}

pub fn stats_json(cx: &Cx, rule: &str, wall: f64) -> String {
    let mut s = format!(
        "{{\"evals\":{},\"nontrivial\":{},\"distinct\":{},\"wall\":{:.2},\"rule\":{},\"counters\":{{",
        cx.evals,
        cx.nontrivial,
        cx.sigs.len(),
        wall,
        json_str(rule)
    );
    for (i, (k, v)) in cx.counters.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{}:{}", json_str(k), v));
    }
    s.push_str("},\"samples\":[");
    for (i, v) in cx.samples.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&json_str(v));
    }
    s.push_str("]}");
    s
}

/// Exact distinct counting across workers: every worker writes its signatures.
pub fn write_sigs(cx: &Cx, path: &str) {
    if let Ok(f) = std::fs::File::create(path) {
        let mut w = std::io::BufWriter::new(f);
        for s in &cx.sigs {
            let _ = w.write_all(&s.to_le_bytes());
        }
        let _ = w.flush();
    }
}

#[allow(dead_code)]
pub fn tape(b: &[u8]) -> Tape<'_> {
    Tape::new(b)
}
