//! Determinism, equivalence of entry points, resource bounds.
use crate::ast;
use crate::ast_block::{doc_src, gen_doc, Bcx};
use crate::dict;
use crate::engine::{Check, Cx, Prop};
use crate::props_html::structured;
use crate::rng::{hash, mix, Rng, Tape};
use crate::{rt, stream};
use shim::Format;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------------ C05

/// What another process sees of a text.
pub fn fingerprint(s: &str) -> u64 {
    let a = hash(format!("{:?}", shim::spanned(s)).as_bytes());
    let b = hash(shim::html(s, &Format::Default).as_bytes());
    mix(a, b)
}

/// Answers fingerprints of the texts sent to standard input.
pub fn serve() -> i32 {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut len = [0u8; 4];
    while i.read_exact(&mut len).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(len) as usize];
        if i.read_exact(&mut b).is_err() {
            break;
        }
        let f = std::str::from_utf8(&b).map_or(0, fingerprint);
        if o.write_all(&f.to_le_bytes()).and_then(|()| o.flush()).is_err() {
            break;
        }
    }
    0
}

struct Peer {
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
    asked: u32,
}

impl Peer {
    fn start() -> Option<Peer> {
        let exe = std::path::Path::new(&std::env::var("VERIF_SCRATCH").ok()?).join("vharness-std");
        let mut child = Command::new(exe)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let (i, o) = (child.stdin.take()?, child.stdout.take()?);
        Some(Peer { child, i, o, asked: 0 })
    }
    fn ask(&mut self, s: &str) -> Option<u64> {
        self.asked += 1;
        let mut b = (s.len() as u32).to_le_bytes().to_vec();
        b.extend_from_slice(s.as_bytes());
        self.i.write_all(&b).ok()?;
        self.i.flush().ok()?;
        let mut r = [0; 8];
        self.o.read_exact(&mut r).ok()?;
        Some(u64::from_le_bytes(r))
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn determinism_text(t: &[u8]) -> String {
    match t.split_first() {
        Some((b, rest)) if b % 3 == 0 => near_labels(&mut Tape::new(rest)),
        _ => structured(t),
    }
}

/// Names that are the same but for case, white space or punctuation: with maps from names, the order in which
/// candidates are visited must not show.
fn near_labels(t: &mut Tape) -> String {
    let base = *t.pick(&["ab", "a b c", "note", "\u{e9}t\u{e9} x", "x-1", "stra\u{df}e"]);
    let name = |t: &mut Tape| -> String {
        let mut s: String = match t.below(6) {
            0 => base.to_string(),
            1 => base.to_uppercase(),
            _ => base.chars().map(|c| if t.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        };
        match t.below(6) {
            0 => s.push(*t.pick(&['.', '-', '1', '2', '_', 's', ' '])),
            1 => s.insert(0, *t.pick(&['.', '-', '1', ' '])),
            2 => s = s.replace(' ', "  "),
            _ => {}
        }
        s
    };
    let mut o = String::new();
    for i in 0..2 + t.below(24) {
        let n = name(t);
        match t.below(8) {
            0..=2 => o.push_str(&format!("[{n}]: u{i}\n\n")),
            3 => o.push_str(&format!("{{k{i}=v .c{i}}}\n[{n}]: u{i}\n\n")),
            4 => o.push_str(&format!("[^{n}]: t{i}\n\n")),
            5 => o.push_str(&format!("# {n}\n\n")),
            6 => o.push_str(&format!("{{#{}}}\n## h{i}\n\n", n.replace([' ', '.'], "-"))),
            _ => o.push_str(&format!("{{k1=v1 K1=v2 k-1=v3 {}=v}}\npara{i}\n\n", n.replace([' ', '.'], "_"))),
        }
    }
    for _ in 0..1 + t.below(10) {
        let n = name(t);
        o.push_str(&match t.below(5) {
            0 => format!("[^{n}] "),
            1 => format!("[{n}][] "),
            2 => format!("![x][{n}] "),
            _ => format!("[x][{n}] "),
        });
    }
    o
}

#[derive(Default)]
pub struct Determinism {
    peer: Option<Peer>,
}

impl Prop for Determinism {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Cx) -> Check {
        let fail = |m: String| Err(format!("source {s:?}: {m}"));
        let ev = shim::events(s);
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        let mut r = Rng::new(mix(hash(s.as_bytes()), 5));
        // the same again
        let sp = shim::spanned(s);
        if shim::spanned(s) != sp {
            return fail("parsing twice gives different events or ranges".into());
        }
        if let Some(i) = first_diff(&ev, sp.iter().map(|e| &e.0)) {
            return fail(format!(
                "with and without offsets differ at event {i}: {:?} and {:?}",
                sp.get(i).map(|e| &e.0),
                ev.get(i)
            ));
        }
        // the position of the text in memory does not matter
        let moved = format!("{}{s}", "x".repeat(1 + r.below(9)));
        if shim::spanned(&moved[moved.len() - s.len()..]) != sp {
            return fail("a copy of the text gives different events".into());
        }
        // a clone taken at any point continues like the original, independently of it
        let k = r.below(ev.len() + 1);
        let mut p = shim::parser(s);
        for _ in 0..k {
            shim::next(&mut p);
        }
        let mut q = shim::clone_parser(&p);
        let order = r.below(3);
        let (mut a, mut b) = (vec![], vec![]);
        match order {
            0 => {
                a.extend(std::iter::from_fn(|| shim::next(&mut p)));
                b.extend(std::iter::from_fn(|| shim::next(&mut q)));
            }
            1 => {
                b.extend(std::iter::from_fn(|| shim::next(&mut q)));
                a.extend(std::iter::from_fn(|| shim::next(&mut p)));
            }
            _ => loop {
                let (x, y) = (shim::next(&mut p), shim::next(&mut q));
                if x.is_none() && y.is_none() {
                    break;
                }
                a.extend(x);
                b.extend(y);
            },
        }
        if let Some(i) = first_diff(&ev[k..], a.iter()) {
            return fail(format!("a parser that was cloned after {k} events differs at event {}", k + i));
        }
        if let Some(i) = first_diff(&ev[k..], b.iter()) {
            return fail(format!("a clone taken after {k} events differs at event {}", k + i));
        }
        cx.count("clones", 1);
        // offsets can be requested at any point
        let k = r.below(ev.len() + 1);
        let mut p = shim::parser(s);
        for _ in 0..k {
            shim::next(&mut p);
        }
        let mut p = p.into_offset_iter();
        let a: Vec<_> = std::iter::from_fn(|| shim::next_offset(&mut p)).collect();
        if a != sp[k..] {
            return fail(format!("offsets requested after {k} events differ"));
        }
        // rendering gives the same text each time
        if shim::html(s, &Format::Default) != shim::render_src(s) {
            return fail("rendering twice gives different HTML".into());
        }
        // another process, built with the other choice of hash seeds, sees the same
        if self.peer.as_ref().is_none_or(|p| p.asked > 4000) {
            self.peer = Peer::start();
        }
        if let Some(p) = &mut self.peer {
            match p.ask(s) {
                Some(f) if f == fingerprint(s) => cx.count("compared_with_other_process", 1),
                Some(_) => return fail("a build with the other hash seeds gives a different result".into()),
                None => {
                    // totality is not judged here
                    self.peer = None;
                    cx.count("peer_died", 1);
                }
            }
        }
        if n > 4 {
            cx.observe(h);
        }
        cx.sample(|| format!("{s:?} -> {n} events, cloned at {k}"));
        Ok(())
    }
    fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
        self.text(&determinism_text(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        determinism_text(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses one text repeatedly, with offsets, through a parser cloned after a random number of events (continued in three orders) and in another process built with randomised instead of fixed hashing, and compares all results; non-trivial: more than two events besides the document; distinct: event-kind sequence"
    }
}

fn first_diff<'a, 's: 'a>(
    a: &[jotdown::Event<'s>],
    b: impl Iterator<Item = &'a jotdown::Event<'s>>,
) -> Option<usize> {
    let mut n = 0;
    for x in b {
        if a.get(n) != Some(x) {
            return Some(n);
        }
        n += 1;
    }
    (n != a.len()).then_some(n)
}

// ------------------------------------------------------------------ C06

struct Cost {
    steps: u64,
    peak: u64,
    /// Bytes allocated over time.
    total: u64,
    events: u64,
}

fn cost(s: &str) -> Cost {
    rt::begin(u64::MAX);
    let live = rt::mem_mark();
    let before = rt::mem_total();
    let events = shim::count(s) as u64;
    let peak = (rt::mem_peak() - live).max(0) as u64;
    Cost { steps: rt::steps(), peak, total: rt::mem_total() - before, events }
}

pub struct Bounds;

/// Limits of the cost of one text of n bytes: a fixed part, a part per byte, a part per byte squared.
const STEPS: (u64, u64, u64) = (20_000, 2_500, 4);
const PEAK: (u64, u64) = (60_000, 600);

fn absolute(s: &str, c: &Cost) -> Check {
    let n = s.len() as u64;
    if c.events > 8 * n + 2 {
        return Err(format!("{} events from {n} bytes", c.events));
    }
    if c.steps > STEPS.0 + STEPS.1 * n + STEPS.2 * n * n {
        return Err(format!("{} steps for {n} bytes", c.steps));
    }
    if c.peak > PEAK.0 + PEAK.1 * n {
        return Err(format!("{} bytes of memory for {n} bytes of text", c.peak));
    }
    Ok(())
}

struct Pump {
    what: &'static str,
    linear: bool,
    small: String,
    large: String,
    ratio: f64,
}

/// Units that differ from each other by a number in place of `@`.
const NUMBERED: &[&str] = &[
    "# h@\n\n",
    "## h@\n\n",
    "# h@ h\n\nw\n\n",
    "# h@\n\n[h@][]\n\n",
    "{#i@}\n# h@\n\n",
    "[w][l@]\n\n[l@]: /u@\n\n",
    "[l@][] w\n\n",
    "{a=v@}\n[l@]: /u@\n\n",
    "w[^f@]\n\n[^f@]: note\n\n",
    "[^f@]: note\n\n",
    "w[^f@] w\n",
    "- w@\n",
    "- w@\n\n",
    "* * w@\n",
    "@. w\n",
    "@) w\n\n  w\n",
    ": w@\n\n  w\n\n",
    "| a@ | b |\n",
    "| a@ |\n|---|\n| b |\n\n^ cap\n\n",
    "::: c@\nw\n:::\n\n",
    "```\nw@\n```\n\n",
    "> w@\n\n",
    "> w@\n",
    "{#i@ .c@ k=\"v@\"}\nw\n\n",
    "w@{#i@ .c@} w\n",
    "*w@* _w_ `w`\n",
    "{% c@ %}\nw\n\n",
    "<https://u@> \"w@\"\n",
    "$`w@` w\\\n",
    "***\n\nw@\n\n",
];

fn numbered(unit: &str, n: usize) -> String {
    (1..=n).map(|i| unit.replace('@', &i.to_string())).collect()
}

fn pump(t: &[u8]) -> Pump {
    let mut t = Tape::new(t);
    if t.chance(1, 6) {
        let unit: String = (0..1 + t.weighted(&[3, 3, 2])).map(|_| *t.pick(NUMBERED)).collect();
        let n = 2 + 500 / unit.len();
        return Pump {
            what: "numbered blocks",
            linear: true,
            small: numbered(&unit, n),
            large: numbered(&unit, 24 * n),
            ratio: 24.0,
        };
    }
    if t.chance(1, 6) {
        // within a leaf or an element
        let mut cx = ast::Cx::new();
        cx.budget = 4;
        let mut v = ast::gen_inlines(&mut t, &mut cx);
        ast::make_safe(&mut v);
        let src = ast::inline_src(&v);
        let unit = format!("{src}{}w ", if src.contains(['\n', '\\']) || t.chance(1, 2) { "\n" } else { " " });
        let (pre, suf) = *t.pick(&[("# ", ""), ("- ", ""), ("[^a]: ", ""), ("{=w ", " w=}"), ("[w ", " w](u)"), ("[w ", " w][]"), ("![w ", " w](u)"), (": ", ""), ("> ", ""), ("[", "]{.a}")]);
        let n = 2 + 600 / unit.len();
        return Pump {
            what: "complete inline elements within another",
            linear: true,
            small: format!("{pre}{}w{suf}", unit.repeat(n)),
            large: format!("{pre}{}w{suf}", unit.repeat(32 * n)),
            ratio: 32.0,
        };
    }
    if t.chance(1, 4) {
        let mut cx = ast::Cx::new();
        cx.budget = 8;
        let mut v = ast::gen_inlines(&mut t, &mut cx);
        ast::make_safe(&mut v);
        let unit = format!("{} w\n", ast::inline_src(&v));
        let n = 2 + 600 / unit.len();
        return Pump {
            what: "complete inline elements",
            linear: true,
            small: unit.repeat(n),
            large: unit.repeat(4 * n),
            ratio: 4.0,
        };
    }
    if t.chance(1, 3) {
        let mut bx = Bcx::new();
        bx.w[1] = 0;
        bx.budget = 6;
        let d = gen_doc(&mut t, &mut bx, 3);
        let unit = format!("{}\n\n{{.x}}\n---\n\n", doc_src(&d));
        let n = 2 + 600 / unit.len();
        Pump {
            what: "complete blocks",
            linear: true,
            small: unit.repeat(n),
            large: unit.repeat(4 * n),
            ratio: 4.0,
        }
    } else {
        let mut part = |max: usize| -> String {
            let n = t.below(max + 1);
            (0..n).map(|_| *t.pick(dict::TOKENS)).collect()
        };
        let (pre, mut unit, suf) = (part(2), part(5), part(2));
        if unit.is_empty() {
            unit.push('[');
        }
        let n = 1 + 400 / unit.len();
        Pump {
            what: "repeated markup",
            linear: false,
            small: format!("{pre}{}{suf}", unit.repeat(n)),
            large: format!("{pre}{}{suf}", unit.repeat(5 * n)),
            ratio: 5.0,
        }
    }
}

impl Prop for Bounds {
    fn weights(&self) -> (usize, usize) {
        (2, 3)
    }
    fn max_tape(&self) -> usize {
        300
    }
    fn text(&mut self, s: &str, cx: &mut Cx) -> Check {
        let c = cost(s);
        let n = s.len() as u64 + 1;
        cx.max("max_steps_per_byte", c.steps / n);
        cx.max("max_peak_per_byte_over_60k", c.peak.saturating_sub(60_000) / n);
        cx.max("max_events_x100_per_byte", 100 * c.events.saturating_sub(2) / n);
        cx.max("max_steps_x100_per_square", 100 * c.steps.saturating_sub(20_000 + 4_000 * n) / (n * n));
        cx.count("events", c.events);
        if c.events > 4 {
            cx.observe(mix(c.steps, c.events));
        }
        cx.sample(|| format!("{s:?} -> {} events, {} steps, {} bytes peak", c.events, c.steps, c.peak));
        absolute(s, &c).map_err(|m| format!("source {s:?}: {m}"))
    }
    fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
        let p = pump(t);
        let (a, b) = (cost(&p.small), cost(&p.large));
        cx.count("pumped", 1);
        let fail = |m: String| {
            Err(format!("{}: {m}; the text is {:?} (its longer form has {} bytes)", p.what, p.small, p.large.len()))
        };
        for (s, c) in [(&p.small, &a), (&p.large, &b)] {
            if let Err(m) = absolute(s, c) {
                return fail(m);
            }
        }
        let growth = b.steps as f64 / (a.steps + 2000) as f64;
        let key = if p.ratio > 5.0 { "max_x100_linear_growth_of_24" } else if p.linear { "max_x100_linear_growth_of_4" } else { "max_x100_growth_of_5" };
        cx.max(key, (growth * 100.0) as u64);
        let limit = if p.linear { p.ratio * 1.35 } else { p.ratio * p.ratio * 1.3 };
        if growth > limit {
            return fail(format!(
                "{} times the text takes {growth:.1} times the steps ({} and {})",
                p.ratio, a.steps, b.steps
            ));
        }
        let growth = b.peak as f64 / (a.peak + 20_000) as f64;
        cx.max("max_x100_peak_growth", (growth * 100.0) as u64);
        if growth > p.ratio * 2.5 {
            return fail(format!("{} times the text takes {growth:.1} times the memory", p.ratio));
        }
        let growth = b.total as f64 / (a.total + 20_000) as f64;
        let key = if p.ratio > 5.0 { "max_x100_linear_growth_of_allocation" } else if p.linear { "max_x100_linear_growth_of_allocation_4" } else { "max_x100_growth_of_allocation_5" };
        cx.max(key, (growth * 100.0) as u64);
        if growth > if p.linear { p.ratio * 2.0 } else { p.ratio * p.ratio * 1.3 } {
            return fail(format!("{} times the text allocates {growth:.1} times the memory over time ({} and {})", p.ratio, a.total, b.total));
        }
        if b.events > 4 {
            cx.observe(mix(mix(a.steps, b.steps), b.events));
        }
        cx.sample(|| format!("{} from {} to {} bytes: {} to {} steps, {} to {} bytes peak", p.what, p.small.len(), p.large.len(), a.steps, b.steps, a.peak, b.peak));
        Ok(())
    }
    fn show(&self, t: &[u8]) -> String {
        let p = pump(t);
        format!("{} ({} and {} bytes)\n{}", p.what, p.small.len(), p.large.len(), p.small)
    }
    fn rule(&self) -> &'static str {
        "one evaluation measures events, executed edges, peak and total memory of parsing one text, or of one text and a version with its repeated part repeated 4 to 32 times as often; non-trivial: more than four events; distinct: step and event counts"
    }
}
