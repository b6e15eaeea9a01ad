//! C01..C04: totality, nesting, spans, event/source agreement on arbitrary text.
use crate::engine::{Check, Cx, Prop};
use crate::dict;
use crate::large::{depth, large};
use crate::props_html::structured;
use crate::rng::{mix, Tape};
use crate::{rt, stream};
use shim::Format;

/// A long text: a part that occurs very often, with something before and after it.
struct Long {
    pre: String,
    unit: String,
    suf: String,
    n: usize,
}

impl Long {
    fn text(&self, n: usize) -> String {
        format!("{}{}{}", self.pre, self.unit.repeat(n), self.suf)
    }
}

/// Starts of something that may last for many lines.
const OPEN: &[&str] = &[
    "*a", "_", "[", "[a](", "[a][", "![", "{=", "{-", "{+", "^", "~", "\"", "'", "`", "``", "$`", "{", "{a=\"", "{%", "[a]{.b",
    "[a]{c=\"", "`c`{", "*a*{k=\"", "<", "[^", ":a", "# *", "# ", "- [", "> `", "> ", "| ", "^ ", "```\n", "::: c\n", "[a]: ",
    "[^a]: ", ": a", "{.a}\n", "{.a\n", "|a|\n^ *", "1. {a=\"", "`r`{=h",
];

fn long(t: &[u8]) -> Option<Long> {
    let (b, rest) = t.split_first()?;
    if *b >= 6 {
        return None;
    }
    let mut t = Tape::new(rest);
    let pre = match t.below(4) {
        0 => String::new(),
        1 => (0..1 + t.below(2)).map(|_| *t.pick(dict::TOKENS)).collect(),
        _ => t.pick(OPEN).to_string(),
    };
    let mut unit: String = match t.below(4) {
        0 => t.pick(&["b\n", "a b\n", "x", "\n", "b\\\n", "  b\n", "b \n", "> b\n", "c.\n"]).to_string(),
        1 => format!("{}\n", t.pick(dict::TOKENS)),
        _ => (0..1 + t.below(3)).map(|_| *t.pick(dict::TOKENS)).collect(),
    };
    if t.chance(1, 3) && !unit.ends_with('\n') {
        unit.push('\n');
    }
    let suf = if t.chance(1, 2) { String::new() } else { t.pick(dict::TOKENS).to_string() };
    let n = (1 << (14 + t.below(4))).min(250_000 / unit.len());
    Some(Long { pre, unit, suf, n })
}

/// Long texts need no more of the stack than short ones unless they are deeply nested, which is found out with
/// shorter ones first. These also tell how many steps to expect.
fn endure(l: &Long, cx: &mut Cx) -> Check {
    let cost = |n: usize| {
        rt::begin(u64::MAX);
        let s = l.text(n);
        let ev = shim::events(&s);
        (rt::steps() as f64, depth(&ev))
    };
    let ((a, d), (b, e)) = (cost(200), cost(400));
    if e > 40 || e > d {
        cx.count("long_but_deep", 1);
        rt::clear_hits();
        return Ok(());
    }
    let square = (b - 2.0 * a).max(0.0) / 80_000.0;
    let linear = b / 400.0;
    let mut n = l.n;
    while n > 400 && linear * n as f64 + square * (n as f64) * (n as f64) > 2e7 {
        n /= 2;
    }
    let s = l.text(n);
    rt::begin(6_000_000_000);
    let (mut events, mut bytes) = (0, 0);
    for f in [Format::Default, Format::Indented { string: "\t".into(), level: 1 }] {
        let ev = shim::events(&s);
        events = ev.len();
        match shim::render(ev, &f) {
            Ok(o) => bytes += o.len(),
            Err(e) => return Err(format!("{:?} and {n} times {:?}: rendering failed: {e}", l.pre, l.unit)),
        }
    }
    let _ = shim::attributes(&s);
    cx.count("long_texts", 1);
    cx.count("events", events as u64);
    cx.count("html_bytes", bytes as u64);
    cx.max("max_steps", rt::steps());
    cx.max("max_input_bytes", s.len() as u64);
    cx.max("max_input_lines", s.bytes().filter(|b| *b == b'\n').count() as u64);
    cx.observe(mix(events as u64, bytes as u64));
    rt::clear_hits(); // such counts are no news, and the search should not dwell on these texts
    Ok(())
}

pub struct Totality;
impl Prop for Totality {
    fn weights(&self) -> (usize, usize) {
        (4, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
        match long(t) {
            Some(l) => endure(&l, cx),
            None => self.text(&structured(t), cx),
        }
    }
    fn show(&self, t: &[u8]) -> String {
        match long(t) {
            Some(l) => format!("{:?}, then up to {} times {:?}, then {:?}", l.pre, l.n, l.unit, l.suf),
            None => structured(t),
        }
    }
    fn text(&mut self, s: &str, cx: &mut Cx) -> Check {
        let ev = shim::spanned(s);
        let (h, n) = stream::shape(ev.iter().map(|e| &e.0), cx);
        cx.count("events", n);
        let events: Vec<_> = ev.iter().map(|e| e.0.clone()).collect();
        // the iterator is fused: once exhausted it stays exhausted
        let mut p = shim::parser(s);
        while shim::next(&mut p).is_some() {}
        for _ in 0..3 {
            if let Some(e) = shim::next(&mut p) {
                return Err(format!("event {e:?} after the end of the stream"));
            }
        }
        let mut bytes = 0;
        for f in [
            Format::Default,
            Format::Minified,
            Format::Indented {
                string: "\t".into(),
                level: 1,
            },
        ] {
            match shim::render(events.clone(), &f) {
                Ok(o) => bytes += o.len(),
                Err(e) => return Err(format!("rendering {f:?} to a string failed: {e}")),
            }
        }
        match shim::attributes(s) {
            Ok(_) => cx.count("attribute_lists_accepted", 1),
            Err(e) => {
                cx.count("attribute_lists_rejected", 1);
                if e.pos > s.len() {
                    return Err(format!("attribute error position {} out of bounds", e.pos));
                }
            }
        }
        cx.count("html_bytes", bytes as u64);
        cx.max("max_steps", rt::steps());
        cx.max("max_input_bytes", s.len() as u64);
        if n > 4 {
            cx.observe(h);
        }
        cx.sample(|| format!("{s:?} -> {n} events, {bytes} bytes of HTML"));
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses a text to the end, renders it in three formats and parses it as an attribute list; non-trivial: more than two events besides the document; distinct: event-kind sequence"
    }
}

macro_rules! stream_prop {
    ($name:ident, $rule:expr, |$s:ident, $ev:ident, $cx:ident| $body:expr) => {
        pub struct $name;
        impl Prop for $name {
            fn weights(&self) -> (usize, usize) {
                (3, 1)
            }
            fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
                match large(t, 24, 30_000) {
                    None => self.text(&structured(t), cx),
                    Some(s) => self.text(&s, cx),
                }
            }
            fn show(&self, t: &[u8]) -> String {
                match large(t, 24, 30_000) {
                    None => structured(t),
                    Some(s) => s,
                }
            }
            fn text(&mut self, $s: &str, $cx: &mut Cx) -> Check {
                let $ev = shim::spanned($s);
                let (h, n) = stream::shape($ev.iter().map(|e| &e.0), $cx);
                $cx.count("events", n);
                let r: Check = $body;
                r?;
                if n > 4 {
                    $cx.observe(h);
                }
                $cx.sample(|| format!("{:?} -> {} events", $s, n));
                Ok(())
            }
            fn rule(&self) -> &'static str {
                $rule
            }
        }
    };
}

stream_prop!(
    Nesting,
    "one evaluation checks the event stream of one text against the nesting and content-model automaton; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, cx| {
        let events: Vec<_> = ev.into_iter().map(|e| e.0).collect();
        cx.max("max_depth", depth(&events));
        stream::nesting(&events)
    }
);

stream_prop!(
    Spans,
    "one evaluation checks bounds, character boundaries, order, disjointness and gaps of all event ranges of one text; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, cx| stream::spans(s, &ev, cx)
);

stream_prop!(
    Agreement,
    "one evaluation compares every event of one text with the source slice of its range; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, cx| stream::agreement(s, &ev, cx)
);
