//! Monitors of the HTML output.
use crate::ast_block::{doc_src, gen_doc, Bcx};
use crate::engine::{Check, Cx, Prop};
use crate::htm::{self, T};
use crate::large::large;
use crate::rng::{hash, mix, Rng, Tape};
use crate::stream;
use jotdown::*;
use shim::Format;
use std::collections::BTreeSet;

/// Documents of the constructive grammar reach rendering paths random text rarely forms.
pub fn structured(t: &[u8]) -> String {
    if let Some(s) = large(t, 12, 6_000) {
        return s;
    }
    let mut t = Tape::new(t);
    let mut bx = Bcx::new();
    bx.inline_budget = 6;
    doc_src(&gen_doc(&mut t, &mut bx, 6))
}

fn parse_masked<'s>(s: &'s str, cx: &mut Cx) -> (Vec<Event<'s>>, Vec<String>) {
    let ev = shim::events(s);
    let (h, n) = stream::shape(ev.iter(), cx);
    cx.count("events", n);
    if n > 4 {
        cx.observe(h);
    }
    htm::mask_raw(&ev)
}

const LAYOUTS: usize = 5;

pub fn layout(i: usize) -> Format {
    match i % LAYOUTS {
        0 => Format::Minified,
        1 => Format::Default,
        2 => Format::Indented { string: "\t".into(), level: 0 },
        3 => Format::Indented { string: "  ".into(), level: 3 },
        _ => Format::Indented { string: String::new(), level: 2 },
    }
}

fn render(ev: &[Event], f: &Format) -> Result<String, String> {
    shim::render(ev.to_vec(), f).map_err(|e| format!("rendering to a string failed: {e}"))
}

macro_rules! html_prop {
    ($name:ident, $rule:expr, |$s:ident, $ev:ident, $raws:ident, $cx:ident| $body:expr) => {
        pub struct $name;
        impl Prop for $name {
            fn weights(&self) -> (usize, usize) {
                (3, 1)
            }
            fn text(&mut self, $s: &str, $cx: &mut Cx) -> Check {
                let ($ev, $raws) = parse_masked($s, $cx);
                let r: Check = $body;
                r.map_err(|m| format!("source {:?}: {m}", $s))
            }
            fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
                self.text(&structured(t), cx)
            }
            fn show(&self, t: &[u8]) -> String {
                structured(t)
            }
            fn rule(&self) -> &'static str {
                $rule
            }
        }
    };
}

html_prop!(
    WellFormed,
    "one evaluation renders one document in a layout, tokenizes the HTML strictly and checks balance, parents and attribute uniqueness; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, raws, cx| {
        let f = layout(hash(s.as_bytes()) as usize);
        let h = render(&ev, &f)?;
        let toks = htm::tokenize(&h).map_err(|m| format!("{m}\n{h}"))?;
        let n = htm::balanced(&toks).map_err(|m| format!("{m}\n{h}"))?;
        cx.count("elements", n as u64);
        cx.count("raw_html_masked", raws.len() as u64);
        cx.sample(|| format!("{s:?} -> {n} balanced elements ({f:?})"));
        Ok(())
    }
);

const OWN: &[&str] = &[
    "id", "class", "href", "src", "alt", "start", "type", "style", "role", "disabled", "checked",
];

html_prop!(
    Escaping,
    "one evaluation renders one document, decodes the HTML strictly and compares text, attribute values and admissible names with the events; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, raws, cx| {
        let h = render(&ev, &Format::Minified)?;
        let toks = htm::tokenize(&h).map_err(|m| format!("{m}\n{h}"))?;
        // names of attributes come from the renderer or are attribute keys of the document
        let mut keys: BTreeSet<String> = OWN.iter().map(|s| s.to_string()).collect();
        for e in &ev {
            if let Event::Start(_, a) | Event::ThematicBreak(a) = e {
                keys.extend(htm::attr_map(a).into_keys());
            }
        }
        let want = htm::reference(&ev);
        for t in &toks {
            if let T::Open(n, m) = t {
                for k in m.keys() {
                    if !keys.contains(k) {
                        return Err(format!("attribute {k:?} of <{n}> is not in the document\n{h}"));
                    }
                }
                if n.starts_with("raw-") {
                    cx.count("raw_html", 1);
                } else if !known_tag(n) {
                    return Err(format!("element <{n}> comes from text\n{h}"));
                }
            }
        }
        let (a, b) = (texts(&want), texts(&toks));
        if a != b {
            return Err(format!("text {b:?} in the HTML, {a:?} in the document\n{h}"));
        }
        let (a, b) = (values(&want), values(&toks));
        if a != b {
            return Err(format!("attribute values {b:?} in the HTML, {a:?} in the document\n{h}"));
        }
        let specials = a.iter().chain(std::iter::once(&texts(&want)))
            .map(|s| s.bytes().filter(|b| matches!(b, b'<' | b'>' | b'&' | b'"')).count())
            .sum::<usize>();
        cx.count("special_characters", specials as u64);
        cx.count("raw_html_masked", raws.len() as u64);
        cx.sample(|| format!("{s:?} -> {specials} special characters, {} values", a.len()));
        Ok(())
    }
);

fn known_tag(t: &str) -> bool {
    htm::heading(t)
        || [
            "p", "blockquote", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "caption",
            "section", "div", "pre", "code", "span", "a", "img", "br", "hr", "input", "sub", "sup", "ins",
            "del", "strong", "em", "mark",
        ]
        .contains(&t)
}

fn texts(v: &[T]) -> String {
    v.iter()
        .filter_map(|t| match t {
            T::Text(s) => Some(s.as_str()),
            _ => None,
        })
        .collect()
}

fn values(v: &[T]) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for t in v {
        if let T::Open(_, m) = t {
            o.extend(m.iter().map(|(k, v)| {
                if k == "class" {
                    v.split_whitespace().collect::<Vec<_>>().join(" ")
                } else {
                    v.clone()
                }
            }));
        }
    }
    o.sort();
    o
}

html_prop!(
    Faithful,
    "one evaluation renders one document and compares the HTML token by token with an independent reference renderer; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, raws, cx| {
        let h = render(&ev, &Format::Minified)?;
        let mut got = htm::tokenize(&h).map_err(|m| format!("{m}\n{h}"))?;
        let mut want = htm::reference(&ev);
        htm::canon(&mut want);
        htm::canon(&mut got);
        cx.count("tokens", want.len() as u64);
        cx.count("raw_html_masked", raws.len() as u64);
        if let Some(d) = htm::diff(&want, &got) {
            return Err(format!("{d}\n{h}"));
        }
        cx.sample(|| format!("{s:?} -> {} tokens as the reference renderer", want.len()));
        Ok(())
    }
);

html_prop!(
    Layouts,
    "one evaluation renders one document minified, by default and with a random indentation and compares tags, text and line layout; non-trivial: more than two events besides the document; distinct: event-kind sequence",
    |s, ev, raws, cx| {
        let mut r = Rng::new(hash(s.as_bytes()));
        let ev = mark_paragraphs(ev, s);
        let min = render(&ev, &Format::Minified)?;
        let a = strip(&htm::tokenize(&min).map_err(|m| format!("{m}\n{min}"))?);
        let mut ind = r.pick(&["\t", "  ", "    ", " ", "\t\t"]).to_string();
        let mut level = r.below(4);
        if s.len() < 2_000 && r.chance(1, 16) {
            // more than anyone would want
            let d = crate::dict::get();
            let n = if r.chance(1, 2) { *r.pick(&d.counts) } else { *r.pick(&[8, 16, 17, 32, 33, 64, 65]) };
            if r.chance(1, 2) {
                ind = (0..n).map(|i| if i % 3 == 0 { '\t' } else { ' ' }).collect();
            } else {
                level = n;
            }
        }
        for f in [
            Format::Default,
            Format::Indented { string: ind.clone(), level },
        ] {
            let h = render(&ev, &f)?;
            let toks = htm::tokenize(&h).map_err(|m| format!("{f:?}: {m}\n{h}"))?;
            let b = strip(&toks);
            if let Some(d) = htm::diff(&a, &b) {
                return Err(format!("{f:?} differs from the minified layout: {d}\n{min}\n{h}"));
            }
            let (string, level) = match &f {
                Format::Indented { string, level } => (string.as_str(), *level),
                _ => ("", 0),
            };
            cx.count("block_lines", lines(&toks, string, level).map_err(|m| format!("{f:?}: {m}\n{h}"))?);
            if !h.ends_with('\n') {
                return Err(format!("{f:?}: no newline at the end\n{h}"));
            }
        }
        let flat = render(&ev, &Format::Indented { string: String::new(), level })?;
        let def = render(&ev, &Format::Default)?;
        if flat != def {
            return Err(format!("indenting with nothing differs from the default\n{flat}\n{def}"));
        }
        // minified output has no newline besides those of the content
        let content: usize = ev.iter().map(|e| match e {
            Event::Str(s) => s.matches('\n').count(),
            Event::Softbreak | Event::Hardbreak => 1,
            Event::Start(c, a) => {
                let dst = match c {
                    Container::Link(d, _) | Container::Image(d, _) => d.matches('\n').count(),
                    _ => 0,
                };
                dst + newlines(a)
            }
            Event::ThematicBreak(a) => newlines(a),
            _ => 0,
        }).sum();
        if min.matches('\n').count() > content {
            return Err(format!("white space between elements in the minified layout\n{min}"));
        }
        cx.count("raw_html_masked", raws.len() as u64);
        cx.sample(|| format!("{s:?} -> {} tokens in three layouts ({ind:?} from level {level})", a.len()));
        Ok(())
    }
);

fn newlines(a: &Attributes) -> usize {
    htm::attr_map(a).values().map(|v| v.matches('\n').count()).sum()
}

/// Paragraphs of tight lists have no tags, so each gets a character of its own at its beginning.
fn mark_paragraphs<'s>(ev: Vec<Event<'s>>, s: &str) -> Vec<Event<'s>> {
    let Some(mark) = ('\u{e000}'..='\u{e0ff}').find(|c| !s.contains(*c)) else { return ev };
    let mut out = Vec::with_capacity(ev.len());
    for e in ev {
        let p = matches!(e, Event::Start(Container::Paragraph, _));
        out.push(e);
        if p {
            out.push(Event::Str(mark.to_string().into()));
        }
    }
    out
}

/// Removes what layout may add outside of preformatted text: line breaks and the white space after.
pub fn strip(v: &[T]) -> Vec<T> {
    let mut pre = 0;
    let mut out = vec![];
    for t in v {
        match t {
            T::Open(n, m) => {
                if n == "pre" {
                    pre += 1;
                }
                let mut m = m.clone();
                if let Some(a) = m.get_mut("alt") {
                    *a = unbreak(a);
                }
                out.push(T::Open(n.clone(), m));
            }
            T::Close(n) => {
                if n == "pre" {
                    pre -= 1;
                }
                out.push(t.clone());
            }
            T::Text(s) if pre > 0 => htm::push_text(&mut out, s),
            T::Text(s) => {
                let u = unbreak(s);
                let u = match out.last() {
                    // a line break may have been added here
                    Some(T::Open(n, _) | T::Close(n)) if n == "br" => {
                        u.trim_start_matches([' ', '\t'])
                    }
                    _ => &u,
                };
                htm::push_text(&mut out, u);
            }
        }
    }
    // the initial indentation
    if let Some(T::Text(s)) = out.first_mut() {
        *s = s.trim_start_matches([' ', '\t']).to_string();
        if s.is_empty() {
            out.remove(0);
        }
    }
    out
}

fn unbreak(s: &str) -> String {
    let mut o = String::new();
    for (i, p) in s.split('\n').enumerate() {
        o.push_str(if i == 0 { p } else { p.trim_start_matches([' ', '\t']) });
    }
    o
}

fn block_container(t: &str) -> bool {
    matches!(
        t,
        "blockquote" | "ul" | "ol" | "li" | "dl" | "dd" | "table" | "tr" | "section" | "div"
    )
}

fn block_leaf(t: &str) -> bool {
    htm::heading(t) || matches!(t, "p" | "pre" | "td" | "th" | "caption" | "dt" | "hr")
}

/// Every block element starts its own line, indented by the number of open block containers.
fn lines(v: &[T], string: &str, level: usize) -> Result<u64, String> {
    let mut depth = level;
    let mut n = 0;
    let mut rule = |i: usize, depth: usize, what: &str| {
        let want = string.repeat(depth);
        let prev = match i.checked_sub(1).map(|j| &v[j]) {
            None if depth == 0 || string.is_empty() => return Ok(()),
            Some(T::Text(s)) => s.as_str(),
            _ => return Err(format!("{what} does not start a line")),
        };
        let line = match prev.rfind('\n') {
            Some(p) => &prev[p + 1..],
            None if i == 1 => prev,
            None => return Err(format!("{what} does not start a line")),
        };
        n += 1;
        if line == want {
            Ok(())
        } else {
            Err(format!("{what} is indented by {line:?}, expected {want:?}"))
        }
    };
    for (i, t) in v.iter().enumerate() {
        match t {
            T::Open(t, _) => {
                if block_container(t) || block_leaf(t) {
                    rule(i, depth, &format!("<{t}>"))?;
                }
                if block_container(t) {
                    depth += 1;
                }
            }
            T::Close(t) if block_container(t) => {
                depth -= 1;
                rule(i, depth, &format!("</{t}>"))?;
            }
            _ => {}
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------ sinks

/// Records what it is given and fails at a planned call.
struct Sink {
    data: Vec<u8>,
    calls: usize,
    fail_at: Option<usize>,
    /// Error kind of the planned failure.
    kind: std::io::ErrorKind,
    /// Longest write accepted at once; 0 for all.
    chunk: usize,
    /// Every n-th call is interrupted; 0 for none.
    interrupt: usize,
    after_failure: usize,
    failed: bool,
    token: u64,
}

impl Sink {
    fn new() -> Self {
        Sink {
            data: vec![],
            calls: 0,
            fail_at: None,
            kind: std::io::ErrorKind::Other,
            chunk: 0,
            interrupt: 0,
            after_failure: 0,
            failed: false,
            token: 0,
        }
    }
}

#[derive(Debug)]
struct Planned(u64);
impl std::fmt::Display for Planned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "planned failure {}", self.0)
    }
}
impl std::error::Error for Planned {}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.failed {
            self.after_failure += 1;
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.calls += 1;
        if self.fail_at == Some(self.calls) {
            self.failed = true;
            if self.kind == std::io::ErrorKind::WriteZero {
                return Ok(0);
            }
            return Err(std::io::Error::new(self.kind, Planned(self.token)));
        }
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = if self.chunk > 0 { b.len().min(self.chunk) } else { b.len() };
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct FmtSink {
    data: String,
    calls: usize,
    fail_at: Option<usize>,
    failed: bool,
    after_failure: usize,
}

impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after_failure += 1;
            return Err(std::fmt::Error);
        }
        self.calls += 1;
        if self.fail_at == Some(self.calls) {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.data.push_str(s);
        Ok(())
    }
}

pub struct Sinks;

impl Prop for Sinks {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Cx) -> Check {
        let ev = shim::events(s);
        let (h, n) = stream::shape(ev.iter(), cx);
        let mut r = Rng::new(mix(hash(s.as_bytes()), 77));
        let f = layout(r.below(LAYOUTS));
        let fail = |m: String| Err(format!("source {s:?}, {f:?}: {m}"));
        let want = render(&ev, &f)?;
        // every way to render gives the same text
        if shim::render_each(ev.clone(), &f).as_deref() != Ok(&want) {
            return fail("push_event for each event differs from push_events".into());
        }
        let def = render(&ev, &Format::Default)?;
        if shim::render_to_string(ev.clone()) != def || shim::render_src(s) != def {
            return fail("render_to_string differs from the default renderer".into());
        }
        let mut a = Sink::new();
        if let Err(e) = shim::write_events_dyn(ev.clone(), &f, &mut a) {
            return fail(format!("write_events failed on a sink that accepts everything: {e}"));
        }
        if a.data != want.as_bytes() {
            return fail("write_events differs from push_events".into());
        }
        let total = a.calls;
        cx.count("sink_calls", total as u64);
        // short writes and interruptions
        let mut a = Sink::new();
        a.chunk = 1 + r.below(7);
        a.interrupt = if r.chance(1, 2) { 2 + r.below(9) } else { 0 };
        let res = if r.chance(1, 2) {
            shim::write_events_dyn(ev.clone(), &f, &mut a)
        } else {
            shim::write_each_dyn(ev.clone(), &f, &mut a)
        };
        if let Err(e) = res {
            return fail(format!("write failed on a slow sink: {e}"));
        }
        if a.data != want.as_bytes() {
            return fail("output through a slow sink differs".into());
        }
        // a failing byte sink: a prefix arrives, the error is the sink's, nothing follows
        let mut points: Vec<usize> = vec![1, total, total / 2 + 1];
        if total > 0 {
            points.extend((0..4).map(|_| 1 + r.below(total)));
        }
        for at in points {
            if at > total || at == 0 {
                continue;
            }
            use std::io::ErrorKind as K;
            let mut a = Sink::new();
            a.fail_at = Some(at);
            a.kind = *r.pick(&[K::Other, K::BrokenPipe, K::StorageFull, K::PermissionDenied, K::WriteZero, K::WouldBlock]);
            a.token = r.next();
            let each = r.chance(1, 2);
            let res = if each {
                shim::write_each_dyn(ev.clone(), &f, &mut a)
            } else {
                shim::write_events_dyn(ev.clone(), &f, &mut a)
            };
            let Err(e) = res else {
                return fail(format!("the failure of write {at} of {total} was not reported"));
            };
            if e.kind() != a.kind {
                return fail(format!("write {at} failed with {:?}, reported {:?}", a.kind, e.kind()));
            }
            if a.kind != K::WriteZero {
                let same = e.get_ref().and_then(|e| e.downcast_ref::<Planned>()).is_some_and(|p| p.0 == a.token);
                if !same {
                    return fail(format!("write {at} failed, but another error was reported: {e}"));
                }
            }
            if !want.as_bytes().starts_with(&a.data) {
                return fail(format!("after a failure at write {at} the output is no prefix"));
            }
            if a.after_failure > 0 {
                return fail(format!("{} writes after the failed write {at}", a.after_failure));
            }
            cx.count("injected_failures", 1);
        }
        // a failing text sink
        let mut a = FmtSink { data: String::new(), calls: 0, fail_at: None, failed: false, after_failure: 0 };
        if shim::push_events_dyn(ev.clone(), &f, &mut a).is_err() || a.data != want {
            return fail("push_events to a text sink differs".into());
        }
        if a.calls > 0 {
            for _ in 0..3 {
                let at = 1 + r.below(a.calls);
                let mut b = FmtSink { data: String::new(), calls: 0, fail_at: Some(at), failed: false, after_failure: 0 };
                if shim::push_events_dyn(ev.clone(), &f, &mut b).is_ok() {
                    return fail(format!("the failure of text write {at} was not reported"));
                }
                if !want.starts_with(&b.data) || b.after_failure > 0 {
                    return fail(format!("output continued after the failure of text write {at}"));
                }
                cx.count("injected_failures", 1);
            }
        }
        if n > 4 {
            cx.observe(h);
        }
        cx.sample(|| format!("{s:?} ({f:?}) -> {total} writes, failures injected at up to 10 of them"));
        Ok(())
    }
    fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
        self.text(&structured(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        structured(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation renders one document through every rendering entry point, through slow and interrupted sinks, and through sinks failing at several planned writes; non-trivial: more than two events besides the document; distinct: event-kind sequence"
    }
}
