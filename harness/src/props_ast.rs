//! Round trips of the constructive specification: tree -> source -> events.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::htm;
use crate::rng::Tape;
use crate::stream;
use jotdown::*;

pub struct Inline;

pub fn inline_case(t: &[u8]) -> (Vec<In>, String) {
    let mut t = Tape::new(t);
    let mut cx = Cx::new();
    cx.budget = 40;
    let mut v = gen_inlines(&mut t, &mut cx);
    if t.chance(1, 100) {
        unclosed(&mut t, &mut v);
    }
    make_safe(&mut v);
    let s = inline_src(&v);
    (v, s)
}

/// An element with openers in it that are never closed.
fn unclosed(t: &mut Tape, v: &mut Vec<In>) {
    let n = t.below(60);
    let n = t.many(n).min(2000);
    let kind = t.below(7);
    let mut c = vec![];
    let mut text = String::new();
    for _ in 0..n {
        text.push_str(match t.below(8) {
            0 if kind != 0 => "{_",
            1 if kind != 0 => "_",
            2 if kind > 1 => "{*",
            3 if kind > 1 => "*",
            4 => "~",
            5 => "{+",
            6 if kind < 3 => "[",
            _ => "{=",
        });
        text.push_str("a ");
    }
    text.push('b');
    c.push(In::Text(text.clone(), text));
    let x = match kind {
        0 => In::Style { st: St::Emph, brace: t.chance(1, 2), c, at: vec![] },
        1 => In::Style { st: St::Strong, brace: t.chance(1, 2), c, at: vec![] },
        2 => In::Style { st: St::Del, brace: true, c, at: vec![] },
        3 => In::Span { c, at: vec![At { k: Ak::Class, v: "c".into(), quoted: false }] },
        k => In::Link { c, dest: Dest::Url("u".into()), image: k == 4, at: vec![] },
    };
    let w = |s: &str| In::Text(s.into(), s.into());
    v.splice(0..0, [w("w"), In::Sp, x, In::Sp]);
}

impl Prop for Inline {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let (v, s) = inline_case(t);
        let ev = shim::events(&s);
        let got = normalise(&ev);
        let mut want = vec![
            N::Start(Container::Document, vec![]),
            N::Start(Container::Paragraph, vec![]),
        ];
        expect_inlines(&v, &Defs::default(), &mut want);
        want.push(N::End(Container::Paragraph));
        want.push(N::End(Container::Document));
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        if let Some(d) = diff(&want, &got) {
            return Err(format!("source {s:?}: {d}"));
        }
        if n > 6 {
            cx.observe(h);
        }
        cx.sample(|| format!("{s:?} -> {n} events as specified"));
        Ok(())
    }
    fn show(&self, t: &[u8]) -> String {
        inline_case(t).1
    }
    fn rule(&self) -> &'static str {
        "one evaluation builds a random tree of inline elements, writes it as source, parses it and compares the events with those of the tree; non-trivial: more than two inline events; distinct: event-kind sequence"
    }
}

pub struct Blocks;

fn block_case(t: &[u8]) -> Doc {
    let mut t = Tape::new(t);
    let mut bx = Bcx::new();
    gen_doc(&mut t, &mut bx, 6)
}

impl Prop for Blocks {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let doc = block_case(t);
        doc_check(&doc, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        doc_src(&block_case(t))
    }
    fn rule(&self) -> &'static str {
        "one evaluation builds a random tree of blocks, writes it as source, parses it and compares the events with those of the tree; non-trivial: more than six events; distinct: event-kind sequence"
    }
}

/// A property decided by round trips of documents of one kind.
pub struct Docs {
    pub mode: Mode,
    /// Weights of the block kinds (see ast_block).
    pub w: [usize; 12],
    pub ats: bool,
    pub blocks: usize,
    pub inlines: usize,
    /// Also compare the rendered document with the reference renderer.
    pub html: bool,
    pub rule: &'static str,
}

impl Docs {
    fn case(&self, t: &[u8]) -> Doc {
        let mut t = Tape::new(t);
        let mut bx = Bcx::new();
        bx.mode = self.mode;
        bx.w = self.w;
        bx.ats = self.ats;
        bx.inline_budget = self.inlines;
        bx.budget = self.blocks + 6;
        gen_doc(&mut t, &mut bx, self.blocks)
    }
}

impl Prop for Docs {
    fn weights(&self) -> (usize, usize) {
        (usize::from(self.mode == Mode::Literal), 3)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        html_check(s, cx).map_err(|m| format!("source {s:?}: {m}"))
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let doc = self.case(t);
        doc_check(&doc, cx)?;
        if self.html {
            let s = doc_src(&doc);
            html_check(&s, cx).map_err(|m| format!("source {s:?}: {m}"))?;
        }
        Ok(())
    }
    fn show(&self, t: &[u8]) -> String {
        doc_src(&self.case(t))
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
}

/// The rendered document is what the reference renderer makes of the events, and raw HTML is
/// written as it is.
pub fn html_check(s: &str, cx: &mut Run) -> Check {
    let ev = shim::events(s);
    let (masked, raws) = htm::mask_raw(&ev);
    let f = shim::Format::Minified;
    let h = shim::render(masked.clone(), &f).map_err(|e| e.to_string())?;
    let mut got = htm::tokenize(&h).map_err(|m| format!("{m}\n{h}"))?;
    let mut want = htm::reference(&masked);
    htm::canon(&mut want);
    htm::canon(&mut got);
    if let Some(d) = htm::diff(&want, &got) {
        return Err(format!("{d}\n{h}"));
    }
    cx.count("html_bytes", h.len() as u64);
    raw_check(&ev, &h, &raws, &f)?;
    if !raws.is_empty() {
        let f = crate::props_html::layout(1 + crate::rng::hash(s.as_bytes()) as usize % 4);
        let h = shim::render(masked, &f).map_err(|e| e.to_string())?;
        raw_check(&ev, &h, &raws, &f).map_err(|e| format!("{f:?}: {e}"))?;
    }
    cx.count("raw_html_elements", raws.len() as u64);
    Ok(())
}

/// `masked` is the rendering with each raw HTML element replaced by a marker.
pub fn raw_check(ev: &[Event], masked: &str, raws: &[String], f: &shim::Format) -> Check {
    let full = shim::render(ev.to_vec(), f).map_err(|e| e.to_string())?;
    let mut want = String::new();
    let mut rest = masked;
    for (i, r) in raws.iter().enumerate() {
        let m = format!("<raw-{i}>");
        // content of footnotes that are not referenced is not rendered
        let Some(p) = rest.find(&m) else { return Ok(()) };
        want.push_str(&rest[..p]);
        want.push_str(r);
        rest = &rest[p + m.len()..];
    }
    want.push_str(rest);
    if want != full {
        return Err(format!("raw HTML is not written as it is\n{full}\nexpected\n{want}"));
    }
    Ok(())
}

/// Print, parse, compare.
pub fn doc_check(doc: &Doc, cx: &mut Run) -> Check {
    compare(&doc_src(doc), doc, cx)
}

/// The events of a text are those of a document.
pub fn compare(s: &str, doc: &Doc, cx: &mut Run) -> Check {
    let want = expect_doc(doc);
    if ambiguous(&want) {
        cx.count("skipped_ambiguous_reference", 1);
        return Ok(());
    }
    let ev = shim::events(s);
    let got = normalise(&ev);
    let (h, n) = stream::shape(ev.iter(), cx);
    cx.count("events", n);
    if let Some(d) = diff(&want, &got) {
        return Err(format!("source {s:?}: {d}"));
    }
    if n > 8 {
        cx.observe(h);
    }
    cx.sample(|| format!("{s:?} -> {n} events as specified"));
    Ok(())
}
