//! Metamorphic monitors: text within containers, text next to other text.
use crate::ast::{diff, normalise, N};
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_html::structured;
use crate::rng::{hash, mix};
use crate::stream;
use jotdown::*;
use std::ops::Range;

/// The events of a text within a container: headings have no sections there.
fn nested<'a>(ev: &[N<'a>]) -> Vec<N<'a>> {
    let mut out = Vec::with_capacity(ev.len());
    let mut at = vec![];
    for e in &ev[1..ev.len() - 1] {
        match e {
            N::Start(Container::Section { .. }, a) => at = a.clone(),
            N::End(Container::Section { .. }) => {}
            N::Start(Container::Heading { level, id, .. }, a) => {
                let mut a = a.clone();
                a.extend(std::mem::take(&mut at));
                out.push(N::Start(
                    Container::Heading { level: *level, has_section: false, id: id.clone() },
                    a,
                ));
            }
            N::End(Container::Heading { level, id, .. }) => {
                out.push(N::End(Container::Heading { level: *level, has_section: false, id: id.clone() }));
            }
            e => out.push(e.clone()),
        }
    }
    out
}

fn indented_throughout(s: &str) -> bool {
    s.lines().filter(|l| !l.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty()).all(|l| l.starts_with(|c: char| c.is_ascii_whitespace()))
}

/// Whether a blank line before the last block of a list makes it loose depends on what follows.
fn no_tightness(ev: &mut [N]) {
    for e in ev {
        if let N::Start(Container::List { tight, .. }, _) | N::End(Container::List { tight, .. }) = e {
            *tight = false;
        }
    }
}

/// Ways of putting a text into a container of its own.
#[derive(Clone, Copy, Debug)]
enum Wrap {
    Quote,
    QuoteBare,
    QuoteTab,
    Div,
    DivClosed,
    Item,
    ItemTab,
    Footnote,
    FootnoteTab,
    Details,
}

impl Wrap {
    fn pick(h: u64) -> Wrap {
        use Wrap::*;
        [
            Quote, QuoteBare, Div, Item, Footnote, Details, Quote, Div, Item, Footnote, Details, QuoteTab, DivClosed,
            ItemTab, FootnoteTab,
        ][(h % 15) as usize]
    }

    fn source(self, s: &str, indent: usize) -> String {
        let q = self.flush(s);
        if indent == 0 {
            return q;
        }
        let p = " ".repeat(indent);
        q.split_inclusive('\n')
            .map(|l| if l.trim_end_matches('\n').is_empty() { l.to_string() } else { format!("{p}{l}") })
            .collect()
    }

    fn flush(self, s: &str) -> String {
        let with = |p: &str| -> String {
            s.split_inclusive('\n')
                .map(|l| if l.trim_end_matches('\n').is_empty() { l.to_string() } else { format!("{p}{l}") })
                .collect()
        };
        let indented = |n: usize| with(&" ".repeat(n));
        match self {
            Wrap::Quote => s.split_inclusive('\n').map(|l| format!("> {l}")).collect(),
            Wrap::QuoteBare => s
                .split_inclusive('\n')
                .map(|l| if l.trim_end_matches('\n').is_empty() { format!(">{l}") } else { format!("> {l}") })
                .collect(),
            Wrap::Div => {
                let n = s.split(|c| c != ':').map(str::len).max().unwrap_or(0).max(2) + 1;
                format!("{}\n{s}", ":".repeat(n))
            }
            Wrap::DivClosed => {
                let n = s.split(|c| c != ':').map(str::len).max().unwrap_or(0).max(2) + 1;
                let f = ":".repeat(n);
                format!("{f}\n{s}{f}\n")
            }
            Wrap::QuoteTab => s.split_inclusive('\n').map(|l| format!(">\t{l}")).collect(),
            Wrap::ItemTab => format!("1000) x\n\n{}", with("\t\t\t")),
            Wrap::FootnoteTab => format!("[^x]: x\n\n{}", with(["\t", " \t", "\t  "][s.len() % 3])),
            Wrap::Item => format!("1000) x\n\n{}", indented(1 + s.len() % 5)),
            Wrap::Footnote => format!("[^x]: x\n\n{}", indented(1 + s.len() % 4)),
            Wrap::Details => format!(": x\n\n{}", indented(1)),
        }
    }

    fn name(self) -> &'static str {
        match self {
            Wrap::Quote | Wrap::QuoteBare | Wrap::QuoteTab => "in_quote",
            Wrap::Div | Wrap::DivClosed => "in_div",
            Wrap::Item | Wrap::ItemTab => "in_item",
            Wrap::Footnote | Wrap::FootnoteTab => "in_footnote",
            Wrap::Details => "in_details",
        }
    }

    /// The events within the container.
    fn inner<'a, 'b>(self, ev: &'b [N<'a>]) -> Option<&'b [N<'a>]> {
        let plain = |n: usize| {
            ev[..n.min(ev.len())].iter().all(|e| match e {
                N::Start(_, a) => a.is_empty(),
                _ => true,
            })
        };
        let is = |i: usize, f: fn(&Container) -> bool| match ev.get(i) {
            Some(N::Start(c, _) | N::End(c)) => f(c),
            _ => false,
        };
        let n = ev.len();
        let (ok, a, z) = match self {
            Wrap::Quote | Wrap::QuoteBare | Wrap::QuoteTab => {
                let f = |c: &Container| matches!(c, Container::Blockquote);
                (is(1, f) && is(n.wrapping_sub(2), f), 2, 2)
            }
            Wrap::Div | Wrap::DivClosed => {
                let f = |c: &Container| matches!(c, Container::Div { class } if class.is_empty());
                (is(1, f) && is(n.wrapping_sub(2), f), 2, 2)
            }
            Wrap::Item | Wrap::ItemTab => {
                let f = |c: &Container| matches!(c, Container::List { .. });
                let g = |c: &Container| matches!(c, Container::ListItem);
                let p = |c: &Container| matches!(c, Container::Paragraph);
                let ok = is(1, f) && is(2, g) && is(3, p) && is(5, p);
                (ok && is(n.wrapping_sub(2), f) && is(n.wrapping_sub(3), g), 6, 3)
            }
            Wrap::Footnote | Wrap::FootnoteTab => {
                let f = |c: &Container| matches!(c, Container::Footnote { label } if label == "x");
                let p = |c: &Container| matches!(c, Container::Paragraph);
                (is(1, f) && is(2, p) && is(4, p) && is(n.wrapping_sub(2), f), 5, 2)
            }
            Wrap::Details => {
                let f = |c: &Container| matches!(c, Container::DescriptionList);
                let t = |c: &Container| matches!(c, Container::DescriptionTerm);
                let d = |c: &Container| matches!(c, Container::DescriptionDetails);
                let ok = is(1, f) && is(2, t) && is(4, t) && is(5, d);
                (ok && is(n.wrapping_sub(2), f) && is(n.wrapping_sub(3), d), 6, 3)
            }
        };
        (ok && n >= a + z && plain(a)).then(|| &ev[a..n - z])
    }
}

pub struct Nested;

impl Nested {
    fn check(&self, s: &str, cx: &mut Run) -> Check {
        if s.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() {
            return Ok(());
        }
        let ev = shim::events(s);
        let plain = normalise(&ev);
        let mut want = nested(&plain);
        no_tightness(&mut want);
        let h = hash(s.as_bytes());
        let mut w = Wrap::pick(h);
        if matches!(w, Wrap::DivClosed) && (s.contains("```") || s.contains("~~~") || !s.ends_with('\n')) {
            // the fence is code if code before it has no end
            w = Wrap::Div;
        }
        if matches!(w, Wrap::Item | Wrap::ItemTab | Wrap::Footnote | Wrap::FootnoteTab | Wrap::Details) && indented_throughout(s)
            && want.iter().any(|e| matches!(e, N::Start(Container::Blockquote, _)))
        {
            // what a line without prefix that continues a quote keeps of its indentation is left open
            w = Wrap::Quote;
        }
        let q = w.source(s, [0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 8, 20][((h >> 20) % 12) as usize]);
        let qe = shim::events(&q);
        let mut got = normalise(&qe);
        no_tightness(&mut got);
        let Some(inner) = w.inner(&got) else {
            return Err(format!("source {s:?}, in a container {q:?}: not that container around it: {got:?}"));
        };
        if let Some(d) = diff(&want, inner) {
            return Err(format!("source {s:?}, in a container {q:?}: {d}"));
        }
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        cx.count(w.name(), 1);
        if n > 4 {
            cx.observe(mix(h, 1));
        }
        Ok(())
    }
}

impl Prop for Nested {
    fn weights(&self) -> (usize, usize) {
        (3, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        self.check(&structured(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        structured(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses a text on its own and within a block quote, div, list item, footnote or description and compares the events; non-trivial: more than four events; distinct: event-kind sequence"
    }
}

// ------------------------------------------------------------------ neighbours

const SEP: &str = "\n\n***\n\n";

/// What does not depend on the rest of the document: all but sections, identifiers of headings and
/// what references resolve to. Text directly following text is one piece.
fn local<'s>(ev: &[(Event<'s>, Range<usize>)], shift: usize) -> Vec<(N<'s>, Range<usize>)> {
    let mut out: Vec<(N, Range<usize>)> = vec![];
    let mut sec = vec![];
    for (e, r) in ev {
        if matches!(
            e,
            Event::Start(Container::Section { .. } | Container::Document, _)
                | Event::End(Container::Section { .. } | Container::Document)
        ) {
            if let Event::Start(_, a) = e {
                sec = crate::ast::attrs_of(a);
            }
            continue;
        }
        let r = r.start + shift..r.end + shift;
        let n = match e {
            Event::Start(Container::Heading { level, has_section, .. }, a) => {
                let mut at = crate::ast::attrs_of(a);
                at.append(&mut sec);
                N::Start(Container::Heading { level: *level, has_section: *has_section, id: "".into() }, at)
            }
            Event::End(Container::Heading { level, has_section, .. }) => {
                N::End(Container::Heading { level: *level, has_section: *has_section, id: "".into() })
            }
            Event::Start(c, a) => {
                let c = unresolved(c);
                let refs = matches!(
                    c,
                    Container::Link(_, LinkType::Span(SpanLinkType::Unresolved))
                        | Container::Image(_, SpanLinkType::Unresolved)
                );
                // the attributes of the definition come first
                let a = crate::ast::attrs_of(a);
                N::Start(c, if refs { vec![] } else { a })
            }
            Event::End(c) => N::End(unresolved(c)),
            Event::Escape => N::Atom("escape"),
            Event::Blankline => N::Atom("blank"),
            e => match normalise(std::slice::from_ref(e)).pop() {
                Some(n) => n,
                None => continue,
            },
        };
        out.push((n, r));
    }
    out
}

pub fn unresolved<'s>(c: &Container<'s>) -> Container<'s> {
    use SpanLinkType::{Reference, Unresolved};
    match c {
        Container::Link(_, LinkType::Span(Reference | Unresolved)) => {
            Container::Link("".into(), LinkType::Span(Unresolved))
        }
        Container::Image(_, Reference | Unresolved) => Container::Image("".into(), Unresolved),
        c => c.clone(),
    }
}

/// Number of open containers, sections not counted, at the last thematic break.
fn closed(ev: &[(Event, Range<usize>)], at: usize) -> bool {
    let mut depth = 0;
    for (e, r) in ev {
        match e {
            Event::Start(Container::Section { .. }, _) | Event::End(Container::Section { .. }) => {}
            Event::Start(..) => depth += 1,
            Event::End(..) => depth -= 1,
            Event::ThematicBreak(_) if r.start == at => return depth == 1,
            _ => {}
        }
    }
    false
}

pub struct Local;

impl Local {
    fn check(&self, a: &str, b: &str, cx: &mut Run) -> Check {
        let first = format!("{a}{SEP}");
        let fe = shim::spanned(&first);
        if !closed(&fe, a.len() + 2) {
            cx.count("skipped_open_end", 1);
            return Ok(());
        }
        let be = shim::spanned(b);
        let whole = format!("{first}{b}");
        let we = shim::spanned(&whole);
        let mut want = local(&fe, 0);
        want.extend(local(&be, first.len()));
        let got = local(&we, 0);
        if want != got {
            let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "{a:?} before {b:?}: event {i} is {:?} together, {:?} apart",
                got.get(i),
                want.get(i)
            ));
        }
        let (h, n) = stream::shape(we.iter().map(|e| &e.0), cx);
        cx.count("events", n);
        if n > 6 {
            cx.observe(mix(h, 2));
        }
        Ok(())
    }
}

fn derived(h: u64) -> String {
    let mut r = crate::rng::Rng::new(h);
    let t: Vec<u8> = (0..48).map(|_| r.next() as u8).collect();
    structured(&t)
}

impl Prop for Local {
    fn weights(&self) -> (usize, usize) {
        (3, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        let h = hash(s.as_bytes());
        match h % 3 {
            0 => self.check(s, &derived(h), cx),
            1 => self.check(&derived(h), s, cx),
            _ => {
                let mut i = (h >> 8) as usize % (s.len() + 1);
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                self.check(&s[..i], &s[i..], cx)
            }
        }
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let (a, b) = t.split_at(t.len() / 2);
        self.check(&structured(a), &structured(b), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        let (a, b) = t.split_at(t.len() / 2);
        format!("{}{SEP}{}", structured(a), structured(b))
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses two texts separately and one after the other with a thematic break in between and compares all events and ranges; non-trivial: more than six events; distinct: event-kind sequence"
    }
}
