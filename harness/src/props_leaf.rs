//! Inline content means the same in whichever block it is and however it is broken into lines.
use crate::ast::{diff, normalise, unsafe_line, N};
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_ast::inline_case;
use crate::props_meta::unresolved;
use crate::rng::{hash, mix, Rng};
use crate::stream;
use jotdown::*;

/// The text of one paragraph: the lines of `s` that are not blank, the first one no block's first line.
fn paragraph(s: &str) -> Option<String> {
    let ws = |c: char| c.is_ascii_whitespace();
    let s = s.replace(['\r', '\u{c}'], " ");
    let lines: Vec<&str> = s.split('\n').filter(|l| !l.trim_matches(ws).is_empty()).collect();
    let first = lines.first()?.trim_matches(ws);
    let mut o = if unsafe_line(first) { format!("a {first}") } else { first.to_string() };
    for l in &lines[1..] {
        o.push('\n');
        o.push_str(l.trim_matches(ws));
    }
    // (what a backslash at the end escapes is what comes next)
    if o.ends_with('\\') {
        o.push('.');
    }
    Some(o)
}

/// The events of the inline content of the one block that the document consists of.
fn content<'a, 'e>(ev: &'a [N<'e>]) -> Option<&'a [N<'e>]> {
    match ev {
        [N::Start(Container::Document, _), N::Start(Container::Paragraph, a), inner @ .., N::End(Container::Paragraph), N::End(Container::Document)]
            if a.is_empty() && !inner.iter().any(|e| matches!(e, N::Start(c, _) if c.is_block())) =>
        {
            Some(inner)
        }
        _ => None,
    }
}

fn local<'e>(ev: &[N<'e>]) -> Vec<N<'e>> {
    ev.iter()
        .map(|e| match e {
            N::Start(c, a) => N::Start(unresolved(c), a.clone()),
            N::End(c) => N::End(unresolved(c)),
            e => e.clone(),
        })
        .collect()
}

/// What is between the start and the end of the `nth` container of a kind.
fn within<'a, 'e>(ev: &'a [N<'e>], f: impl Fn(&Container) -> bool, nth: usize) -> Option<&'a [N<'e>]> {
    let a = ev.iter().enumerate().filter(|(_, e)| matches!(e, N::Start(c, _) if f(c))).nth(nth)?.0;
    let z = a + ev[a..].iter().position(|e| matches!(e, N::End(c) if f(c)))?;
    Some(&ev[a + 1..z])
}

/// Whether all backticks of a line are verbatim that ends, or text: others keep a row from ending.
fn closed(s: &str) -> bool {
    if !s.contains('`') {
        return true;
    }
    if s.contains(&"`".repeat(255)) {
        return false;
    }
    let mut n = 0;
    let mut auto = false;
    for (e, r) in shim::spanned(s) {
        let verbatim = match &e {
            Event::Start(Container::Link(_, LinkType::AutoLink | LinkType::Email), _) => {
                auto = true;
                false
            }
            Event::End(Container::Link(_, LinkType::AutoLink | LinkType::Email)) => {
                auto = false;
                false
            }
            Event::End(Container::Verbatim | Container::Math { .. }) if r.is_empty() => return false,
            Event::Start(c, _) | Event::End(c) => {
                matches!(c, Container::Verbatim | Container::Math { .. } | Container::RawInline { .. })
            }
            Event::Str(_) => !auto,
            _ => false,
        };
        if verbatim {
            // (ends include attributes and formats)
            let l = &s[r];
            let l = if matches!(e, Event::End(_)) { l.split('{').next().unwrap_or(l) } else { l };
            n += l.matches('`').count();
        }
    }
    n == s.matches('`').count()
}

const PLACES: usize = 9;

pub struct Leaf;

impl Leaf {
    fn check(&self, s: &str, cx: &mut Run) -> Check {
        let Some(mut s) = paragraph(s) else { return Ok(()) };
        let mut r = Rng::new(mix(hash(s.as_bytes()), 30));
        let place = r.below(PLACES);
        if place >= 5 {
            // a cell is on one line and ends at a pipe
            s = s.replace(['\n', '|'], " ");
            if unsafe_line(&s) {
                s.insert_str(0, "a ");
            }
        }
        let pe = shim::events(&s);
        let plain = normalise(&pe);
        let Some(want) = content(&plain) else {
            return Err(format!("source {s:?}: expected one paragraph, got {plain:?}"));
        };
        if place >= 5 && (!closed(&s) || s.bytes().all(|c| b":- \t".contains(&c))) {
            return Ok(());
        }
        let (name, src): (&'static str, String) = match place {
            0 | 1 => {
                // (what starts a block ends a heading, and its marker may be repeated)
                if s.lines().skip(1).any(unsafe_line) {
                    return Ok(());
                }
                ("headings", format!("{} {s}\n", "#".repeat(1 + r.below(6))))
            }
            2 => ("captions", format!("|x|\n^ {s}\n")),
            3 => ("terms", format!(": {}\n\n  x\n", s.replace('\n', "\n  "))),
            4 => ("items", format!("1. x\n2. {}\n3. x\n", s.replace('\n', "\n   "))),
            5 => ("cells", format!("| {s} |\n")),
            6 => ("cells", format!("|x| {s} |y|\n|z|\n")),
            7 => ("head_cells", format!("|x|  {s} |\n|-|:-:|\n")),
            _ => ("last_cells", format!("|x|\n|:-|\n|x|{s}  |\n")),
        };
        let qe = shim::events(&src);
        let q = normalise(&qe);
        let is = |c: &Container| match place {
            0 | 1 => matches!(c, Container::Heading { .. }),
            2 => matches!(c, Container::Caption),
            3 => matches!(c, Container::DescriptionTerm),
            4 => matches!(c, Container::ListItem),
            _ => matches!(c, Container::TableCell { .. }),
        };
        let nth = match place {
            4 | 6 | 7 => 1,
            8 => 2,
            _ => 0,
        };
        let Some(mut got) = within(&q, is, nth) else {
            return Err(format!("text {s:?} in {src:?}: no such block: {q:?}"));
        };
        if place == 4 {
            match got {
                [N::Start(Container::Paragraph, a), inner @ .., N::End(Container::Paragraph)] if a.is_empty() => got = inner,
                _ => return Err(format!("text {s:?} in {src:?}: no paragraph in the item")),
            }
        }
        if let Some(d) = diff(&local(want), &local(got)) {
            return Err(format!("text {s:?} in {src:?}: {d}"));
        }
        let (h, n) = stream::shape(pe.iter(), cx);
        cx.count("events", n);
        cx.count(name, 1);
        if n > 6 {
            cx.observe(mix(h, place as u64));
        }
        cx.sample(|| format!("{s:?} in {src:?}"));
        Ok(())
    }
}

impl Prop for Leaf {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        self.check(&inline_case(t).1, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        inline_case(t).1
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses a text as a paragraph and as a heading, caption, term, list item or table cell and compares the inline events; non-trivial: more than two inline events; distinct: event-kind sequence and block"
    }
}

// ------------------------------------------------------------------ line breaks

fn squeeze(s: &str, out: &mut String) {
    for c in s.chars() {
        let c = if c == '\n' { ' ' } else { c };
        if c != ' ' || !out.ends_with(' ') {
            out.push(c);
        }
    }
}

fn squeezed(s: &str) -> String {
    let mut o = String::new();
    squeeze(s, &mut o);
    o
}

fn flat_container<'e>(c: &Container<'e>, verb: bool) -> Container<'e> {
    let f = |s: &str| -> std::borrow::Cow<'static, str> { s.replace([' ', '\n'], "").into() };
    // (labels stay as they are, but for white space and the edges of verbatim)
    match c {
        _ if verb => {}
        Container::Link(d, t @ LinkType::Span(SpanLinkType::Unresolved)) => {
            return Container::Link(squeezed(d).trim_matches(' ').to_string().into(), *t)
        }
        Container::Image(d, t @ SpanLinkType::Unresolved) => {
            return Container::Image(squeezed(d).trim_matches(' ').to_string().into(), *t)
        }
        _ => {}
    }
    match unresolved(c) {
        Container::Link(d, t) => Container::Link(f(&d), t),
        Container::Image(d, t) => Container::Image(f(&d), t),
        c => c,
    }
}

/// The events with line breaks as spaces.
fn flat<'e>(ev: &[N<'e>], verb: bool) -> Vec<N<'e>> {
    let mut out: Vec<N> = vec![];
    let mut text = String::new();
    let mut literal = false;
    let ats = |a: &[(String, String)]| -> Vec<(String, String)> {
        a.iter().map(|(k, v)| (k.clone(), squeezed(v).trim_matches(' ').to_string())).collect()
    };
    for e in ev {
        match e {
            N::Str(s) => {
                if !literal && s.contains('\n') {
                    out.push(N::Atom("line break in text"));
                }
                squeeze(s, &mut text);
                continue;
            }
            N::Atom("soft") => {
                squeeze(" ", &mut text);
                continue;
            }
            _ => {}
        }
        if !text.is_empty() {
            // (a space at the end of verbatim can be part of the markup)
            let t = if literal { text.trim_matches(' ') } else { &text };
            out.push(N::Str(t.to_string()));
            text.clear();
        }
        literal = matches!(e, N::Start(Container::Verbatim | Container::Math { .. } | Container::RawInline { .. }, _));
        out.push(match e {
            N::Start(c, a) => N::Start(flat_container(c, verb), ats(a)),
            N::End(c) => N::End(flat_container(c, verb)),
            N::Attrs(a) => N::Attrs(ats(a)),
            N::Foot(l) => N::Foot(squeezed(l)),
            e => e.clone(),
        });
    }
    if !text.is_empty() {
        out.push(N::Str(text));
    }
    out
}

pub struct Reflow;

impl Reflow {
    fn check(&self, s: &str, cx: &mut Run) -> Check {
        let Some(s) = paragraph(s) else { return Ok(()) };
        let mut r = Rng::new(mix(hash(s.as_bytes()), 31));
        let b = s.as_bytes();
        let mut o = b.to_vec();
        let many = 1 + r.below(3);
        let mut n = 0;
        // (labels of footnotes are on one line)
        let mut label = false;
        for i in 1..b.len().saturating_sub(1) {
            label = if label { b[i - 1] != b']' } else { b[i - 1..].starts_with(b"[^") };
            if label {
                continue;
            }
            let bare = |c: u8| !c.is_ascii_whitespace() && c != b'\\';
            if matches!(b[i], b' ' | b'\n') && bare(b[i - 1]) && !b[i + 1].is_ascii_whitespace() && r.chance(many, 3) {
                o[i] = if b[i] == b' ' { b'\n' } else { b' ' };
                n += 1;
            }
        }
        // (whether an apostrophe after an empty set opens a quote depends on what is before the set)
        if n == 0 || s.contains('\'') && s.contains('{') {
            return Ok(());
        }
        let o = String::from_utf8(o).unwrap_or_default();
        if o.lines().next().is_some_and(unsafe_line) {
            return Ok(());
        }
        let pe = shim::events(&s);
        let plain = normalise(&pe);
        let qe = shim::events(&o);
        let q = normalise(&qe);
        let (Some(want), Some(got)) = (content(&plain), content(&q)) else {
            return Err(format!("text {s:?}, with other line breaks {o:?}: not one paragraph: {q:?}"));
        };
        if let Some(d) = diff(&flat(want, s.contains('`')), &flat(got, s.contains('`'))) {
            return Err(format!("text {s:?}, with other line breaks {o:?}: {d}"));
        }
        // (white space at the edges of verbatim can be part of the markup)
        if !s.contains('`') && !s.lines().chain(o.lines()).any(unsafe_line) {
            let id = |s: &str| {
                shim::events(&format!("# {s}\n")).iter().find_map(|e| match e {
                    Event::Start(Container::Heading { id, .. }, _) => Some(id.to_string()),
                    _ => None,
                })
            };
            let (a, b) = (id(&s), id(&o));
            if a != b {
                return Err(format!("heading {s:?} has the identifier {a:?}, with other line breaks {o:?} {b:?}"));
            }
            cx.count("identifiers", 1);
        }
        let (h, k) = stream::shape(pe.iter(), cx);
        cx.count("events", k);
        cx.count("breaks_moved", n);
        if k > 6 {
            cx.observe(mix(h, n));
        }
        cx.sample(|| format!("{s:?} and {o:?}"));
        Ok(())
    }
}

impl Prop for Reflow {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        self.check(&inline_case(t).1, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        inline_case(t).1
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses a paragraph and the same text with line breaks in place of some spaces and spaces in place of some line breaks, and compares the inline events; non-trivial: more than two inline events; distinct: event-kind sequence and number of breaks moved"
    }
}
