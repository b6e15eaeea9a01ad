//! Event streams a user has edited: rendering does not depend on where events come from.
use crate::engine::{Check, Cx, Prop};
use crate::htm;
use crate::props_html::{layout, strip, structured};
use crate::rng::{hash, mix, Rng};
use crate::stream;
use jotdown::*;
use shim::Format;
use std::borrow::Cow;

const TEXTS: &[&str] = &[
    "x", "<b>", "a & b", "\"q\"", "</p>", "&amp;", "<!--", "é 日", "'", ">", "--", "*a*", "`", "]]>", "{.c}", "a b", "<script>",
    "end.", "\u{a0}", "a=\"b\"", "\\",
];

fn owned<'s>(r: &mut Rng) -> Cow<'s, str> {
    let mut s = r.pick(TEXTS).to_string();
    if r.chance(1, 3) {
        s.push_str(r.pick(TEXTS));
    }
    if !s.is_empty() && r.chance(1, 32) {
        let n = *r.pick(&crate::dict::get().numbers);
        s = s.repeat(1 + n.min(1_200) / s.len());
    }
    s.into()
}

fn attributes<'s>(r: &mut Rng) -> Attributes<'s> {
    let mut v: Vec<(AttributeKind, AttributeValue)> = vec![];
    for _ in 0..r.below(4) {
        let val = AttributeValue::from(owned(r).into_owned());
        v.push(match r.below(5) {
            0 => (AttributeKind::Id, val),
            1 | 2 => (AttributeKind::Class, val),
            3 => (AttributeKind::Comment, val),
            _ => (AttributeKind::Pair { key: r.pick(&["k", "title", "data-x", "class", "id"]).to_string().into() }, val),
        });
    }
    v.into()
}

/// The end event of the start event at i.
fn close(ev: &[Event], i: usize) -> usize {
    let mut d = 0;
    for (j, e) in ev.iter().enumerate().skip(i) {
        match e {
            Event::Start(..) => d += 1,
            Event::End(..) => d -= 1,
            _ => {}
        }
        if d == 0 {
            return j;
        }
    }
    unreachable!("unbalanced events")
}

fn inline(c: &Container) -> bool {
    use Container::*;
    matches!(
        c,
        Span | Link(..) | Image(..) | Verbatim | Math { .. } | Subscript | Superscript | Insert | Delete | Strong | Emphasis | Mark
    )
}

fn number(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[99, 100, 127, 128, 255, 256, 999, 1000, 65_535, 65_536, 4_294_967_295, 4_294_967_296, u64::MAX]),
        1 => *r.pick(&crate::dict::get().numbers) as u64,
        _ => r.below(40) as u64,
    }
}

fn changed<'s>(c: &Container<'s>, r: &mut Rng) -> Option<Container<'s>> {
    use Container::*;
    let align = [Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right];
    Some(match c {
        List { kind, tight } => {
            let numbering = *r.pick(&[
                OrderedListNumbering::Decimal,
                OrderedListNumbering::AlphaLower,
                OrderedListNumbering::AlphaUpper,
                OrderedListNumbering::RomanLower,
                OrderedListNumbering::RomanUpper,
            ]);
            let kind = match kind {
                ListKind::Ordered { style, .. } if r.chance(1, 2) => {
                    ListKind::Ordered { numbering, style: *style, start: number(r) }
                }
                k => *k,
            };
            List { kind, tight: *tight ^ r.chance(1, 2) }
        }
        TaskListItem { checked } => TaskListItem { checked: !checked },
        Heading { has_section, id, .. } => {
            let id = if r.chance(1, 2) { owned(r) } else { id.clone() };
            Heading { level: if r.chance(1, 6) { number(r) as u16 } else { 1 + r.below(8) as u16 }, has_section: *has_section, id }
        }
        Section { .. } => Section { id: owned(r) },
        RawInline { .. } => RawInline { format: r.pick(&["tex", "HTML", "html5", ""]).to_string().into() },
        RawBlock { .. } => RawBlock { format: r.pick(&["tex", "HTML", "html5", ""]).to_string().into() },
        Div { .. } => Div { class: owned(r) },
        CodeBlock { .. } => CodeBlock { language: owned(r) },
        TableCell { head, .. } => TableCell { alignment: *r.pick(&align), head: head ^ r.chance(1, 2) },
        Link(_, t) => Link(owned(r), *t),
        Image(_, t) => Image(owned(r), *t),
        Math { display } => Math { display: !display },
        Blockquote => Div { class: "".into() },
        Subscript | Superscript | Insert | Delete | Strong | Emphasis | Mark => {
            r.pick(&[Subscript, Superscript, Insert, Delete, Strong, Emphasis, Mark, Span]).clone()
        }
        _ => return None,
    })
}

/// One edit that keeps the events well nested; returns what was done.
fn edit<'s>(ev: &mut Vec<Event<'s>>, r: &mut Rng) -> Option<&'static str> {
    let i = 1 + r.below(ev.len().saturating_sub(2).max(1));
    match ev.get(i)?.clone() {
        Event::Str(_) => {
            ev[i] = match r.below(8) {
                0 => Event::Symbol(owned(r)),
                1 if !matches!(ev[i - 1], Event::Start(Container::RawInline { .. } | Container::RawBlock { .. }, _)) => {
                    ev.insert(i, Event::NonBreakingSpace);
                    return Some("inserted");
                }
                _ => Event::Str(owned(r)),
            };
            Some("text_changed")
        }
        Event::Start(c, a) => {
            let z = close(ev, i);
            let note = ev[i..=z].iter().any(|e| matches!(e, Event::Start(Container::Footnote { .. }, _)));
            match r.below(7) {
                0 if z < ev.len() - 1 => {
                    ev.drain(i..=z);
                    Some("removed")
                }
                1 if inline(&c) || matches!(c, Container::Blockquote | Container::Div { .. }) => {
                    ev.remove(z);
                    ev.remove(i);
                    Some("unwrapped")
                }
                2 if !note && z - i < 60 => {
                    let copy = ev[i..=z].to_vec();
                    ev.splice(i..i, copy);
                    Some("duplicated")
                }
                3 if inline(&c) => {
                    ev.insert(z + 1, Event::End(Container::Strong));
                    ev.insert(i, Event::Start(Container::Strong, attributes(r)));
                    Some("wrapped")
                }
                3 if matches!(c, Container::Paragraph | Container::List { .. } | Container::Table | Container::CodeBlock { .. }) => {
                    let d = Container::Div { class: owned(r) };
                    ev.insert(z + 1, Event::End(d.clone()));
                    ev.insert(i, Event::Start(d, attributes(r)));
                    Some("wrapped")
                }
                4 => {
                    ev[i] = Event::Start(c, attributes(r));
                    Some("attributes_changed")
                }
                _ => {
                    let d = changed(&c, r)?;
                    ev[z] = Event::End(d.clone());
                    ev[i] = Event::Start(d, a);
                    Some("container_changed")
                }
            }
        }
        Event::ThematicBreak(_) => {
            ev[i] = Event::ThematicBreak(attributes(r));
            Some("attributes_changed")
        }
        Event::Softbreak => {
            ev[i] = if r.chance(1, 2) { Event::Hardbreak } else { Event::Str("|".into()) };
            Some("text_changed")
        }
        Event::FootnoteReference(_) => {
            ev[i] = Event::FootnoteReference(r.pick(&["a", "1", "new"]).to_string().into());
            Some("reference_changed")
        }
        _ => None,
    }
}

pub struct Edited;

impl Edited {
    fn check(&self, s: &str, cx: &mut Cx) -> Check {
        let ev = shim::events(s);
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        let mut ev = ev;
        let mut r = Rng::new(mix(hash(s.as_bytes()), 27));
        let mut done = 0;
        for _ in 0..1 + r.below(8) {
            if let Some(k) = edit(&mut ev, &mut r) {
                cx.count(k, 1);
                done += 1;
            }
        }
        // white space that an edit has left at the edge of a block may vanish in an indented layout
        let mut code = 0;
        for e in &mut ev {
            match e {
                Event::Start(Container::CodeBlock { .. }, _) => code += 1,
                Event::End(Container::CodeBlock { .. }) => code -= 1,
                Event::Str(s) if code == 0 && s.trim_matches([' ', '\t']).len() < s.len() => {
                    *s = format!("_{}_", s.trim_matches([' ', '\t'])).into();
                }
                _ => {}
            }
        }
        let (ev, _) = htm::mask_raw(&ev);
        let fail = |m: String, h: &str| Err(format!("source {s:?}, events edited to {ev:?}: {m}\n{h}"));
        let html = shim::render(ev.clone(), &Format::Minified).map_err(|e| e.to_string())?;
        let mut got = match htm::tokenize(&html) {
            Ok(t) => t,
            Err(m) => return fail(m, &html),
        };
        let plain = strip(&got);
        let mut want = htm::reference(&ev);
        htm::canon(&mut want);
        htm::canon(&mut got);
        if let Some(d) = htm::diff(&want, &got) {
            return fail(d, &html);
        }
        let f = layout(r.below(5));
        let other = shim::render(ev.clone(), &f).map_err(|e| e.to_string())?;
        match htm::tokenize(&other) {
            Ok(t) => {
                if let Some(d) = htm::diff(&plain, &strip(&t)) {
                    return fail(format!("{f:?} differs from the minified layout: {d}"), &other);
                }
            }
            Err(m) => return fail(format!("{f:?}: {m}"), &other),
        }
        // what has no rendering has no influence
        let rest: Vec<Event> = ev
            .iter()
            .filter(|e| !matches!(e, Event::Blankline | Event::Escape | Event::Attributes(_)))
            .cloned()
            .collect();
        let without = shim::render(rest, &f).map_err(|e| e.to_string())?;
        // (a first event without output costs an empty line)
        if without.trim_start_matches('\n') != other.trim_start_matches('\n') {
            return fail(format!("{f:?}: blank lines, escapes or attributes on their own change the output"), &without);
        }
        if done > 0 && n > 4 {
            cx.observe(mix(h, hash(html.as_bytes())));
        }
        cx.sample(|| format!("{s:?} with {done} edits -> {html:?}"));
        Ok(())
    }
}

impl Prop for Edited {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Cx) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Cx) -> Check {
        self.check(&structured(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        structured(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation edits the events of one text (one to eight random edits), renders them in two layouts and compares with an independent reference renderer, and with the rendering without the events that have no output; non-trivial: at least one edit in a document of more than two events; distinct: event-kind sequence and output"
    }
}
