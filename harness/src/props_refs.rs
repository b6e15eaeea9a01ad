//! Headings, sections and identifiers; reference links and images.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_ast::{compare, Docs};
use crate::props_html::structured;
use crate::props_lists::wrap_containers;
use crate::rng::Tape;
use crate::stream;
use jotdown::*;
use std::collections::HashSet;

/// Sections, heading identifiers and their uniqueness in any event stream.
fn headings(ev: &[Event], cx: &mut Run) -> Check {
    let mut sections: Vec<(String, u16)> = vec![];
    // attributes of the section that was just opened
    let mut opened: Option<(String, Option<String>)> = None;
    let mut used: HashSet<String> = HashSet::new();
    let mut cur: Option<(u16, String, Option<String>, String, bool)> = None;
    let explicit = |a: &Attributes| {
        a.iter()
            .filter(|(k, _)| match k {
                AttributeKind::Id => true,
                AttributeKind::Pair { key } => *key == "id",
                _ => false,
            })
            .last()
            .map(|(_, v)| v.to_string())
    };
    for (i, e) in ev.iter().enumerate() {
        match e {
            Event::Start(Container::Section { id }, a) => {
                opened = Some((id.to_string(), explicit(a)));
            }
            Event::Start(Container::Heading { level, has_section, id }, a) => {
                let id = id.to_string();
                let mut ex = explicit(a);
                if let Some((sid, sx)) = opened.take() {
                    if sid != id {
                        return Err(format!("event {i}: section {sid:?} starts with heading {id:?}"));
                    }
                    if let Some((pid, l)) = sections.last() {
                        if l >= level {
                            return Err(format!(
                                "event {i}: section {id:?} of level {level} within section {pid:?} of level {l}"
                            ));
                        }
                    }
                    sections.push((id.clone(), *level));
                    if !has_section {
                        return Err(format!("event {i}: heading {id:?} starts a section but says it does not"));
                    }
                    ex = sx;
                } else if *has_section {
                    return Err(format!("event {i}: heading {id:?} has no section"));
                }
                if *level == 0 {
                    return Err(format!("event {i}: heading of level 0"));
                }
                cx.count("headings", 1);
                cur = Some((*level, id, ex, String::new(), true));
            }
            Event::End(Container::Section { id }) => {
                // a section ends before another of its level or a higher one, or with the document
                let next = ev[i + 1..].iter().find(|e| !matches!(e, Event::Blankline | Event::End(Container::Section { .. })));
                let Some((sid, l)) = sections.pop() else { return Err(format!("event {i}: section end")) };
                if sid != id.as_ref() {
                    return Err(format!("event {i}: end of section {id:?} in section {sid:?}"));
                }
                match next {
                    None | Some(Event::End(Container::Document) | Event::Attributes(_)) => {}
                    Some(Event::Start(Container::Section { .. }, _)) => {
                        let lv = ev[i + 1..].iter().find_map(|e| match e {
                            Event::Start(Container::Heading { level, .. }, _) => Some(*level),
                            _ => None,
                        });
                        if lv.is_some_and(|lv| lv > l) {
                            return Err(format!("event {i}: section {id:?} ends before a heading of lower rank"));
                        }
                    }
                    Some(e) => return Err(format!("event {i}: section {id:?} ends before {e:?}")),
                }
            }
            Event::Str(s) => {
                if let Some((_, _, _, auto, ws)) = &mut cur {
                    let mut prev_ws = false;
                    for c in s.chars() {
                        if c.is_ascii_whitespace() {
                            if !*ws && !prev_ws {
                                auto.push('-');
                                *ws = true;
                            }
                            prev_ws = true;
                        } else {
                            prev_ws = false;
                            if !c.is_ascii_punctuation() || c == '-' || c == '_' {
                                auto.push(c);
                                *ws = false;
                            }
                        }
                    }
                }
            }
            Event::Softbreak => {
                if let Some((_, _, _, auto, ws)) = &mut cur {
                    if !*ws {
                        auto.push('-');
                        *ws = true;
                    }
                }
            }
            Event::End(Container::Heading { .. }) => {
                let Some((_, id, ex, auto, _)) = cur.take() else { continue };
                let mut auto = auto.trim_end_matches('-').to_string();
                if auto.is_empty() || used.contains(&auto) {
                    if auto.is_empty() {
                        auto.push('s');
                    }
                    auto = (1..).map(|n| format!("{auto}-{n}")).find(|s| !used.contains(s)).unwrap();
                    cx.count("numbered_ids", 1);
                }
                used.insert(auto.clone());
                let want = ex.clone().unwrap_or(auto);
                if ex.is_some() {
                    cx.count("explicit_ids", 1);
                }
                if want != id {
                    return Err(format!("event {i}: heading has the identifier {id:?} instead of {want:?}"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

const TITLE_WORDS: &[&str] = &[
    "intro", "Part", "two", "a-b", "x_y", "ünï", "日本", "42", "1", "s", "s-1", "What", "the end", "intro-1", "A.B", "C++",
    "o'k", "wait...", "a--b", "---", "...", ":sym:", "x :sym: y",
];

/// A word as it can be written without escapes, also where it has a meaning.
fn smart(w: &str) -> Vec<In> {
    let t = |s: &str| In::Text(s.into(), s.into());
    match w {
        "o'k" => vec![In::Apos],
        "wait..." => vec![t("wait"), In::Ellipsis],
        "..." => vec![In::Ellipsis],
        "a--b" => vec![t("a"), In::En, t("b")],
        "---" => vec![In::Em],
        ":sym:" => vec![In::Sym("sym".into())],
        "x :sym: y" => vec![t("x"), In::Sp, In::Sym("sym".into()), In::Sp, t("y")],
        _ => vec![In::Text(w.into(), escape(w))],
    }
}

/// The words of a title, written with or without markup.
fn title(t: &mut Tape, words: &[String], markup: bool) -> Vec<In> {
    let mut v = vec![];
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            v.push(if markup && t.chance(1, 8) { In::Soft } else { In::Sp });
        }
        let c = if t.chance(1, 2) { smart(w) } else { vec![In::Text(w.clone(), escape(w))] };
        v.extend(match if markup { t.below(8) } else { 7 } {
            0 => vec![In::Style { st: St::Emph, brace: true, c, at: vec![] }],
            1 => vec![In::Style { st: St::Strong, brace: false, c, at: vec![] }],
            2 => vec![In::Verb { s: w.clone(), ticks: 1, at: vec![] }],
            3 => vec![In::Span { c, at: vec![At { k: Ak::Class, v: "c".into(), quoted: false }] }],
            _ => c,
        });
    }
    v
}

struct Gen {
    titles: Vec<Vec<String>>,
    labels: Vec<String>,
    undef: Vec<String>,
    defs: bool,
}

fn reference(t: &mut Tape, g: &Gen) -> In {
    let at = if t.chance(1, 4) { gen_ats(t, true) } else { vec![] };
    let image = t.chance(1, 4);
    let words: Vec<String> = match t.below(6) {
        0 => vec![t.pick(&["nothing", "no such", "INTRO", "Nope", "l\u{2003}", "l\u{a0}", "MY label", "É-2", "x.y."]).to_string()],
        1 | 2 if !g.labels.is_empty() && g.defs => {
            t.pick(&g.labels).split(' ').map(str::to_string).collect()
        }
        _ => t.pick(&g.titles).clone(),
    };
    let brk = t.chance(1, 6);
    // the words of a label may be on different lines
    let label = words.join(" ");
    if label.contains('\\') || t.chance(1, 2) {
        let c = title(t, &words, true);
        return In::Link { c, dest: Dest::Short, image, at };
    }
    let label = if brk {
        let every = t.chance(1, 4);
        label.chars().map(|c| if c == ' ' && (every || t.chance(1, 2)) { '\n' } else { c }).collect()
    } else {
        label
    };
    In::Link { c: vec![In::Text("t".into(), "t".into())], dest: Dest::Ref(label), image, at }
}

fn para(v: Vec<In>) -> Blk {
    Blk { gap: 1, at: vec![], b: B::Para(v) }
}

fn gen(t: &mut Tape, g: &mut Gen, depth: usize, max: usize) -> Vec<Blk> {
    let n = 1 + t.below(max);
    let n = if depth == 0 { t.many(n) } else { n };
    let mut out: Vec<Blk> = vec![];
    for _ in 0..n {
        let b = match t.weighted(&[4, 4, if g.defs { 3 } else { 0 }, if depth < 3 { 3 } else { 0 }]) {
            0 => {
                let words = t.pick(&g.titles).clone();
                let at = match t.below(6) {
                    0 => vec![gen_ats(t, true)],
                    1 => vec![vec![At { k: Ak::Id, v: t.pick(&["own", "x1", "A-b"]).to_string(), quoted: false }]],
                    2 if t.chance(1, 3) => vec![
                        vec![At { k: Ak::Id, v: "first".into(), quoted: false }],
                        vec![At { k: Ak::Id, v: "second".into(), quoted: false }],
                    ],
                    _ => vec![],
                };
                let mut c = title(t, &words, true);
                make_safe(&mut c);
                Blk { gap: 1, at, b: B::Heading { level: gen_level(t), c, repeat: t.chance(1, 2) } }
            }
            2 if !g.undef.is_empty() => {
                let i = t.below(g.undef.len());
                let label = g.undef.remove(i);
                let mut url = vec![t.pick(&["u", "/a/b?c=d", "#frag", "", "x y", "é"]).to_string()];
                if !url[0].is_empty() {
                    let n = t.weighted(&[8, 4, 2, 1, 1]);
                    for _ in 0..t.many(n) {
                        url.push(t.pick(&["/more", "x", "p q", "[z]", "#f"]).to_string());
                    }
                }
                let at = if t.chance(1, 2) { vec![gen_ats(t, true)] } else { vec![] };
                Blk { gap: 1, at, b: B::LinkDef { label, url } }
            }
            3 => {
                let v = gen(t, g, depth + 1, 3);
                let mut v = v;
                v[0].gap = 0;
                if matches!(v[0].b, B::Div { .. }) {
                    // a fence on the line of a marker is not seen by an enclosing div
                    v[0].gap = 1;
                    v.insert(0, Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text("p".into(), "p".into())]) });
                }
                // what a container has is not for the definitions in it
                let at = if t.chance(1, 3) { vec![gen_ats(t, true)] } else { vec![] };
                match t.below(4) {
                    0 => Blk { gap: 1, at, b: B::Quote(v) },
                    1 => {
                        let class = if t.chance(1, 4) { "c".to_string() } else { String::new() };
                        Blk { gap: 1, at, b: B::Div { class, blocks: v } }
                    }
                    2 => Blk {
                        gap: 1,
                        at,
                        b: B::Footnote { label: format!("n{depth}{}", out.len()), blocks: v },
                    },
                    _ => {
                        let term = vec![reference(t, g)];
                        Blk { gap: 1, at, b: B::Desc(vec![(0, term, v)]) }
                    }
                }
            }
            _ => {
                let mut v = vec![];
                for i in 0..1 + t.below(3) {
                    if i > 0 {
                        v.push(if t.chance(1, 4) { In::Soft } else { In::Sp });
                    }
                    v.push(reference(t, g));
                }
                v.insert(0, In::Sp);
                v.insert(0, In::Text("w".into(), "w".into()));
                make_safe(&mut v);
                let mut b = para(v);
                if t.chance(1, 6) {
                    b.at.push(gen_ats(t, true));
                }
                b
            }
        };
        if !out.is_empty() && t.chance(1, 12) {
            out.push(Blk { gap: 1, at: vec![gen_ats(t, true)], b: B::Loose });
        }
        out.push(b);
    }
    for b in &mut out {
        if let B::Desc(v) = &mut b.b {
            for (_, term, body) in v {
                make_safe(term);
                body[0].gap = 0;
                body[0].at.clear();
            }
        }
    }
    // two description lists in a row would be one
    out.dedup_by(|b, a| matches!((&a.b, &b.b), (B::Desc(_), B::Desc(_))));
    out[0].gap = 0;
    out
}

fn case(t: &[u8], defs: bool) -> (String, Doc) {
    let mut t = Tape::new(t);
    let n = 1 + t.below(4);
    let n = t.many(n);
    let titles: Vec<Vec<String>> = (0..n)
        .map(|_| {
            let n = 1 + t.weighted(&[3, 2, 1]);
            let m = 4 + t.below(40);
            let n = if t.chance(1, 24) { t.many(m).min(2000) } else { n };
            (0..n).map(|_| t.pick(TITLE_WORDS).to_string()).collect()
        })
        .collect();
    let mut labels: Vec<String> =
        ["l", "my label", "é-2", "x.y", "l\u{2003}", "a label of words", "My Label", "\u{a0}l"].iter().take(t.below(9)).map(|s| s.to_string()).collect();
    labels.extend((8..t.many(0)).map(|i| format!("l{i}")));
    if t.chance(1, 3) {
        // a definition with the text of a heading
        let l = titles[0].join(" ");
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    let mut g = Gen { titles, undef: labels.clone(), labels, defs };
    let mut blocks = gen(&mut t, &mut g, 0, 7);
    if t.chance(1, 256) {
        far(&mut t, &mut blocks);
    }
    let mut lines = vec![];
    print_blocks(&blocks, &mut lines);
    // headings start sections at the top level only
    let plain = !blocks.iter().any(|b| matches!(b.b, B::Heading { .. }));
    let (lines, blocks) =
        if plain && t.chance(1, 3) { wrap_containers(&mut t, lines, blocks) } else { (lines, blocks) };
    (lines.join("\n") + "\n", Doc { blocks, tail: "", labels: vec![], foots: vec![], style: 0 })
}

pub struct Headings {
    pub docs: Docs,
}

impl Prop for Headings {
    fn weights(&self) -> (usize, usize) {
        (2, 3)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        let ev = shim::events(s);
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        if ev.iter().any(|e| matches!(e, Event::Start(Container::Heading { .. }, _))) {
            cx.observe(h);
        }
        headings(&ev, cx).map_err(|m| format!("source {s:?}: {m}"))
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        match t.first().map_or(0, |b| b % 4) {
            0 => self.docs.tape(&t[1.min(t.len())..], cx),
            1 => self.text(&structured(&t[1..]), cx),
            _ => {
                let (s, doc) = case(&t[1..], false);
                compare(&s, &doc, cx)?;
                self.text(&s, cx)
            }
        }
    }
    fn show(&self, t: &[u8]) -> String {
        match t.first().map_or(0, |b| b % 4) {
            0 => self.docs.show(&t[1.min(t.len())..]),
            1 => structured(&t[1..]),
            _ => case(&t[1..], false).0,
        }
    }
    fn rule(&self) -> &'static str {
        "one evaluation checks sections, levels and identifiers of the headings in one text against a recomputation from the events, and for written documents also against the model; non-trivial: has a heading; distinct: event-kind sequence"
    }
}

pub struct References;

impl Prop for References {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let (s, doc) = case(t, true);
        let want = expect_doc(&doc);
        for n in &want {
            if let N::Start(Container::Link(_, LinkType::Span(ty)) | Container::Image(_, ty), _) = n {
                cx.count(
                    match ty {
                        SpanLinkType::Inline => "inline",
                        SpanLinkType::Reference => "resolved",
                        SpanLinkType::Unresolved => "unresolved",
                    },
                    1,
                );
            }
        }
        drop(want);
        compare(&s, &doc, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        case(t, true).0
    }
    fn rule(&self) -> &'static str {
        "one evaluation writes a document with link definitions, headings and references to them (and to undefined labels) in nested containers and compares destinations, attributes and kinds of all links with the model; non-trivial: more than eight events; distinct: event-kind sequence"
    }
}
