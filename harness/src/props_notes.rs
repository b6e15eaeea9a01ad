//! Footnotes: numbering, order, content and links of the rendered notes.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::htm::{self, T};
use crate::props_ast::compare;
use crate::props_html::structured;
use crate::props_lists::wrap_containers;
use crate::rng::Tape;
use crate::stream;
use jotdown::*;
use std::collections::HashMap;

/// References and letters and digits of a part of the document, in order.
#[derive(Debug, Default, Clone, PartialEq)]
struct Part {
    refs: Vec<String>,
    text: String,
}

fn alnum(s: &str) -> impl Iterator<Item = char> + '_ {
    s.chars().filter(|c| c.is_alphanumeric())
}

/// The main text and each note; None if a label is defined more than once or a reference is in an image.
fn parts(ev: &[Event]) -> Option<(Part, HashMap<String, Part>)> {
    let mut main = Part::default();
    let mut notes: HashMap<String, Part> = HashMap::new();
    let mut open: Vec<(String, Part)> = vec![];
    let mut hidden = 0;
    for e in ev {
        let p = open.last_mut().map_or(&mut main, |(_, p)| p);
        match e {
            Event::Start(Container::Footnote { label }, _) => open.push((label.to_string(), Part::default())),
            Event::End(Container::Footnote { .. }) => {
                let (l, p) = open.pop()?;
                if notes.insert(l, p).is_some() {
                    return None;
                }
            }
            Event::Start(
                Container::Image(..)
                | Container::LinkDefinition { .. }
                | Container::RawBlock { .. }
                | Container::RawInline { .. },
                _,
            ) => hidden += 1,
            Event::End(
                Container::Image(..)
                | Container::LinkDefinition { .. }
                | Container::RawBlock { .. }
                | Container::RawInline { .. },
            ) => hidden -= 1,
            Event::FootnoteReference(l) => {
                if hidden > 0 {
                    return None;
                }
                p.refs.push(l.to_string());
            }
            Event::Str(s) | Event::Symbol(s) if hidden == 0 => p.text.extend(alnum(s)),
            _ => {}
        }
    }
    Some((main, notes))
}

/// Numbers of the references and the text of a run of tokens.
fn read(v: &[T]) -> Result<(Vec<usize>, String), String> {
    let mut refs = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Open(t, m) if t == "a" && m.get("role").is_some_and(|r| r == "doc-noteref") => {
                let Some(n) = m.get("href").and_then(|h| h.strip_prefix("#fn")).and_then(|n| n.parse().ok()) else {
                    return Err(format!("reference {m:?}"));
                };
                let want = [
                    T::Open("sup".into(), Default::default()),
                    T::Text(format!("{n}")),
                    T::Close("sup".into()),
                    T::Close("a".into()),
                ];
                if m.get("id") != Some(&format!("fnref{n}")) || m.len() != 3 || v.get(i + 1..i + 5) != Some(&want[..]) {
                    return Err(format!("reference {:?}", &v[i..(i + 5).min(v.len())]));
                }
                refs.push(n);
                i += 5;
            }
            T::Text(s) => {
                text.extend(alnum(s));
                i += 1;
            }
            _ => i += 1,
        }
    }
    Ok((refs, text))
}

fn rendered(ev: &[Event], cx: &mut Run) -> Check {
    let Some((main, notes)) = parts(ev) else {
        cx.count("skipped_ambiguous", 1);
        return Ok(());
    };
    // the order of first references decides the numbers
    let mut order: Vec<String> = vec![];
    let mut todo = 0;
    let add = |p: &Part, order: &mut Vec<String>| {
        for l in &p.refs {
            if !order.contains(l) {
                order.push(l.clone());
            }
        }
    };
    add(&main, &mut order);
    while todo < order.len() {
        if let Some(p) = notes.get(&order[todo]) {
            add(p, &mut order);
        }
        todo += 1;
    }
    let number = |l: &String| order.iter().position(|o| o == l).unwrap() + 1;
    let (masked, _) = htm::mask_raw(ev);
    let h = shim::render(masked, &shim::Format::Minified).map_err(|e| e.to_string())?;
    let fail = |m: String| Err(format!("{m}\nHTML {h}"));
    let v = match htm::tokenize(&h) {
        Ok(v) => v,
        Err(m) => return fail(m),
    };
    let start = v.iter().position(|t| {
        matches!(t, T::Open(t, m) if t == "section" && m.len() == 1 && m.get("role").is_some_and(|r| r == "doc-endnotes"))
    });
    let body = &v[..start.unwrap_or(v.len())];
    let (refs, text) = match read(body) {
        Ok(x) => x,
        Err(m) => return fail(m),
    };
    let want: Vec<usize> = main.refs.iter().map(number).collect();
    if refs != want {
        return fail(format!("references in the text are numbered {refs:?} instead of {want:?}"));
    }
    if text != main.text {
        return fail(format!("the text outside notes is {text:?} instead of {:?}", main.text));
    }
    let Some(start) = start else {
        return if order.is_empty() { Ok(()) } else { fail("no notes are rendered".into()) };
    };
    if order.is_empty() {
        return fail("notes are rendered although there is no reference".into());
    }
    // <section><hr><ol> <li>... </ol></section>
    let end = v.len() - 2;
    let o = |t: &str| T::Open(t.into(), Default::default());
    let c = |t: &str| T::Close(t.into());
    if v[start + 1..start + 3] != [o("hr"), o("ol")] || v[end..] != [c("ol"), c("section")] {
        return fail("the frame of the notes is broken".into());
    }
    let mut i = start + 3;
    for (k, label) in order.iter().enumerate() {
        let n = k + 1;
        match &v[i] {
            T::Open(t, m) if t == "li" && m.len() == 1 && m.get("id") == Some(&format!("fn{n}")) => {}
            t => return fail(format!("note {n} starts with {t:?}")),
        }
        let mut depth = 0;
        let j = (i..end).find(|j| {
            match &v[*j] {
                T::Open(t, _) if !htm::void(t) => depth += 1,
                T::Close(_) => depth -= 1,
                _ => {}
            }
            depth == 0
        });
        let Some(j) = j else { return fail(format!("note {n} does not end")) };
        let item = &v[i + 1..j];
        let back: std::collections::BTreeMap<String, String> =
            [("href".to_string(), format!("#fnref{n}")), ("role".to_string(), "doc-backlink".to_string())].into();
        let tail = [T::Open("a".into(), back), T::Text("\u{21A9}\u{FE0E}".into()), c("a"), c("p")];
        if !item.ends_with(&tail) {
            return fail(format!("note {n} does not end in a link back"));
        }
        let backs = |v: &[T]| {
            v.iter()
                .filter(|t| matches!(t, T::Open(_, m) if m.get("role").is_some_and(|r| r == "doc-backlink")))
                .count()
        };
        if backs(item) != 1 {
            return fail(format!("note {n} has {} links back", backs(item)));
        }
        let (refs, text) = match read(&item[..item.len() - 4]) {
            Ok(x) => x,
            Err(m) => return fail(m),
        };
        let want = notes.get(label).cloned().unwrap_or_default();
        let want_refs: Vec<usize> = want.refs.iter().map(number).collect();
        if refs != want_refs || text != want.text {
            return fail(format!(
                "note {n} ({label:?}) has the text {text:?} and references {refs:?} instead of {:?} and {want_refs:?}",
                want.text
            ));
        }
        cx.count("notes", 1);
        if !notes.contains_key(label) {
            cx.count("notes_without_definition", 1);
        }
        i = j + 1;
    }
    if i != end {
        return fail("there are more notes than labels".into());
    }
    cx.max("max_notes", order.len() as u64);
    cx.count("references", main.refs.len() as u64);
    Ok(())
}

struct Gen {
    labels: Vec<String>,
    undef: Vec<String>,
    word: usize,
}

fn leaf(t: &mut Tape, g: &mut Gen) -> Vec<In> {
    let mut v = vec![];
    for i in 0..1 + t.below(4) {
        if i > 0 && t.chance(2, 3) {
            v.push(if t.chance(1, 5) { In::Soft } else { In::Sp });
        }
        if i > 0 && t.chance(1, 2) {
            let l = if t.chance(1, 8) { "undefined".into() } else { t.pick(&g.labels).clone() };
            let f = In::Foot(l);
            v.push(match t.below(5) {
                0 => In::Style { st: St::Strong, brace: true, c: vec![f], at: vec![] },
                1 => In::Quote { double: true, brace: true, c: vec![f] },
                _ => f,
            });
        } else {
            g.word += 1;
            let w = format!("w{}q", g.word);
            v.push(In::Text(w.clone(), w));
        }
    }
    make_safe(&mut v);
    v
}

fn gen(t: &mut Tape, g: &mut Gen, depth: usize, max: usize) -> Vec<Blk> {
    let mut out: Vec<Blk> = vec![];
    for _ in 0..1 + t.below(max) {
        let d = usize::from(depth < 3);
        let b = match t.weighted(&[5, 5, d, d, d, 1, 1, 1]) {
            1 if !g.undef.is_empty() && depth < 4 => {
                let i = t.below(g.undef.len());
                let label = g.undef.remove(i);
                B::Footnote { label, blocks: gen(t, g, depth + 1, 3) }
            }
            2 => B::Quote(gen(t, g, depth + 1, 3)),
            3 => B::Desc(vec![(0, leaf(t, g), gen(t, g, depth + 1, 2))]),
            4 => {
                let items = (0..2)
                    .map(|i| Item {
                        checked: false,
                        num: 0,
                        gap: i,
                        blocks: vec![Blk { gap: 0, at: vec![], b: B::Para(leaf(t, g)) }],
                    })
                    .collect();
                B::List { lk: Lk::Bullet(b'-'), tight: false, items }
            }
            5 => B::Heading { level: 1 + t.below(3), c: leaf(t, g), repeat: true },
            6 => B::Table {
                caption: None,
                rows: vec![Row::Cells(vec![vec![In::Foot(t.pick(&g.labels).clone())], vec![]])],
            },
            7 if !out.is_empty() => B::Code { lang: String::new(), fence: '`', lines: vec!["[^a]".into()] },
            _ => B::Para(leaf(t, g)),
        };
        match (out.last().map(|b| &b.b), &b) {
            (Some(B::Desc(_)), B::Desc(_)) | (Some(B::List { .. }), B::List { .. }) => {}
            _ => out.push(Blk { gap: 1, at: vec![], b }),
        }
    }
    out[0].gap = 0;
    out
}

fn case(t: &[u8]) -> (String, Doc) {
    let mut t = Tape::new(t);
    let n = 1 + t.below(12);
    let mut labels: Vec<String> =
        ["a", "b", "note x", "1", "é", "A", "c-d", "Note X", "É", "longer-label", "Longer-Label", "b\u{2003}"].iter().take(n).map(|s| s.to_string()).collect();
    let extra = t.many(0);
    labels.extend((0..extra).map(|i| format!("n{i}")));
    let mut undef = labels.clone();
    if t.chance(1, 3) {
        undef.pop();
    }
    let mut g = Gen { labels, undef, word: 0 };
    let mut blocks = gen(&mut t, &mut g, 0, 9);
    if extra > 0 {
        // all of them in one order and some again in another
        let all = g.labels.clone();
        let (k, again) = (t.below(all.len()), 1 + t.below(all.len()));
        let mut v = vec![];
        for l in all[k..].iter().chain(&all[..k]).chain(all.iter().step_by(again)) {
            v.extend([In::Foot(l.clone()), In::Sp]);
        }
        v.pop();
        make_safe(&mut v);
        blocks.push(Blk { gap: 1, at: vec![], b: B::Para(v) });
        for label in std::mem::take(&mut g.undef) {
            if t.chance(2, 3) {
                let c = vec![Blk { gap: 0, at: vec![], b: B::Para(leaf(&mut t, &mut g)) }];
                blocks.push(Blk { gap: 1, at: vec![], b: B::Footnote { label, blocks: c } });
            }
        }
    }
    let mut lines = vec![];
    print_blocks(&blocks, &mut lines);
    let plain = !blocks.iter().any(|b| matches!(b.b, B::Heading { .. }));
    let (lines, blocks) =
        if plain && t.chance(1, 4) { wrap_containers(&mut t, lines, blocks) } else { (lines, blocks) };
    (lines.join("\n") + "\n", Doc { blocks, tail: "", labels: vec![], foots: vec![], style: 0 })
}

pub struct Footnotes;

impl Prop for Footnotes {
    fn weights(&self) -> (usize, usize) {
        (1, 3)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        if s.contains("doc-") {
            return Ok(());
        }
        let ev = shim::events(s);
        let (h, n) = stream::shape(ev.iter(), cx);
        cx.count("events", n);
        if ev.iter().any(|e| matches!(e, Event::FootnoteReference(_))) {
            cx.observe(h);
        }
        rendered(&ev, cx).map_err(|m| format!("source {s:?}: {m}"))
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        if t.first().is_some_and(|b| b % 5 == 0) {
            return self.text(&structured(&t[1..]), cx);
        }
        let (s, doc) = case(t.get(1..).unwrap_or(&[]));
        compare(&s, &doc, cx)?;
        self.text(&s, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        if t.first().is_some_and(|b| b % 5 == 0) {
            return structured(&t[1..]);
        }
        case(t.get(1..).unwrap_or(&[])).0
    }
    fn rule(&self) -> &'static str {
        "one evaluation renders one document and compares numbers, order, text and links of its notes and references with a model computed from the events (for written documents also the events with the tree); non-trivial: has a footnote reference; distinct: event-kind sequence"
    }
}
