//! What attributes belong to: elements of all kinds with several sets in all layouts, and
//! attributes that belong to nothing.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_ast::compare;
use crate::rng::Tape;

fn gap(s: &str) -> At {
    At { k: Ak::Gap, v: s.into(), quoted: false }
}

/// Attributes in one or several sets, on one or several lines.
fn gen_sets(t: &mut Tape, lines: bool, several: bool) -> Ats {
    let mut v = vec![];
    for i in 0..1 + t.weighted(&[5, 3, 2, 1, 1]) {
        if i > 0 {
            v.push(gap(match t.below(6) {
                0 | 1 if several => "}{",
                2 => " ",
                3 if several => "}{}{",
                4 if lines => "\n",
                _ => "",
            }));
        }
        let mut a = gen_at(t, true);
        // written between delimiters that would be seen first
        if a.v.contains(['|', '`']) {
            a.v = "v".into();
        }
        if lines && a.quoted && a.v.contains(' ') && t.chance(1, 2) {
            a.v = "two\nlines".into();
        }
        v.push(a);
    }
    if lines && t.chance(1, 200) {
        let n = 1 << t.below(9);
        for i in 0..t.many(n) {
            v.push(gap(if t.chance(1, 8) { " " } else { "\n" }));
            v.push(At { k: Ak::Pair(format!("n{i}")), v: i.to_string(), quoted: i % 3 == 0 });
        }
    }
    v
}

/// A paragraph with many elements, each with attributes of its own.
fn series(t: &mut Tape) -> Blk {
    let n = 16 << t.below(6);
    let mut v = vec![];
    for i in 0..t.many(n).min(3000) {
        if i > 0 {
            v.push(if t.chance(1, 6) { In::Soft } else { In::Sp });
        }
        let w = format!("w{i}");
        let k = if t.chance(1, 2) { Ak::Id } else { Ak::Pair("n".into()) };
        let at = vec![At { k, v: format!("a{i}"), quoted: false }];
        let c = vec![In::Text(w.clone(), w.clone())];
        v.push(match t.below(8) {
            0 => In::Span { c, at },
            1 => In::Verb { s: w, ticks: 1, at },
            2 => In::Style { st: St::Strong, brace: false, c, at },
            3 => In::Link { c, dest: Dest::Short, image: t.chance(1, 2), at },
            4 => In::Text(w.clone(), w),
            _ => In::Word(w, at),
        });
    }
    Blk { gap: 1, at: vec![], b: B::Para(v) }
}

struct Pass<'t, 'b> {
    t: &'t mut Tape<'b>,
    attached: u64,
    loose: u64,
    /// Depth of lists, whose tightness must not change.
    lists: usize,
}

impl Pass<'_, '_> {
    fn set(&mut self, at: &mut Ats, lines: bool, required: bool) {
        if self.t.chance(1, 2) {
            *at = gen_sets(self.t, lines, true);
        } else if !required && self.t.chance(1, 4) {
            at.clear();
        }
        self.attached += u64::from(!at.is_empty());
    }

    fn inlines(&mut self, v: &mut Vec<In>, lines: bool) {
        let mut i = 0;
        while i < v.len() {
            let mut after = false;
            match &mut v[i] {
                In::Style { c, at, .. } => {
                    self.inlines(c, lines);
                    self.set(at, lines, false);
                }
                In::Quote { c, .. } => {
                    self.inlines(c, lines);
                    after = true;
                }
                In::Span { c, at } => {
                    self.inlines(c, lines);
                    self.set(at, lines, true);
                }
                In::Word(_, at) => self.set(at, lines, true),
                In::Verb { at, .. } | In::Math { at, .. } => self.set(at, lines, false),
                In::Link { c, dest, at, .. } => {
                    if !matches!(dest, Dest::Short) {
                        self.inlines(c, lines);
                    }
                    self.set(at, lines, false);
                }
                In::Auto(..) | In::Sym(_) | In::Foot(_) | In::Ellipsis | In::En | In::Em => after = true,
                In::Sp => {
                    // between two spaces
                    if i > 0 && i + 1 < v.len() && !matches!(v[i - 1], In::Sp) && self.t.chance(1, 4) {
                        let at = gen_sets(self.t, lines, true);
                        v.insert(i + 1, In::Sp);
                        v.insert(i + 1, In::Loose(at));
                        self.loose += 1;
                        i += 2;
                    }
                }
                _ => {}
            }
            if after && self.t.chance(1, 3) {
                let at = gen_sets(self.t, lines, true);
                v.insert(i + 1, In::Loose(at));
                self.loose += 1;
                i += 1;
            }
            i += 1;
        }
    }

    fn leaf(&mut self, v: &mut Vec<In>, lines: bool) {
        let old = v.clone();
        let counts = (self.attached, self.loose);
        self.inlines(v, lines);
        if inline_src(v).split('\n').any(unsafe_line) {
            *v = old;
            (self.attached, self.loose) = counts;
        }
        if self.t.chance(1, 10) {
            // at the start of a line, but not all of it
            let at = gen_sets(self.t, false, true);
            let x = *self.t.pick(&["}", "} x", "x", "]", ")", "}}", "%", "%}", ".b}", "a=b}"]);
            if self.t.chance(1, 3) {
                *v = vec![In::Loose(at), In::Text(x.into(), x.into())];
            } else {
                v.splice(0..0, [In::Loose(at), In::Text(x.into(), x.into()), In::Sp]);
            }
            self.loose += 1;
        }
    }

    fn blocks(&mut self, v: &mut Vec<Blk>, fixed_first: bool) {
        let mut i = 0;
        while i < v.len() {
            let b = &mut v[i];
            let list = self.lists > 0 && matches!(b.b, B::List { .. } | B::Desc(_));
            if !list && ((i > 0 && b.gap > 0) || (i == 0 && !fixed_first)) && self.t.chance(1, 3) {
                b.at = (0..1 + self.t.weighted(&[4, 2, 1])).map(|_| gen_sets(self.t, false, false)).collect();
            }
            self.attached += u64::from(!b.at.is_empty());
            match &mut b.b {
                B::Para(c) => self.leaf(c, true),
                B::Heading { c, .. } => self.leaf(c, false),
                B::Quote(v) | B::Div { blocks: v, .. } | B::Footnote { blocks: v, .. } => self.body(v, false),
                B::List { items, .. } => {
                    self.lists += 1;
                    for it in items {
                        self.blocks(&mut it.blocks, true);
                    }
                    self.lists -= 1;
                }
                B::Desc(items) => {
                    for (_, term, body) in items {
                        self.leaf(term, true);
                        self.body(body, true);
                    }
                }
                B::Table { caption: Some((_, c)), .. } => self.leaf(c, true),
                _ => {}
            }
            let b = &v[i];
            if !list && i > 0 && b.gap > 0 && self.t.chance(1, 4) {
                let at = (0..1 + self.t.weighted(&[4, 2])).map(|_| gen_sets(self.t, false, false)).collect();
                let gap = b.gap;
                v.insert(i, Blk { gap, at, b: B::Loose });
                self.loose += 1;
                i += 1;
            }
            i += 1;
        }
    }

    /// The blocks of a container, with attributes at its end that belong to nothing.
    fn body(&mut self, v: &mut Vec<Blk>, fixed_first: bool) {
        self.blocks(v, fixed_first);
        if self.lists == 0 && self.t.chance(1, 5) {
            let at = (0..1 + self.t.weighted(&[4, 2])).map(|_| gen_sets(self.t, false, false)).collect();
            v.push(Blk { gap: 1 + self.t.below(2), at, b: B::Loose });
            self.loose += 1;
        }
    }
}

fn case(t: &[u8]) -> (Doc, u64, u64) {
    let mut t = Tape::new(t);
    let mut bx = Bcx::new();
    bx.inline_budget = 8;
    bx.w = [8, 4, 3, 3, 2, 3, 3, 2, 1, 2, 2, 2];
    let mut doc = gen_doc(&mut t, &mut bx, 5);
    let mut p = Pass { t: &mut t, attached: 0, loose: 0, lists: 0 };
    p.blocks(&mut doc.blocks, false);
    let (a, mut l) = (p.attached, p.loose);
    if t.chance(1, 150) {
        doc.blocks.push(series(&mut t));
    }
    if t.chance(1, 4) {
        doc.blocks.push(Blk { gap: 1 + t.below(2), at: vec![gen_sets(&mut t, false, false)], b: B::Loose });
        l += 1;
    }
    (doc, a, l)
}

pub struct Attach;

impl Prop for Attach {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let (doc, a, l) = case(t);
        cx.count("elements_with_attributes", a);
        cx.count("attributes_without_element", l);
        compare(&doc_src(&doc), &doc, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        doc_src(&case(t).0)
    }
    fn rule(&self) -> &'static str {
        "one evaluation writes a document in which elements of all kinds have attributes, in one or several sets and lines, with attributes in between that have no element, and compares which event carries which attributes; non-trivial: more than eight events; distinct: event-kind sequence"
    }
}
