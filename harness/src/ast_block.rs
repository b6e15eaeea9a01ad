//! Block level of the constructive specification (see ast.rs).
use crate::ast::*;
use crate::rng::{Rng, Tape};
use jotdown::*;
use std::cell::RefCell;
use std::collections::HashSet;

// ------------------------------------------------------------------ surface variation

thread_local! {
    /// Choices between notations that mean the same; none while the plain notation is written.
    static SURFACE: RefCell<Option<(u32, Rng)>> = const { RefCell::new(None) };
}

#[derive(Clone, Copy)]
enum Sf {
    Heading,
    Quote,
    Lazy,
    Item,
    Blank,
    Div,
    Code,
    Indent,
    Rows,
    Attrs,
    Def,
}

/// Zero (the plain notation) or, if the document varies this kind of notation, one of n choices.
fn sf(k: Sf, n: usize) -> usize {
    SURFACE.with_borrow_mut(|s| match s {
        Some((mask, r)) if *mask >> (k as u32) & 1 == 1 => r.below(n),
        _ => 0,
    })
}

/// Marks a line that is written without the prefixes of its containers. Generators do not write it.
const LAZY: char = '\u{e123}';

fn blank() -> String {
    ["", "", "", " ", "  ", "\t", "      ", " \t "][sf(Sf::Blank, 8)].to_string()
}

/// Lines of a paragraph; all but the first may be lazy or indented.
fn para_lines(c: &[In]) -> impl Iterator<Item = String> + '_ {
    let v: Vec<String> = inline_src(c)
        .split('\n')
        .enumerate()
        .map(|(i, l)| {
            let mut o = String::new();
            if i > 0 {
                if sf(Sf::Lazy, 3) == 1 {
                    o.push(LAZY);
                }
                o.push_str(["", "", " ", "   ", "\t"][sf(Sf::Lazy, 5)]);
            }
            o.push_str(l);
            o
        })
        .collect();
    v.into_iter()
}

fn block_indent() -> &'static str {
    ["", "", "", " ", "  ", "   ", "\t", "     "][sf(Sf::Indent, 8)]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Lk {
    Bullet(u8),
    Task(u8),
    Ord(OrderedListNumbering, OrderedListStyle, u64),
}

#[derive(Debug, Clone)]
pub struct Item {
    pub checked: bool,
    pub num: u64,
    /// Blank lines before the item.
    pub gap: usize,
    pub blocks: Vec<Blk>,
}

#[derive(Debug, Clone)]
pub enum Row {
    Cells(Vec<Vec<In>>),
    Sep(Vec<Alignment>),
}

#[derive(Debug, Clone)]
pub enum B {
    Para(Vec<In>),
    Heading { level: usize, c: Vec<In>, repeat: bool },
    Quote(Vec<Blk>),
    List { lk: Lk, tight: bool, items: Vec<Item> },
    Desc(Vec<(usize, Vec<In>, Vec<Blk>)>),
    Table { caption: Option<(usize, Vec<In>)>, rows: Vec<Row> },
    Div { class: String, blocks: Vec<Blk> },
    Code { lang: String, fence: char, lines: Vec<String> },
    Raw { format: String, lines: Vec<String> },
    Hr(String),
    LinkDef { label: String, url: Vec<String> },
    Footnote { label: String, blocks: Vec<Blk> },
    /// Attribute lines without a block they could belong to.
    Loose,
}

#[derive(Debug, Clone)]
pub struct Blk {
    /// Blank lines before the block (and its attribute lines).
    pub gap: usize,
    /// One entry per attribute line.
    pub at: Vec<Ats>,
    pub b: B,
}

#[derive(Debug, Clone)]
pub struct Doc {
    pub blocks: Vec<Blk>,
    /// What follows the last line.
    pub tail: &'static str,
    pub labels: Vec<String>,
    pub foots: Vec<String>,
    /// Which kinds of notation vary, and how; zero for the plain notation.
    pub style: u32,
}

#[derive(Debug, Clone)]
pub struct Bcx {
    pub depth: usize,
    /// Only sequences of blocks without blank lines between them.
    pub no_blank: bool,
    in_div: bool,
    /// Fences cannot be recognised here by an enclosing div.
    no_fence_first: bool,
    in_item: bool,
    pub budget: usize,
    pub inline_budget: usize,
    pub max_depth: usize,
    pub labels: Vec<String>,
    pub foots: Vec<String>,
    pub undef_labels: Vec<String>,
    pub undef_foots: Vec<String>,
    /// Weights of the block kinds.
    pub w: [usize; 12],
    pub ats: bool,
    pub foot_refs: bool,
    pub nested_defs: bool,
    pub mode: Mode,
    pub next_word: usize,
}

impl Bcx {
    pub fn new() -> Self {
        Bcx {
            depth: 0,
            no_blank: false,
            in_div: false,
            no_fence_first: false,
            in_item: false,
            budget: 14,
            inline_budget: 8,
            max_depth: 4,
            labels: vec![],
            foots: vec![],
            undef_labels: vec![],
            undef_foots: vec![],
            w: [8, 4, 4, 6, 2, 3, 3, 3, 1, 2, 2, 2],
            ats: true,
            foot_refs: true,
            nested_defs: true,
            mode: Mode::Mixed,
            next_word: 0,
        }
    }
}

pub fn gen_leaf(t: &mut Tape, bx: &mut Bcx, breaks: bool) -> Vec<In> {
    let mut cx = Cx::new();
    cx.mode = bx.mode;
    cx.next_word = bx.next_word;
    cx.budget = bx.inline_budget;
    cx.breaks = breaks;
    cx.foots = bx.foot_refs;
    let mut v = {
        let mut cx: Cx = Cx { labels: &bx.labels, foot_labels: &bx.foots, ..cx };
        let v = gen_inlines(t, &mut cx);
        bx.next_word = cx.next_word;
        v
    };
    make_safe(&mut v);
    v
}

/// The level of a heading.
pub fn gen_level(t: &mut Tape) -> usize {
    let n = 1 + t.weighted(&[4, 4, 3, 1, 1, 1, 1]);
    if t.chance(1, 16) {
        n + 6
    } else {
        t.many(n)
    }
}

pub fn gen_cell(t: &mut Tape, bx: &mut Bcx) -> Vec<In> {
    if t.chance(1, 8) {
        return vec![];
    }
    let mut cx: Cx = Cx { labels: &bx.labels, foot_labels: &bx.foots, ..Cx::new() };
    cx.mode = bx.mode;
    cx.next_word = bx.next_word;
    cx.budget = bx.inline_budget / 2;
    cx.breaks = false;
    cx.cell = true;
    cx.foots = bx.foot_refs;
    if cx.mode == Mode::Mixed && t.chance(1, 10) {
        // almost a separator or a caption
        let x = *t.pick(NEARLY);
        return vec![In::Text(x.into(), x.into())];
    }
    let mut v = gen_inlines(t, &mut cx);
    let next = cx.next_word;
    bx.next_word = next;
    if no_pipe_outside_verbatim(&v) {
        v
    } else {
        v = vec![In::Text("p".into(), "p".into())];
        v
    }
}

const NEARLY: &[&str] = &[
    "-:-", "- -", "-a-", "-.", ":a", "a:", "- : -", ":- -", "- -:", "-a", "a-", ": -", "- :", "+", "=", ":", "::",
    "^", "^ c", "> -", "# -", ":a-", "-a:",
];

/// Lines that are not quite the start of another block: they are paragraphs.
const NEARLY_BLOCKS: &[&str] = &[
    "#a", "#a b", "###x", "#-", ">a", ">>", ">> a", ">#", "-a", "+a", "+ab", "-1", "1.a", "1)a", "(1", "(1)a", "(1.", "1", "a)b",
    "12345678901234567890. x", "aa. x", "ab) x", "(aa) x", "A1. x", "1a. x", "iq. x", "xia) x", "1: x", "1 . x", "(1 ) x", "1.) x",
    "#.", "::a", ":a", "::: a b", "::: a.b", ":::: a/b", ":::a,", "|a", "|", "|a|b", "||a", "a|", "[a] :b", "[a: b", "[a", "a]: b",
    "{a", "{a b", "{ a }", "{a}", "{1.}", "{.a", "{#a", "]", "%", "\u{2003}- a", "\u{a0}# b", "\u{3000}> c", "i.a", "iv)b",
];

/// Attribute values are the only place where the generator writes an unescaped pipe.
fn no_pipe_outside_verbatim(v: &[In]) -> bool {
    let ok = |at: &Ats| at.iter().all(|a| !a.v.contains('|') && !a.v.contains('`'));
    v.iter().all(|i| match i {
        In::Quote { c, .. } => no_pipe_outside_verbatim(c),
        In::Style { c, at, .. } | In::Span { c, at } | In::Link { c, at, .. } => {
            ok(at) && no_pipe_outside_verbatim(c)
        }
        In::Word(_, at) | In::Verb { at, .. } | In::Math { at, .. } => ok(at),
        _ => true,
    })
}

const CODE_LINES: &[&str] = &[
    "", "x", "  indented", "let a = 1;", "# not a heading", "> not a quote", "- no item", "`tick`", "``", "*a*",
    "\\*", "{.c}", "[a]: b", "| a |", "::", "<b>&amp;</b>", "é 日 😀", "\ttab", "    four", "~~", "^", "\"q\"",
    "[^f]: x", "1. n", "...", "trailing  ", "--", "* * *", "a\\",
];

fn gen_code_lines(t: &mut Tape, raw: bool, mode: Mode) -> Vec<String> {
    let n = t.weighted(&[1, 4, 3, 2, 1]);
    let n = t.many(n);
    let mut v: Vec<String> = (0..n)
        .map(|_| {
            if mode == Mode::Literal && t.chance(3, 4) {
                return hostile_line(t, 16);
            }
            if t.chance(1, 10) {
                let c = *t.pick(&["`", "~", ":"]);
                let s = c.repeat(3 + t.below(3));
                if t.chance(1, 2) {
                    s
                } else {
                    format!("{s} x")
                }
            } else {
                t.pick(CODE_LINES).to_string()
            }
        })
        .collect();
    if raw {
        while v.last().is_some_and(|l| l.trim_end() != l || l.is_empty()) {
            v.pop();
        }
    }
    v
}

fn tail_is_list(v: &[Blk]) -> bool {
    match v.last().map(|b| &b.b) {
        Some(B::List { .. } | B::Desc(_)) => true,
        Some(B::Footnote { blocks, .. } | B::Quote(blocks)) => tail_is_list(blocks),
        _ => false,
    }
}

/// Can `next` start on the line after `prev` without a blank line between them?
fn can_follow(prev: &B, next: &Blk, bx: &Bcx) -> bool {
    let attrs = !next.at.is_empty();
    match prev {
        B::Para(_) => false,
        B::Table { caption, .. } => {
            caption.is_none() && (attrs || !matches!(next.b, B::Table { .. }))
        }
        B::Heading { level, .. } => {
            attrs
                || match &next.b {
                    B::Para(_) => false,
                    B::Heading { level: l, .. } => l != level,
                    _ => true,
                }
        }
        B::Quote(_) => attrs || !matches!(next.b, B::Para(_) | B::Quote(_)),
        B::List { .. } | B::Desc(_) | B::Footnote { .. } => attrs || !matches!(next.b, B::Para(_)),
        B::LinkDef { .. } => !bx.in_item,
        _ => true,
    }
}

fn merges(a: &B, b: &Blk) -> bool {
    if !b.at.is_empty() {
        return false;
    }
    match (a, &b.b) {
        (B::List { lk: x, .. }, B::List { lk: y, .. }) => match (x, y) {
            (Lk::Ord(_, s, _), Lk::Ord(_, r, _)) => s == r,
            (x, y) => x == y,
        },
        (B::Desc(_), B::Desc(_)) => true,
        _ => false,
    }
}

pub fn gen_blocks(t: &mut Tape, bx: &mut Bcx, max: usize) -> Vec<Blk> {
    let n = 1 + t.below(max.max(1));
    let n = t.many(n);
    let mut out: Vec<Blk> = Vec::new();
    let nff = bx.no_fence_first;
    for i in 0..n {
        if i > 0 && (bx.budget == 0 || t.done()) {
            break;
        }
        bx.no_fence_first = nff && i == 0;
        let mut b = gen_block(t, bx);
        if bx.no_fence_first && fence_first(&b) {
            b = Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text("p".into(), "p".into())]) };
        }
        if let Some(p) = out.last() {
            if merges(&p.b, &b) {
                continue;
            }
            let direct = can_follow(&p.b, &b, bx);
            if bx.no_blank {
                // a list is the only thing that may follow a blank line here
                if !direct {
                    let list = matches!(b.b, B::List { .. } | B::Desc(_)) && b.at.is_empty();
                    if !list || tail_is_list(&out) {
                        continue;
                    }
                    b.gap = 1;
                    out.push(b);
                    break;
                }
                if tail_is_list(&out) {
                    break;
                }
            } else {
                b.gap = t.weighted(&[if direct { 2 } else { 0 }, 6, 1]);
                if b.gap == 0 && !direct {
                    b.gap = 1;
                }
            }
        }
        out.push(b);
    }
    bx.no_fence_first = nff;
    out
}

/// Would a marker in front turn the first line into a thematic break?
fn break_first(v: &[Blk]) -> bool {
    v.first().is_some_and(|b| {
        b.at.is_empty()
            && match &b.b {
                B::Hr(_) => true,
                B::List { lk: Lk::Bullet(b'-' | b'*'), items, .. } => {
                    items.first().is_some_and(|i| break_first(&i.blocks))
                }
                _ => false,
            }
    })
}

fn fence_first(b: &Blk) -> bool {
    b.at.is_empty() && matches!(b.b, B::Code { .. } | B::Raw { .. } | B::Div { .. })
}

fn sub(t: &mut Tape, bx: &mut Bcx, max: usize, f: impl FnOnce(&mut Bcx)) -> Vec<Blk> {
    let save = (bx.depth, bx.no_blank, bx.in_div, bx.no_fence_first, bx.in_item);
    bx.depth += 1;
    f(bx);
    let v = gen_blocks(t, bx, max);
    (bx.depth, bx.no_blank, bx.in_div, bx.no_fence_first, bx.in_item) = save;
    v
}

pub fn gen_number(t: &mut Tape, n: OrderedListNumbering) -> u64 {
    use OrderedListNumbering::*;
    match n {
        Decimal => match t.below(6) {
            0 => 1,
            1 => t.below(20) as u64,
            2 => t.below(300) as u64,
            3 => 0,
            4 => 9_999_999_999 + t.below(200) as u64,
            _ => 1 + t.below(9) as u64,
        },
        // letters that are not roman digits
        AlphaLower | AlphaUpper => *t.pick(&[1, 2, 5, 6, 7, 8, 10, 11, 14, 15, 16, 17, 18, 19, 20, 21, 23, 25, 26]),
        RomanLower | RomanUpper => match t.below(3) {
            0 => 1,
            1 => 1 + t.below(40) as u64,
            _ => match 1 + t.below(3000) as u64 {
                // one digit longer than the longest numeral that is recognised
                2888 => 2887,
                n => n,
            },
        },
    }
}

pub fn roman(mut n: u64, upper: bool) -> String {
    const T: &[(u64, &str)] = &[
        (1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"),
        (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i"),
    ];
    let mut s = String::new();
    for (v, r) in T {
        while n >= *v {
            s.push_str(r);
            n -= v;
        }
    }
    if upper {
        s.to_uppercase()
    } else {
        s
    }
}

pub fn marker(num: OrderedListNumbering, style: OrderedListStyle, v: u64) -> String {
    use OrderedListNumbering::*;
    let n = match num {
        Decimal => v.to_string(),
        AlphaLower => char::from(b'a' + (v as u8 - 1) % 26).to_string(),
        AlphaUpper => char::from(b'A' + (v as u8 - 1) % 26).to_string(),
        RomanLower => roman(v, false),
        RomanUpper => roman(v, true),
    };
    match style {
        OrderedListStyle::Period => format!("{n}."),
        OrderedListStyle::Paren => format!("{n})"),
        OrderedListStyle::ParenParen => format!("({n})"),
    }
}

fn gen_list(t: &mut Tape, bx: &mut Bcx) -> B {
    use OrderedListNumbering::*;
    let lk = match t.weighted(&[4, 2, 4]) {
        0 => Lk::Bullet(*t.pick(b"-*+")),
        1 => Lk::Task(*t.pick(b"-*+")),
        _ => {
            let n = *t.pick(&[Decimal, AlphaLower, AlphaUpper, RomanLower, RomanUpper]);
            let s = *t.pick(&[
                OrderedListStyle::Period,
                OrderedListStyle::Paren,
                OrderedListStyle::ParenParen,
            ]);
            Lk::Ord(n, s, gen_number(t, n))
        }
    };
    let mut n = 1 + t.weighted(&[3, 4, 3, 1]);
    n = t.many(n);
    let tight = t.chance(3, 5) || n == 1;
    if !tight {
        n = n.max(2);
    }
    let mut items: Vec<Item> = Vec::new();
    for i in 0..n {
        let num = match lk {
            Lk::Ord(Decimal, _, s) => {
                if i == 0 || t.chance(3, 4) {
                    s + i as u64
                } else {
                    t.below(30) as u64
                }
            }
            Lk::Ord(_, _, s) => s + i as u64,
            _ => 0,
        };
        if let Lk::Ord(AlphaLower | AlphaUpper, ..) = lk {
            if num > 26 {
                break;
            }
        }
        if let Lk::Ord(RomanLower | RomanUpper, ..) = lk {
            // more than 13 digits are not a number; a single digit other than i first is fine
            if roman(num, false).len() > 13 {
                break;
            }
        }
        let in_div = bx.in_div;
        let mut blocks = sub(t, bx, 3, |b| {
            b.no_blank = tight;
            b.no_fence_first = b.no_fence_first || in_div;
            b.in_item = true;
        });
        if matches!(lk, Lk::Bullet(b'-' | b'*')) && break_first(&blocks) {
            blocks = vec![Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text("p".into(), "p".into())]) }];
        }
        if !tight && i == 0 {
            while blocks.len() > 1 && tail_is_list(&blocks) {
                blocks.pop();
            }
            if tail_is_list(&blocks) {
                blocks = vec![Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text("p".into(), "p".into())]) }];
            }
        }
        let gap = if i == 0 || tight {
            0
        } else if i == 1 {
            1 + usize::from(t.chance(1, 5))
        } else {
            t.below(2)
        };
        items.push(Item { checked: t.chance(1, 2), num, gap, blocks });
    }
    let tight = tight || items.len() < 2;
    if items.len() < 2 {
        for it in &mut items {
            if needs_blank(&it.blocks) {
                it.blocks.truncate(1);
                if needs_blank(&it.blocks) {
                    it.blocks = vec![Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text("p".into(), "p".into())]) }];
                }
            }
        }
    }
    B::List { lk, tight, items }
}

/// Do blank lines inside these blocks make the enclosing list loose?
fn needs_blank(v: &[Blk]) -> bool {
    v.iter().any(|b| {
        (b.gap > 0 && !matches!(b.b, B::List { .. } | B::Desc(_)))
            || (b.gap > 0 && !b.at.is_empty())
            || match &b.b {
                B::Quote(v) | B::Div { blocks: v, .. } | B::Footnote { blocks: v, .. } => needs_blank(v),
                B::Table { caption: Some((g, _)), .. } => *g > 0,
                _ => false,
            }
    })
}

fn gen_table(t: &mut Tape, bx: &mut Bcx) -> B {
    let cols = 1 + t.below(3);
    let cols = t.many(cols);
    let n = 1 + t.weighted(&[2, 3, 3, 2, 1]);
    let n = t.many(n);
    let mut rows = Vec::new();
    for i in 0..n {
        if t.chance(if i == 1 { 2 } else { 1 }, 4) {
            let k = if t.chance(1, 6) { 1 + t.below(4) } else { cols };
            rows.push(Row::Sep(
                (0..k)
                    .map(|_| {
                        *t.pick(&[
                            Alignment::Unspecified,
                            Alignment::Left,
                            Alignment::Right,
                            Alignment::Center,
                        ])
                    })
                    .collect(),
            ));
        } else {
            let k = if t.chance(1, 8) { 1 + t.below(4) } else { cols };
            rows.push(Row::Cells((0..k).map(|_| gen_cell(t, bx)).collect()));
        }
    }
    let caption = if t.chance(1, 4) {
        let gap = if bx.no_blank { 0 } else { t.weighted(&[3, 1, 1]) };
        Some((gap, gen_leaf(t, bx, true)))
    } else {
        None
    };
    B::Table { caption, rows }
}

fn gen_block(t: &mut Tape, bx: &mut Bcx) -> Blk {
    let mut at = vec![];
    if bx.ats && t.chance(1, 6) {
        let n = 1 + usize::from(t.chance(1, 4));
        at = (0..n).map(|_| gen_ats(t, true)).collect();
    }
    if bx.budget == 0 || t.done() {
        return Blk { gap: 0, at: vec![], b: B::Para(gen_leaf(t, bx, true)) };
    }
    bx.budget -= 1;
    let deep = bx.depth >= bx.max_depth;
    let b = loop {
        let b = match t.weighted(&bx.w.clone()) {
            1 => B::Heading {
                level: gen_level(t),
                c: gen_leaf(t, bx, true),
                repeat: t.chance(1, 3),
            },
            2 if !deep => {
                let mut q = B::Quote(sub(t, bx, 3, |b| b.no_fence_first = false));
                for _ in 0..t.many(0) {
                    q = B::Quote(vec![Blk { gap: 0, at: vec![], b: q }]);
                }
                q
            }
            3 if !deep => gen_list(t, bx),
            4 if !deep => {
                let n = 1 + t.below(3);
                let n = t.many(n);
                let in_div = bx.in_div;
                B::Desc(
                    (0..n)
                        .map(|_| {
                            let term = gen_leaf(t, bx, true);
                            let body = if t.chance(1, 5) {
                                vec![]
                            } else {
                                let mut v = sub(t, bx, 2, |b| {
                                    b.no_blank = false;
                                    b.no_fence_first = b.no_fence_first || in_div;
                                    b.in_item = true;
                                });
                                v[0].at.clear();
                                v
                            };
                            (t.below(2), term, body)
                        })
                        .collect(),
                )
            }
            5 => gen_table(t, bx),
            6 if !deep => B::Div {
                class: t.pick(&["", "note", "a-b", "x1", "c:d"]).to_string(),
                blocks: sub(t, bx, 3, |b| {
                    b.in_div = true;
                    b.no_fence_first = false;
                }),
            },
            7 => B::Code {
                lang: t.pick(&["", "rust", "c++", "text/plain", "{x}", "a=b", "x=", "a~b", "é", "C#", "a:b"]).to_string(),
                fence: *t.pick(&['`', '~']),
                lines: gen_code_lines(t, false, bx.mode),
            },
            8 => B::Raw {
                format: t.pick(&["html", "html", "tex", "x", "=html", "HTML", "html5", "xhtml", "x-y", "é", "a=b"]).to_string(),
                lines: gen_code_lines(t, true, bx.mode),
            },
            9 => B::Hr(if t.chance(1, 12) {
                let n = *t.pick(&crate::dict::get().numbers);
                t.pick(&["-", "*", "- ", "*-", "-\t*"]).repeat(n.max(3))
            } else {
                let s = *t.pick(&[
                    "* * *", "---", "----", "***", "- * -", "-\t-\t-", "*-*", "-  -   -", "* * * ", "--- -\t", "****-----",
                ]);
                s.to_string()
            }),
            10 if !bx.undef_labels.is_empty() && (bx.nested_defs || bx.depth == 0) => {
                let i = t.below(bx.undef_labels.len());
                let label = bx.undef_labels.remove(i);
                let mut url = vec![t.pick(&["u", "http://x.y/z", "#frag", "", "a b", "é?q=1&r=2"]).to_string()];
                if bx.depth == 0 && !url[0].is_empty() && t.chance(1, 5) {
                    let n = 1 + t.below(4);
                    for _ in 0..t.many(n) {
                        url.push(t.pick(&["/more", "x", "y z"]).to_string());
                    }
                }
                B::LinkDef { label, url }
            }
            11 if !deep && !bx.undef_foots.is_empty() && (bx.nested_defs || bx.depth == 0) => {
                let i = t.below(bx.undef_foots.len());
                let label = bx.undef_foots.remove(i);
                let in_div = bx.in_div;
                B::Footnote {
                    label,
                    blocks: sub(t, bx, 3, |b| {
                        b.no_fence_first = b.no_fence_first || in_div;
                        b.in_item = true;
                    }),
                }
            }
            0 if bx.mode == Mode::Mixed && t.chance(1, 12) => {
                let x = *t.pick(NEARLY_BLOCKS);
                B::Para(vec![In::Text(x.into(), x.into())])
            }
            0 => B::Para(gen_leaf(t, bx, true)),
            _ => {
                if deep || t.done() {
                    break B::Para(gen_leaf(t, bx, true));
                }
                continue;
            }
        };
        break b;
    };
    Blk { gap: 0, at, b }
}

pub fn gen_doc(t: &mut Tape, bx: &mut Bcx, max: usize) -> Doc {
    let style = t.below(65536) as u32;
    let all = ["l1", "label two", "L", "é", "x-y"];
    let n = t.below(4);
    bx.labels = all.iter().take(n).map(|s| s.to_string()).collect();
    bx.undef_labels = bx.labels.clone();
    let all = ["f", "note 2", "1", "é"];
    let n = t.below(4);
    bx.foots = all.iter().take(n).map(|s| s.to_string()).collect();
    bx.undef_foots = bx.foots.clone();
    let mut blocks = gen_blocks(t, bx, max);
    if t.chance(1, 384) {
        far(t, &mut blocks);
    } else if t.chance(1, 256) && !blocks.is_empty() {
        // deep in other blocks
        let n = 3 + t.below(30);
        let mut lines = vec![];
        print_blocks(&blocks, &mut lines);
        // a fence on the line of a marker is not seen by an enclosing div
        let fences = lines.iter().any(|l| l.contains("```") || l.contains("~~~") || l.contains(":::"));
        let kind = if fences { 0 } else { t.below(3) };
        for i in 0..t.many(n) {
            blocks[0].gap = 0;
            let b = match kind {
                0 => B::Quote(blocks),
                1 => B::Div { class: String::new(), blocks },
                _ if i % 2 == 0 => B::Quote(blocks),
                _ => B::Div { class: "c".into(), blocks },
            };
            blocks = vec![Blk { gap: 0, at: vec![], b }];
        }
    }
    let tail = *t.pick(&["\n", "", "\n\n", "\n  \n"]);
    Doc {
        blocks,
        tail,
        labels: bx.labels.clone(),
        foots: bx.foots.clone(),
        style,
    }
}

/// Puts so much text before the blocks that their places need more bits.
pub fn far(t: &mut Tape, blocks: &mut Vec<Blk>) {
    crate::rt::large();
    let n = t.pick(&[250, 65_500, 65_530, 70_000, 131_070]) + t.below(40);
    let s = "w".repeat(n);
    if let Some(b) = blocks.first_mut() {
        b.gap = b.gap.max(1);
    }
    blocks.insert(0, Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text(s.clone(), s)]) });
}

// ------------------------------------------------------------------ printing

pub fn max_fence(v: &[Blk]) -> usize {
    v.iter().map(|b| div_height(&b.b)).max().unwrap_or(0)
}

fn div_height(b: &B) -> usize {
    match b {
        B::Div { blocks, .. } => 1 + max_fence(blocks),
        B::Quote(v) | B::Footnote { blocks: v, .. } => max_fence(v),
        B::List { items, .. } => items.iter().map(|i| max_fence(&i.blocks)).max().unwrap_or(0),
        B::Desc(v) => v.iter().map(|i| max_fence(&i.2)).max().unwrap_or(0),
        _ => 0,
    }
}

/// Only a line of nothing else can close a fence.
fn longest_run(lines: &[String], c: char) -> usize {
    lines
        .iter()
        .map(|l| l.trim_matches(|c: char| c.is_ascii_whitespace()))
        .filter(|l| l.chars().all(|x| x == c))
        .map(|l| l.chars().count())
        .max()
        .unwrap_or(0)
}

pub fn print_blocks(v: &[Blk], out: &mut Vec<String>) {
    print_seq(v, false, out);
}

/// The block next to a marker is not indented.
fn print_seq(v: &[Blk], marker: bool, out: &mut Vec<String>) {
    for (i, b) in v.iter().enumerate() {
        for _ in 0..b.gap {
            out.push(blank());
        }
        // an indented block would belong to the item before it
        let free = match i.checked_sub(1).map(|i| &v[i].b) {
            None => !marker,
            Some(B::List { .. } | B::Desc(_) | B::Footnote { .. } | B::LinkDef { .. }) => false,
            _ => true,
        };
        let ind = if free { block_indent() } else { "" };
        let mut l = vec![];
        for a in &b.at {
            let end = ["", "", " ", "\t", "  ", " \t"][sf(Sf::Attrs, 6)];
            l.push(ats_src(a) + end);
        }
        print_block(&b.b, &mut l);
        out.extend(l.into_iter().map(|l| {
            if l.is_empty() || l.starts_with(LAZY) {
                l
            } else {
                format!("{ind}{l}")
            }
        }));
    }
}

fn indent(first: &str, n: usize, lines: Vec<String>, out: &mut Vec<String>) {
    for (i, l) in lines.into_iter().enumerate() {
        if i == 0 {
            out.push(format!("{first} {l}"));
        } else if l.is_empty() || l.starts_with(LAZY) {
            out.push(l);
        } else {
            out.push(format!("{}{l}", " ".repeat(n)));
        }
    }
}

/// Write the lines of an item; its content may be indented by any amount as long as the block next
/// to the marker does not depend on it.
fn item(first: &str, loose_first: bool, lines: Vec<String>, out: &mut Vec<String>) {
    let mut n = first.len() + 1;
    let mut pad = "";
    if loose_first {
        match sf(Sf::Item, 4) {
            1 => n = 1 + sf(Sf::Item, n + 3),
            2 => {
                // a bullet is followed by a space
                let n = if first.starts_with(['-', '*', '+']) { 4 } else { 8 };
                pad = ["", " ", "  ", "   ", "\t", "\t\t", " \t", "\t "][sf(Sf::Item, n)];
            }
            _ => {}
        }
    }
    indent(&format!("{first}{pad}"), n, lines, out);
}

fn loose_first(v: &[Blk]) -> bool {
    v.first().is_some_and(|b| b.at.is_empty() && matches!(b.b, B::Para(_) | B::Heading { .. }))
}

pub fn print_block(b: &B, out: &mut Vec<String>) {
    match b {
        B::Para(c) => out.extend(para_lines(c)),
        B::Heading { level, c, repeat } => {
            let h = "#".repeat(*level);
            for (i, l) in inline_src(c).split('\n').enumerate() {
                let sp = [" ", " ", " ", "\t", "  ", " \t", "\t\t"][sf(Sf::Heading, 7)];
                out.push(if i == 0 || *repeat { format!("{h}{sp}{l}") } else { l.to_string() });
            }
        }
        B::Quote(v) => {
            let mut l = vec![];
            print_blocks(v, &mut l);
            out.extend(l.into_iter().map(|l| {
                if l.starts_with(LAZY) {
                    l
                } else if l.is_empty() {
                    [">", "> ", ">\t"][sf(Sf::Quote, 3)].to_string()
                } else {
                    format!("{}{l}", ["> ", "> ", ">\t"][sf(Sf::Quote, 3)])
                }
            }));
        }
        B::List { lk, items, .. } => {
            for it in items {
                for _ in 0..it.gap {
                    out.push(blank());
                }
                let m = match lk {
                    Lk::Bullet(c) => char::from(*c).to_string(),
                    Lk::Task(c) => {
                        format!("{} [{}]", char::from(*c), if it.checked { "x" } else { " " })
                    }
                    Lk::Ord(n, s, _) => marker(*n, *s, it.num),
                };
                let mut l = vec![];
                print_seq(&it.blocks, true, &mut l);
                item(&m, loose_first(&it.blocks), l, out);
            }
        }
        B::Desc(items) => {
            for (i, (gap, term, body)) in items.iter().enumerate() {
                if i > 0 {
                    for _ in 0..*gap {
                        out.push(blank());
                    }
                }
                let mut l: Vec<String> = para_lines(term).collect();
                if !body.is_empty() {
                    l.push(blank());
                    print_blocks(body, &mut l);
                }
                item(":", true, l, out);
            }
        }
        B::Table { caption, rows } => {
            for r in rows {
                let mut s = String::from("|");
                match r {
                    Row::Cells(c) => {
                        for c in c {
                            let x = inline_src(c);
                            let p = [" ", " ", "", "  ", "\t", "   "];
                            s.push_str(&format!("{}{x}{}|", p[sf(Sf::Rows, 6)], p[sf(Sf::Rows, 6)]));
                        }
                    }
                    Row::Sep(a) => {
                        for (i, a) in a.iter().enumerate() {
                            let n = 1 + (i + a.clone() as usize) % 3;
                            let d = "-".repeat(n);
                            s.push_str(&match a {
                                Alignment::Unspecified => format!("{d}|"),
                                Alignment::Left => format!(":{d}|"),
                                Alignment::Right => format!(" {d}: |"),
                                Alignment::Center => format!(":{d}:|"),
                            });
                        }
                    }
                }
                s.push_str(["", "", " ", "\t "][sf(Sf::Rows, 4)]);
                out.push(s);
            }
            if let Some((gap, c)) = caption {
                for _ in 0..*gap {
                    out.push(blank());
                }
                for (i, l) in inline_src(c).split('\n').enumerate() {
                    let p = ["", "", "  ", "\t"][sf(Sf::Rows, 4)];
                    out.push(if i == 0 { format!("^ {l}") } else { format!("{p}{l}") });
                }
            }
        }
        B::Div { class, blocks } => {
            // the fence that closes it must not be able to close one around it
            let f = ":".repeat(3 + 2 * max_fence(blocks));
            let sp = [" ", " ", "", "  ", "\t"][sf(Sf::Div, 5)];
            let end = ["", "", " ", "\t "][sf(Sf::Div, 4)];
            out.push(if class.is_empty() { format!("{f}{end}") } else { format!("{f}{sp}{class}{end}") });
            print_blocks(blocks, out);
            let more = ["", "", ":"][sf(Sf::Div, 3)];
            out.push(format!("{}{f}{more}{}", block_indent(), ["", "", " ", "\t "][sf(Sf::Div, 4)]));
        }
        B::Code { lang, fence, lines } => print_fenced(*fence, lang, lines, out),
        B::Raw { format, lines } => print_fenced('`', &format!("={format}"), lines, out),
        B::Hr(s) => out.push(s.to_string()),
        B::Loose => {}
        B::LinkDef { label, url } => {
            for (i, u) in url.iter().enumerate() {
                out.push(if i == 0 {
                    if u.is_empty() {
                        format!("[{label}]:")
                    } else {
                        format!("[{label}]:{}{u}", [" ", " ", "\t", "  ", " \t", ""][sf(Sf::Def, 6)])
                    }
                } else {
                    format!("{}{u}", ["  ", "  ", " ", "\t", "    "][sf(Sf::Def, 5)])
                });
            }
        }
        B::Footnote { label, blocks } => {
            let m = format!("[^{label}]:");
            let mut l = vec![];
            print_seq(blocks, true, &mut l);
            item(&m, loose_first(blocks), l, out);
        }
    }
}

fn print_fenced(fence: char, spec: &str, lines: &[String], out: &mut Vec<String>) {
    let f = fence.to_string().repeat(3.max(longest_run(lines, fence) + 1));
    let sp = [" ", " ", "", "  ", "\t"][sf(Sf::Code, 5)];
    let end = ["", "", " ", "\t "][sf(Sf::Code, 4)];
    out.push(if spec.is_empty() { format!("{f}{end}") } else { format!("{f}{sp}{spec}{end}") });
    out.extend(lines.iter().cloned());
    let more = fence.to_string().repeat([0, 0, 1, 3][sf(Sf::Code, 4)]);
    out.push(format!("{f}{more}{}", ["", "", " ", "\t "][sf(Sf::Code, 4)]));
}

pub fn doc_lines(d: &Doc) -> Vec<String> {
    if d.style != 0 {
        SURFACE.set(Some((d.style >> 3, Rng::new(u64::from(d.style)))));
    }
    let mut l = vec![];
    print_blocks(&d.blocks, &mut l);
    SURFACE.set(None);
    for l in &mut l {
        if let Some(r) = l.strip_prefix(LAZY) {
            *l = r.to_string();
        }
    }
    l
}

pub fn doc_src(d: &Doc) -> String {
    let mut s = doc_lines(d).join("\n");
    s.push_str(d.tail);
    s
}

// ------------------------------------------------------------------ expected events

pub fn slug(text: &[In], used: &HashSet<String>) -> String {
    let mut id = String::new();
    let mut ws = true;
    slug_into(text, &mut id, &mut ws);
    let id = id.trim_end_matches('-').to_string();
    if !id.is_empty() && !used.contains(&id) {
        return id;
    }
    let base = if id.is_empty() { "s".to_string() } else { id };
    (1..)
        .map(|n| format!("{base}-{n}"))
        .find(|c| !used.contains(c))
        .unwrap()
}

fn slug_str(s: &str, id: &mut String, ws: &mut bool) {
    for c in s.chars() {
        if c.is_ascii_whitespace() {
            if !*ws {
                *ws = true;
                id.push('-');
            }
        } else if !c.is_ascii_punctuation() || matches!(c, '-' | '_') {
            id.push(c);
            *ws = false;
        }
    }
}

fn slug_into(v: &[In], id: &mut String, ws: &mut bool) {
    for i in v {
        match i {
            In::Text(s, _) => slug_str(s, id, ws),
            In::Word(s, _) | In::Auto(s, _) => slug_str(s, id, ws),
            In::Verb { s, .. } | In::Math { s, .. } | In::Raw { s, .. } => slug_str(s, id, ws),
            In::Sp | In::Blank(_) => slug_str(" ", id, ws),
            In::Run('-', 1) => slug_str("-", id, ws),
            In::Soft => slug_str(" ", id, ws),
            In::Apos => slug_str("ok", id, ws),
            In::Quote { c, .. } | In::Style { c, .. } | In::Span { c, .. } | In::Link { c, .. } => {
                slug_into(c, id, ws);
            }
            _ => {}
        }
    }
}

/// Heading ids in document order and the definitions references resolve to.
pub fn collect(v: &[Blk], used: &mut HashSet<String>, ids: &mut Vec<String>, d: &mut Defs) {
    for b in v {
        let flat: Vec<(String, String)> = b.at.iter().flat_map(|a| ats_norm(a)).collect();
        match &b.b {
            B::Heading { c, .. } => {
                let auto = slug(c, used);
                used.insert(auto.clone());
                let id = flat
                    .iter()
                    .rfind(|(k, _)| k == "#" || k == "id=")
                    .map_or(auto, |(_, v)| v.clone());
                let text = plain(c);
                if let Some(prev) = d.headings.get(&text) {
                    if *prev != id {
                        // more than one heading has this text; a reference to it is ambiguous
                        d.headings.insert(text.clone(), "\u{0}ambiguous".into());
                    }
                } else {
                    d.headings.insert(text, id.clone());
                }
                ids.push(id);
            }
            B::LinkDef { label, url } => {
                d.links.insert(label.clone(), (url.concat(), flat));
            }
            B::Quote(v) | B::Div { blocks: v, .. } | B::Footnote { blocks: v, .. } => {
                collect(v, used, ids, d);
            }
            B::List { items, .. } => {
                for i in items {
                    collect(&i.blocks, used, ids, d);
                }
            }
            B::Desc(items) => {
                for i in items {
                    collect(&i.2, used, ids, d);
                }
            }
            _ => {}
        }
    }
}

struct Ex<'d> {
    d: &'d Defs,
    ids: std::vec::IntoIter<String>,
}

pub fn expect_doc<'a>(doc: &'a Doc) -> Vec<N<'a>> {
    let mut d = Defs::default();
    let mut ids = vec![];
    collect(&doc.blocks, &mut HashSet::new(), &mut ids, &mut d);
    let mut ex = Ex { d: &d, ids: ids.into_iter() };
    let mut out = vec![N::Start(Container::Document, vec![])];
    let mut sections: Vec<(usize, String)> = vec![];
    for b in &doc.blocks {
        let at: Vec<(String, String)> = b.at.iter().flat_map(|a| ats_norm(a)).collect();
        if let B::Heading { level, c, .. } = &b.b {
            while sections.last().is_some_and(|(l, _)| l >= level) {
                let (_, id) = sections.pop().unwrap();
                out.push(N::End(Container::Section { id: id.into() }));
            }
            let id = ex.ids.next().unwrap();
            sections.push((*level, id.clone()));
            out.push(N::Start(Container::Section { id: id.clone().into() }, at));
            let h = Container::Heading { level: *level as u16, has_section: true, id: id.into() };
            out.push(N::Start(h.clone(), vec![]));
            expect_inlines(c, ex.d, &mut out);
            out.push(N::End(h));
        } else {
            ex.block(&b.b, at, &mut out);
        }
    }
    while let Some((_, id)) = sections.pop() {
        out.push(N::End(Container::Section { id: id.into() }));
    }
    out.push(N::End(Container::Document));
    out
}

impl Ex<'_> {
    fn blocks<'a>(&mut self, v: &'a [Blk], out: &mut Vec<N<'a>>) {
        for b in v {
            let at = b.at.iter().flat_map(|a| ats_norm(a)).collect();
            self.block(&b.b, at, out);
        }
    }

    fn leaf<'a>(
        &mut self,
        c: Container<'a>,
        at: Vec<(String, String)>,
        v: &'a [In],
        out: &mut Vec<N<'a>>,
    ) {
        out.push(N::Start(c.clone(), at));
        expect_inlines(v, self.d, out);
        out.push(N::End(c));
    }

    fn block<'a>(&mut self, b: &'a B, at: Vec<(String, String)>, out: &mut Vec<N<'a>>) {
        match b {
            B::Para(c) => self.leaf(Container::Paragraph, at, c, out),
            B::Heading { level, c, .. } => {
                let id = self.ids.next().unwrap();
                let h = Container::Heading { level: *level as u16, has_section: false, id: id.into() };
                self.leaf(h, at, c, out);
            }
            B::Quote(v) => {
                out.push(N::Start(Container::Blockquote, at));
                self.blocks(v, out);
                out.push(N::End(Container::Blockquote));
            }
            B::List { lk, tight, items } => {
                let kind = match *lk {
                    Lk::Bullet(c) => ListKind::Unordered(c.try_into().unwrap()),
                    Lk::Task(c) => ListKind::Task(c.try_into().unwrap()),
                    Lk::Ord(numbering, style, start) => ListKind::Ordered { numbering, style, start },
                };
                let c = Container::List { kind, tight: *tight };
                out.push(N::Start(c.clone(), at));
                for it in items {
                    let ic = if matches!(lk, Lk::Task(_)) {
                        Container::TaskListItem { checked: it.checked }
                    } else {
                        Container::ListItem
                    };
                    out.push(N::Start(ic.clone(), vec![]));
                    self.blocks(&it.blocks, out);
                    out.push(N::End(ic));
                }
                out.push(N::End(c));
            }
            B::Desc(items) => {
                out.push(N::Start(Container::DescriptionList, at));
                for (_, term, body) in items {
                    self.leaf(Container::DescriptionTerm, vec![], term, out);
                    out.push(N::Start(Container::DescriptionDetails, vec![]));
                    self.blocks(body, out);
                    out.push(N::End(Container::DescriptionDetails));
                }
                out.push(N::End(Container::DescriptionList));
            }
            B::Table { caption, rows } => {
                out.push(N::Start(Container::Table, at));
                if let Some((_, c)) = caption {
                    self.leaf(Container::Caption, vec![], c, out);
                }
                // a separator applies to the row before it (a header) and to all rows after it
                let mut cur: &[Alignment] = &[];
                for (i, r) in rows.iter().enumerate() {
                    match r {
                        Row::Sep(a) => cur = a,
                        Row::Cells(cells) => {
                            let mut head = false;
                            let mut al = cur;
                            for r in &rows[i + 1..] {
                                match r {
                                    Row::Sep(a) => {
                                        head = true;
                                        al = a;
                                    }
                                    Row::Cells(_) => break,
                                }
                            }
                            out.push(N::Start(Container::TableRow { head }, vec![]));
                            for (j, c) in cells.iter().enumerate() {
                                let alignment = al.get(j).copied().unwrap_or(Alignment::Unspecified);
                                self.leaf(Container::TableCell { alignment, head }, vec![], c, out);
                            }
                            out.push(N::End(Container::TableRow { head }));
                        }
                    }
                }
                out.push(N::End(Container::Table));
            }
            B::Div { class, blocks } => {
                let c = Container::Div { class: class.as_str().into() };
                out.push(N::Start(c.clone(), at));
                self.blocks(blocks, out);
                out.push(N::End(c));
            }
            B::Code { lang, lines, .. } => {
                let c = Container::CodeBlock { language: lang.as_str().into() };
                out.push(N::Start(c.clone(), at));
                for l in lines {
                    push_str(out, l);
                    push_str(out, "\n");
                }
                out.push(N::End(c));
            }
            B::Raw { format, lines } => {
                let c = Container::RawBlock { format: format.as_str().into() };
                out.push(N::Start(c.clone(), at));
                push_str(out, lines.join("\n").trim_end());
                out.push(N::End(c));
            }
            B::Hr(_) => out.push(N::Break(at)),
            B::Loose => out.push(N::Attrs(at)),
            B::LinkDef { label, url } => {
                let c = Container::LinkDefinition { label: label.as_str().into() };
                out.push(N::Start(c.clone(), at));
                for u in url {
                    push_str(out, u);
                }
                out.push(N::End(c));
            }
            B::Footnote { label, blocks } => {
                let c = Container::Footnote { label: label.as_str().into() };
                out.push(N::Start(c.clone(), at));
                self.blocks(blocks, out);
                out.push(N::End(c));
            }
        }
    }
}

/// Does the document refer to a heading text that several headings share?
pub fn ambiguous(out: &[N]) -> bool {
    out.iter().any(|n| match n {
        N::Start(Container::Link(u, _) | Container::Image(u, _), _) => u.contains('\u{0}'),
        _ => false,
    })
}
