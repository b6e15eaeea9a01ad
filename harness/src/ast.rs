//! Constructive specification of the syntax: random document trees, a printer that writes each tree
//! as unambiguous djot source, and the event stream that source has to produce.
use crate::rng::Tape;
use jotdown::*;
use std::collections::HashMap;

// ------------------------------------------------------------------ normalised events

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum N<'a> {
    Start(Container<'a>, Vec<(String, String)>),
    End(Container<'a>),
    Str(String),
    Foot(String),
    Sym(String),
    Break(Vec<(String, String)>),
    Attrs(Vec<(String, String)>),
    Atom(&'static str),
}

pub fn attrs_of(a: &Attributes) -> Vec<(String, String)> {
    a.iter()
        .map(|(k, v)| {
            let k = match k {
                AttributeKind::Class => ".".to_string(),
                AttributeKind::Id => "#".to_string(),
                AttributeKind::Pair { key } => format!("{key}="),
                AttributeKind::Comment => "%".to_string(),
            };
            (k, v.to_string())
        })
        .collect()
}

/// Events with adjacent text merged; blank lines and escape markers carry no content.
pub fn normalise<'a>(ev: &[Event<'a>]) -> Vec<N<'a>> {
    let mut out: Vec<N> = Vec::with_capacity(ev.len());
    for e in ev {
        let n = match e {
            Event::Start(c, a) => N::Start(c.clone(), attrs_of(a)),
            Event::End(c) => N::End(c.clone()),
            Event::Str(s) => {
                if let Some(N::Str(p)) = out.last_mut() {
                    p.push_str(s);
                    continue;
                }
                N::Str(s.to_string())
            }
            Event::FootnoteReference(l) => N::Foot(l.to_string()),
            Event::Symbol(s) => N::Sym(s.to_string()),
            Event::LeftSingleQuote => N::Atom("lsq"),
            Event::RightSingleQuote => N::Atom("rsq"),
            Event::LeftDoubleQuote => N::Atom("ldq"),
            Event::RightDoubleQuote => N::Atom("rdq"),
            Event::Ellipsis => N::Atom("ellipsis"),
            Event::EnDash => N::Atom("en"),
            Event::EmDash => N::Atom("em"),
            Event::NonBreakingSpace => N::Atom("nbsp"),
            Event::Softbreak => N::Atom("soft"),
            Event::Hardbreak => N::Atom("hard"),
            Event::Escape | Event::Blankline => continue,
            Event::ThematicBreak(a) => N::Break(attrs_of(a)),
            Event::Attributes(a) => N::Attrs(attrs_of(a)),
        };
        out.push(n);
    }
    out
}

pub fn diff(want: &[N], got: &[N]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    Some(format!(
        "event {i}: expected {:?}, got {:?} (after {:?})",
        want.get(i),
        got.get(i),
        i.checked_sub(1).map(|j| &want[j])
    ))
}

// ------------------------------------------------------------------ attributes

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ak {
    Class,
    Id,
    Pair(String),
    Comment,
    /// Not an attribute but what is written between attributes (see `v`).
    Gap,
}

#[derive(Debug, Clone)]
pub struct At {
    pub k: Ak,
    pub v: String,
    pub quoted: bool,
}

pub type Ats = Vec<At>;

pub fn ats_norm(a: &[At]) -> Vec<(String, String)> {
    a.iter()
        .filter(|a| a.k != Ak::Gap)
        .map(|a| {
            let k = match &a.k {
                Ak::Class => ".".to_string(),
                Ak::Id => "#".to_string(),
                Ak::Pair(k) => format!("{k}="),
                Ak::Comment | Ak::Gap => "%".to_string(),
            };
            // a line break in a value counts as a space
            (k, a.v.replace('\n', " "))
        })
        .collect()
}

pub fn at_src(a: &At) -> String {
    match &a.k {
        Ak::Class => format!(".{}", a.v),
        Ak::Id => format!("#{}", a.v),
        Ak::Comment => format!("%{}%", a.v),
        Ak::Gap => a.v.clone(),
        Ak::Pair(k) => {
            if a.quoted {
                let mut s = format!("{k}=\"");
                for c in a.v.chars() {
                    if matches!(c, '"' | '\\') {
                        s.push('\\');
                    }
                    s.push(c);
                }
                s.push('"');
                s
            } else {
                format!("{k}={}", a.v)
            }
        }
    }
}

pub fn ats_src(a: &[At]) -> String {
    if a.is_empty() {
        return String::new();
    }
    let v: Vec<String> = a.iter().map(at_src).collect();
    format!("{{{}}}", v.join(" "))
}

const NAMES: &[&str] = &["a", "b", "c", "kl", "x-1", "n_2", "ns:k", "class9", "Q", "0", "-", "_z"];
const KEYS: &[&str] = &["k", "key", "data-x", "a", "lang", "K9", "x:y", "p_"];
const QVALS: &[&str] = &[
    "v w", "v", "", "a\"b", "a\\b", "é 日", "x < y & z > 0", "{b}", "it's", "p=q", "#h .c", "\\", "a  b",
    "|", "`t`", "]", "%c%", "\"",
];

pub fn gen_at(t: &mut Tape, comment: bool) -> At {
    match t.weighted(&[4, 2, 3, 3, usize::from(comment)]) {
        0 => At { k: Ak::Class, v: t.pick(NAMES).to_string(), quoted: false },
        1 => At { k: Ak::Id, v: t.pick(NAMES).to_string(), quoted: false },
        2 => At {
            k: Ak::Pair(t.pick(KEYS).to_string()),
            v: t.pick(NAMES).to_string(),
            quoted: false,
        },
        3 => At {
            k: Ak::Pair(t.pick(KEYS).to_string()),
            v: t.pick(QVALS).to_string(),
            quoted: true,
        },
        _ => At {
            k: Ak::Comment,
            v: t.pick(&["c", " note ", "x y", "a=b", ""]).to_string(),
            quoted: false,
        },
    }
}

/// Now and then a name that is as long as a number in the code under test.
pub fn long_name(t: &mut Tape, s: String) -> String {
    if t.chance(1, 40) {
        let n = *t.pick(&crate::dict::get().numbers);
        s.repeat(1 + n.min(600) / s.len())
    } else {
        s
    }
}

pub fn gen_ats(t: &mut Tape, comment: bool) -> Ats {
    let n = 1 + t.weighted(&[5, 3, 1, 1]);
    let n = t.many(n);
    (0..n).map(|_| gen_at(t, comment)).collect()
}

// ------------------------------------------------------------------ inline

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum St {
    Emph,
    Strong,
    Sup,
    Sub,
    Mark,
    Ins,
    Del,
}

const STYLES: &[St] = &[St::Emph, St::Strong, St::Sup, St::Sub, St::Mark, St::Ins, St::Del];

impl St {
    pub fn ch(self) -> char {
        match self {
            St::Emph => '_',
            St::Strong => '*',
            St::Sup => '^',
            St::Sub => '~',
            St::Mark => '=',
            St::Ins => '+',
            St::Del => '-',
        }
    }
    pub fn bidi(self) -> bool {
        matches!(self, St::Emph | St::Strong | St::Sup | St::Sub)
    }
    pub fn container(self) -> Container<'static> {
        match self {
            St::Emph => Container::Emphasis,
            St::Strong => Container::Strong,
            St::Sup => Container::Superscript,
            St::Sub => Container::Subscript,
            St::Mark => Container::Mark,
            St::Ins => Container::Insert,
            St::Del => Container::Delete,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Dest {
    Url(String),
    /// `[t][label]`
    Ref(String),
    /// `[t][]`
    Short,
}

#[derive(Debug, Clone)]
pub enum In {
    /// Plain content and the way it is written.
    Text(String, String),
    Sp,
    /// White space other than a single space.
    Blank(&'static str),
    Soft,
    /// The blanks between the backslash and the line end.
    Hard(&'static str),
    Nbsp,
    Ellipsis,
    En,
    Em,
    Apos,
    /// A double quote between white space, which neither opens nor closes anything.
    LoneQuote,
    Quote { double: bool, brace: bool, c: Vec<In> },
    Style { st: St, brace: bool, c: Vec<In>, at: Ats },
    Span { c: Vec<In>, at: Ats },
    Word(String, Ats),
    Verb { s: String, ticks: usize, at: Ats },
    Math { display: bool, s: String, ticks: usize, at: Ats },
    Raw { format: String, s: String, ticks: usize },
    Link { c: Vec<In>, dest: Dest, image: bool, at: Ats },
    Auto(String, bool),
    Sym(String),
    Foot(String),
    /// A run of hyphens or of periods.
    Run(char, usize),
    /// Attributes where there is nothing they could belong to.
    Loose(Ats),
}

/// What the text of a document is made of.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Mixed,
    /// Arbitrary characters, with every punctuation character escaped.
    Hostile,
    /// Verbatim elements with arbitrary content.
    Literal,
    /// Runs of hyphens and periods, quotes.
    Smart,
    /// Only distinct words.
    Words,
}

#[derive(Debug, Clone)]
pub struct Cx<'c> {
    pub mode: Mode,
    pub depth: usize,
    pub bidi: Vec<St>,
    pub in_link: bool,
    pub squote: bool,
    pub dquote: bool,
    /// What opened the innermost container, if that is a style.
    pub delim: String,
    /// Directly after the opening of a double quote.
    pub after_dquote: bool,
    /// Directly after `[`.
    pub after_bracket: bool,
    /// Preceded by something other than white space or the start of the leaf.
    pub glued: bool,
    pub breaks: bool,
    pub foots: bool,
    pub refs: bool,
    pub verb: bool,
    /// Only words, no markup that could be mistaken at the edges of table cells.
    pub cell: bool,
    pub labels: &'c [String],
    pub foot_labels: &'c [String],
    pub budget: usize,
    /// Number of the next distinct word.
    pub next_word: usize,
}

impl Cx<'_> {
    fn word(&mut self) -> String {
        self.next_word += 1;
        format!("w{}q", self.next_word)
    }
}

impl Cx<'static> {
    pub fn new() -> Self {
        Cx {
            mode: Mode::Mixed,
            depth: 0,
            bidi: vec![],
            in_link: false,
            squote: false,
            dquote: false,
            delim: String::new(),
            after_dquote: false,
            after_bracket: false,
            glued: false,
            breaks: true,
            foots: true,
            refs: true,
            verb: true,
            cell: false,
            labels: &[],
            foot_labels: &[],
            budget: 40,
            next_word: 0,
        }
    }
}

pub const WORDS: &[&str] = &[
    "word", "a", "b", "xy", "Hello", "naïve", "日本", "😀x", "z9", "42", "B", "qu", "iv", "ﬀ", "e\u{301}",
    "ab cd", "one two", "A B C",
];
/// Text with markup characters; everything that could be markup is written escaped.
const HARD: &[&str] = &[
    "*", "_", "^", "~", "{", "}", "[", "]", "(", ")", "<", ">", "`", "\\", "'", "\"", "-", "--", ".", "...",
    ":", "!", "|", "$", "$$", "#", "+", "=", "&", "%", "@", "a*b", "_x_", "*y*", "[l](u)", "{.c}",
    "`code`", "<http://x>", "[^f]", ":sym:", "![i](j)", "a--b", "\\\\", "\\n", "{=m=}", "$`m`", "x|y",
    "1.", "a)", "C:\\dir", "&amp;", "<b>", "{", "](", "[]", "\"q\"", "it's", "^s^", "~s~",
];
const LOOSE_PUNCT: &[&str] = &[", ", "; ", "?", "/", "a,b", "a & b", "p @ q", "50%", "a > b", "a#b", "x?"];

const LONE: &[&str] = &[
    "~", "*", "_", "^", "=", "+", "<", ">", ":", "!", "$", ".", "-", "&", "(", ")", "|", "#", "%", "/", "@", ";", ",",
    "?", "..", "::", "$$", "!!", "==", "++", "=>", "<=", ":-", "1.", "a)", "<>", "()", "\"",
];

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_punctuation() {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

/// A character from a random class; never a line break or other ASCII white space.
fn hostile_char(t: &mut Tape) -> char {
    match t.weighted(&[4, 8, 2, 2, 1, 1]) {
        0 => *t.pick(&['a', 'B', 'i', 'x', '0', '7', 'v', 'z']),
        1 => *t.pick(&[
            '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>',
            '?', '@', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~',
        ]),
        2 => *t.pick(&['é', 'ß', '日', '本', 'Ω', 'я', 'ﬀ', 'İ', '😀', '🏳']),
        3 => *t.pick(&[
            '\u{301}', '\u{200d}', '\u{200b}', '\u{feff}', '\u{a0}', '\u{2028}', '\u{85}', '\u{2009}', '\u{ad}',
            '\u{fffd}', '\u{10ffff}', '\u{e000}', '\u{3000}', '“', '’', '–', '…',
        ]),
        4 => *t.pick(&['\u{0}', '\u{1}', '\u{b}', '\u{1b}', '\u{7f}', '\u{1f}']),
        _ => char::from_u32(0xa1 + (t.byte() as u32) * 97).unwrap_or('¿'),
    }
}

fn gen_hostile(t: &mut Tape) -> In {
    let n = 1 + t.below(9);
    let (mut plain, mut src) = (String::new(), String::new());
    for i in 0..n {
        let c = hostile_char(t);
        if c.is_ascii_punctuation() {
            src.push('\\');
        } else if !c.is_ascii() || c.is_ascii_alphanumeric() {
            // a backslash in front of anything else is itself
            if i + 1 < n && t.chance(1, 12) {
                plain.push('\\');
                src.push('\\');
            }
        }
        plain.push(c);
        src.push(c);
    }
    In::Text(plain, src)
}

fn gen_text(t: &mut Tape, cx: &mut Cx) -> In {
    match cx.mode {
        Mode::Hostile => return gen_hostile(t),
        Mode::Smart => {
            if !cx.cell && t.chance(2, 3) {
                let c = *t.pick(&['-', '.', '-']);
                let n = match t.below(8) {
                    0 => 1 + t.below(60),
                    1 => 1 + t.below(300),
                    _ => 1 + t.below(13),
                };
                return In::Run(c, n);
            }
            if !cx.cell && t.chance(1, 6) {
                // what is escaped is not part of a run next to it
                let (w, s) = *t.pick(&[(".", "\\."), ("-", "\\-"), ("a.", "a\\."), ("--", "\\-\\-"), ("..", "\\.\\.")]);
                return In::Text(w.into(), s.into());
            }
            let w = t.pick(&["word", "a", "x9", "日本", "A B"]).to_string();
            return In::Text(w.clone(), w);
        }
        Mode::Words => {
            let w = cx.word();
            return In::Text(w.clone(), w);
        }
        Mode::Mixed | Mode::Literal => {}
    }
    match t.weighted(&[8, 4, 2]) {
        0 => {
            let w = t.pick(WORDS).to_string();
            In::Text(w.clone(), w)
        }
        1 => {
            let w = t.pick(HARD).to_string();
            let e = escape(&w);
            In::Text(w, e)
        }
        _ => {
            let w = t.pick(LOOSE_PUNCT).trim().to_string();
            In::Text(w.clone(), w)
        }
    }
}

/// Content of a code line or of an inline verbatim element: anything but line breaks.
pub fn hostile_line(t: &mut Tape, max: usize) -> String {
    let n = t.below(max + 1);
    (0..n)
        .map(|_| if t.chance(1, 6) { *t.pick(&[' ', ' ', '\t', '`', '\\']) } else { hostile_char(t) })
        .collect()
}

fn gen_code_text(t: &mut Tape, cx: &Cx) -> String {
    let newline = cx.breaks;
    if cx.mode == Mode::Literal && t.chance(3, 4) {
        let mut s = String::new();
        let n = 1 + if newline { t.weighted(&[5, 2, 1, 1]) } else { 0 };
        for i in 0..if newline { t.many(n) } else { n } {
            let l = hostile_line(t, 12);
            let l = l.trim_matches(|c: char| c.is_ascii_whitespace());
            if i > 0 {
                s.push('\n');
            }
            s.push_str(if l.is_empty() { "x" } else { l });
        }
        return s;
    }
    const PARTS: &[&str] = &[
        "x", "code", "a b", "*", "_", "\\", "\\*", "{", "}", "[", "](u)", "<b>", "'", "\"", "...", "--",
        "$", "|", "é", "日", ":", "!", "^", "~", "=", "&", "&amp;", "  ", "\\n", "-->", "0",
    ];
    let n = 1 + t.weighted(&[4, 3, 2, 1]);
    let mut s = String::new();
    for i in 0..n {
        if newline && i > 0 && t.chance(1, 8) {
            while s.ends_with(' ') {
                s.pop();
            }
            if s.is_empty() {
                s.push('s');
            }
            s.push('\n');
            s.push_str(t.pick(&["x", "code", "yy"]));
            continue;
        }
        if t.chance(1, 8) {
            s.push_str(&"`".repeat(1 + t.below(3)));
        } else {
            s.push_str(t.pick(PARTS));
        }
    }
    let s = s.trim_matches(' ').to_string();
    if s.is_empty() {
        "x".into()
    } else {
        s
    }
}

fn runs(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut n = 0;
    for c in s.chars().chain(std::iter::once(' ')) {
        if c == '`' {
            n += 1;
        } else if n > 0 {
            v.push(n);
            n = 0;
        }
    }
    v
}

fn ticks_for(t: &mut Tape, s: &str) -> usize {
    let r = runs(s);
    let mut n = 1 + t.weighted(&[6, 3, 1]);
    n = t.many(n);
    while r.contains(&n) {
        n += 1;
    }
    n
}

pub fn verb_src(s: &str, ticks: usize) -> String {
    let t = "`".repeat(ticks);
    let a = if s.starts_with('`') { " " } else { "" };
    let b = if s.ends_with('`') { " " } else { "" };
    format!("{t}{a}{s}{b}{t}")
}

const URLS: &[&str] = &[
    "u", "http://a.b/c", "/p/q?r=s&t=u", "#frag", "x,y;z", "a%20b", "mailto:a@b.c", "é/日", "p/q+r", "0", "//h",
];

fn verb_like(i: &In) -> bool {
    matches!(i, In::Verb { .. } | In::Math { .. } | In::Raw { .. })
}

fn adj_ok(a: &In, b: &In) -> bool {
    let dash = |i: &In| matches!(i, In::En | In::Em | In::Run('-', _));
    let dots = |i: &In| matches!(i, In::Ellipsis | In::Run('.', _));
    if dots(a) && dots(b) {
        return false;
    }
    if matches!(b, In::Word(..)) || matches!(a, In::Word(..)) {
        return false;
    }
    if matches!(b, In::Quote { brace: false, double: false, .. }) || matches!(a, In::Quote { brace: false, double: false, .. }) {
        return false;
    }
    if verb_like(a) && (verb_like(b) || matches!(b, In::Style { st: St::Mark, .. })) {
        return false;
    }
    if dash(a) && dash(b) {
        return false;
    }
    true
}

/// A sequence of inline elements without white space at either end.
pub fn gen_inlines(t: &mut Tape, cx: &mut Cx) -> Vec<In> {
    let n = 1 + if cx.depth == 0 {
        t.weighted(&[3, 3, 3, 2, 2, 1, 1])
    } else {
        t.weighted(&[5, 3, 2, 1])
    };
    let n = t.many(n);
    let mut out: Vec<In> = Vec::new();
    let (after_bracket, glued, after_dquote) = (cx.after_bracket, cx.glued, cx.after_dquote);
    for i in 0..n {
        let mut sep = None;
        if i > 0 {
            let brk = usize::from(cx.breaks);
            sep = match t.weighted(&[12, 6, 4 * brk, 2 * brk, 2, 2]) {
                0 => Some(In::Sp),
                1 => None,
                2 => Some(In::Soft),
                3 => Some(In::Hard(t.pick(&["", "", " ", "\t", "  ", " \t", "          ", "                 ", "\t                                \t"]))),
                4 => Some(In::Nbsp),
                _ => Some(In::Blank(t.pick(&["\t", "  ", " \t", "\t\t", "    ", "\u{c}", " \u{c}"]))),
            };
        }
        cx.after_bracket = after_bracket && i == 0;
        cx.after_dquote = after_dquote && i == 0;
        cx.glued = if i == 0 { glued } else { sep.is_none() || matches!(sep, Some(In::Nbsp)) };
        let x = gen_inline(t, cx);
        if let Some(prev) = out.last() {
            if sep.is_none() && !adj_ok(prev, &x) {
                sep = Some(In::Sp);
            }
        }
        if let Some(s) = sep {
            // a quote or attribute word needs plain white space around it
            let picky = |i: &In| {
                matches!(i, In::Word(..) | In::Quote { brace: false, .. })
            };
            if matches!(s, In::Nbsp) && (picky(&x) || out.last().is_some_and(picky)) {
                out.push(In::Sp);
            } else {
                let sp = matches!(s, In::Sp);
                if matches!(s, In::Soft) && t.chance(1, 8) {
                    // white space at the end of a line
                    out.push(if t.chance(1, 2) { In::Sp } else { In::Blank(t.pick(&["\t", "  ", " \t"])) });
                }
                out.push(s);
                if sp && matches!(cx.mode, Mode::Mixed | Mode::Smart) && t.chance(1, 8) {
                    // a character that only is markup next to something else
                    let c = if cx.mode == Mode::Smart { "\"" } else { *t.pick(LONE) };
                    if c != "|" || !cx.cell {
                        // next to white space of any kind
                        if t.chance(1, 4) {
                            out.pop();
                            out.push(In::Blank(t.pick(&["\t", "  ", " \t"])));
                        }
                        out.push(if c == "\"" { In::LoneQuote } else { In::Text(c.into(), c.into()) });
                        out.push(if t.chance(1, 4) { In::Blank(t.pick(&["\t", "  ", "\t "])) } else { In::Sp });
                    }
                }
            }
        }
        out.push(x);
    }
    cx.after_bracket = after_bracket;
    cx.glued = glued;
    out
}

fn nested(t: &mut Tape, cx: &mut Cx, f: impl FnOnce(&mut Cx)) -> Vec<In> {
    let mut c = cx.clone();
    c.depth += 1;
    c.after_bracket = false;
    c.after_dquote = false;
    c.delim = String::new();
    c.glued = true;
    f(&mut c);
    let mut v = gen_inlines(t, &mut c);
    if cx.mode == Mode::Mixed && t.chance(1, 12) {
        // opens something that the end of what is around it leaves open
        let w = *t.pick(&["*b", "_b", "^b", "~b", "{=b", "{+b", "{-b", "{*b", "{_b", "{^b", "{~b"]);
        if c.delim != "quote" && w.trim_end_matches('b') != c.delim {
            v.push(In::Sp);
            v.push(In::Text(w.into(), w.into()));
        }
    }
    cx.budget = c.budget;
    cx.next_word = c.next_word;
    v
}

fn maybe_ats(t: &mut Tape) -> Ats {
    if t.chance(1, 6) {
        gen_ats(t, true)
    } else {
        vec![]
    }
}

fn gen_inline(t: &mut Tape, cx: &mut Cx) -> In {
    if cx.budget == 0 || cx.depth > 5 || t.done() {
        return gen_text(t, cx);
    }
    cx.budget -= 1;
    loop {
        match t.weighted(match cx.mode {
            Mode::Mixed => &[10, 8, 3, 2, 3, 2, 1, 4, 2, 1, 2, 2, 2, 1],
            Mode::Hostile => &[12, 4, 2, 0, 0, 0, 0, 3, 1, 0, 0, 0, 0, 0],
            Mode::Literal => &[4, 3, 1, 0, 10, 6, 6, 2, 1, 0, 0, 0, 0, 0],
            Mode::Smart => &[16, 3, 2, 0, 2, 0, 0, 1, 6, 0, 0, 0, 3, 0],
            Mode::Words => &[16, 4, 2, 0, 0, 0, 0, 3, 2, 0, 0, 0, 0, 0],
        }) {
            1 => {
                let st = *t.pick(STYLES);
                let mut brace = !st.bidi() || t.chance(1, 3) || cx.bidi.contains(&st);
                if st == St::Sup && cx.after_bracket {
                    brace = true;
                }
                let c = nested(t, cx, |c| {
                    if !brace {
                        c.bidi.push(st);
                    }
                    c.delim = format!("{}{}", if brace { "{" } else { "" }, st.ch());
                });
                let at = maybe_ats(t);
                return In::Style { st, brace, c, at };
            }
            2 => {
                let c = nested(t, cx, |c| c.after_bracket = true);
                return In::Span { c, at: gen_ats(t, true) };
            }
            3 => {
                if cx.glued {
                    continue;
                }
                let w = t.pick(&["word", "w", "日本", "z9", "a.b", "x,y.z", "a\u{a0}b", "w\u{2003}x", "\u{3000}y", "z\u{85}"]).to_string();
                let w = long_name(t, w);
                return In::Word(w, gen_ats(t, true));
            }
            4 if cx.verb => {
                let s = gen_code_text(t, cx);
                let ticks = ticks_for(t, &s);
                return In::Verb { s, ticks, at: maybe_ats(t) };
            }
            5 if cx.verb => {
                let s = gen_code_text(t, cx);
                let ticks = ticks_for(t, &s);
                return In::Math { display: t.chance(1, 2), s, ticks, at: maybe_ats(t) };
            }
            6 if cx.verb => {
                let s = gen_code_text(t, cx);
                let ticks = ticks_for(t, &s);
                let format = t.pick(&["html", "tex", "x", "HTML", "é", "日本", "x-y", "html5", "a.b"]).to_string();
                let format = long_name(t, format);
                return In::Raw { format, s, ticks };
            }
            7 if !cx.in_link => {
                let image = t.chance(1, 3);
                let mut dest = match t.weighted(&[4, 2, 1]) {
                    1 if cx.refs => Dest::Ref(if cx.labels.is_empty() || t.chance(1, 4) {
                        t.pick(&["nolabel", "un defined", "X"]).to_string()
                    } else {
                        t.pick(cx.labels).clone()
                    }),
                    2 if cx.refs => Dest::Short,
                    _ => Dest::Url(if t.chance(1, 12) {
                        String::new()
                    } else if t.chance(1, 12) {
                        // begins with a word the code may know
                        let d = crate::dict::get();
                        let w = if d.words.is_empty() { "w".into() } else { t.pick(&d.words).clone() };
                        format!("{w}{}{}", t.pick(&["", ":", ":", "-"]), t.pick(if cx.dquote { &["&x", "&amp;", "x"] } else { &["\"x", "\"", "&x"] }))
                    } else {
                        t.pick(URLS).to_string()
                    }),
                };
                let c = if matches!(dest, Dest::Short) {
                    // the text is the label
                    if !cx.labels.is_empty() && t.chance(2, 3) {
                        let l = t.pick(cx.labels).clone();
                        vec![In::Text(l.clone(), l)]
                    } else {
                        vec![In::Text("no such".into(), "no such".into())]
                    }
                } else {
                    nested(t, cx, |c| {
                        c.in_link = !image || c.in_link;
                        c.after_bracket = !image;
                    })
                };
                if let Dest::Ref(l) = &mut dest {
                    if l.is_empty() {
                        *l = "r".into();
                    }
                }
                return In::Link { c, dest, image, at: maybe_ats(t) };
            }
            8 => {
                let double = t.chance(1, 2);
                if (double && cx.dquote) || (!double && cx.squote) {
                    continue;
                }
                // text in front makes a single quote an apostrophe
                let brace = (cx.glued && !double && !cx.after_dquote) || t.chance(1, 4);
                let c = nested(t, cx, |c| {
                    c.delim = "quote".into();
                    if double {
                        c.dquote = true;
                        c.after_dquote = true;
                    } else {
                        c.squote = true;
                    }
                });
                return In::Quote { double, brace, c };
            }
            9 => {
                return if t.chance(1, 4) {
                    In::Auto(t.pick(&["me@x.y", "a.b@c", "a/b@c", "@", "a:b@c.d", "mailto:x@y", "https://me@x.y/z?q#f", "a@b@c", "é@ü", "x@y,z@w", "a=b&c@d"]).to_string(), true)
                } else {
                    In::Auto(t.pick(&["http://x.y", "https://a/b_c*d?e=f&g", "x:y", ":", "tel:+1-2--3...", "a:`b`", "a:[b](c){.d}", "é:ü", "//x:80/~y^z", "a:\\b\\*"]).to_string(), false)
                }
            }
            10 => {
                let s = t.pick(&["sym", "+1", "a_b", "x-y", "9", "N"]).to_string();
                return In::Sym(long_name(t, s));
            },
            11 if cx.foots => {
                let l = if cx.foot_labels.is_empty() || t.chance(1, 4) {
                    t.pick(&["nofn", "n n", "9"]).to_string()
                } else {
                    t.pick(cx.foot_labels).clone()
                };
                return In::Foot(l);
            }
            12 => match t.below(4) {
                0 => return In::Ellipsis,
                1 if !cx.cell => return In::En,
                2 if !cx.cell => return In::Em,
                _ if !cx.squote => return In::Apos,
                _ => continue,
            },
            _ => return gen_text(t, cx),
        }
    }
}

/// The apostrophe is a character between two letters.
pub fn print_inlines(v: &[In], o: &mut String) {
    for i in v {
        print_inline(i, o);
    }
}

fn print_inline(i: &In, o: &mut String) {
    match i {
        In::Text(_, s) => o.push_str(s),
        In::Sp => o.push(' '),
        In::Blank(s) => o.push_str(s),
        In::Soft => o.push('\n'),
        In::Hard(s) => {
            o.push('\\');
            o.push_str(s);
            o.push('\n');
        }
        In::Nbsp => o.push_str("\\ "),
        In::Ellipsis => o.push_str("..."),
        In::En => o.push_str("--"),
        In::Em => o.push_str("---"),
        In::Apos => o.push_str("o'k"),
        In::LoneQuote => o.push('"'),
        In::Quote { double, brace, c } => {
            let q = if *double { '"' } else { '\'' };
            if *brace {
                o.push('{');
            }
            o.push(q);
            print_inlines(c, o);
            o.push(q);
            if *brace {
                o.push('}');
            }
        }
        In::Style { st, brace, c, at } => {
            if *brace {
                o.push('{');
            }
            o.push(st.ch());
            print_inlines(c, o);
            o.push(st.ch());
            if *brace {
                o.push('}');
            }
            o.push_str(&ats_src(at));
        }
        In::Span { c, at } => {
            o.push('[');
            print_inlines(c, o);
            o.push(']');
            o.push_str(&ats_src(at));
        }
        In::Word(w, at) => {
            o.push_str(w);
            o.push_str(&ats_src(at));
        }
        In::Verb { s, ticks, at } => {
            o.push_str(&verb_src(s, *ticks));
            o.push_str(&ats_src(at));
        }
        In::Math { display, s, ticks, at } => {
            o.push_str(if *display { "$$" } else { "$" });
            o.push_str(&verb_src(s, *ticks));
            o.push_str(&ats_src(at));
        }
        In::Raw { format, s, ticks } => {
            o.push_str(&verb_src(s, *ticks));
            o.push_str(&format!("{{={format}}}"));
        }
        In::Link { c, dest, image, at } => {
            if *image {
                o.push('!');
            }
            o.push('[');
            print_inlines(c, o);
            o.push(']');
            match dest {
                Dest::Url(u) => o.push_str(&format!("({u})")),
                Dest::Ref(l) => o.push_str(&format!("[{l}]")),
                Dest::Short => o.push_str("[]"),
            }
            o.push_str(&ats_src(at));
        }
        In::Run(c, n) => o.extend(std::iter::repeat_n(*c, *n)),
        In::Auto(u, _) => o.push_str(&format!("<{u}>")),
        In::Sym(s) => o.push_str(&format!(":{s}:")),
        In::Foot(l) => o.push_str(&format!("[^{l}]")),
        In::Loose(at) => o.push_str(&ats_src(at)),
    }
}

pub fn inline_src(v: &[In]) -> String {
    let mut s = String::new();
    print_inlines(v, &mut s);
    s
}

/// Everything link resolution needs to know about the document.
#[derive(Default, Clone)]
pub struct Defs {
    pub links: HashMap<String, (String, Vec<(String, String)>)>,
    pub headings: HashMap<String, String>,
}

pub fn push_str(out: &mut Vec<N>, s: &str) {
    if s.is_empty() {
        return;
    }
    if let Some(N::Str(p)) = out.last_mut() {
        p.push_str(s);
    } else {
        out.push(N::Str(s.to_string()));
    }
}

/// The text of inline content as seen by short reference labels and heading text.
pub fn plain(v: &[In]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            In::Text(p, _) => s.push_str(p),
            In::Sp => s.push(' '),
            In::Blank(b) => s.push_str(b),
            In::Soft | In::Hard(_) | In::Nbsp => s.push(' '),
            In::Quote { double, brace, c } => {
                let q = if *double { '"' } else { '\'' };
                let (a, z) = if *brace { ("{", "}") } else { ("", "") };
                s.push_str(&format!("{a}{q}{}{q}{z}", plain(c)));
            }
            In::Style { c, .. } | In::Span { c, .. } | In::Link { c, .. } => s.push_str(&plain(c)),
            In::Apos | In::LoneQuote | In::Ellipsis | In::En | In::Em | In::Run(..) | In::Sym(_) | In::Foot(_) => print_inline(i, &mut s),
            In::Word(w, _) => s.push_str(w),
            In::Verb { s: x, .. } | In::Math { s: x, .. } | In::Raw { s: x, .. } => s.push_str(x),
            In::Auto(u, _) => s.push_str(u),
            In::Loose(_) => {}
        }
    }
    s
}

pub fn expect_inlines<'a>(v: &'a [In], d: &Defs, out: &mut Vec<N<'a>>) {
    for i in v {
        expect_inline(i, d, out);
    }
}

fn wrap<'a>(
    c: Container<'a>,
    at: Vec<(String, String)>,
    inner: &'a [In],
    d: &Defs,
    out: &mut Vec<N<'a>>,
) {
    out.push(N::Start(c.clone(), at));
    expect_inlines(inner, d, out);
    out.push(N::End(c));
}

fn lit<'a>(c: Container<'a>, at: Vec<(String, String)>, s: &str, out: &mut Vec<N<'a>>) {
    out.push(N::Start(c.clone(), at));
    push_str(out, s);
    out.push(N::End(c));
}

fn expect_inline<'a>(i: &'a In, d: &Defs, out: &mut Vec<N<'a>>) {
    match i {
        In::Text(s, _) => push_str(out, s),
        In::Sp => push_str(out, " "),
        In::Blank(s) => push_str(out, s),
        In::Soft => out.push(N::Atom("soft")),
        In::Hard(_) => out.push(N::Atom("hard")),
        In::Nbsp => out.push(N::Atom("nbsp")),
        In::Ellipsis => out.push(N::Atom("ellipsis")),
        In::LoneQuote => out.push(N::Atom("rdq")),
        In::En => out.push(N::Atom("en")),
        In::Em => out.push(N::Atom("em")),
        In::Apos => {
            push_str(out, "o");
            out.push(N::Atom("rsq"));
            push_str(out, "k");
        }
        In::Quote { double, c, .. } => {
            out.push(N::Atom(if *double { "ldq" } else { "lsq" }));
            expect_inlines(c, d, out);
            out.push(N::Atom(if *double { "rdq" } else { "rsq" }));
        }
        In::Style { st, c, at, .. } => wrap(st.container(), ats_norm(at), c, d, out),
        In::Span { c, at } => wrap(Container::Span, ats_norm(at), c, d, out),
        In::Word(w, at) => lit(Container::Span, ats_norm(at), w, out),
        In::Verb { s, at, .. } => lit(Container::Verbatim, ats_norm(at), s, out),
        In::Math { display, s, at, .. } => {
            lit(Container::Math { display: *display }, ats_norm(at), s, out);
        }
        In::Raw { format, s, .. } => lit(
            Container::RawInline { format: format.as_str().into() },
            vec![],
            s,
            out,
        ),
        In::Link { c, dest, image, at } => {
            let mut attrs = vec![];
            let (url, ty) = match dest {
                Dest::Url(u) => (u.clone(), SpanLinkType::Inline),
                Dest::Ref(_) | Dest::Short => {
                    let l = match dest {
                        Dest::Ref(l) => l.replace('\n', " "),
                        _ => plain(c),
                    };
                    if let Some((u, a)) = d.links.get(&l) {
                        attrs.extend(a.iter().cloned());
                        (u.clone(), SpanLinkType::Reference)
                    } else if let Some(id) = d.headings.get(&l) {
                        (format!("#{id}"), SpanLinkType::Reference)
                    } else {
                        (l, SpanLinkType::Unresolved)
                    }
                }
            };
            attrs.extend(ats_norm(at));
            let cont = if *image {
                Container::Image(url.into(), ty)
            } else {
                Container::Link(url.into(), LinkType::Span(ty))
            };
            wrap(cont, attrs, c, d, out);
        }
        In::Auto(u, email) => lit(
            Container::Link(
                u.as_str().into(),
                if *email { LinkType::Email } else { LinkType::AutoLink },
            ),
            vec![],
            u,
            out,
        ),
        In::Loose(at) => out.push(N::Attrs(ats_norm(at))),
        In::Run('-', 1) => push_str(out, "-"),
        In::Run('-', n) => {
            // as many em dashes as possible if they or en dashes alone do not suffice
            let (em, en) = if n % 3 == 0 {
                (n / 3, 0)
            } else if n % 2 == 0 {
                (0, n / 2)
            } else if n % 3 == 2 {
                ((n - 2) / 3, 1)
            } else {
                ((n - 4) / 3, 2)
            };
            out.extend(std::iter::repeat_n(N::Atom("em"), em));
            out.extend(std::iter::repeat_n(N::Atom("en"), en));
        }
        In::Run(_, n) => {
            out.extend(std::iter::repeat_n(N::Atom("ellipsis"), n / 3));
            push_str(out, &".".repeat(n % 3));
        }
        In::Sym(s) => out.push(N::Sym(s.clone())),
        In::Foot(l) => out.push(N::Foot(l.clone())),
    }
}

/// Would this line, met where a block can start, be taken for something other than a paragraph (or
/// could it disturb an enclosing fence)? Conservative.
pub fn unsafe_line(line: &str) -> bool {
    let l = line.trim_matches(|c: char| c.is_ascii_whitespace());
    let b = l.as_bytes();
    if b.is_empty() {
        return true;
    }
    let next_ws = b.len() == 1 || b[1].is_ascii_whitespace();
    match b[0] {
        b'#' | b'|' => true,
        b'>' | b'+' => next_ws,
        b'{' => b.len() < 2 || !b"_*^~=+-'\"".contains(&b[1]) || l.contains("=") && l.ends_with('}'),
        b'[' => l.find(']').is_some_and(|i| b.get(i + 1) == Some(&b':')),
        b'-' | b'*' => next_ws || b.iter().all(|c| matches!(c, b'-' | b'*' | b' ' | b'\t' | 0xc)),
        b':' => next_ws || l.starts_with(":::"),
        b'`' => l.starts_with("```"),
        b'~' => l.starts_with("~~~"),
        b'^' => next_ws,
        c if c == b'(' || c.is_ascii_alphanumeric() => {
            let s = usize::from(c == b'(');
            let n = b[s..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
            matches!(b.get(s + n), Some(b'.' | b')'))
                && b.get(s + n + 1).is_none_or(u8::is_ascii_whitespace)
        }
        _ => false,
    }
}

/// Make every line of leaf content unable to start another block: unsafe breaks become spaces, an
/// unsafe first line gets a leading word.
pub fn make_safe(v: &mut Vec<In>) {
    for _ in 0..40 {
        let s = inline_src(v);
        let bad: Vec<usize> = s
            .split('\n')
            .enumerate()
            .filter(|(_, l)| unsafe_line(l))
            .map(|(i, _)| i)
            .collect();
        match bad.first() {
            None => return,
            Some(0) => {
                v.insert(0, In::Sp);
                v.insert(0, In::Text("w".into(), "w".into()));
            }
            Some(n) => {
                let mut n = *n;
                if !drop_break(v, &mut n) {
                    return;
                }
            }
        }
    }
}

/// Replace the n-th line break (counted from 1) by a space.
fn drop_break(v: &mut [In], n: &mut usize) -> bool {
    for i in v.iter_mut() {
        match i {
            In::Soft | In::Hard(_) => {
                *n -= 1;
                if *n == 0 {
                    *i = In::Sp;
                    return true;
                }
            }
            In::Quote { c, .. } | In::Style { c, .. } | In::Span { c, .. } | In::Link { c, .. } => {
                if drop_break(c, n) {
                    return true;
                }
            }
            In::Verb { s, .. } | In::Math { s, .. } | In::Raw { s, .. } => {
                let k = s.matches('\n').count();
                if k >= *n {
                    *s = s.replace('\n', " ");
                    return true;
                }
                *n -= k;
            }
            _ => {}
        }
    }
    false
}
