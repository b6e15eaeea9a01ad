//! A strict tokenizer for the HTML the renderer may write, and an independent reference renderer
//! from events to the same tokens.
use jotdown::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum T {
    /// Start tag; self-closing or void ones have no end tag.
    Open(String, BTreeMap<String, String>),
    Close(String),
    Text(String),
}

pub fn void(tag: &str) -> bool {
    matches!(tag, "br" | "hr" | "img" | "input") || tag.starts_with("raw-")
}

pub fn push_text(v: &mut Vec<T>, s: &str) {
    if s.is_empty() {
        return;
    }
    if let Some(T::Text(p)) = v.last_mut() {
        p.push_str(s);
    } else {
        v.push(T::Text(s.to_string()));
    }
}

fn entity(s: &str, attr: bool) -> Option<(char, usize)> {
    for (e, c) in [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&nbsp;", '\u{a0}')] {
        if s.starts_with(e) {
            return Some((c, e.len()));
        }
    }
    (attr && s.starts_with("&quot;")).then_some(('"', 6))
}

/// Every byte must be accounted for; anything unescaped or unquoted is an error.
pub fn tokenize(s: &str) -> Result<Vec<T>, String> {
    let mut out = vec![];
    let mut i = 0;
    let near = |i: usize| {
        let mut b = (i + 40).min(s.len());
        while !s.is_char_boundary(b) {
            b += 1;
        }
        &s[i..b]
    };
    while let Some(c) = s[i..].chars().next() {
        match c {
            '<' => {
                let r = &s[i + 1..];
                let close = r.starts_with('/');
                let mut j = i + 1 + usize::from(close);
                let n = s[j..]
                    .bytes()
                    .take_while(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || *b == b'-')
                    .count();
                if n == 0 {
                    return Err(format!("'<' that starts no tag at {:?}", near(i)));
                }
                let name = s[j..j + n].to_string();
                j += n;
                if close {
                    if !s[j..].starts_with('>') {
                        return Err(format!("bad end tag at {:?}", near(i)));
                    }
                    out.push(T::Close(name));
                    i = j + 1;
                    continue;
                }
                let mut at = BTreeMap::new();
                loop {
                    let r = &s[j..];
                    if r.starts_with('>') {
                        j += 1;
                        break;
                    }
                    if r.starts_with("/>") && void(&name) {
                        j += 2;
                        break;
                    }
                    if !r.starts_with(' ') {
                        return Err(format!("bad tag at {:?}", near(i)));
                    }
                    j += 1;
                    let n = s[j..]
                        .bytes()
                        .take_while(|b| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b':'))
                        .count();
                    if n == 0 || !s[j + n..].starts_with("=\"") {
                        return Err(format!("bad attribute at {:?}", near(i)));
                    }
                    let key = s[j..j + n].to_string();
                    j += n + 2;
                    let mut val = String::new();
                    loop {
                        let Some(c) = s[j..].chars().next() else {
                            return Err(format!("unterminated attribute value at {:?}", near(i)));
                        };
                        match c {
                            '"' => break,
                            '<' | '>' => {
                                return Err(format!("unescaped {c:?} in an attribute at {:?}", near(i)))
                            }
                            '&' => match entity(&s[j..], true) {
                                Some((c, n)) => {
                                    val.push(c);
                                    j += n;
                                }
                                None => {
                                    return Err(format!("unescaped '&' in an attribute at {:?}", near(j)))
                                }
                            },
                            c => {
                                val.push(c);
                                j += c.len_utf8();
                            }
                        }
                    }
                    j += 1;
                    if at.insert(key.clone(), val).is_some() {
                        return Err(format!("attribute {key} occurs twice at {:?}", near(i)));
                    }
                }
                out.push(T::Open(name, at));
                i = j;
            }
            '>' => return Err(format!("unescaped '>' before {:?}", near(i))),
            '&' => match entity(&s[i..], false) {
                Some((c, n)) => {
                    push_text(&mut out, c.encode_utf8(&mut [0; 4]));
                    i += n;
                }
                None => return Err(format!("unescaped '&' at {:?}", near(i))),
            },
            c => {
                push_text(&mut out, c.encode_utf8(&mut [0; 4]));
                i += c.len_utf8();
            }
        }
    }
    Ok(out)
}

/// Replaces the content of raw HTML by one recognisable void tag per element; returns the contents.
pub fn mask_raw<'s>(ev: &[Event<'s>]) -> (Vec<Event<'s>>, Vec<String>) {
    let mut out = Vec::with_capacity(ev.len());
    let mut raws = vec![];
    let mut alt = 0;
    let mut raw: Option<String> = None;
    for e in ev {
        match e {
            Event::Start(Container::Image(..), _) => alt += 1,
            Event::End(Container::Image(..)) => alt -= 1,
            Event::Start(Container::RawBlock { format } | Container::RawInline { format }, _)
                if alt == 0 && format == "html" =>
            {
                raw = Some(String::new());
            }
            Event::End(Container::RawBlock { .. } | Container::RawInline { .. }) => {
                if let Some(r) = raw.take() {
                    out.push(Event::Str(format!("<raw-{}>", raws.len()).into()));
                    raws.push(r);
                }
            }
            Event::Str(s) => {
                if let Some(r) = &mut raw {
                    r.push_str(s);
                    continue;
                }
            }
            _ => {}
        }
        out.push(e.clone());
    }
    (out, raws)
}

type Notes<'e, 's> = HashMap<String, Vec<&'e Event<'s>>>;

/// Takes footnotes (also nested ones) out of the stream.
fn hoist<'e, 's>(ev: &'e [Event<'s>]) -> (Vec<&'e Event<'s>>, Notes<'e, 's>) {
    let mut main = vec![];
    let mut notes = HashMap::new();
    let mut open: Vec<(String, Vec<&Event>)> = vec![];
    for e in ev {
        match e {
            Event::Start(Container::Footnote { label }, _) => open.push((label.to_string(), vec![])),
            Event::End(Container::Footnote { .. }) => {
                let (l, v) = open.pop().expect("unbalanced footnote");
                notes.insert(l, v);
            }
            e => match open.last_mut() {
                Some((_, v)) => v.push(e),
                None => main.push(e),
            },
        }
    }
    (main, notes)
}

#[derive(Default)]
struct Ref {
    out: Vec<T>,
    tight: Vec<bool>,
    refs: Vec<String>,
    /// Collected text of the outermost open image.
    alt: Option<(usize, String)>,
    /// Some(is_html) inside raw content.
    raw: Option<bool>,
    link_def: bool,
}

pub fn attr_map(a: &Attributes) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in a.iter() {
        match k {
            AttributeKind::Comment => {}
            AttributeKind::Class => add_class(&mut m, &v.to_string()),
            AttributeKind::Id => {
                m.insert("id".into(), v.to_string());
            }
            AttributeKind::Pair { key } if key.as_ref() == "class" => add_class(&mut m, &v.to_string()),
            AttributeKind::Pair { key } => {
                m.insert(key.to_string(), v.to_string());
            }
        }
    }
    m
}

fn add_class(m: &mut BTreeMap<String, String>, c: &str) {
    let e = m.entry("class".into()).or_default();
    if !e.is_empty() && !c.is_empty() {
        e.push(' ');
    }
    e.push_str(c);
}

impl Ref {
    fn open(&mut self, tag: &str, m: BTreeMap<String, String>) {
        self.out.push(T::Open(tag.into(), m));
    }
    fn close(&mut self, tag: &str) {
        self.out.push(T::Close(tag.into()));
    }
    fn text(&mut self, s: &str) {
        if let Some((_, a)) = &mut self.alt {
            a.push_str(s);
        } else {
            push_text(&mut self.out, s);
        }
    }

    fn event(&mut self, e: &Event) {
        use Container::*;
        match e {
            Event::Start(LinkDefinition { .. }, _) => self.link_def = true,
            Event::End(LinkDefinition { .. }) => self.link_def = false,
            _ if self.link_def => {}
            Event::Start(Image(..), _) if self.alt.is_some() => {
                self.alt.as_mut().unwrap().0 += 1;
            }
            Event::Start(Image(..), at) => {
                self.alt = Some((1, String::new()));
                self.out.push(T::Open("img".into(), attr_map(at)));
            }
            Event::End(Image(src, _)) => {
                let (n, alt) = self.alt.take().expect("unbalanced image");
                if n > 1 {
                    self.alt = Some((n - 1, alt));
                } else if let Some(T::Open(_, m)) = self.out.last_mut() {
                    m.insert("alt".into(), alt);
                    if !src.is_empty() {
                        m.insert("src".into(), src.to_string());
                    }
                }
            }
            Event::Start(..) | Event::End(..) if self.alt.is_some() => {}
            Event::Start(c, at) => self.start(c, at),
            Event::End(c) => self.end(c),
            Event::Str(s) => match self.raw {
                None => self.text(s),
                Some(true) => {
                    let tag = s.trim_matches(|c| matches!(c, '<' | '>'));
                    self.open(tag, BTreeMap::new());
                }
                Some(false) => {}
            },
            Event::FootnoteReference(l) => {
                let n = self.refs.iter().position(|r| r.as_str() == l.as_ref());
                let n = n.unwrap_or_else(|| {
                    self.refs.push(l.to_string());
                    self.refs.len() - 1
                }) + 1;
                if self.alt.is_none() {
                    self.open(
                        "a",
                        map(&[
                            ("id", format!("fnref{n}")),
                            ("href", format!("#fn{n}")),
                            ("role", "doc-noteref".into()),
                        ]),
                    );
                    self.open("sup", BTreeMap::new());
                    self.text(&n.to_string());
                    self.close("sup");
                    self.close("a");
                }
            }
            Event::Symbol(s) => self.text(&format!(":{s}:")),
            Event::LeftSingleQuote => self.text("\u{2018}"),
            Event::RightSingleQuote => self.text("\u{2019}"),
            Event::LeftDoubleQuote => self.text("\u{201c}"),
            Event::RightDoubleQuote => self.text("\u{201d}"),
            Event::Ellipsis => self.text("\u{2026}"),
            Event::EnDash => self.text("\u{2013}"),
            Event::EmDash => self.text("\u{2014}"),
            Event::NonBreakingSpace => self.text("\u{a0}"),
            Event::Hardbreak if self.alt.is_none() => self.open("br", BTreeMap::new()),
            Event::Softbreak | Event::Hardbreak => self.text("\n"),
            Event::ThematicBreak(at) => self.open("hr", attr_map(at)),
            Event::Escape | Event::Blankline | Event::Attributes(..) => {}
        }
    }

    fn start(&mut self, c: &Container, at: &Attributes) {
        use Container::*;
        let mut m = attr_map(at);
        let tag = match c {
            Document | LinkDefinition { .. } => return,
            Footnote { .. } | Image(..) => unreachable!(),
            RawBlock { format } | RawInline { format } => {
                self.raw = Some(format == "html");
                return;
            }
            Paragraph => {
                if self.tight.last() == Some(&true) {
                    return;
                }
                "p"
            }
            List { kind, tight } => {
                self.tight.push(*tight);
                match kind {
                    ListKind::Unordered(_) => "ul",
                    ListKind::Task(_) => {
                        add_class(&mut m, "task-list");
                        "ul"
                    }
                    ListKind::Ordered { numbering, start, .. } => {
                        if *start > 1 {
                            m.insert("start".into(), start.to_string());
                        }
                        let ty = match numbering {
                            OrderedListNumbering::Decimal => None,
                            OrderedListNumbering::AlphaLower => Some("a"),
                            OrderedListNumbering::AlphaUpper => Some("A"),
                            OrderedListNumbering::RomanLower => Some("i"),
                            OrderedListNumbering::RomanUpper => Some("I"),
                        };
                        if let Some(t) = ty {
                            m.insert("type".into(), t.into());
                        }
                        "ol"
                    }
                }
            }
            Section { id } | Heading { id, has_section: false, .. } => {
                m.entry("id".into()).or_insert_with(|| id.to_string());
                return match c {
                    Heading { level, .. } => self.open(&format!("h{level}"), m),
                    _ => self.open("section", m),
                };
            }
            Heading { level, .. } => return self.open(&format!("h{level}"), m),
            Div { class } => {
                if !class.is_empty() {
                    add_class(&mut m, class);
                }
                "div"
            }
            TableCell { alignment, head } => {
                let a = match alignment {
                    Alignment::Unspecified => "",
                    Alignment::Left => "left",
                    Alignment::Center => "center",
                    Alignment::Right => "right",
                };
                if !a.is_empty() {
                    m.insert("style".into(), format!("text-align: {a};"));
                }
                if *head {
                    "th"
                } else {
                    "td"
                }
            }
            CodeBlock { language } => {
                self.open("pre", m);
                let mut m = BTreeMap::new();
                if !language.is_empty() {
                    m.insert("class".into(), format!("language-{language}"));
                }
                return self.open("code", m);
            }
            Math { display } => {
                add_class(&mut m, if *display { "math display" } else { "math inline" });
                self.open("span", m);
                return self.text(if *display { "\\[" } else { "\\(" });
            }
            TaskListItem { checked } => {
                self.open("li", m);
                let mut m = map(&[("disabled", String::new()), ("type", "checkbox".into())]);
                if *checked {
                    m.insert("checked".into(), String::new());
                }
                return self.open("input", m);
            }
            Link(dst, ty) => {
                match ty {
                    LinkType::Span(SpanLinkType::Unresolved) => {}
                    LinkType::Email => {
                        m.insert("href".into(), format!("mailto:{dst}"));
                    }
                    _ => {
                        m.insert("href".into(), dst.to_string());
                    }
                }
                "a"
            }
            c => simple(c),
        };
        self.open(tag, m);
    }

    fn end(&mut self, c: &Container) {
        use Container::*;
        let tag = match c {
            Document | LinkDefinition { .. } => return,
            Footnote { .. } | Image(..) => unreachable!(),
            RawBlock { .. } | RawInline { .. } => {
                self.raw = None;
                return;
            }
            Paragraph => {
                if self.tight.last() == Some(&true) {
                    return;
                }
                "p"
            }
            List { kind, .. } => {
                self.tight.pop();
                match kind {
                    ListKind::Ordered { .. } => "ol",
                    _ => "ul",
                }
            }
            Section { .. } => "section",
            Heading { level, .. } => return self.close(&format!("h{level}")),
            Div { .. } => "div",
            TableCell { head: true, .. } => "th",
            TableCell { head: false, .. } => "td",
            CodeBlock { .. } => {
                self.close("code");
                "pre"
            }
            Math { display } => {
                self.text(if *display { "\\]" } else { "\\)" });
                "span"
            }
            TaskListItem { .. } => "li",
            Link(..) => "a",
            c => simple(c),
        };
        self.close(tag);
    }
}

fn simple(c: &Container) -> &'static str {
    use Container::*;
    match c {
        Blockquote => "blockquote",
        ListItem => "li",
        DescriptionList => "dl",
        DescriptionTerm => "dt",
        DescriptionDetails => "dd",
        Table => "table",
        TableRow { .. } => "tr",
        Caption => "caption",
        Span => "span",
        Verbatim => "code",
        Subscript => "sub",
        Superscript => "sup",
        Insert => "ins",
        Delete => "del",
        Strong => "strong",
        Emphasis => "em",
        Mark => "mark",
        _ => unreachable!(),
    }
}

fn map(v: &[(&str, String)]) -> BTreeMap<String, String> {
    v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

/// The tokens of the minified HTML of a document (raw HTML masked by `mask_raw`).
pub fn reference(ev: &[Event]) -> Vec<T> {
    let (main, mut notes) = hoist(ev);
    let mut r = Ref::default();
    for e in main {
        r.event(e);
    }
    if !r.refs.is_empty() {
        r.open("section", map(&[("role", "doc-endnotes".into())]));
        r.open("hr", BTreeMap::new());
        r.open("ol", BTreeMap::new());
        let mut i = 0;
        while i < r.refs.len() {
            let n = i + 1;
            let label = r.refs[i].clone();
            i += 1;
            r.open("li", map(&[("id", format!("fn{n}"))]));
            let content = notes.remove(&label).unwrap_or_default();
            let last = content.iter().rfind(|e| !matches!(e, Event::Blankline | Event::Escape | Event::Attributes(_)));
            let in_para = matches!(last, Some(Event::End(Container::Paragraph)));
            for e in content {
                r.event(e);
            }
            if in_para {
                assert!(matches!(r.out.pop(), Some(T::Close(t)) if t == "p"));
            } else {
                r.open("p", BTreeMap::new());
            }
            r.open(
                "a",
                map(&[("href", format!("#fnref{n}")), ("role", "doc-backlink".into())]),
            );
            r.text("\u{21A9}\u{FE0E}");
            r.close("a");
            r.close("p");
            r.close("li");
        }
        r.close("ol");
        r.close("section");
    }
    r.out
}

/// Class lists compare by their words.
pub fn canon(v: &mut [T]) {
    for t in v {
        if let T::Open(_, m) = t {
            if let Some(c) = m.get_mut("class") {
                *c = c.split_whitespace().collect::<Vec<_>>().join(" ");
            }
        }
    }
}

pub fn diff(want: &[T], got: &[T]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    Some(format!(
        "HTML token {i}: expected {:?}, got {:?} (after {:?})",
        want.get(i),
        got.get(i),
        i.checked_sub(1).map(|j| &want[j])
    ))
}

/// Every start tag has its end tag, in order; elements occur only in parents that admit them.
pub fn balanced(v: &[T]) -> Result<usize, String> {
    let mut open: Vec<&str> = vec![];
    let mut n = 0;
    let mut row_seen: Vec<bool> = vec![];
    for t in v {
        match t {
            T::Open(tag, _) => {
                n += 1;
                let tag = tag.as_str();
                let parent = open.last().copied().unwrap_or("");
                let ok = match tag {
                    "li" => matches!(parent, "ul" | "ol"),
                    "dt" | "dd" => parent == "dl",
                    "tr" => parent == "table",
                    "caption" => parent == "table" && row_seen.last() == Some(&false),
                    "td" | "th" => parent == "tr",
                    "p" | "pre" | "ul" | "ol" | "dl" | "table" | "blockquote" | "div" | "section"
                    | "hr" => {
                        // block elements never inside text-level or paragraph-like ones
                        matches!(parent, "" | "li" | "dd" | "blockquote" | "div" | "section")
                    }
                    t if heading(t) => matches!(parent, "" | "li" | "dd" | "blockquote" | "div" | "section"),
                    _ => !matches!(parent, "ul" | "ol" | "dl" | "table" | "tr") || tag.starts_with("raw-"),
                };
                if !ok {
                    return Err(format!("<{tag}> directly inside <{parent}>"));
                }
                if tag == "tr" {
                    if let Some(r) = row_seen.last_mut() {
                        *r = true;
                    }
                }
                if tag == "table" {
                    row_seen.push(false);
                }
                if !void(tag) {
                    open.push(tag);
                }
            }
            T::Close(tag) => {
                let Some(o) = open.pop() else {
                    return Err(format!("</{tag}> closes nothing"));
                };
                if o != tag {
                    return Err(format!("</{tag}> where </{o}> is due"));
                }
                if tag == "table" {
                    row_seen.pop();
                }
            }
            T::Text(s) => {
                if let Some(p @ ("ul" | "ol" | "dl" | "table" | "tr")) = open.last().copied() {
                    if !s.trim().is_empty() {
                        return Err(format!("text {s:?} directly inside <{p}>"));
                    }
                }
            }
        }
    }
    if let Some(o) = open.last() {
        return Err(format!("<{o}> is never closed"));
    }
    Ok(n)
}

pub fn heading(t: &str) -> bool {
    t.len() > 1 && t.starts_with('h') && t[1..].bytes().all(|b| b.is_ascii_digit())
}
