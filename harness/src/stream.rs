//! Online monitors over the event stream of one document: nesting and content model (C02), source
//! spans (C03), event/source agreement (C04).
use crate::engine::{Check, Cx};
use crate::rng::mix;
use jotdown::*;
use std::ops::Range;

pub type Spanned<'s> = (Event<'s>, Range<usize>);

pub fn kind_no(e: &Event) -> u64 {
    use Container::*;
    fn c(c: &Container) -> u64 {
        match c {
            Document => 0,
            Blockquote => 1,
            List { kind, tight } => match kind {
                ListKind::Unordered(_) => 2 + u64::from(*tight),
                ListKind::Ordered { numbering, style, .. } => {
                    100 + *numbering as u64 * 8 + *style as u64 * 2 + u64::from(*tight)
                }
                ListKind::Task(_) => 4 + u64::from(*tight),
            },
            ListItem => 6,
            TaskListItem { checked } => 7 + u64::from(*checked),
            DescriptionList => 9,
            DescriptionDetails => 10,
            Footnote { .. } => 11,
            Table => 12,
            TableRow { head } => 13 + u64::from(*head),
            Section { .. } => 15,
            Div { class } => 16 + u64::from(class.is_empty()),
            Paragraph => 18,
            Heading { level, has_section, .. } => {
                200 + u64::from((*level).min(7)) * 2 + u64::from(*has_section)
            }
            TableCell { alignment, head } => 20 + *alignment as u64 * 2 + u64::from(*head),
            Caption => 30,
            DescriptionTerm => 31,
            LinkDefinition { .. } => 32,
            RawBlock { .. } => 33,
            CodeBlock { language } => 34 + u64::from(language.is_empty()),
            Span => 36,
            Link(_, ty) => match ty {
                LinkType::Span(s) => 37 + *s as u64,
                LinkType::AutoLink => 40,
                LinkType::Email => 41,
            },
            Image(_, s) => 42 + *s as u64,
            Verbatim => 46,
            Math { display } => 47 + u64::from(*display),
            RawInline { .. } => 49,
            Subscript => 50,
            Superscript => 51,
            Insert => 52,
            Delete => 53,
            Strong => 54,
            Emphasis => 55,
            Mark => 56,
        }
    }
    match e {
        Event::Start(k, a) => 1000 + c(k) * 2 + u64::from(a.is_empty()),
        Event::End(k) => 2000 + c(k),
        Event::Str(_) => 1,
        Event::FootnoteReference(_) => 2,
        Event::Symbol(_) => 3,
        Event::LeftSingleQuote => 4,
        Event::RightSingleQuote => 5,
        Event::LeftDoubleQuote => 6,
        Event::RightDoubleQuote => 7,
        Event::Ellipsis => 8,
        Event::EnDash => 9,
        Event::EmDash => 10,
        Event::NonBreakingSpace => 11,
        Event::Softbreak => 12,
        Event::Hardbreak => 13,
        Event::Escape => 14,
        Event::Blankline => 15,
        Event::ThematicBreak(_) => 16,
        Event::Attributes(_) => 17,
    }
}

/// Signature of the shape of an event stream; also feeds event bigrams back to the generator.
pub fn shape<'a, 's: 'a>(events: impl Iterator<Item = &'a Event<'s>>, cx: &mut Cx) -> (u64, u64) {
    let mut h = 7;
    let mut n = 0;
    let mut prev = 0;
    for e in events {
        let k = kind_no(e);
        h = mix(h, k);
        cx.feature(mix(prev, k));
        prev = k;
        n += 1;
    }
    (h, n)
}

fn is_leaf_block(c: &Container) -> bool {
    matches!(
        c,
        Container::Paragraph
            | Container::Heading { .. }
            | Container::TableCell { .. }
            | Container::Caption
            | Container::DescriptionTerm
    )
}

fn is_literal(c: &Container) -> bool {
    matches!(
        c,
        Container::CodeBlock { .. }
            | Container::RawBlock { .. }
            | Container::LinkDefinition { .. }
            | Container::Verbatim
            | Container::Math { .. }
            | Container::RawInline { .. }
    )
}

fn is_inline(c: &Container) -> bool {
    use Container::*;
    matches!(
        c,
        Span | Link(..)
            | Image(..)
            | Verbatim
            | Math { .. }
            | RawInline { .. }
            | Subscript
            | Superscript
            | Insert
            | Delete
            | Strong
            | Emphasis
            | Mark
    )
}

fn is_flow(c: &Container) -> bool {
    matches!(
        c,
        Container::Document
            | Container::Section { .. }
            | Container::Blockquote
            | Container::Div { .. }
            | Container::ListItem
            | Container::TaskListItem { .. }
            | Container::DescriptionDetails
            | Container::Footnote { .. }
    )
}

struct Open<'s> {
    c: Container<'s>,
    children: usize,
    /// Section: a heading has been seen. DescriptionList: the last child was a term. Table: a row
    /// has been seen.
    flag: bool,
}

/// C02: one document at the outside, balanced, and every parent admits each child.
pub fn nesting<'s>(events: &[Event<'s>]) -> Check {
    let mut stack: Vec<Open<'s>> = Vec::new();
    let mut closed = false;
    for (i, e) in events.iter().enumerate() {
        let err = |m: String| Err(format!("event {i} {e:?}: {m}"));
        if closed {
            return err("event after the end of the document".into());
        }
        if i == 0 && !matches!(e, Event::Start(Container::Document, _)) {
            return err("stream does not start with the document".into());
        }
        let level_of = |st: &[Open]| {
            st.iter()
                .rev()
                .filter(|o| matches!(o.c, Container::Section { .. }))
                .count()
        };
        match e {
            Event::Start(c, attrs) => {
                if let Some(p) = stack.last_mut() {
                    let first = p.children == 0;
                    p.children += 1;
                    use Container::*;
                    let ok = match c {
                        Document => false,
                        ListItem => {
                            matches!(&p.c, List { kind, .. } if !matches!(kind, ListKind::Task(_)))
                        }
                        TaskListItem { .. } => {
                            matches!(&p.c, List { kind: ListKind::Task(_), .. })
                        }
                        DescriptionTerm => {
                            let ok = matches!(p.c, DescriptionList) && !p.flag;
                            p.flag = true;
                            ok
                        }
                        DescriptionDetails => {
                            let ok = matches!(p.c, DescriptionList) && p.flag;
                            p.flag = false;
                            ok
                        }
                        Caption => matches!(p.c, Table) && first,
                        TableRow { .. } => matches!(p.c, Table),
                        TableCell { head, .. } => {
                            matches!(&p.c, TableRow { head: h } if h == head)
                        }
                        Section { .. } => matches!(p.c, Document | Section { .. }),
                        Heading { has_section: true, id, .. } => {
                            let ok = match &p.c {
                                Section { id: sid } => first && !p.flag && sid == id,
                                _ => false,
                            };
                            p.flag = true;
                            ok
                        }
                        Heading { has_section: false, .. } => {
                            is_flow(&p.c) && !matches!(p.c, Document | Section { .. })
                        }
                        Blockquote | List { .. } | DescriptionList | Footnote { .. } | Table
                        | Div { .. } | Paragraph | LinkDefinition { .. } | RawBlock { .. }
                        | CodeBlock { .. } => is_flow(&p.c),
                        Span | Link(..) | Image(..) | Verbatim | Math { .. } | RawInline { .. }
                        | Subscript | Superscript | Insert | Delete | Strong | Emphasis | Mark => {
                            (is_leaf_block(&p.c) || is_inline(&p.c)) && !is_literal(&p.c)
                        }
                    };
                    if !ok {
                        return err(format!("not allowed inside {:?} (child {})", p.c, p.children));
                    }
                    if let Heading { level, has_section: true, .. } = c {
                        // a section nested in a section belongs to a deeper heading
                        let n = level_of(&stack);
                        if usize::from(*level) < n {
                            return err(format!("level {level} heading in {n} nested sections"));
                        }
                    }
                } else if !matches!(c, Container::Document) || !attrs.is_empty() {
                    return err("outermost container is not a plain document".into());
                }
                if c.is_block() != (!is_inline(c) && !matches!(c, Container::Document)) {
                    return err("is_block() disagrees with the content model".into());
                }
                if c.is_block_container()
                    != ((is_flow(c) && !matches!(c, Container::Document))
                        || matches!(
                            c,
                            Container::List { .. }
                                | Container::DescriptionList
                                | Container::Table
                                | Container::TableRow { .. }
                        ))
                {
                    return err("is_block_container() disagrees with the content model".into());
                }
                stack.push(Open {
                    c: c.clone(),
                    children: 0,
                    flag: false,
                });
            }
            Event::End(c) => match stack.pop() {
                Some(o) => {
                    if o.c != *c {
                        return err(format!("closes {:?}", o.c));
                    }
                    use Container::*;
                    let ok = match &o.c {
                        Section { .. } => o.flag,
                        List { .. } => o.children > 0,
                        DescriptionList => o.children > 0 && !o.flag,
                        Link(_, LinkType::AutoLink | LinkType::Email) => o.children == 1,
                        _ => true,
                    };
                    if !ok {
                        return err("container is incomplete".into());
                    }
                    closed = stack.is_empty();
                }
                None => return err("nothing to close".into()),
            },
            Event::Blankline | Event::ThematicBreak(_) => {
                let p = stack.last_mut().unwrap();
                p.children += 1;
                let blank_ok = matches!(p.c, Container::DescriptionList)
                    && matches!(e, Event::Blankline);
                if !is_flow(&p.c) && !blank_ok {
                    return err(format!("block event inside {:?}", p.c));
                }
                if matches!(p.c, Container::Section { .. }) && !p.flag {
                    return err("section does not start with its heading".into());
                }
            }
            Event::Attributes(a) => {
                let p = stack.last_mut().unwrap();
                if a.is_empty() && !is_flow(&p.c) {
                    return err("empty inline attributes event".into());
                }
                if !(is_flow(&p.c) || is_leaf_block(&p.c) || is_inline(&p.c)) || is_literal(&p.c) {
                    return err(format!("attributes event inside {:?}", p.c));
                }
            }
            Event::Str(s) => {
                let p = stack.last_mut().unwrap();
                p.children += 1;
                if is_flow(&p.c) || !(is_leaf_block(&p.c) || is_literal(&p.c) || is_inline(&p.c)) {
                    return err(format!("text inside {:?}", p.c));
                }
                if s.is_empty() {
                    return err("empty text event".into());
                }
                if let Container::Link(u, LinkType::AutoLink | LinkType::Email) = &p.c {
                    if u != s {
                        return err(format!("autolink text differs from {u:?}"));
                    }
                }
            }
            Event::FootnoteReference(_)
            | Event::Symbol(_)
            | Event::LeftSingleQuote
            | Event::RightSingleQuote
            | Event::LeftDoubleQuote
            | Event::RightDoubleQuote
            | Event::Ellipsis
            | Event::EnDash
            | Event::EmDash
            | Event::NonBreakingSpace
            | Event::Softbreak
            | Event::Hardbreak
            | Event::Escape => {
                let p = stack.last_mut().unwrap();
                p.children += 1;
                if !(is_leaf_block(&p.c) || is_inline(&p.c)) || is_literal(&p.c) {
                    return err(format!("inline event inside {:?}", p.c));
                }
                if matches!(
                    p.c,
                    Container::Link(_, LinkType::AutoLink | LinkType::Email)
                ) {
                    return err("inline event inside an autolink".into());
                }
            }
        }
    }
    if !closed {
        return Err(format!("document not closed; {} containers open", stack.len()));
    }
    // headings: a nested section's heading is strictly deeper than its parent's
    let mut levels: Vec<Option<u16>> = Vec::new();
    for e in events {
        match e {
            Event::Start(Container::Section { .. }, _) => levels.push(None),
            Event::End(Container::Section { .. }) => {
                levels.pop();
            }
            Event::Start(Container::Heading { level, has_section: true, .. }, _) => {
                if let Some(l) = levels.last_mut() {
                    *l = Some(*level);
                }
                let n = levels.len();
                if n >= 2 && levels[n - 2] >= levels[n - 1] {
                    return Err(format!("section of a level {level} heading nested in {levels:?}"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// C03: bounds, character boundaries, order, and nothing but layout between the ranges.
pub fn spans(src: &str, ev: &[Spanned], cx: &mut Cx) -> Check {
    let mut last = 0;
    let mut in_caption = false;
    let mut saw_caption = false;
    let mut covered = vec![false; src.len()];
    for (i, (e, sp)) in ev.iter().enumerate() {
        let err = |m: String| Err(format!("event {i} {e:?} at {sp:?}: {m}"));
        if sp.start > sp.end || sp.end > src.len() {
            return err(format!("range out of bounds (length {})", src.len()));
        }
        if !src.is_char_boundary(sp.start) || !src.is_char_boundary(sp.end) {
            return err("range splits a character".into());
        }
        if matches!(e, Event::Start(Container::Caption, _)) {
            in_caption = true;
            saw_caption = true;
        }
        if !in_caption {
            if sp.start < last {
                return err(format!("range starts before the end {last} of an earlier one"));
            }
            last = sp.end;
        }
        for (b, c) in covered[sp.clone()].iter_mut().enumerate() {
            if *c {
                return err(format!("byte {} is in two ranges", sp.start + b));
            }
            *c = true;
        }
        if matches!(e, Event::End(Container::Caption)) {
            in_caption = false;
        }
    }
    let _ = saw_caption;
    gaps(src, ev, &covered, cx)
}

/// Bytes in no range: whitespace, `>` of block quotes, `^` of captions, empty attribute lists and
/// comments, and the separator rows of tables. Content is never among them.
fn gaps(src: &str, ev: &[Spanned], covered: &[bool], cx: &mut Cx) -> Check {
    let table = ev
        .iter()
        .any(|(e, _)| matches!(e, Event::Start(Container::Table, _)));
    let heading = ev
        .iter()
        .any(|(e, _)| matches!(e, Event::Start(Container::Heading { .. }, _)));
    let mut i = 0;
    let b = src.as_bytes();
    while i < b.len() {
        if covered[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && !covered[i] {
            i += 1;
        }
        let Some(gap) = src.get(s..i) else {
            return Err(format!("gap {s}..{i} splits a character"));
        };
        cx.count("gaps", 1);
        let mut rest = gap;
        while let Some(c) = rest.chars().next() {
            if heading && continuation(rest, i == b.len()) > 0 && line_start(src, i - rest.len()) {
                rest = &rest[continuation(rest, i == b.len())..];
            } else if c.is_ascii_whitespace() || c == '>' || c == '\u{b}' {
                rest = &rest[c.len_utf8()..];
            } else if table && matches!(c, '|' | '-' | ':' | '^') {
                rest = &rest[1..];
            } else if c == '{' {
                match comment_len(rest) {
                    Some(n) => rest = &rest[n..],
                    None => return Err(format!("{gap:?} at {s} belongs to no event")),
                }
            } else {
                return Err(format!("{gap:?} at {s} belongs to no event"));
            }
        }
    }
    Ok(())
}

/// Length of a heading marker repeated at the start of a continuation line.
fn continuation(s: &str, end: bool) -> usize {
    let n = s.len() - s.trim_start_matches('#').len();
    if n > 0 && (s[n..].starts_with(ws) || (end && s.len() == n)) {
        n
    } else {
        0
    }
}

/// Only layout between the start of the line and the position.
fn line_start(src: &str, pos: usize) -> bool {
    let l = src[..pos].rfind('\n').map_or(0, |p| p + 1);
    src[l..pos].chars().all(|c| ws(c) || c == '>')
}

/// Length of an attribute list without attributes, `{ }`.
fn comment_len(s: &str) -> Option<usize> {
    let end = s.find('}')?;
    s[1..end]
        .chars()
        .all(|c| c.is_ascii_whitespace() || matches!(c, '>' | '#'))
        .then_some(end + 1)
}

fn ws(c: char) -> bool {
    c.is_ascii_whitespace()
}

/// C04: the source behind each event is the markup of that event.
pub fn agreement(src: &str, ev: &[Spanned], cx: &mut Cx) -> Check {
    for (i, (e, sp)) in ev.iter().enumerate() {
        let Some(t) = src.get(sp.clone()) else {
            return Err(format!("event {i} {e:?}: bad range {sp:?}"));
        };
        agree(e, t).map_err(|m| format!("event {i} {e:?} with source {t:?}: {m}"))?;
        cx.count("events_compared", 1);
    }
    Ok(())
}

/// Strips attribute lists in front of a block start.
/// The elements of attributes are written in the text, in their order.
fn elements_in(t: &str, attrs: &Attributes) -> Check {
    let mut at = 0;
    for (k, v) in attrs {
        let name = match k {
            AttributeKind::Class | AttributeKind::Id => v.to_string(),
            AttributeKind::Pair { key } => key.to_string(),
            AttributeKind::Comment => continue,
        };
        match t[at..].find(&name) {
            Some(i) => at += i + name.len(),
            None => return Err(format!("attribute {name:?} is not written in it")),
        }
    }
    Ok(())
}

fn after_attrs<'a>(t: &'a str, attrs: &Attributes) -> Result<&'a str, String> {
    if attrs.is_empty() && !t.starts_with('{') {
        return Ok(t);
    }
    if !t.starts_with('{') {
        return Err("attributes, but no attribute list in front".into());
    }
    let Some(p) = t.rfind('}') else {
        return Err("attribute list is not closed".into());
    };
    elements_in(t, attrs)?;
    Ok(t[p + 1..].trim_start_matches(|c: char| ws(c) || c == '>'))
}

fn agree(e: &Event, t: &str) -> Check {
    let expect = |ok: bool, what: &str| {
        if ok {
            Ok(())
        } else {
            Err(format!("expected {what}"))
        }
    };
    let attr_tail = |t: &str, close: &str| -> bool {
        t.strip_prefix(close)
            .is_some_and(|r| r.is_empty() || (r.starts_with('{') && r.ends_with('}')))
    };
    match e {
        Event::Str(s) => {
            expect(s == t, "the text itself")?;
            expect(matches!(s, std::borrow::Cow::Borrowed(_)), "borrowed text")
        }
        Event::FootnoteReference(l) => expect(t == format!("[^{l}]"), "[^label]"),
        Event::Symbol(s) => expect(t == format!(":{s}:"), ":symbol:"),
        Event::LeftSingleQuote => expect(matches!(t, "'" | "{'"), "'"),
        Event::RightSingleQuote => expect(matches!(t, "'" | "'}" | "{'"), "'"),
        Event::LeftDoubleQuote => expect(matches!(t, "\"" | "{\""), "\""),
        Event::RightDoubleQuote => expect(matches!(t, "\"" | "\"}" | "{\""), "\""),
        Event::Ellipsis => expect(t == "...", "..."),
        Event::EnDash => expect(t == "--", "--"),
        Event::EmDash => expect(t == "---", "---"),
        Event::NonBreakingSpace => expect(t == " ", "a space"),
        Event::Softbreak => expect(t == "\n", "a newline"),
        Event::Hardbreak => expect(
            t.ends_with('\n') && t[..t.len() - 1].chars().all(|c| c == ' ' || c == '\t'),
            "blanks and a newline",
        ),
        Event::Escape => expect(t == "\\", "\\"),
        Event::Blankline => expect(t.chars().all(ws), "blanks"),
        Event::ThematicBreak(a) => {
            let r = after_attrs(t, a)?;
            expect(
                r.chars().all(|c| ws(c) || c == '-' || c == '*')
                    && r.chars().filter(|c| !ws(*c)).count() >= 3,
                "three - or *",
            )
        }
        Event::Attributes(a) => {
            elements_in(t, a)?;
            let t = t.trim_end_matches(ws);
            expect(t.starts_with('{') && t.ends_with('}'), "an attribute list")
        }
        Event::Start(c, a) => {
            use Container::*;
            if c.is_block() && !a.is_empty() {
                expect(t.starts_with('{'), "leading attributes")?;
            }
            match c {
                Document => expect(t.is_empty(), "nothing"),
                List { .. } | DescriptionList | Table | Section { .. } | Paragraph
                | TableCell { .. } | Caption => expect(
                    after_attrs(t, a)?.is_empty(),
                    "nothing but attributes",
                ),
                Blockquote => expect(
                    t == ">" || (t.starts_with('{') && t.ends_with('>') && after_attrs(t, a)? == ""),
                    ">",
                ),
                ListItem => {
                    let m = after_attrs(t, a)?;
                    expect(
                        matches!(m, "-" | "*" | "+")
                            || (m.len() >= 2
                                && (m.ends_with('.') || m.ends_with(')'))
                                && m.trim_start_matches('(')[..]
                                    .trim_end_matches(['.', ')'])
                                    .chars()
                                    .all(|c| c.is_ascii_alphanumeric())),
                        "a list marker",
                    )
                }
                TaskListItem { checked } => {
                    let m = after_attrs(t, a)?;
                    expect(
                        m.len() == 5
                            && m.is_ascii()
                            && matches!(&m[..1], "-" | "*" | "+")
                            && (&m[1..] == " [ ]" && !*checked
                                || (&m[1..] == " [x]" || &m[1..] == " [X]") && *checked),
                        "a task marker of the same state",
                    )
                }
                DescriptionDetails => expect(matches!(after_attrs(t, a)?, "" | ":"), ": or nothing"),
                DescriptionTerm => expect(matches!(after_attrs(t, a)?, "" | ":"), ": or nothing"),
                Footnote { label } => expect(definition(t, &format!("[^{label}]:")), "[^label]:"),
                LinkDefinition { label } => {
                    expect(definition(t, &format!("[{label}]:")), "[label]:")
                }
                TableRow { .. } => expect(t == "|", "|"),
                Div { class } => {
                    let m = after_fence(t, a)?;
                    let r = m.trim_start_matches(':');
                    expect(
                        m.len() - r.len() >= 3 && r.trim_matches(ws) == class,
                        "a div fence with its class",
                    )
                }
                CodeBlock { language } => {
                    let m = after_fence(t, a)?;
                    let r = m.trim_start_matches(m.chars().next().unwrap_or('`'));
                    expect(
                        m.len() - r.len() >= 3 && r.trim_matches(ws) == language,
                        "a code fence with its language",
                    )
                }
                RawBlock { format } => {
                    let m = after_fence(t, a)?;
                    let r = m.trim_start_matches(m.chars().next().unwrap_or('`'));
                    expect(
                        m.len() - r.len() >= 3 && r.trim_matches(ws) == format!("={format}"),
                        "a code fence with its format",
                    )
                }
                Heading { level, .. } => expect(
                    after_attrs(t, a)? == "#".repeat((*level).into()),
                    "as many # as its level",
                ),
                Span => expect(matches!(t, "" | "["), "[ or nothing"),
                Link(_, LinkType::AutoLink | LinkType::Email) => expect(t == "<", "<"),
                Link(..) => expect(t == "[", "["),
                Image(..) => expect(t == "![", "!["),
                Verbatim | RawInline { .. } => expect(
                    !t.is_empty()
                        && t.trim_start_matches('$').chars().all(|c| c == '`')
                        && (matches!(c, RawInline { .. }) || !t.starts_with('$')),
                    "backticks",
                ),
                Math { display } => {
                    let p = if *display { "$$`" } else { "$`" };
                    expect(
                        t.starts_with(p) && t.trim_start_matches('$').chars().all(|c| c == '`'),
                        "math delimiter",
                    )
                }
                Subscript => expect(matches!(t, "~" | "{~"), "~"),
                Superscript => expect(matches!(t, "^" | "{^"), "^"),
                Insert => expect(t == "{+", "{+"),
                Delete => expect(t == "{-", "{-"),
                Strong => expect(matches!(t, "*" | "{*"), "*"),
                Emphasis => expect(matches!(t, "_" | "{_"), "_"),
                Mark => expect(t == "{=", "{="),
            }
        }
        Event::End(c) => {
            use Container::*;
            match c {
                Document | List { .. } | DescriptionList | DescriptionDetails | ListItem
                | TaskListItem { .. } | Section { .. } | Paragraph | Heading { .. } | Blockquote
                | Footnote { .. } | LinkDefinition { .. } | Table | TableRow { .. } | Caption
                | DescriptionTerm => expect(t.is_empty(), "nothing"),
                TableCell { .. } => expect(t == "|", "|"),
                Div { .. } => expect(
                    t.is_empty()
                        || (t.trim_matches(ws).chars().all(|c| c == ':')
                            && t.trim_matches(ws).len() >= 3),
                    "a div fence",
                ),
                CodeBlock { .. } | RawBlock { .. } => {
                    let m = t.trim_matches(ws);
                    expect(
                        t.is_empty()
                            || ((m.chars().all(|c| c == '`') || m.chars().all(|c| c == '~'))
                                && m.len() >= 3),
                        "a code fence",
                    )
                }
                Span => expect(
                    attr_tail(t, "]") || (t.starts_with('{') && t.ends_with('}')),
                    "] or attributes",
                ),
                Link(_, LinkType::AutoLink | LinkType::Email) => expect(attr_tail(t, ">"), ">"),
                Link(u, LinkType::Span(SpanLinkType::Inline)) | Image(u, SpanLinkType::Inline) => {
                    expect(
                        t.starts_with("](") && (t.ends_with(')') || t.ends_with('}')),
                        "](url)",
                    )?;
                    if !t.contains('\n') {
                        return expect(t[2..].starts_with(&format!("{u})")), "](url)");
                    }
                    // prefixes of lines aside
                    let solid = |s: &str| s.replace(|c: char| ws(c) || c == '>' || c == '#', "");
                    expect(solid(&t[2..]).starts_with(&format!("{})", solid(u))), "](url)")
                }
                Link(..) | Image(..) => expect(
                    t.starts_with("][") && (t.ends_with(']') || t.ends_with('}')),
                    "][label]",
                ),
                Verbatim | Math { .. } => {
                    let r = t.trim_start_matches('`');
                    expect(
                        r.is_empty() || (r.starts_with('{') && r.ends_with('}')),
                        "backticks",
                    )
                }
                RawInline { format } => {
                    let r = t.trim_start_matches('`');
                    expect(r == format!("{{={format}}}"), "backticks and the format")
                }
                Subscript => expect(attr_tail(t, "~") || attr_tail(t, "~}"), "~"),
                Superscript => expect(attr_tail(t, "^") || attr_tail(t, "^}"), "^"),
                Insert => expect(attr_tail(t, "+}"), "+}"),
                Delete => expect(attr_tail(t, "-}"), "-}"),
                Strong => expect(attr_tail(t, "*") || attr_tail(t, "*}"), "*"),
                Emphasis => expect(attr_tail(t, "_") || attr_tail(t, "_}"), "_"),
                Mark => expect(attr_tail(t, "=}"), "=}"),
            }
        }
    }
}

/// Nothing but attribute lists and layout in front of the definition's marker.
fn definition(t: &str, marker: &str) -> bool {
    t.strip_suffix(marker).is_some_and(|p| {
        let p = p.trim_matches(|c: char| ws(c) || c == '>');
        p.is_empty() || (p.starts_with('{') && p.ends_with('}'))
    })
}

fn after_fence<'a>(t: &'a str, a: &Attributes) -> Result<&'a str, String> {
    if a.is_empty() && !t.starts_with('{') {
        return Ok(t);
    }
    // the fence is the last line
    let u = t.trim_end_matches(ws);
    let l = u.rfind('\n').map_or(0, |p| p + 1);
    Ok(t[l..].trim_start_matches(|c: char| ws(c) || c == '>'))
}
