//! Lists: which items belong together, how they are numbered, and whether they are tight.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_ast::{compare, Docs};
use crate::rng::Tape;
use jotdown::*;
use OrderedListNumbering::*;

/// A list marker as written.
#[derive(Debug, Clone, PartialEq)]
enum Mk {
    Bullet(u8),
    Task(u8, bool),
    Desc,
    Dec(u64, OrderedListStyle),
    /// A single letter.
    Letter(char, OrderedListStyle),
    /// A roman numeral of several digits.
    Roman(u64, bool, OrderedListStyle),
}

const STYLES: [OrderedListStyle; 3] =
    [OrderedListStyle::Period, OrderedListStyle::Paren, OrderedListStyle::ParenParen];

fn gen_marker(t: &mut Tape, prev: Option<&Mk>) -> Mk {
    // usually something that could continue the previous item
    if let Some(p) = prev {
        if t.chance(3, 4) {
            match *p {
                Mk::Bullet(_) | Mk::Desc => return p.clone(),
                Mk::Task(c, _) => return Mk::Task(c, t.chance(1, 2)),
                Mk::Dec(n, s) => return Mk::Dec(if t.chance(2, 3) { n + 1 } else { t.below(40) as u64 }, s),
                Mk::Letter(c, s) => {
                    let up = c.is_ascii_uppercase();
                    let l = c.to_ascii_lowercase();
                    let l = match t.below(6) {
                        0 => *t.pick(&['i', 'v', 'x', 'l', 'c', 'd', 'm']),
                        1 => char::from(b'a' + t.below(26) as u8),
                        2 => l,
                        _ => char::from(b'a' + (l as u8 - b'a' + 1) % 26),
                    };
                    if t.chance(1, 8) {
                        return Mk::Roman(2 + t.below(30) as u64, up, s);
                    }
                    return Mk::Letter(if up { l.to_ascii_uppercase() } else { l }, s);
                }
                Mk::Roman(n, up, s) => {
                    return match t.below(5) {
                        0 => Mk::Letter(
                            if up { *t.pick(&['I', 'V', 'X', 'L', 'C']) } else { *t.pick(&['i', 'v', 'x', 'd', 'm']) },
                            s,
                        ),
                        1 => Mk::Roman(1 + t.below(4000) as u64, up, s),
                        _ => Mk::Roman(n + 1, up, s),
                    }
                }
            }
        }
    }
    let style = *t.pick(&STYLES);
    match t.below(7) {
        0 => Mk::Bullet(*t.pick(b"-*+")),
        1 => Mk::Task(*t.pick(b"-*+"), t.chance(1, 2)),
        2 => Mk::Desc,
        3 => Mk::Dec(
            match t.below(5) {
                0 => 9_999_999_999_999_999_90 + t.below(9) as u64,
                1 => t.below(4000) as u64,
                _ => t.below(12) as u64,
            },
            style,
        ),
        4 => Mk::Letter(*t.pick(&['i', 'v', 'x', 'l', 'c', 'd', 'm', 'I', 'V', 'X', 'L', 'C', 'D', 'M']), style),
        5 => {
            let c = char::from(b'a' + t.below(26) as u8);
            Mk::Letter(if t.chance(1, 2) { c } else { c.to_ascii_uppercase() }, style)
        }
        _ => Mk::Roman(2 + t.below(60) as u64, t.chance(1, 2), style),
    }
}

fn fix(m: Mk) -> Mk {
    match m {
        // single digits are letters, long numerals are not recognised
        Mk::Roman(n, up, s) => {
            let r = roman(n, up);
            if r.len() == 1 {
                Mk::Letter(r.chars().next().unwrap(), s)
            } else if r.len() > 13 {
                Mk::Roman(2, up, s)
            } else {
                Mk::Roman(n, up, s)
            }
        }
        m => m,
    }
}

fn written(m: &Mk) -> String {
    let style = |n: String, s: &OrderedListStyle| match s {
        OrderedListStyle::Period => format!("{n}."),
        OrderedListStyle::Paren => format!("{n})"),
        OrderedListStyle::ParenParen => format!("({n})"),
    };
    match m {
        Mk::Bullet(c) => char::from(*c).to_string(),
        Mk::Task(c, x) => format!("{} [{}]", char::from(*c), if *x { 'x' } else { ' ' }),
        Mk::Desc => ":".into(),
        Mk::Dec(n, s) => style(n.to_string(), s),
        Mk::Letter(c, s) => style(c.to_string(), s),
        Mk::Roman(n, up, s) => style(roman(*n, *up), s),
    }
}

fn roman_value(c: char) -> Option<u64> {
    "ivxlcdm".find(c.to_ascii_lowercase()).map(|i| [1, 5, 10, 50, 100, 500, 1000][i])
}

fn letter_value(c: char) -> u64 {
    u64::from(c.to_ascii_lowercase() as u8 - b'a') + 1
}

/// The list an item opens when it does not continue one.
fn opens(m: &Mk) -> Option<Lk> {
    Some(match *m {
        Mk::Bullet(c) => Lk::Bullet(c),
        Mk::Task(c, _) => Lk::Task(c),
        Mk::Desc => return None,
        Mk::Dec(n, s) => Lk::Ord(Decimal, s, n),
        Mk::Letter(c, s) => {
            let up = c.is_ascii_uppercase();
            match roman_value(c) {
                Some(v) => Lk::Ord(if up { RomanUpper } else { RomanLower }, s, v),
                None => Lk::Ord(if up { AlphaUpper } else { AlphaLower }, s, letter_value(c)),
            }
        }
        Mk::Roman(n, up, s) => Lk::Ord(if up { RomanUpper } else { RomanLower }, s, n),
    })
}

/// The numbering of list `lk` (whose items so far are `items`) if `m` continues it.
fn continues(lk: &Lk, items: &[Mk], m: &Mk) -> Option<Lk> {
    let same = |up: bool, c: char| up == c.is_ascii_uppercase();
    match (*lk, m) {
        (Lk::Bullet(a), Mk::Bullet(b)) => (a == *b).then_some(*lk),
        (Lk::Task(a), Mk::Task(b, _)) => (a == *b).then_some(*lk),
        (Lk::Ord(Decimal, s, _), Mk::Dec(_, r)) => (s == *r).then_some(*lk),
        (Lk::Ord(n @ (RomanLower | RomanUpper), s, _), Mk::Roman(_, up, r)) => {
            (s == *r && *up == (n == RomanUpper)).then_some(*lk)
        }
        (Lk::Ord(n @ (RomanLower | RomanUpper), s, _), Mk::Letter(c, r)) => {
            let up = n == RomanUpper;
            if s != *r || !same(up, *c) {
                None
            } else if roman_value(*c).is_some() {
                Some(*lk)
            } else {
                // read as letters if every item so far may be a letter and this is the next one
                let letters: Option<Vec<char>> = items
                    .iter()
                    .map(|m| if let Mk::Letter(c, _) = m { Some(*c) } else { None })
                    .collect();
                let letters = letters?;
                let last = *letters.last()?;
                (letter_value(last) + 1 == letter_value(*c)).then_some(Lk::Ord(
                    if up { AlphaUpper } else { AlphaLower },
                    s,
                    letter_value(letters[0]),
                ))
            }
        }
        (Lk::Ord(n @ (AlphaLower | AlphaUpper), s, _), Mk::Letter(c, r)) => {
            if s != *r || !same(n == AlphaUpper, *c) {
                return None;
            }
            let Some(Mk::Letter(last, _)) = items.last() else { return None };
            // a letter that is also a roman digit has to be the next one
            (roman_value(*c).is_none() || letter_value(*last) + 1 == letter_value(*c)).then_some(*lk)
        }
        _ => None,
    }
}

struct Case {
    src: String,
    doc: Doc,
    lists: usize,
}

/// Write blocks inside up to two other containers.
pub fn wrap_containers(t: &mut Tape, lines: Vec<String>, blocks: Vec<Blk>) -> (Vec<String>, Vec<Blk>) {
    let wrap = |first: &str, rest: &str, lines: Vec<String>| -> Vec<String> {
        lines
            .into_iter()
            .enumerate()
            .map(|(i, l)| if i == 0 { format!("{first}{l}") } else { format!("{rest}{l}") })
            .collect()
    };
    let (mut blocks, mut lines) = (blocks, lines);
    let n = t.weighted(&[4, 2, 1]);
    for i in 0..t.many(n) {
        match t.below(5) {
            0 => {
                lines = wrap("> ", "> ", lines);
                blocks = vec![Blk { gap: 0, at: vec![], b: B::Quote(blocks) }];
            }
            1 => {
                let f = ":".repeat(3 + 2 * max_fence(&blocks));
                lines.insert(0, f.clone());
                lines.push(f);
                blocks = vec![Blk { gap: 0, at: vec![], b: B::Div { class: String::new(), blocks } }];
            }
            2 => {
                let label = if i == 0 { "f".to_string() } else { format!("f{i}") };
                let marker = format!("[^{label}]: ");
                lines = wrap(&marker, &" ".repeat(marker.len()), lines);
                blocks = vec![Blk { gap: 0, at: vec![], b: B::Footnote { label, blocks } }];
            }
            3 => {
                // after a paragraph in an item; the outer list is not compared for tightness
                lines = wrap("", "   ", lines);
                lines.insert(0, String::new());
                lines.insert(0, ": term".into());
                lines[2].insert_str(0, "   ");
                blocks = vec![Blk {
                    gap: 0,
                    at: vec![],
                    b: B::Desc(vec![(0, vec![In::Text("term".into(), "term".into())], blocks)]),
                }];
            }
            _ => {
                // between two headings
                lines.insert(0, String::new());
                lines.insert(0, "# head".into());
                lines.push(String::new());
                lines.push("# tail".into());
                let h = |s: &str| Blk {
                    gap: 0,
                    at: vec![],
                    b: B::Heading { level: 1, c: vec![In::Text(s.into(), s.into())], repeat: false },
                };
                blocks.insert(0, h("head"));
                blocks.push(h("tail"));
                break;
            }
        }
    }
    (lines, blocks)
}

fn case(t: &[u8]) -> Case {
    let mut t = Tape::new(t);
    let n = 1 + t.below(9);
    let n = t.many(n);
    let mut groups: Vec<(Option<Lk>, Vec<Mk>, Vec<Item>)> = vec![];
    let mut desc: Vec<Vec<(usize, Vec<In>, Vec<Blk>)>> = vec![];
    let mut lines: Vec<String> = vec![];
    let mut prev: Option<Mk> = None;
    let mut order: Vec<(bool, usize)> = vec![];
    let blanks = t.chance(1, 3);
    // markers further right would be part of the item before
    let mut lead = if t.chance(1, 3) { 3 } else { 0 };
    for i in 0..n {
        let m = fix(gen_marker(&mut t, prev.as_ref()));
        let gap = if i > 0 && blanks && t.chance(1, 3) { 1 + t.below(2) } else { 0 };
        for _ in 0..gap {
            lines.push(if t.chance(1, 4) { "  ".into() } else { String::new() });
        }
        let word = format!("w{i}");
        // the marker may be indented, and the text may be further away
        lead = lead.min(t.below(4));
        let lead = " ".repeat(lead);
        let pad = if t.chance(1, 6) { " ".repeat(2 + t.below(3)) } else { " ".into() };
        lines.push(format!("{lead}{}{pad}{word}", written(&m)));
        // more text of the same item, indented or not
        let mut text = vec![In::Text(word.clone(), word.clone())];
        if t.chance(1, 6) {
            lines.push(format!("{}more", " ".repeat(t.below(5))));
            text.push(In::Soft);
            text.push(In::Text("more".into(), "more".into()));
        }
        let checked = matches!(m, Mk::Task(_, true));
        if let Some(lk) = opens(&m) {
            let item = |gap| Item { checked, num: 0, gap, blocks: vec![Blk { gap: 0, at: vec![], b: B::Para(text) }] };
            let cont = match (order.last(), groups.last()) {
                (Some((false, _)), Some((Some(cur), items, _))) => continues(cur, items, &m),
                _ => None,
            };
            if let Some(lk) = cont {
                let g = groups.last_mut().unwrap();
                g.0 = Some(lk);
                g.1.push(m.clone());
                g.2.push(item(gap));
            } else {
                order.push((false, groups.len()));
                groups.push((Some(lk), vec![m.clone()], vec![item(0)]));
            }
        } else {
            if !matches!(order.last(), Some((true, _))) {
                order.push((true, desc.len()));
                desc.push(vec![]);
            }
            desc.last_mut().unwrap().push((gap, text, vec![]));
        }
        prev = Some(m);
    }
    let lists = order.len();
    let blocks: Vec<Blk> = order
        .into_iter()
        .map(|(d, i)| {
            let b = if d {
                B::Desc(desc[i].clone())
            } else {
                let (lk, _, items) = groups[i].clone();
                let tight = items.iter().all(|i| i.gap == 0);
                B::List { lk: lk.unwrap(), tight, items }
            };
            Blk { gap: 0, at: vec![], b }
        })
        .collect();
    let (lines, blocks) = wrap_containers(&mut t, lines, blocks);
    Case {
        src: lines.join("\n") + "\n",
        doc: Doc { blocks, tail: "", labels: vec![], foots: vec![], style: 0 },
        lists,
    }
}

pub struct Lists {
    pub docs: Docs,
}

impl Prop for Lists {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        if t.first().is_some_and(|b| b % 3 == 0) {
            cx.count("trees", 1);
            return self.docs.tape(&t[1..], cx);
        }
        let c = case(t.get(1..).unwrap_or(&[]));
        cx.count("item_sequences", 1);
        cx.count("lists", c.lists as u64);
        cx.max("max_lists_in_a_sequence", c.lists as u64);
        compare(&c.src, &c.doc, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        if t.first().is_some_and(|b| b % 3 == 0) {
            return self.docs.show(&t[1..]);
        }
        case(t.get(1..).unwrap_or(&[])).src
    }
    fn rule(&self) -> &'static str {
        "one evaluation writes a sequence of list items with markers of all kinds, or a tree of nested lists, and compares the lists, their kind, start number and tightness with a model of continuation; non-trivial: more than eight events; distinct: event-kind sequence"
    }
}
