//! Large texts: constructs with arbitrarily many parts or arbitrarily deep in each other.
use crate::rng::Tape;
use crate::{dict, rt};
use jotdown::Event;

/// Constructs whose parts can be arbitrarily many, as what precedes the parts, a part, and what follows them.
const SERIES: &[(&str, &str, &str)] = &[
    ("|", "a|", "\n|-|\n"), ("|", "a|", "\n"), ("|a|\n|", "-|", "\n|b|c|\n"), ("", "|a|b|\n", "^ c\n"), ("", "# a\n\n", ""),
    ("", "- a\n", ""), ("", "- a\n\n", "\nx"), ("1. x\n", "1. y\n", ""), ("", ": a\n\n  b\n\n", ""), ("", "[^a]", "\n\n[^a]: b"),
    ("", "[a][]", "\n\n[a]: b"), ("", "[a]: b\n", "\n[a][]"), ("", "[^a]: b\n\n", "[^a]"), ("", "{.a}\n", "x"), ("x", "{.a}", " y"),
    ("{", ".a ", "}\nx"), ("x{", "a=b ", "}"), ("", "*a* ", ""), ("*", "a ", "*"), ("_", "a\n", "_ b"), ("[", "a", "](b) c"),
    ("[a](", "b", ") c"), ("[", "a\n", "](b)"), ("`", "a", "` b"), ("``", "`a", " `` b"), ("$`", "a\n", "` b"), ("```\n", "a\n", "```\nb"),
    ("> ```\n", "> a\n", "b"), ("::: a\n", "b\n\n", ":::\nc"), ("> a\n", "> b\n", "c"), ("> a\n", "b\n", "\nc"), ("# a\n", "# b\n", "\nc"),
    ("", "***\n", ""), ("", "\n", "a"), ("", " ", "a"), ("a", " ", "\nb"), ("a\n", "\\\n", ""), ("", "\\*", ""), ("", ":a: ", ""), ("", "<a@b> ", ""),
    ("<a:", "b", "> c"), (":", "a", ": b"), ("", "a\\\n", "b"), ("", "a\n", ""), ("", "a\n\n", ""), ("\"", "a ", "\" b"), ("", "'a ", ""), ("", "-", " a"),
    ("a ", "-", " b"), ("a ", ".", " b"), ("a {%", "b", "%} c"), ("", "[a](a) ", ""), ("", "![a](a) ", ""), ("", "[x](a)", ""), ("", "[x]{#a}", " y"), ("", "{#a}\nx\n\n", ""), ("", "{k=a}\n- x\n\n", ""),
    ("", "`a`{=html}", ""), ("", "$`a`", ""), ("", "<a:b>", ""), ("", ":a:{.b}", ""), ("", "{=a=}", ""), ("", "a ", "# b\n\n[a][]"), ("[", "a", "]: b\n"), ("[^", "a", "]: b\n"), ("#", "#", " a"), ("", "a", "\n"),
];


/// Constructs that may be nested on one line, as opening, innermost and closing part.
const NESTS: &[(&str, &str, &str)] = &[
    ("- ", "a", ""), ("> ", "a", ""), ("1. ", "a", ""), (": ", "a", ""), ("- [ ] ", "a", ""), ("i) > ", "a", ""), ("> - ", "a\n", "b"),
    ("[", "a", "](b)"), ("[", "a", "][]"), ("![", "a", "](b)"), ("![x", "a", "y](b)"), ("[![", "a", "](b)](c)"), ("[", "a", "]{.b}"),
    ("{_", "a", "_}"), ("{*", "a", "*}"), ("{_{*", "a", "*}_}"), ("*_", "a", "_*"), ("_", "a", "_"), ("~{^", "a", "^}~"), ("{-{+", "a", "+}-}"),
    ("{='{\"", "a", "\"}'=}"), ("\"'", "a", "'\""), ("![_", "a", "_](b)"), ("^[", "a", "](c)^"), ("![*", "a", "*](b) x"), ("[", "a", "](b"), ("{", "a", "}"),
];

fn nest(t: &mut Tape, top: usize) -> String {
    let n = 1 << (2 + t.below(6));
    let n = t.many(n).min(150) + t.below(3);
    if t.chance(1, 2) {
        let (o, m, c) = *t.pick(NESTS);
        let mut s = String::new();
        if t.chance(1, 3) {
            s.push_str(t.pick(dict::TOKENS));
        }
        s.push_str(&o.repeat(n));
        s.push_str(m);
        let k = if t.chance(1, 5) { t.below(n + 1) } else { n };
        s.push_str(&c.repeat(k));
        for _ in 0..t.below(4) {
            s.push_str(t.pick(dict::TOKENS));
        }
        return s;
    }
    // line by line
    let marks: Vec<&str> =
        (0..1 + t.below(3)).map(|_| *t.pick(&["- ", "> ", "1. ", ": ", "* ", "- [x] ", "[^a]: ", "i) ", "::: d"])).collect();
    let lead = |m: &str| match m {
        "> " => "> ".to_string(),
        "::: d" => String::new(),
        "- [x] " => "  ".to_string(),
        "[^a]: " => "  ".to_string(),
        m => " ".repeat(m.len()),
    };
    let mut pre = vec![String::new()];
    let mut s = String::new();
    for i in 0..n {
        let m = marks[i % marks.len()];
        let p = pre[i].clone();
        s.push_str(&p);
        s.push_str(&if m == "::: d" { format!("{}\n", ":".repeat(n + 3 - i)) } else { format!("{m}a{i}\n") });
        if t.chance(1, 4) || m.starts_with(':') {
            s.push_str(p.trim_end());
            s.push('\n');
        }
        pre.push(p + &lead(m));
        if s.len() > top / 2 {
            break;
        }
    }
    // and out again
    for i in (0..pre.len()).rev() {
        if t.chance(1, 3) {
            continue;
        }
        let k = if t.chance(1, 4) { t.below(pre.len()) } else { i };
        if t.chance(1, 3) {
            s.push_str(pre[k].trim_end());
            s.push('\n');
        }
        s.push_str(&pre[k]);
        s.push_str(match t.below(4) {
            0 => "b\n",
            1 => marks[k % marks.len()],
            2 => "- c\n",
            _ => t.pick(dict::TOKENS),
        });
        if !s.ends_with('\n') {
            s.push('\n');
        }
        if s.len() > top {
            break;
        }
    }
    s
}

fn series(t: &mut Tape, top: usize) -> String {
    let (pre, unit, suf) = *t.pick(SERIES);
    let mut unit = unit.to_string();
    if t.chance(1, 4) {
        unit = unit.replace('a', t.pick(dict::TOKENS));
    }
    let differ = t.chance(1, 2);
    let n = 1 << (6 + t.below(7));
    let n = t.many(n).min(top / (unit.len() + 1)).max(1);
    let tail = if t.chance(1, 3) { t.pick(dict::TOKENS).to_string() } else { String::new() };
    let text = |n: usize| {
        let mut s = pre.to_string();
        for i in 0..n {
            if differ {
                s.push_str(&unit.replace('a', &format!("a{i}")));
            } else {
                s.push_str(&unit);
            }
        }
        s + suf + &tail
    };
    // nested ones are not meant here
    let d = |n: usize| depth(&shim::events(&text(n)));
    if n > 40 && d(40) > d(20) {
        return text(40);
    }
    let mut s = text(n);
    s.truncate((0..=top.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0));
    s
}

/// For a share of the tapes, a large text.
pub fn large(t: &[u8], share: u8, top: usize) -> Option<String> {
    let (b, rest) = t.split_first()?;
    if *b >= share {
        return None;
    }
    rt::large();
    let mut t = Tape::new(rest);
    let mut s = String::new();
    while s.len() < top {
        let room = top - s.len();
        if t.chance(1, 3) {
            s.push_str(&nest(&mut t, room));
        } else {
            s.push_str(&series(&mut t, room));
        }
        if !t.chance(1, 6) {
            break;
        }
        s.push_str(t.pick(&["\n\n", "\n", "", " "]));
    }
    Some(s)
}

pub fn depth(ev: &[Event]) -> u64 {
    let mut d = 0;
    let mut m = 0;
    for e in ev {
        match e {
            Event::Start(..) => {
                d += 1;
                m = m.max(d);
            }
            Event::End(..) => d -= 1,
            _ => {}
        }
    }
    m as u64
}
