//! Hostile text workload: grammar-flavoured random documents and mutation of known ones.
use crate::dict;
use crate::rng::Rng;

fn token(r: &mut Rng) -> String {
    let d = dict::get();
    match r.below(20) {
        0 if !d.literals.is_empty() => {
            let l = r.pick(&d.literals).clone();
            let c = *r.pick(&["\"", "<", "&", ">", "\\", "'"]);
            match r.below(12) {
                0 => format!("[a]({l}:{c}x)"),
                1 => format!("{{{l}=v k=\"{l}{c}x\"}}"),
                2 => format!("`{l}{c}`"),
                3 => format!("{l}{c}"),
                _ => l,
            }
        }
        1 => {
            // a run of one character, with a length near a boundary
            let c = *r.pick(&[
                '`', '-', '.', '#', ':', '|', '*', '_', '~', '=', ' ', '$', '[', ']', '{', '}', '\\',
                '>', '<', '"', '\'', 'a', 'i', '1', '\n', '^', '+', '(', ')', '!', '%', '\t',
            ]);
            let n = run_len(r);
            c.to_string().repeat(n)
        }
        2 => {
            // arbitrary ASCII
            ((r.below(96) + 32).min(126) as u8 as char).to_string()
        }
        3 if r.chance(1, 2) => {
            // a list marker or text with a number near a limit
            let n: String = match r.below(4) {
                0 => r.pick(LIMITS).to_string(),
                1 => (0..1 + r.below(45)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
                2 => r.pick(&["9", "1", "0", "z", "A", "m", "i", "x", "c", "M", "v"]).repeat(1 + r.below(45)),
                _ => (0..1 + r.below(16)).map(|_| *r.pick(b"ivxlcdm") as char).collect(),
            };
            let n = if r.chance(1, 8) { n.to_uppercase() } else { n };
            match r.below(5) {
                0 => format!("({n}) "),
                1 => format!("{n}) "),
                2 => format!("\n{n}. a\n"),
                _ => format!("{n}. "),
            }
        }
        _ => (*r.pick(dict::TOKENS)).to_string(),
    }
}

const LIMITS: &[&str] = &[
    "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295",
    "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "99999999999999999999", "9999999999999999999", "10000000000000000000", "340282366920938463463374607431768211456",
    "000000000000000000001",
];

fn run_len(r: &mut Rng) -> usize {
    let d = dict::get();
    if r.chance(1, 3) {
        let n = *r.pick(&d.numbers);
        if n > 300 && !r.chance(1, 20) {
            r.below(12)
        } else {
            n
        }
    } else {
        1 + r.below(8)
    }
}

pub fn fresh(r: &mut Rng) -> String {
    let mut s = String::new();
    let mode = r.below(4);
    match mode {
        0 => {
            for _ in 0..1 + r.below(30) {
                s.push_str(&token(r));
            }
        }
        _ => {
            // line structured: container prefixes repeat from line to line
            let mut prefix = String::new();
            for _ in 0..1 + r.below(14) {
                match r.below(6) {
                    0 => prefix.clear(),
                    1 => prefix.push_str(r.pick(&["> ", "  ", "    ", " ", "\t", ">", "   "])),
                    2 => {
                        prefix.pop();
                        prefix.pop();
                    }
                    _ => {}
                }
                s.push_str(&prefix);
                if prefix.len() > 120 {
                    prefix.clear();
                }
                for _ in 0..r.below(3) {
                    s.push_str(r.pick(&dict::TOKENS[..85]));
                }
                for _ in 0..r.below(7) {
                    s.push_str(&token(r));
                    if r.chance(1, 2) {
                        s.push_str(r.pick(&["a", "b ", " c", "word", " "]));
                    }
                }
                if !r.chance(1, 12) {
                    s.push('\n');
                }
            }
        }
    }
    s
}

fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn pos(r: &mut Rng, s: &str) -> usize {
    floor(s, r.below(s.len() + 1))
}

fn line_start(s: &str, i: usize) -> usize {
    s[..i].rfind('\n').map_or(0, |p| p + 1)
}

fn line_bounds(r: &mut Rng, s: &str) -> (usize, usize) {
    let a = line_start(s, pos(r, s));
    let n = 1 + r.below(3);
    let mut b = a;
    for _ in 0..n {
        b = s[b..].find('\n').map_or(s.len(), |p| b + p + 1);
    }
    (a, b)
}

pub fn mutate(r: &mut Rng, base: &str, other: &str, max: usize) -> String {
    let mut s = base.to_string();
    for _ in 0..1 + r.below(5) {
        match r.below(19) {
            0 | 1 | 2 => {
                let p = pos(r, &s);
                s.insert_str(p, &token(r));
            }
            3 => {
                // token at line start
                let p = line_start(&s, pos(r, &s));
                s.insert_str(p, &token(r));
            }
            4 | 5 => {
                let a = pos(r, &s);
                let b = floor(&s, a + 1 + r.below(8));
                if a < b {
                    s.replace_range(a..b, "");
                }
            }
            6 => {
                let (a, b) = line_bounds(r, &s);
                s.replace_range(a..b, "");
            }
            7 => {
                let (a, b) = line_bounds(r, &s);
                let l = s[a..b].to_string();
                let (p, _) = line_bounds(r, &s);
                s.insert_str(p, &l);
            }
            8 => {
                let a = pos(r, &s);
                let b = floor(&s, a + 1 + r.below(12));
                let t = s[a.min(b)..b.max(a)].to_string();
                let n = run_len(r);
                if t.len() * n < max {
                    s.insert_str(a, &t.repeat(n));
                }
            }
            9 => {
                // prefix a range of lines
                let (a, b) = line_bounds(r, &s);
                let pre = *r.pick(&["> ", "  ", " ", "    ", "\t", "- ", "1. ", "> > ", "| "]);
                let t: String = s[a..b]
                    .split_inclusive('\n')
                    .map(|l| format!("{pre}{l}"))
                    .collect();
                s.replace_range(a..b, &t);
            }
            10 | 11 => {
                // splice
                let a = pos(r, &s);
                let (oa, ob) = if r.chance(1, 2) {
                    line_bounds(r, other)
                } else {
                    let x = pos(r, other);
                    let y = pos(r, other);
                    (x.min(y), x.max(y))
                };
                let t = other[oa..ob].to_string();
                s.insert_str(a, &t);
            }
            12 => {
                // wrap a range in delimiters
                let x = pos(r, &s);
                let y = floor(&s, x + r.below(20));
                let (a, b) = (x.min(y), x.max(y));
                let (o, c) = *r.pick(&[
                    ("*", "*"), ("_", "_"), ("{=", "=}"), ("[", "](u)"), ("[", "][a]"), ("[", "]{.c}"),
                    ("`", "`"), ("``", "``"), ("\"", "\""), ("'", "'"), ("^", "^"), ("~", "~"),
                    ("{-", "-}"), ("{+", "+}"), ("![", "](u)"), ("$`", "`"), ("::: d\n", "\n:::\n"),
                    ("```\n", "\n```\n"), ("{", "}"), ("[^", "]"), ("<", ">"), (":", ":"),
                    ("| ", " |"), ("`", "`{=html}"), ("![", "][]"), ("[", "][]"),
                ]);
                s.insert_str(b, c);
                s.insert_str(a, o);
            }
            13 => {
                let a = pos(r, &s);
                if let Some(c) = s[a..].chars().next() {
                    let t = token(r);
                    s.replace_range(a..a + c.len_utf8(), &t);
                }
            }
            14 => {
                // swap two line groups
                let (a, b) = line_bounds(r, &s);
                let t = s[a..b].to_string();
                s.replace_range(a..b, "");
                let p = line_start(&s, pos(r, &s));
                s.insert_str(p, &t);
            }
            15 => {
                // change the case / last newline
                if s.ends_with('\n') && r.chance(1, 2) {
                    s.pop();
                } else {
                    s = s.replace('\n', r.pick(&["\n", "\n\n", "\r\n", "\n\n", " \n"]));
                }
            }
            16 => {
                // a line of its own
                let p = line_start(&s, pos(r, &s));
                let t = token(r);
                let t = t.trim_matches('\n');
                s.insert_str(p, &format!("{t}\n"));
            }
            17 => {
                // a word or name that is as long as some limit, with a wide character at the limit
                let p = pos(r, &s);
                let a = s[..p].rfind(|c: char| !c.is_ascii_alphanumeric()).map_or(0, |i| floor(&s, i + 1));
                if s[a..].starts_with(|c: char| c.is_ascii_alphanumeric()) {
                    let n = run_len(r);
                    let wide = *r.pick(&["", "é", "日", "😀", "\u{a0}", "\u{301}", "ß"]);
                    let c = *r.pick(&["a", "x", "1", "b.", "a-", "i"]);
                    let n = n.saturating_sub(r.below(5)).min(max) / c.len();
                    s.insert_str(floor(&s, a + 1), &format!("{}{wide}", c.repeat(n)));
                }
            }
            _ => {
                // keep a prefix or suffix
                let a = pos(r, &s);
                if r.chance(1, 2) {
                    s.truncate(a);
                } else {
                    s.replace_range(..a, "");
                }
            }
        }
        if s.len() > max {
            let m = floor(&s, max);
            s.truncate(m);
        }
    }
    s
}
