//! Input dictionary: djot tokens, boundary numbers, and the literals found in the source of the
//! code under test (passed in by check.py, frozen for the whole run and stored with a replay).
use std::sync::OnceLock;

pub struct Dict {
    pub numbers: Vec<usize>,
    /// Those of the numbers that are plausible numbers of items, cells, attributes and so on.
    pub counts: Vec<usize>,
    /// Identifier-like literals of the code under test ([A-Za-z0-9_-], starting with a letter).
    pub words: Vec<String>,
    /// All other literals of the code under test.
    pub literals: Vec<String>,
    pub raw: String,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub const TOKENS: &[&str] = &[
    "> ", ">", "- ", "* ", "+ ", "-", "1. ", "2. ", "1) ", "(1) ", "a. ", "b) ", "(c) ", "i. ",
    "ii. ", "iv) ", "v. ", "(x) ", "A. ", "I. ", "II) ", "C. ", "d. ", "0. ", "9999. ", "- [ ] ",
    "- [x] ", "* [X] ", ": ", ":", "# ", "## ", "### ", "#", "######", "::: c\n", ":::\n", "::::\n",
    "```\n", "``` rust\n", "``` =html\n", "~~~\n", "~~~ =tex\n", "| a | b |\n", "|---|:-:|\n",
    "|:--|--:|\n", "|", "||", "| |", "^ cap\n", "^", "[a]: url\n", "[b]: <x>\n", "[^f]: note\n",
    "[^g]: n\n\n  p\n", "[^f]", "[^g]", "[a][]", "[t][a]", "[a][b]", "![i][a]", "[A B][]", "{.c}",
    "{.c}\n", "{#id}", "{#id}\n", "{k=v}", "{k=\"v w\"}\n", "{% c %}", "{%}", "{}", "{.a .b #c k=v}",
    "{", "}", "* * *\n", "---\n", "- - -\n", "\n", "\n\n", " ", "  ", "    ", "\t", "_", "__", "*",
    "**", "_a_", "*b*", "^a^", "~b~", "{=m=}", "{-d-}", "{+i+}", "{_e_}", "{*s*}", "{^p^}", "{~q~}",
    "{=", "=}", "{-", "-}", "{+", "+}", "{_", "_}", "{*", "*}", "{^", "^}", "{~", "~}", "{'", "'}",
    "{\"", "\"}", "'", "\"", "'a'", "\"b\"", "`", "``", "```", "`c`", "`` ` ``", "`r`{=html}",
    "`x`{.c}", "$`m`", "$$`d`", "$", "$$", "\\$`", "[", "]", "[]", "(", ")", "](u)", "](", "][",
    "][]", "[s]{.c}", "![a](b)", "![", "!", "<http://x.y>", "<a@b.c>", "<", ">", ":sym:", ":+1:",
    "\\", "\\\n", "\\ ", "\\*", "\\\\", "\\`", "\\{", "\\[", "\\|", ".", "..", "...", "....", "--",
    "---", "----", "-----", "------", "a", "b", "word", "w w", "A", "é", "ß", "日本", "😀", "\u{a0}",
    "\u{2028}", "\u{feff}", "\u{0}", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{301}", "&", "&amp;",
    "\"x\"", "=", "+", "~", "1", "12", "i", "x", "(", "{a", "{.", "{#", "{a=", "{a=\"", "\\\"", "%",
];

const BASE_NUMBERS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 25, 26, 27, 31, 32, 33, 40, 50,
    63, 64, 65, 80, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300,
];

pub fn init(raw: &str) {
    let mut numbers: Vec<usize> = BASE_NUMBERS.to_vec();
    let mut words = Vec::new();
    let mut literals = Vec::new();
    for line in raw.lines() {
        let (k, v) = match line.split_once(' ') {
            Some(kv) => kv,
            None => continue,
        };
        match k {
            "n" => {
                if let Ok(n) = v.parse::<usize>() {
                    for m in [n.saturating_sub(1), n, n.saturating_add(1)] {
                        if m <= 2000 {
                            numbers.push(m);
                        }
                    }
                }
            }
            "s" => {
                let s = unhex(v);
                if let Ok(s) = String::from_utf8(s) {
                    let wordy = s.chars().next().is_some_and(|c| c.is_ascii_alphabetic())
                        && s.chars()
                            .all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
                    if wordy && s.len() <= 24 {
                        words.push(s.clone());
                    }
                    literals.push(s);
                }
            }
            _ => {}
        }
    }
    numbers.sort_unstable();
    numbers.dedup();
    words.sort();
    words.dedup();
    literals.sort();
    literals.dedup();
    let counts = numbers.iter().copied().filter(|n| (4..=70).contains(n)).collect();
    let _ = DICT.set(Dict {
        counts,
        numbers,
        words,
        literals,
        raw: raw.to_string(),
    });
}

pub fn get() -> &'static Dict {
    DICT.get().expect("dictionary not initialised")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim().as_bytes();
    s.chunks(2)
        .filter_map(|c| {
            std::str::from_utf8(c)
                .ok()
                .and_then(|c| u8::from_str_radix(c, 16).ok())
        })
        .collect()
}
