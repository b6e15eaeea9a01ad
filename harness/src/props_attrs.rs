//! Attribute sets: syntax, lookup, merging and display.
use crate::engine::{Check, Cx as Run, Prop};
use crate::rng::{hash, mix, Tape};
use jotdown::{AttributeKind, AttributeValue, Attributes};

type Elem = (AttributeKind<'static>, String);

fn name(c: char) -> bool {
    c.is_ascii_alphanumeric() || ":_-".contains(c)
}

/// Remove the backslashes of escapes.
pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match it.peek() {
            Some(n) if c == '\\' && n.is_ascii_punctuation() => out.push(it.next().unwrap()),
            _ => out.push(c),
        }
    }
    out
}

struct Reader<'a> {
    s: &'a str,
    i: usize,
}

impl Reader<'_> {
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn err<T>(&self) -> Result<T, usize> {
        Err(self.i)
    }
    fn name(&mut self) -> Result<String, usize> {
        let n = self.s[self.i..].find(|c| !name(c)).unwrap_or(self.s.len() - self.i);
        if n == 0 {
            return self.err();
        }
        self.i += n;
        Ok(self.s[self.i - n..self.i].to_string())
    }
    /// A name that ends at white space or the end of the set.
    fn word(&mut self) -> Result<String, usize> {
        let n = self.name()?;
        match self.peek() {
            Some(c) if c == '}' || c.is_ascii_whitespace() => Ok(n),
            _ => self.err(),
        }
    }
    fn quoted(&mut self) -> Result<String, usize> {
        self.i += 1;
        let start = self.i;
        loop {
            match self.peek() {
                None => return self.err(),
                Some('"') => break,
                Some('\\') => {
                    self.i += 1;
                    match self.peek() {
                        None => return self.err(),
                        // a line break cannot be escaped
                        Some('\n') => {}
                        Some(c) => self.i += c.len_utf8(),
                    }
                }
                Some(c) => self.i += c.len_utf8(),
            }
        }
        let v: Vec<&str> = self.s[start..self.i].split('\n').filter(|l| !l.is_empty()).collect();
        self.i += 1;
        Ok(unescape(&v.join(" ")))
    }
    fn set(&mut self, out: &mut Vec<Elem>) -> Result<(), usize> {
        if self.peek() != Some('{') {
            return self.err();
        }
        self.i += 1;
        loop {
            match self.peek() {
                None => return self.err(),
                Some('}') => {
                    self.i += 1;
                    return Ok(());
                }
                Some('.') => {
                    self.i += 1;
                    let n = self.word()?;
                    out.push((AttributeKind::Class, n));
                }
                Some('#') => {
                    self.i += 1;
                    let n = self.word()?;
                    out.push((AttributeKind::Id, n));
                }
                Some('%') => {
                    self.i += 1;
                    let Some(n) = self.s[self.i..].find(['%', '}']) else {
                        self.i = self.s.len();
                        return self.err();
                    };
                    // escapes are removed from any value that is shown
                    out.push((AttributeKind::Comment, unescape(&self.s[self.i..self.i + n])));
                    self.i += n;
                    if self.peek() == Some('%') {
                        self.i += 1;
                    }
                }
                Some(c) if c.is_ascii_whitespace() => self.i += 1,
                Some(c) if name(c) => {
                    let key = self.name()?;
                    if self.peek() != Some('=') {
                        return self.err();
                    }
                    self.i += 1;
                    let v = if self.peek() == Some('"') { self.quoted()? } else { self.word()? };
                    out.push((AttributeKind::Pair { key: key.into() }, v));
                }
                _ => return self.err(),
            }
        }
    }
}

/// What a text means as an attribute list, or the position where it stops making sense.
pub fn reference(s: &str) -> Result<Vec<Elem>, usize> {
    let mut r = Reader { s: s.trim_end_matches(|c: char| c.is_ascii_whitespace()), i: 0 };
    let mut out = vec![];
    loop {
        r.set(&mut out)?;
        if r.i == r.s.len() {
            return Ok(out);
        }
    }
}

fn squeeze(s: &str) -> String {
    // several line breaks in a comment
    let mut t = s.to_string();
    while t.contains("\n\n") {
        t = t.replace("\n\n", "\n");
    }
    t
}

fn key(k: &AttributeKind) -> Option<String> {
    match k {
        AttributeKind::Class => Some("class".into()),
        AttributeKind::Id => Some("id".into()),
        AttributeKind::Pair { key } => Some(key.to_string()),
        AttributeKind::Comment => None,
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Check {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?} instead of {want:?}"))
    }
}

/// All ways of looking at `a` agree with its elements.
fn views(a: &Attributes, want: &[Elem], extra: &[&str]) -> Check {
    let shown = |v: &AttributeValue| {
        let parts: String = v.parts().collect();
        let s = v.to_string();
        if parts != s {
            return Err(format!("value {s:?} has the parts {parts:?}"));
        }
        Ok(s)
    };
    eq("the number of elements", a.len(), want.len())?;
    for (i, ((k, v), (wk, wv))) in a.iter().zip(want).enumerate() {
        eq(&format!("the kind of element {i}"), k, wk)?;
        let v = shown(v)?;
        let (v, wv) =
            if *wk == AttributeKind::Comment { (squeeze(&v), squeeze(wv)) } else { (v, wv.clone()) };
        eq(&format!("the value of element {i}"), v, wv)?;
        eq(&format!("the key of element {i}"), k.key().map(str::to_string), key(wk))?;
    }
    let mut keys: Vec<String> = vec![];
    for (k, _) in want {
        if let Some(k) = key(k) {
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
    }
    let value = |k: &str| -> Option<String> {
        let all: Vec<&str> =
            want.iter().filter(|e| key(&e.0).is_some_and(|x| x == k)).map(|e| e.1.as_str()).collect();
        if k == "class" {
            let set: Vec<&str> = all.iter().filter(|v| !v.is_empty()).copied().collect();
            (!all.is_empty()).then(|| set.join(" "))
        } else {
            all.last().map(|s| s.to_string())
        }
    };
    for k in keys.iter().map(String::as_str).chain(extra.iter().copied()).chain(["class", "id", ""]) {
        let v = value(k);
        eq(&format!("contains_key({k:?})"), a.contains_key(k), v.is_some())?;
        let got = match a.get_value(k) {
            Some(v) => Some(shown(&v)?),
            None => None,
        };
        if k == "class" && v.as_deref() == Some("") {
            // no class at all; the lookup may say so
            if got.is_some_and(|g| !g.is_empty()) {
                return Err("there is a class value".into());
            }
        } else {
            eq(&format!("get_value({k:?})"), got, v)?;
        }
    }
    let mut pairs = vec![];
    for (k, v) in a.unique_pairs() {
        pairs.push((k.to_string(), shown(&v)?));
    }
    let want_pairs: Vec<(String, String)> =
        keys.iter().map(|k| (k.clone(), value(k).unwrap())).collect();
    eq("unique_pairs()", pairs, want_pairs)
}

/// Read `s` as an attribute list.
fn check(s: &str, cx: &mut Run) -> Check {
    let fail = |m: String| format!("attributes {s:?}: {m}");
    match (shim::attributes(s), reference(s)) {
        (Err(e), Err(p)) => {
            cx.count("rejected", 1);
            eq("the position of the error", e.pos, p).map_err(fail)
        }
        (Ok(a), Err(p)) => Err(fail(format!("accepted as {a:?}, should fail at {p}"))),
        (Err(e), Ok(w)) => Err(fail(format!("rejected at {}, should be {w:?}", e.pos))),
        (Ok(a), Ok(w)) => {
            views(&a, &w, &["k", "K", "x"]).map_err(fail)?;
            cx.count("accepted", 1);
            cx.count("elements", w.len() as u64);
            cx.max("max_elements", w.len() as u64);
            if !w.is_empty() {
                let mut h = 0;
                for (k, v) in &w {
                    h = mix(h, hash(format!("{k:?}").as_bytes()));
                    h = mix(h, hash(v.as_bytes()));
                }
                cx.observe(h);
                cx.sample(|| format!("{s:?} -> {a:?}"));
            }
            // written out and read again it is the same
            let d = format!("{a:?}");
            if !s.contains("\\\n") {
                match shim::attributes(&d) {
                    Ok(b) if b == a => {}
                    b => return Err(fail(format!("shown as {d:?}, which reads as {b:?}"))),
                }
            }
            // the collection interface
            let v: Vec<_> = a.clone().into();
            let b: Attributes = v.clone().into();
            let c: Attributes = v.iter().cloned().collect();
            let e: Vec<_> = a.clone().into_iter().collect();
            let f: Vec<_> = (&a).into_iter().cloned().collect();
            if a != b || a != c || v != e || v != f {
                return Err(fail("conversion from and to a vector changes it".into()));
            }
            let mut g = a.clone();
            for (k, v) in &mut g {
                if k.key() == Some("k") {
                    *v = "n\\*w".into();
                }
            }
            let mut w2 = w.clone();
            for (k, v) in &mut w2 {
                if key(k).as_deref() == Some("k") {
                    *v = "n*w".into();
                }
            }
            g.push((AttributeKind::Class, "last".into()));
            w2.push((AttributeKind::Class, "last".into()));
            views(&g, &w2, &[]).map_err(|m| fail(format!("after changing elements: {m}")))
        }
    }
}

fn soup(t: &mut Tape) -> String {
    const NAMES: &[&str] = &["a", "b", "c", "k", "x-1", "n_2", "ns:k", "id", "class", "Q", "0", "-", "_", ":"];
    let gap = |t: &mut Tape| *t.pick(&[" ", " ", " ", "  ", "\n", "\t", "\r\n", "", "\u{c}"]);
    let mut s = String::new();
    let bad = t.chance(1, 4);
    for _ in 0..1 + t.weighted(&[6, 2, 1]) {
        s.push('{');
        let n = t.below(6);
        for _ in 0..t.many(n) {
            s.push_str(gap(t));
            match t.weighted(&[4, 3, 4, 5, 2, usize::from(bad)]) {
                0 => s.push_str(&format!(".{}", t.pick(NAMES))),
                1 => s.push_str(&format!("#{}", t.pick(NAMES))),
                2 => s.push_str(&format!("{}={}", t.pick(NAMES), t.pick(NAMES))),
                3 => {
                    let mut v = String::new();
                    let n = t.below(6);
                    for _ in 0..t.many(n) {
                        v.push_str(*t.pick(&[
                            "a", " ", "\\\"", "\\\\", "\\", "\n", "é", "\\é", "}", "{", "%", "'", "\\}", "\\a",
                            "日", "\\ ", "  ", "=", "\n\n", "<&>", "w", "\\|", "`", "#h",
                        ]));
                    }
                    s.push_str(&format!("{}=\"{v}\"", t.pick(NAMES)));
                }
                4 => {
                    let v = *t.pick(&["c", " note ", "", "x\ny", "a=b", "{", "\"q", "é", "\n", "\\"]);
                    s.push_str(&format!("%{v}%"));
                }
                _ => s.push_str(*t.pick(&[".", "#", "k", "k=", "=", "\"", "%", "é", "$", "k=é", ".é", "\\", "}", "{"])),
            }
        }
        s.push_str(gap(t));
        if t.chance(1, 10) {
            s.push_str("%end");
        }
        if !(bad && t.chance(1, 6)) {
            s.push('}');
        }
    }
    s.push_str(*t.pick(&["", "", "", "", " ", "\n", "  \t\n", " x", "\u{b}"]));
    s
}

/// Attributes put together by hand.
fn by_hand(t: &mut Tape, cx: &mut Run) -> Check {
    const VALS: &[&str] = &["", "a", "a b", "\\", "\\*", "\\\\", "a\\", "\\é", "<\"&'>", "\\\\\\*", "\n", "é\\\"é", "b\\b"];
    let mut a = Attributes::new();
    let mut w: Vec<Elem> = vec![];
    let n = t.below(12);
    for _ in 0..t.many(n) {
        let k = match t.below(6) {
            0 | 1 => AttributeKind::Class,
            2 => AttributeKind::Id,
            3 => AttributeKind::Comment,
            _ => AttributeKind::Pair { key: t.pick(&["k", "l", "class", "id", "Class", "é", ""]).to_string().into() },
        };
        let v = *t.pick(VALS);
        let val: AttributeValue = match t.below(3) {
            0 => v.into(),
            1 => v.to_string().into(),
            _ => std::borrow::Cow::Borrowed(v).into(),
        };
        w.push((k.clone(), unescape(v)));
        a.push((k, val));
        if t.chance(1, 10) && !w.is_empty() {
            let i = t.below(w.len());
            w.remove(i);
            a.remove(i);
        }
    }
    cx.count("made_by_hand", 1);
    views(&a, &w, &["k", "zz"]).map_err(|m| format!("elements {w:?}: {m}"))
}

pub struct Sets;

impl Prop for Sets {
    fn weights(&self) -> (usize, usize) {
        (1, 3)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        check(s, cx)?;
        for (i, _) in s.match_indices('{').take(12) {
            check(&s[i..], cx)?;
            if let Some(n) = s[i..].find('}') {
                check(&s[i..i + n + 1], cx)?;
                if let Some(m) = s[i + n + 1..].find('}') {
                    check(&s[i..i + n + m + 2], cx)?;
                }
            }
        }
        Ok(())
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let mut t = Tape::new(t);
        if t.chance(1, 6) {
            return by_hand(&mut t, cx);
        }
        check(&soup(&mut t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        let mut t = Tape::new(t);
        if t.chance(1, 6) {
            return "elements put together by hand".into();
        }
        soup(&mut t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation reads texts as attribute lists and compares acceptance, error position, elements, lookups, unique pairs, display and collection views with a recursive-descent reference; non-trivial: an accepted list with elements; distinct: elements"
    }
}
