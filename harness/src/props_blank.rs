//! Blank lines and line ends around blocks carry no information beyond being there.
use crate::ast::{diff, normalise};
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_html::structured;
use crate::rng::{hash, mix, Rng};
use crate::stream;
use jotdown::*;

pub struct Blank;

/// Whether the text ends within code or raw content that lines could be added to.
fn open_code(ev: &[(Event, std::ops::Range<usize>)]) -> bool {
    for (e, r) in ev.iter().rev() {
        match e {
            Event::End(Container::CodeBlock { .. } | Container::RawBlock { .. }) => return r.is_empty(),
            Event::End(Container::Document) => {}
            Event::End(c) if c.is_block_container() => {}
            _ => return false,
        }
    }
    false
}

impl Blank {
    fn check(&self, s: &str, cx: &mut Run) -> Check {
        // a marker with nothing after it is only an item at the end of the text
        let last = s.rsplit('\n').next().unwrap_or("").trim_end_matches([' ', '\t', '\r']);
        let marker = last.ends_with(['-', '+', '*', ':', '.', ')', ']']);
        let all;
        let s = if marker {
            all = format!("{s}\n");
            &all
        } else {
            s
        };
        let ev = shim::spanned(s);
        let (h, n) = stream::shape(ev.iter().map(|e| &e.0), cx);
        cx.count("events", n);
        let plain: Vec<Event> = ev.iter().map(|e| e.0.clone()).collect();
        let want = normalise(&plain);
        let mut r = Rng::new(mix(hash(s.as_bytes()), 28));
        // (a quote also takes lines without its prefix; what those keep of their indentation is left open)
        let quoted = plain.iter().any(|e| matches!(e, Event::Start(Container::Blockquote, _)));
        let lazy = quoted
            && s.lines().zip(s.lines().skip(1)).any(|(a, b)| {
                let b = b.trim_matches([' ', '\t', '\r']);
                a.contains('>') && !b.is_empty() && b != ">" && !b.starts_with("> ")
            });
        // what to add, and where
        let mut adds: Vec<(usize, String)> = vec![];
        let mut added = 0;
        let mut para = 0;
        let mut table = 0;
        let mut quotes = 0;
        let mut before_captions = 0;
        let mut more = |at: usize, quotes: usize, r: &mut Rng| {
            let a = s[..at].rfind('\n').map_or(0, |i| i + 1);
            let z = s[at..].find('\n').map_or(s.len(), |i| at + i + 1);
            // (an empty item has a blank line too)
            let l = &s[a..z];
            if !l.trim_matches([' ', '\t', '\r', '\n', '>']).is_empty() || l.matches('>').count() > quotes {
                return None;
            }
            let mut o = String::new();
            if !s[..z].ends_with('\n') {
                o.push('\n');
            }
            for _ in 0..1 + if r.chance(1, 16) { r.below(24) } else { r.below(3) } {
                o.push_str(&s[a..z]);
                if !o.ends_with('\n') {
                    o.push('\n');
                }
                added += 1;
            }
            Some((z, o))
        };
        for (i, (e, sp)) in ev.iter().enumerate() {
            match e {
                Event::Start(Container::Blockquote, _) => quotes += 1,
                Event::End(Container::Blockquote) => quotes -= 1,
                Event::Start(Container::Paragraph | Container::Heading { .. }, _) => para += 1,
                Event::End(Container::Paragraph | Container::Heading { .. }) => para -= 1,
                Event::Softbreak | Event::Hardbreak if !lazy && para > 0 && r.chance(1, 2) => {
                    let Some(b) = ev.get(i + 1).map(|e| e.1.start) else { continue };
                    if b < sp.end || !s[sp.end..b].trim_matches([' ', '\t', '>']).is_empty() {
                        continue;
                    }
                    adds.push((b, r.pick(&[" ", "  ", "    ", "\t", " \t "]).to_string()));
                    cx.count("lines_indented", 1);
                }
                // (no event stands for the blank lines before a caption)
                Event::Start(Container::Table, _) => table = sp.start,
                Event::End(Container::Table) => {
                    let mut at = table;
                    while let Some(i) = s[at..sp.start].find('\n') {
                        at += i + 1;
                        if at < sp.start && r.chance(1, 2) {
                            if let Some(add) = more(at, quotes, &mut r) {
                                before_captions += add.1.matches('\n').count() as u64;
                                adds.push(add);
                                cx.count("lines_before_captions", 1);
                            }
                        }
                    }
                }
                Event::Blankline if r.chance(2, 3) => adds.extend(more(sp.start, quotes, &mut r)),
                _ => {}
            }
        }
        adds.sort_by_key(|a| a.0);
        let mut o = String::with_capacity(s.len() * 2);
        let mut at = 0;
        for (i, add) in &adds {
            o.push_str(&s[at..*i]);
            o.push_str(add);
            at = *i;
        }
        o.push_str(&s[at..]);
        cx.count("blank_lines_added", added);
        let mut ends = 0;
        if r.chance(1, 2) {
            o.insert_str(0, &"\n".repeat(1 + r.below(3)));
            ends += 1;
        }
        if r.chance(1, 2) && !s.trim().is_empty() && !open_code(&ev) {
            o.push_str(r.pick(&["\n", "\n\n", "\n\n\n", "\n \n", "\n\n \t"]));
            ends += 1;
        }
        cx.count("ends_changed", ends);
        if !lazy && r.chance(1, 3) {
            let ind = " ".repeat(1 + r.below(7));
            o = o
                .split_inclusive('\n')
                .map(|l| if l.trim_end_matches('\n').is_empty() { l.to_string() } else { format!("{ind}{l}") })
                .collect();
            cx.count("indented", 1);
            ends += 1;
        }
        let oe = shim::events(&o);
        let got = normalise(&oe);
        if let Some(d) = diff(&want, &got) {
            return Err(format!("source {s:?}, with more blank lines {o:?}: {d}"));
        }
        let blank = |v: &[Event]| v.iter().filter(|e| matches!(e, Event::Blankline)).count() as u64;
        if ends == 0 && before_captions == 0 && s.ends_with('\n') && blank(&oe) != blank(&plain) + added {
            return Err(format!(
                "source {s:?}, with {added} more blank lines {o:?}: {} blank lines instead of {}",
                blank(&oe),
                blank(&plain) + added
            ));
        }
        if n > 4 && added + ends > 0 {
            cx.observe(mix(h, added as u64));
        }
        cx.sample(|| format!("{s:?} and {o:?}"));
        Ok(())
    }
}

impl Prop for Blank {
    fn weights(&self) -> (usize, usize) {
        (1, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        self.check(&structured(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        structured(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation parses a text and the same text with more blank lines (where it has some, at the start and at the end) and compares the events; non-trivial: more than four events and at least one line added; distinct: event-kind sequence and number of lines"
    }
}

// ------------------------------------------------------------------ width of characters

/// Characters of two, three and four bytes that no syntax mentions.
const WIDE: &[char] = &[
    '\u{e9}', '\u{df}', '\u{a7}', '\u{3a9}', '\u{7ff}', '\u{800}', '\u{65e5}', '\u{20ac}', '\u{fb00}', '\u{ffee}',
    '\u{10000}', '\u{1f600}', '\u{20000}', '\u{10fffd}', '\u{301}', '\u{200d}',
    // white space outside ASCII is none to Djot
    '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{feff}',
];

const N: usize = WIDE.len();

struct Map([char; N]);

impl Map {
    fn new(r: &mut Rng) -> Map {
        let mut m = [' '; N];
        m.copy_from_slice(WIDE);
        for i in (1..N).rev() {
            m.swap(i, r.below(i + 1));
        }
        Map(m)
    }
    fn char(&self, c: char) -> char {
        WIDE.iter().position(|w| *w == c).map_or(c, |i| self.0[i])
    }
    fn text(&self, s: &str) -> String {
        s.chars().map(|c| self.char(c)).collect()
    }
    /// Applied to what the debug format shows.
    fn debug(&self, s: &str) -> String {
        self.text(s)
    }
}

/// The indentation of what follows a footnote marker on its line depends on the bytes of the marker.
fn narrow_markers(s: String) -> String {
    let mut o = String::with_capacity(s.len());
    let mut rest = &*s;
    while let Some(i) = rest.find("[^") {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        let z = rest.find("]:").map_or(2, |z| z);
        o.extend(rest[..z].chars().map(|c| if c.is_ascii() { c } else { 'n' }));
        rest = &rest[z..];
    }
    o + rest
}

pub struct Width;

impl Width {
    fn check(&self, s: &str, cx: &mut Run) -> Check {
        let mut r = Rng::new(mix(hash(s.as_bytes()), 29));
        let n = s.chars().count();
        let few = 1 + r.below(6);
        let s: String = s
            .chars()
            .map(|c| {
                if c != '\n' && !WIDE.contains(&c) && r.below(n) < few || !c.is_ascii() {
                    *r.pick(WIDE)
                } else {
                    c
                }
            })
            .collect();
        let s = narrow_markers(s);
        let m = Map::new(&mut r);
        let t = m.text(&s);
        let mut at = vec![0; s.len() + 1];
        let mut j = 0;
        for (i, c) in s.char_indices() {
            at[i] = j;
            j += m.char(c).len_utf8();
        }
        at[s.len()] = j;
        let (a, b) = (shim::spanned(&s), shim::spanned(&t));
        let show = |v: &[(Event, std::ops::Range<usize>)], id: bool| -> Vec<String> {
            v.iter()
                .map(|(e, sp)| {
                    let (i, z) = if id { (at[sp.start], at[sp.end]) } else { (sp.start, sp.end) };
                    format!("{} {i}..{z}", chars(e))
                })
                .collect()
        };
        let want: Vec<String> = show(&a, true).iter().map(|s| m.debug(s)).collect();
        let got = show(&b, false);
        if want != got {
            let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "source {s:?}, with other characters {t:?}: event {i} is {:?}, expected {:?}",
                got.get(i),
                want.get(i)
            ));
        }
        let (h, k) = stream::shape(a.iter().map(|e| &e.0), cx);
        cx.count("events", k);
        cx.count("wide_characters", s.chars().filter(|c| !c.is_ascii()).count() as u64);
        if k > 4 && s != t {
            cx.observe(h);
        }
        let (p, q) = (shim::html(&s, &shim::Format::Default), shim::html(&t, &shim::Format::Default));
        // (the arrow of back links)
        let keep = |h: &str| h.replace('\u{21a9}', "<").replace('\u{fe0e}', "");
        if m.text(&keep(&p)) != keep(&q) {
            return Err(format!("source {s:?}, with other characters {t:?}: HTML is {q:?}"));
        }
        cx.sample(|| format!("{s:?} and {t:?}"));
        Ok(())
    }
}

/// An event with its characters shown as they are.
fn chars(e: &Event) -> String {
    let d = format!("{e:?}");
    let mut o = String::with_capacity(d.len());
    let mut rest = &*d;
    while let Some(i) = rest.find('\\') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        let hex = rest.strip_prefix("\\u{").and_then(|r| r.split_once('}')).map(|(h, _)| h);
        match hex.and_then(|h| u32::from_str_radix(h, 16).ok().and_then(char::from_u32)) {
            Some(c) if !c.is_ascii() => {
                o.push(c);
                rest = &rest[hex.unwrap_or_default().len() + 4..];
            }
            _ => {
                // an escape of two characters, as of the backslash
                let z = rest.char_indices().nth(2).map_or(rest.len(), |c| c.0);
                o.push_str(&rest[..z]);
                rest = &rest[z..];
            }
        }
    }
    o + rest
}

impl Prop for Width {
    fn weights(&self) -> (usize, usize) {
        (2, 1)
    }
    fn text(&mut self, s: &str, cx: &mut Run) -> Check {
        self.check(s, cx)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        self.check(&structured(t), cx)
    }
    fn show(&self, t: &[u8]) -> String {
        structured(t)
    }
    fn rule(&self) -> &'static str {
        "one evaluation puts characters of two to four bytes at random places of a text, parses and renders it, permutes those characters and compares events, ranges and HTML; non-trivial: more than two events and at least one character changed; distinct: event-kind sequence"
    }
}
