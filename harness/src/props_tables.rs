//! Tables written with arbitrary padding.
use crate::ast::*;
use crate::ast_block::*;
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_ast::{compare, Docs};
use crate::props_lists::wrap_containers;
use crate::rng::Tape;
use jotdown::*;

fn blanks(t: &mut Tape) -> &'static str {
    *t.pick(&["", " ", " ", "  ", "\t", "    "])
}

fn case(t: &[u8]) -> (String, Doc) {
    let mut t = Tape::new(t);
    let t = &mut t;
    let mut bx = Bcx::new();
    bx.inline_budget = 6;
    let n = 1 + t.below(7);
    let n = t.many(n);
    let cols = 1 + t.below(5);
    let cols = t.many(cols);
    let mut rows = vec![];
    let mut lines = vec![];
    for i in 0..n {
        let k = if t.chance(1, 5) { 1 + t.below(6) } else { cols };
        let lead = if i > 0 && t.chance(1, 6) { " ".repeat(t.below(4)) } else { String::new() };
        let mut l = format!("{lead}|");
        if t.chance(if i == 1 { 3 } else { 1 }, 5) {
            let mut al = vec![];
            for _ in 0..k {
                let a = *t.pick(&[
                    Alignment::Unspecified,
                    Alignment::Left,
                    Alignment::Right,
                    Alignment::Center,
                ]);
                let d = "-".repeat(match t.below(3) {
                    0 => 1,
                    1 => 2,
                    _ => 1 + t.below(40),
                });
                let (a0, a1) = match a {
                    Alignment::Unspecified => ("", ""),
                    Alignment::Left => (":", ""),
                    Alignment::Right => ("", ":"),
                    Alignment::Center => (":", ":"),
                };
                l.push_str(&format!("{}{a0}{d}{a1}{}|", blanks(t), blanks(t)));
                al.push(a);
            }
            rows.push(Row::Sep(al));
        } else {
            let mut cells = vec![];
            // the last cell has verbatim that ends with the row
            let open = t.chance(1, 24);
            let dashes = open && t.chance(1, 2);
            for j in 0..k {
                if open && j == k - 1 {
                    let ticks = 1 + t.below(3);
                    let s = *t.pick(&["a", "-", "a|b", "|", "-|-", "\\", "a\\|b", "*a|", "a``b"]);
                    let s = if ticks == 2 && s.contains("``") { "a" } else { s };
                    // (an escaped pipe would not end the row)
                    let pad = if s.ends_with('\\') { " " } else { blanks(t) };
                    l.push_str(&format!("{}{}{s}{pad}|", blanks(t), "`".repeat(ticks)));
                    cells.push(vec![In::Verb { s: s.into(), ticks, at: vec![] }]);
                    break;
                }
                let c = match if dashes { 9 } else { t.below(9) } {
                    9 => vec![In::Run('-', 1 + t.below(5))],
                    // almost a separator
                    8 => {
                        let a = 1 + t.below(20);
                        let a = t.many(a);
                        let b = 1 + t.below(20);
                        let c = *t.pick(&["x", "+", "é", "="]);
                        vec![In::Run('-', a), In::Text(c.into(), c.into()), In::Run('-', b)]
                    }
                    0 => vec![],
                    // ends in an escaped character
                    1 => vec![In::Text("\\".into(), "\\\\".into())],
                    2 => vec![In::Text("|-|".into(), "\\|-\\|".into())],
                    3 => vec![In::Text("-:".into(), "\\-\\:".into())],
                    _ => gen_cell(t, &mut bx),
                };
                l.push_str(&format!("{}{}{}|", blanks(t), inline_src(&c), blanks(t)));
                cells.push(c);
            }
            rows.push(Row::Cells(cells));
        }
        l.push_str(if t.chance(1, 6) { "  " } else { "" });
        lines.push(l);
    }
    let caption = t.chance(1, 4).then(|| {
        let gap = t.weighted(&[3, 2, 1]);
        for _ in 0..gap {
            lines.push(String::new());
        }
        let c = gen_leaf(t, &mut bx, true);
        for (i, l) in inline_src(&c).split('\n').enumerate() {
            lines.push(if i == 0 { format!("^ {l}") } else { format!("{}{l}", " ".repeat(t.below(4))) });
        }
        (gap, c)
    });
    let after = caption.is_none();
    let mut blocks = vec![Blk { gap: 0, at: vec![], b: B::Table { caption, rows } }];
    // what comes next is not part of it
    if t.chance(1, 3) {
        if !after || t.chance(1, 2) {
            lines.push(String::new());
        }
        let s = *t.pick(&["after", "|a", "| b | c", "a|"]);
        lines.push(s.to_string());
        blocks.push(Blk { gap: 0, at: vec![], b: B::Para(vec![In::Text(s.into(), s.into())]) });
    }
    let (lines, blocks) = wrap_containers(t, lines, blocks);
    (lines.join("\n") + "\n", Doc { blocks, tail: "", labels: vec![], foots: vec![], style: 0 })
}

pub struct Tables {
    pub docs: Docs,
}

impl Prop for Tables {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        if t.first().is_some_and(|b| b % 4 == 0) {
            cx.count("documents_with_tables", 1);
            return self.docs.tape(&t[1..], cx);
        }
        let (s, doc) = case(t.get(1..).unwrap_or(&[]));
        cx.count("tables", 1);
        compare(&s, &doc, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        if t.first().is_some_and(|b| b % 4 == 0) {
            return self.docs.show(&t[1..]);
        }
        case(t.get(1..).unwrap_or(&[])).0
    }
    fn rule(&self) -> &'static str {
        "one evaluation writes a table with random padding, separators, cells and caption (or a document with several tables) and compares rows, head rows, cells and alignments with the model; non-trivial: more than eight events; distinct: event-kind sequence"
    }
}
