From 6a89e5fe10397bb99cb39acbf42e478a9de71fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 01/32] fix: keep the caret of a bracket that is not a footnote
 reference

A '[^' without a closing bracket on the same line was lexed as one
opener, so a link or span opened by it silently dropped the caret from
its content (and from the tag of a reference link).
---
 src/inline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..b292cbd 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -655,20 +655,13 @@ impl<'s> Parser<'s> {
                 })
             )
         {
-            let tok = self.input.eat();
-            debug_assert_eq!(
-                tok,
-                Some(lex::Token {
-                    kind: lex::Kind::Sym(Symbol::Caret),
-                    len: 1,
-                })
-            );
             let mut end = false;
             let len = self
                 .input
                 .lexer
                 .ahead()
                 .iter()
+                .skip(1) // ^
                 .take_while(|c| {
                     if **c == b'[' {
                         return false;
@@ -680,6 +673,14 @@ impl<'s> Parser<'s> {
                 })
                 .count();
             if end {
+                let tok = self.input.eat();
+                debug_assert_eq!(
+                    tok,
+                    Some(lex::Token {
+                        kind: lex::Kind::Sym(Symbol::Caret),
+                        len: 1,
+                    })
+                );
                 self.input.lexer.skip_ahead(len + 1);
                 let span_label = self.input.span.end..(self.input.span.end + len);
                 let label = &self.input.src[span_label.clone()];
-- 
2.43.0


From 867963dcd5004cbc3ce875022d71ef894b5ae186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 02/32] fix: keep line boundaries when trailing inline
 attributes turn out invalid

When a valid attribute list is directly followed by another list that is
unfinished on its line, the following lines are examined. If it never
becomes valid, all the examined lines were consumed as if they were one
line, so markers of outer containers leaked into the text and text could
end up duplicated in link destinations. Only consume the lines that the
valid attributes cover.
---
 src/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index b292cbd..651f878 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -521,10 +521,13 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        // consume only the lines that are part of the attributes, any line that was examined after
+        // them still needs to be parsed
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
+        let line_end = self.input.span_line.end;
         self.input.span = start_attr..state.end_attr;
         self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
 
-- 
2.43.0


From 73c9966031be90b1fefb9d67a1071a758059d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 03/32] fix: do not panic on headings with more than 65535 hash
 characters

Saturate the level instead of unwrapping the failed conversion.
---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..35fcaf7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From 5d956b95326cb1df5fd6d0e59b3fddf4f1ded71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 04/32] fix: report errors when flushing standard output

The buffered writer was flushed by its drop, which ignores errors, so
the CLI exited successfully although the output was lost.
---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..1153a83 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,12 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            // errors are lost if the buffer is flushed by the drop
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From bcd27d3503a931400f9b8905e833ce4e7650f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 05/32] fix: do not write a br tag inside the alt attribute of
 an image

Render a hard break in alternative text like a soft break, as a newline.
---
 src/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..045699d 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -658,11 +658,11 @@ impl<'s> Renderer<'s> {
             Event::EnDash => out.write_str("–")?,
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
-            Event::Hardbreak => {
+            Event::Hardbreak if self.img_alt_text == 0 => {
                 out.write_str("<br>")?;
                 self.block(out, 0)?;
             }
-            Event::Softbreak => {
+            Event::Softbreak | Event::Hardbreak => {
                 out.write_char('\n')?;
                 self.indent(out)?;
             }
-- 
2.43.0


From e51ffb74cca72ffbdd2bfe25b70270ecfb572026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 06/32] fix: separate the classes of task lists and math from
 explicit classes

An explicit class on a task list or on math was joined with the class of
the element, e.g. class="atask-list".
---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 045699d..dd26720 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -753,6 +753,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0


From 06c1e699e1eaff36cdfc4a64b9d008bcd5b8f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 07/32] fix: escape div classes and symbols in HTML output

They cannot contain special characters when they come from the parser,
but the renderer also accepts events that were created or modified by
the user.
---
 src/html.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index dd26720..03b0c34 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -649,7 +649,15 @@ impl<'s> Renderer<'s> {
                     )?;
                 }
             }
-            Event::Symbol(sym) => write!(out, ":{sym}:")?,
+            Event::Symbol(sym) => {
+                out.write_char(':')?;
+                if self.img_alt_text > 0 {
+                    write_attr(&sym, out)?;
+                } else {
+                    write_text(&sym, out)?;
+                }
+                out.write_char(':')?;
+            }
             Event::LeftSingleQuote => out.write_str("‘")?,
             Event::RightSingleQuote => out.write_str("’")?,
             Event::LeftDoubleQuote => out.write_str("“")?,
@@ -764,7 +772,7 @@ where
             if first_written {
                 out.write_char(' ')?;
             }
-            out.write_str(class)?;
+            write_attr(class, out)?;
         }
     }
     Ok(())
-- 
2.43.0


From 7a76dfb620dd625b99d814d7b20d783b8533b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 08/32] fix: apply block attributes only to the heading or link
 definition they precede

---
 src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..fe9be20 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2192,10 +2192,10 @@ impl<'s> PrePass<'s> {
                 })) => {
                     // All link definition tags have to be obtained initially, as references can
                     // appear before the definition.
-                    let attrs = attr_prev
-                        .iter()
+                    let attrs = std::mem::take(&mut attr_prev)
+                        .into_iter()
                         .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
+                            Attributes::try_from(&src[sp]).expect("should be valid")
                         })
                         .collect::<Attributes>();
                     let url = if let Some(block::Event {
@@ -2239,10 +2239,10 @@ impl<'s> PrePass<'s> {
                     // as formatting must be removed.
                     //
                     // We choose to parse all headers twice instead of caching them.
-                    let attrs = attr_prev
-                        .iter()
+                    let attrs = std::mem::take(&mut attr_prev)
+                        .into_iter()
                         .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
+                            Attributes::try_from(&src[sp]).expect("should be valid")
                         })
                         .collect::<Attributes>();
                     let id_override = attrs.get_value("id").map(|s| s.to_string());
@@ -2323,7 +2323,9 @@ impl<'s> PrePass<'s> {
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From ee52b8adbcee45451be4b13126467dcf53d86ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 09/32] fix: recognise an escape directly after a verbatim
 element

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index 651f878..4fed71a 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -308,6 +308,7 @@ impl<'s> Parser<'s> {
             if usize::from(len_opener) == first.len
                 && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
             {
+                self.input.lexer.verbatim = false;
                 let raw_format = self.input.ahead_raw_format();
                 if let Some(span_format) = raw_format.clone() {
                     self.events[event_opener].kind = EventKind::Enter(RawFormat {
@@ -327,7 +328,6 @@ impl<'s> Parser<'s> {
                     self.events.drain(*event_skip..);
                 }
                 self.push(EventKind::Exit(ty_opener));
-                self.input.lexer.verbatim = false;
                 self.verbatim = None;
                 if raw_format.is_none()
                     && self
-- 
2.43.0


From d7f4b6f136605f6f7ca7260aad1df89ed5637623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 10/32] fix: ignore escapes on every line of a verbatim element

---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index 4fed71a..8c7e649 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From 9fe71d3d7dcb0172d75b656e2aaa733b0f857d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 11/32] fix: remove the indentation of a div from its first
 line as well

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 35fcaf7..76399fc 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -586,7 +586,8 @@ impl<'s> TreeParser<'s> {
         lines: &mut [std::ops::Range<usize>],
     ) {
         // update spans, remove indentation / container prefix
-        lines.iter_mut().skip(1).for_each(|sp| {
+        let marker_line = usize::from(!matches!(k, Kind::Fenced { .. }));
+        lines.iter_mut().skip(marker_line).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
             let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
-- 
2.43.0


From 3e50b21b8bb845127145caa5f7dffc42139ef9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 12/32] fix: remove the indentation of every line of a table
 caption

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 76399fc..72b2c91 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -730,7 +730,7 @@ impl<'s> TreeParser<'s> {
                 lines[caption_line].start += 2;
                 lines[lines.len() - 1] = self.trim_end(lines[lines.len() - 1].clone());
                 for line in &lines[caption_line..] {
-                    self.inline(line.clone());
+                    self.inline(self.trim_start(line.clone()));
                 }
                 self.exit(span_end.clone());
                 caption_line
-- 
2.43.0


From 254f0e1800c7ec42c3000dba3cb58d02b1d1a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 13/32] fix: recognise math after an escaped backslash

---
 src/inline.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 8c7e649..17e9f66 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -297,6 +297,12 @@ impl<'s> Parser<'s> {
         }
     }
 
+    /// Whether the byte at `pos` of a string with the given span is escaped. An escaped byte always
+    /// starts a new string.
+    fn escaped(&self, sp: &std::ops::Range<usize>, pos: usize) -> bool {
+        pos == sp.start && pos > 0 && self.input.src.as_bytes()[pos - 1] == b'\\'
+    }
+
     fn parse_verbatim(&mut self, first: &lex::Token) -> Option<ControlFlow> {
         if let Some(VerbatimState {
             event_opener,
@@ -378,17 +384,11 @@ impl<'s> Parser<'s> {
                 .filter(|sp| {
                     sp.end == self.input.span.start
                         && self.input.src.as_bytes()[sp.start + sp.len() - 1] == b'$'
-                        && sp
-                            .end
-                            .checked_sub(2)
-                            .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                        && !self.escaped(sp, sp.end - 1)
                 }) {
                 let (ty, num_dollar) = if sp.len() > 1
                     && self.input.src.as_bytes()[sp.start + sp.len() - 2] == b'$'
-                    && sp
-                        .end
-                        .checked_sub(3)
-                        .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                    && !self.escaped(&sp, sp.end - 2)
                 {
                     (DisplayMath, 2)
                 } else {
-- 
2.43.0


From 66db236a5313f8d3c22767083ece1ff91929c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 14/32] fix: keep the text of a verbatim that is not closed in
 its table row

---
 src/block.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 72b2c91..8b91b0a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -799,6 +799,21 @@ impl<'s> TreeParser<'s> {
                 pos += len;
             }
 
+            if verbatim.is_some() {
+                // end of row closes verbatim, remaining text up to the last pipe is the last cell
+                self.enter(
+                    Node::Leaf(TableCell(
+                        self.alignments
+                            .get(column_index)
+                            .copied()
+                            .unwrap_or(Alignment::Unspecified),
+                    )),
+                    cell_start..cell_start,
+                );
+                self.inline(self.trim(cell_start..(row.end - 1)));
+                self.exit((row.end - 1)..row.end);
+            }
+
             if separator_row && verbatim.is_none() {
                 self.alignments.clear();
                 self.alignments.extend(
-- 
2.43.0


From 491e4093ff9d7df3dff944b8868874f6d48b4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 15/32] fix: keep the text before an escaped line break in a
 quoted attribute value

---
 src/attr.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..b052671 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,7 +746,11 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
+            if st != self.state
+                && !matches!(
+                    (st, self.state),
+                    (ValueEscape, ValueQuoted) | (_, ValueEscape)
+                )
             {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
@@ -759,11 +763,10 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        let quote = usize::from(matches!(st, ValueQuoted | ValueEscape));
+                        self.attrs.0[last].1.extend(&content[quote..]);
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
-- 
2.43.0


From 68af1b5ae69e2d62814e3a249d6a4e7a32b0f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 16/32] fix: honour escapes on every line of a quoted attribute
 value

---
 src/attr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index b052671..2fe2a0d 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -749,7 +749,10 @@ impl<'s> Parser<'s> {
             if st != self.state
                 && !matches!(
                     (st, self.state),
-                    (ValueEscape, ValueQuoted) | (_, ValueEscape)
+                    (ValueEscape, ValueQuoted)
+                        | (ContinuedEscape, ValueContinued)
+                        | (ValueQuoted, ValueEscape)
+                        | (ValueContinued, ContinuedEscape)
                 )
             {
                 let content = &input[pos_prev..pos];
@@ -763,7 +766,7 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueEscape | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued | ContinuedEscape => {
                         let last = self.attrs.len() - 1;
                         let quote = usize::from(matches!(st, ValueQuoted | ValueEscape));
                         self.attrs.0[last].1.extend(&content[quote..]);
@@ -818,6 +821,7 @@ enum State {
     ValueEscape,
     ValueNewline,
     ValueContinued,
+    ContinuedEscape,
     Done,
     Invalid,
 }
@@ -857,10 +861,15 @@ impl State {
             ValueFirst if c == b'"' => ValueQuoted,
             ValueFirst => Invalid,
             ValueQuoted | ValueNewline | ValueContinued if c == b'"' => Whitespace,
-            ValueQuoted | ValueNewline | ValueContinued | ValueEscape if c == b'\n' => ValueNewline,
+            ValueQuoted | ValueNewline | ValueContinued | ValueEscape | ContinuedEscape
+                if c == b'\n' =>
+            {
+                ValueNewline
+            }
             ValueQuoted if c == b'\\' => ValueEscape,
             ValueQuoted | ValueEscape => ValueQuoted,
-            ValueNewline | ValueContinued => ValueContinued,
+            ValueNewline | ValueContinued if c == b'\\' => ContinuedEscape,
+            ValueNewline | ValueContinued | ContinuedEscape => ValueContinued,
             Invalid | Done => panic!("{self:?}"),
         }
     }
-- 
2.43.0


From bf99c72b6acafe7503cf80beb2c24a3b12340f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 17/32] fix: do not write an attribute of an HTML element twice

---
 src/html.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 03b0c34..cc84c50 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -479,6 +479,9 @@ impl<'s> Renderer<'s> {
                 let mut id_written = false;
                 let mut class_written = false;
                 for (a, v) in attrs.unique_pairs() {
+                    if writes_attribute(&c, a) {
+                        continue; // an attribute must not occur twice
+                    }
                     write!(out, r#" {a}=""#)?;
                     v.parts().try_for_each(|part| write_attr(part, out))?;
                     match a {
@@ -748,6 +751,26 @@ impl<'s> Renderer<'s> {
     }
 }
 
+/// Whether the renderer writes the attribute with the given key by itself.
+fn writes_attribute(c: &Container, key: &str) -> bool {
+    match c {
+        Container::Link(_, ty) => {
+            key == "href" && !matches!(ty, LinkType::Span(SpanLinkType::Unresolved))
+        }
+        Container::Image(src, _) => key == "alt" || (key == "src" && !src.is_empty()),
+        Container::List {
+            kind: ListKind::Ordered {
+                numbering, start, ..
+            },
+            ..
+        } => (key == "start" && *start > 1) || (key == "type" && !matches!(numbering, Decimal)),
+        Container::TableCell { alignment, .. } => {
+            key == "style" && !matches!(alignment, Alignment::Unspecified)
+        }
+        _ => false,
+    }
+}
+
 fn write_class<W>(c: &Container, mut first_written: bool, out: &mut W) -> std::fmt::Result
 where
     W: std::fmt::Write,
-- 
2.43.0


From a9c98f81aea80b26205c65784bdbb5ab14adc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 18/32] fix: keep the white space of blank lines of code in
 containers

A line of a code block that consists of white space kept the white space that follows the marker of its block quote, or the indentation of its list item.
---
 src/block.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 8b91b0a..ec3ddde 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -590,11 +590,16 @@ impl<'s> TreeParser<'s> {
         lines.iter_mut().skip(marker_line).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
+            let whitespace = if src_t.is_empty() {
+                src.bytes().take_while(|b| matches!(b, b' ' | b'\t')).count()
+            } else {
+                src_t.as_ptr() as usize - src.as_ptr() as usize
+            };
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-                        whitespace + 1
+                        let space = src[whitespace + 1..].starts_with([' ', '\t']);
+                        whitespace + 1 + usize::from(space)
                     } else if src_t.starts_with('>')
                         && src_t[1..].starts_with(|c: char| c.is_ascii_whitespace())
                     {
-- 
2.43.0


From 2c67fd3308d125cf8585318901a512b2fa7a0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 19/32] fix: read ambiguous list numbers as letters if a later
 item is a letter

---
 src/block.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index ec3ddde..38535ae 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -144,6 +144,15 @@ impl ListNumber {
 }
 
 impl ListType {
+    /// Return additional type that this list item could have, if any.
+    fn ambiguity(self) -> Option<Self> {
+        if let Ordered(n, s) = self {
+            n.ambiguity().map(|n| Ordered(n, s))
+        } else {
+            None
+        }
+    }
+
     /// Whether this list item can be continued by the other list item.
     ///
     /// If so, return the two new resolved `ListType` objects. They only differ from the input in
@@ -185,6 +194,8 @@ struct OpenList {
     /// Type of the previous item, generally the same as `ty_start` but value may differ in ordered
     /// lists.
     ty_prev: ListType,
+    /// Whether all items so far may be read both as roman numerals and as letters.
+    ambiguous: bool,
     /// Depth in the tree where the direct list items of the list are. Needed to determine when to
     /// close the list.
     depth: u16,
@@ -371,6 +382,7 @@ impl<'s> TreeParser<'s> {
             if let Some(OpenList {
                 ty_start,
                 ty_prev,
+                ambiguous,
                 depth,
                 ..
             }) = self.open_lists.last_mut()
@@ -378,14 +390,20 @@ impl<'s> TreeParser<'s> {
                 debug_assert!(usize::from(*depth) <= self.open.len());
                 if self.open.len() == (*depth).into() {
                     let continues = if let Kind::ListItem { ty: ty_new, .. } = kind {
-                        if let Some((ty_prev_res, ty_new_res)) = ty_prev.continues(&ty_new) {
-                            if ty_start == ty_prev {
-                                *ty_start = ty_prev_res;
+                        match ty_prev.continues(&ty_new) {
+                            // a previous item is a roman numeral for certain
+                            Some((ty_prev_res, _)) if ty_prev_res != *ty_prev && !*ambiguous => {
+                                false
+                            }
+                            Some((ty_prev_res, ty_new_res)) => {
+                                if ty_prev_res != *ty_prev {
+                                    *ty_start = ty_start.ambiguity().unwrap_or(ty_prev_res);
+                                }
+                                *ambiguous &= ty_new_res.ambiguity().is_some();
+                                *ty_prev = ty_new_res;
+                                true
                             }
-                            *ty_prev = ty_new_res;
-                            true
-                        } else {
-                            false
+                            None => false,
                         }
                     } else {
                         false
@@ -633,6 +651,7 @@ impl<'s> TreeParser<'s> {
                 self.open_lists.push(OpenList {
                     ty_start: *ty,
                     ty_prev: *ty,
+                    ambiguous: ty.ambiguity().is_some(),
                     depth: self.open.len().try_into().unwrap(),
                     event,
                 });
-- 
2.43.0


From 5a3c7a42d2ebdd79b9f0338dd96429088d410b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 20/32] fix: recognise table rows by a second pipe that is not
 escaped

---
 src/block.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 38535ae..458092c 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1043,7 +1043,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if is_table_row(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1337,16 +1337,20 @@ impl<'s> Kind<'s> {
                     *caption = true;
                     true
                 } else {
-                    !*blankline
-                        && (line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                    !*blankline && is_table_row(line_t)
                 }
             }
         }
     }
 }
 
+/// Whether a trimmed line starts with a pipe and ends with another one that is not escaped.
+fn is_table_row(line: &str) -> bool {
+    line.strip_prefix('|')
+        .and_then(|line| line.strip_suffix('|'))
+        .is_some_and(|row| row.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 0)
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From a3aba3880d501056e1f6a4b556c6125b87582822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 21/32] fix: take link destinations and labels only from the
 lines of their block

---
 src/inline.rs | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 17e9f66..b0f2994 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -84,6 +84,8 @@ struct Input<'s> {
     complete: bool,
     /// Span of current line.
     span_line: std::ops::Range<usize>,
+    /// Spans of the preceding lines within the current block.
+    lines_before: Vec<std::ops::Range<usize>>,
     /// Upcoming lines within the current block.
     ahead: std::collections::VecDeque<std::ops::Range<usize>>,
     /// Span of current event.
@@ -97,6 +99,7 @@ impl<'s> Input<'s> {
             lexer: lex::Lexer::new(b""),
             complete: false,
             span_line: 0..0,
+            lines_before: Vec::new(),
             ahead: std::collections::VecDeque::new(),
             span: 0..0,
         }
@@ -122,12 +125,28 @@ impl<'s> Input<'s> {
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
         self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
-        self.span_line = line;
+        self.lines_before
+            .push(std::mem::replace(&mut self.span_line, line));
+    }
+
+    /// Parts of the lines within the current block that are covered by a span.
+    fn lines(&self, span: std::ops::Range<usize>) -> impl Iterator<Item = &'s str> + '_ {
+        let first = self
+            .lines_before
+            .iter()
+            .rposition(|line| line.end <= span.start)
+            .map_or(0, |i| i + 1);
+        self.lines_before[first..]
+            .iter()
+            .chain(std::iter::once(&self.span_line))
+            .map(move |line| &self.src[line.start.max(span.start)..line.end.min(span.end)])
     }
 
     fn reset(&mut self) {
         self.lexer = lex::Lexer::new(b"");
         self.complete = false;
+        self.span_line = 0..0;
+        self.lines_before.clear();
         self.ahead.clear();
     }
 
@@ -790,32 +809,15 @@ impl<'s> Parser<'s> {
                             spec.into()
                         } else if multiline_spec {
                             let mut spec = String::new();
-                            let mut first_part = true;
-                            let mut span =
-                                self.events[e_opener].span.end..self.events[e_opener].span.end;
-
-                            let mut append = |span: std::ops::Range<usize>| {
-                                self.input.src[span].split('\n').for_each(|s| {
-                                    if !s.is_empty() {
-                                        if !inline && !first_part {
-                                            spec.push(' ');
-                                        }
-                                        spec.push_str(s);
-                                        first_part = false;
+                            for part in self.input.lines(span_spec.clone()) {
+                                let part = part.trim_end_matches('\n');
+                                if !part.is_empty() {
+                                    if !inline && !spec.is_empty() {
+                                        spec.push(' ');
                                     }
-                                });
-                            };
-
-                            for ev in self.events.iter().skip(e_opener + 1) {
-                                if span.end == ev.span.start {
-                                    span.end = ev.span.end;
-                                } else {
-                                    append(span);
-                                    span = ev.span.clone();
+                                    spec.push_str(part);
                                 }
                             }
-                            append(span);
-
                             spec.into()
                         } else {
                             self.input.src[span_spec.clone()].into()
-- 
2.43.0


From 9e93a2bf14637d480301d7964343b0587d43158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 22/32] fix: split the text of an empty attribute set over
 several lines

---
 src/inline.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index b0f2994..e22ec79 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -130,7 +130,7 @@ impl<'s> Input<'s> {
     }
 
     /// Parts of the lines within the current block that are covered by a span.
-    fn lines(&self, span: std::ops::Range<usize>) -> impl Iterator<Item = &'s str> + '_ {
+    fn lines(&self, span: std::ops::Range<usize>) -> Vec<std::ops::Range<usize>> {
         let first = self
             .lines_before
             .iter()
@@ -139,7 +139,8 @@ impl<'s> Input<'s> {
         self.lines_before[first..]
             .iter()
             .chain(std::iter::once(&self.span_line))
-            .map(move |line| &self.src[line.start.max(span.start)..line.end.min(span.end)])
+            .map(|line| line.start.max(span.start)..line.end.min(span.end))
+            .collect()
     }
 
     fn reset(&mut self) {
@@ -553,9 +554,21 @@ impl<'s> Parser<'s> {
         self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
 
         if attrs.is_empty() {
-            if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-                let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
+            if let AttributesElementType::Container { e_placeholder } = state.elem_ty {
+                if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
+                    // not a span, the set is text, possibly on several lines
+                    for text in self.input.lines(self.input.span.clone()) {
+                        let end =
+                            text.start + self.input.src[text.clone()].trim_end_matches('\n').len();
+                        self.push_sp(EventKind::Str, text.start..end);
+                        if end < text.end {
+                            self.push_sp(EventKind::Atom(Softbreak), end..text.end);
+                        }
+                    }
+                } else {
+                    let last = self.events.len() - 1;
+                    self.events[last].span.end = self.input.span.end;
+                }
             }
         } else {
             let attr_index = self.store_attributes.len() as AttributesIndex;
@@ -810,7 +823,7 @@ impl<'s> Parser<'s> {
                         } else if multiline_spec {
                             let mut spec = String::new();
                             for part in self.input.lines(span_spec.clone()) {
-                                let part = part.trim_end_matches('\n');
+                                let part = self.input.src[part].trim_end_matches('\n');
                                 if !part.is_empty() {
                                     if !inline && !spec.is_empty() {
                                         spec.push(' ');
-- 
2.43.0


From 6952d571289510efcf129c57f53afd17fdb0e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 23/32] fix: continue a link definition by lines indented more
 than itself

---
 src/block.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 458092c..d6ef2f5 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1294,11 +1294,10 @@ impl<'s> Kind<'s> {
                 *last_blankline = matches!(next, Self::Atom(Blankline));
                 whitespace > *indent || *last_blankline || cont_para
             }
-            Self::Definition { .. } => {
-                let blankline = line
-                    .trim_matches(|c: char| c.is_ascii_whitespace())
-                    .is_empty();
-                line.starts_with(' ') && !blankline
+            Self::Definition { indent, .. } => {
+                let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
+                let whitespace = line.len() - line_t.len();
+                whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From 4a959f6c7d16759c9ce1b8a9b35be0e431174c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 24/32] fix: keep the relative indentation of blocks in items
 with long markers

---
 src/block.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index d6ef2f5..4a51b4d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -605,6 +605,7 @@ impl<'s> TreeParser<'s> {
     ) {
         // update spans, remove indentation / container prefix
         let marker_line = usize::from(!matches!(k, Kind::Fenced { .. }));
+        let starts: Vec<_> = lines.iter().map(|sp| sp.start).collect();
         lines.iter_mut().skip(marker_line).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
@@ -669,7 +670,20 @@ impl<'s> TreeParser<'s> {
         };
 
         self.enter(Node::Container(c), span_start);
-        let mut l = 0;
+        let mut l = self.parse_block(lines, false);
+        if matches!(k, Kind::ListItem { .. } | Kind::Definition { .. }) {
+            // only the block next to the marker is aligned with the end of the marker, keep the
+            // relative indentation of the blocks after it
+            let indent = (l..lines.len())
+                .map(|i| self.trim_start(starts[i]..lines[i].end))
+                .zip(&starts[l..])
+                .filter_map(|(sp, start)| (!sp.is_empty()).then(|| sp.start - start))
+                .min()
+                .map_or(0, |indent| indent.min(outer_len));
+            for i in l..lines.len() {
+                lines[i].start = lines[i].start.min(starts[i] + indent);
+            }
+        }
         while l < lines.len() {
             l += self.parse_block(&mut lines[l..], false);
         }
-- 
2.43.0


From 85a27cd814b9445f1bc6f2b7783f99e66e3ba598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 25/32] fix: two colons in a row are not a symbol without a
 name

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index e22ec79..684fb8e 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -670,7 +670,7 @@ impl<'s> Parser<'s> {
                     !end && !c.is_ascii_whitespace()
                 })
                 .count();
-            if end && valid {
+            if end && valid && len > 0 {
                 self.input.lexer.skip_ahead(len + 1);
                 let span_symbol = self.input.span.end..(self.input.span.end + len);
                 self.input.span.end = span_symbol.end + 1;
-- 
2.43.0


From 6b91903f7105b44118eeb8258179d5105718fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 26/32] fix: leave the line ending of blank lines out of their
 indentation

---
 src/block.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 4a51b4d..f0fa110 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -512,11 +512,7 @@ impl<'s> TreeParser<'s> {
     ) {
         if let Kind::Fenced { indent, spec, .. } = k {
             for line in lines.iter_mut() {
-                let indent_line = self.src.as_bytes()[line.clone()]
-                    .iter()
-                    .take_while(|c| *c != &b'\n' && c.is_ascii_whitespace())
-                    .count();
-                line.start += (*indent).min(indent_line);
+                line.start += (*indent).min(indentation(&self.src[line.clone()]));
             }
 
             // trim ending whitespace of raw block
@@ -609,11 +605,7 @@ impl<'s> TreeParser<'s> {
         lines.iter_mut().skip(marker_line).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = if src_t.is_empty() {
-                src.bytes().take_while(|b| matches!(b, b' ' | b'\t')).count()
-            } else {
-                src_t.as_ptr() as usize - src.as_ptr() as usize
-            };
+            let whitespace = indentation(src);
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
@@ -1364,6 +1356,13 @@ fn is_table_row(line: &str) -> bool {
         .is_some_and(|row| row.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 0)
 }
 
+/// Length of the whitespace before the text of a line or, if it is blank, before its line ending.
+fn indentation(line: &str) -> usize {
+    let line = line.strip_suffix('\n').unwrap_or(line);
+    let line = line.strip_suffix('\r').unwrap_or(line);
+    line.len() - line.trim_start_matches(|c: char| c.is_ascii_whitespace()).len()
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 4ed9d5ae8510deb2707742060e193c90507c2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 27/32] fix: ignore unattached attributes when placing the
 backlink of a footnote

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index cc84c50..4e020d4 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -712,7 +712,7 @@ impl<'s> Renderer<'s> {
 
                 let mut unclosed_para = false;
                 for e in events.into_iter().flatten() {
-                    if matches!(&e, Event::Blankline | Event::Escape) {
+                    if matches!(&e, Event::Blankline | Event::Escape | Event::Attributes(..)) {
                         continue;
                     }
                     if unclosed_para {
-- 
2.43.0


From a1736f3ca0174faadc2644556bb7e422d3028b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:22 +0000
Subject: [PATCH 28/32] fix: remove the marker of a heading's last line at the
 end of the source

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index f0fa110..5f34903 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -358,7 +358,8 @@ impl<'s> TreeParser<'s> {
                         let l = &l[hash..];
                         let post_ws = l.iter().take_while(|c| c.is_ascii_whitespace()).count();
                         let l = &l[post_ws..];
-                        if post_ws > 0 {
+                        // the last line of the source may lack white space after it
+                        if post_ws > 0 || (hash > 0 && l.is_empty()) {
                             debug_assert_eq!(level, hash);
                             line.start += line.len() - l.len();
                         }
-- 
2.43.0


From 649a587e9162eb822753001da42619504dce8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 29/32] fix: collapse white space before a line break in
 heading identifiers

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe9be20..b18486f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2286,7 +2286,10 @@ impl<'s> PrePass<'s> {
                             }
                             inline::EventKind::Atom(inline::Atom::Softbreak) => {
                                 text.push(' ');
-                                id_auto.push('-');
+                                if !last_whitespace {
+                                    last_whitespace = true;
+                                    id_auto.push('-');
+                                }
                             }
                             _ => {}
                         });
-- 
2.43.0


From 3a018fd39a086417ff5abb0ae672f46ea1754512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 30/32] fix: indent the elements within the section of
 footnotes

---
 src/html.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 4e020d4..b437459 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -699,15 +699,15 @@ impl<'s> Renderer<'s> {
         W: std::fmt::Write,
     {
         if self.footnotes.reference_encountered() {
-            self.block(out, 0)?;
+            self.block(out, 1)?;
             out.write_str("<section role=\"doc-endnotes\">")?;
             self.block(out, 0)?;
             out.write_str("<hr>")?;
-            self.block(out, 0)?;
+            self.block(out, 1)?;
             out.write_str("<ol>")?;
 
             while let Some((number, events)) = self.footnotes.next() {
-                self.block(out, 0)?;
+                self.block(out, 1)?;
                 write!(out, "<li id=\"fn{number}\">")?;
 
                 let mut unclosed_para = false;
@@ -733,13 +733,13 @@ impl<'s> Renderer<'s> {
                     "<a href=\"#fnref{number}\" role=\"doc-backlink\">\u{21A9}\u{FE0E}</a></p>",
                 )?;
 
-                self.block(out, 0)?;
+                self.block(out, -1)?;
                 out.write_str("</li>")?;
             }
 
-            self.block(out, 0)?;
+            self.block(out, -1)?;
             out.write_str("</ol>")?;
-            self.block(out, 0)?;
+            self.block(out, -1)?;
             out.write_str("</section>")?;
         }
 
-- 
2.43.0


From 89a08f4f89ba623d76f62008841dbf4fe6c4b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:41 +0000
Subject: [PATCH 31/32] fix: parse inline elements of any number of lines
 without recursion

Every line which was needed to complete an inline element, e.g. to find out
whether a span is closed, added to the depth of the stack. Less than 20000
lines after an opening delimiter were enough to overflow it.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b18486f..4d516c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2796,7 +2796,10 @@ impl<'s> Parser<'s> {
                                 Some(block::EventKind::Inline),
                             ),
                         );
-                        return self.next_span();
+                        if let Some(event) = self.inline() {
+                            return Some(event);
+                        }
+                        continue;
                     }
                 }
                 block::EventKind::Stale => {
-- 
2.43.0


From 74591216336782aca9c98b1faaed24aa6c6b8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:18 +0000
Subject: [PATCH 32/32] fix: smart punctuation in headings is part of their
 text as a reference target

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4d516c1..7831801 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2291,6 +2291,10 @@ impl<'s> PrePass<'s> {
                                     id_auto.push('-');
                                 }
                             }
+                            inline::EventKind::Atom(inline::Atom::Hardbreak) => text.push(' '),
+                            inline::EventKind::Atom(inline::Atom::Escape) => {}
+                            // as written, like the text of a collapsed reference
+                            inline::EventKind::Atom(_) => text.push_str(&src[ev.span]),
                             _ => {}
                         });
                         if span_inline.is_none() {
-- 
2.43.0

