From 3a159dd4a9c6f2a0f0ba1ccc87f39d58e2d45310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 01/23] fix: count all hashes of a raw scalar's delimiter

The tokenizer counted them in a u8 that saturated at 255, so a raw scalar
opened with more hashes was closed by 255 of them; the lexer, which counts
them all, then sliced past the closing quote and panicked.
---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..9956468 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -533,9 +533,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count: usize = 0;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -556,7 +556,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0usize;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From bb975fe63e5c670aea7066fcd292acf04dab2c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 02/23] fix: report every invalid unicode escape without
 splitting a character

---
 crates/styx-parse/src/parser/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..be5c3db 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1942,25 +1942,29 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
+                        let valid = hex.chars().all(|c| c.is_ascii_hexdigit())
+                            && u32::from_str_radix(&hex, 16).is_ok();
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
+                            let mut end = end.min(escape_start + 12);
+                            while !text.is_char_boundary(end) {
+                                end -= 1;
+                            }
+                            let seq = &text[escape_start..end];
                             errors.push((escape_start, seq.to_string()));
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
+                        let mut count = 0;
                         while count < 4 {
                             match chars.peek() {
                                 Some((_, c)) if c.is_ascii_hexdigit() => {
-- 
2.43.0


From 2c31bf6480552b251b327dcfa575206cbd817dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 03/23] fix: do not check the escapes of a tagged key payload
 twice

---
 crates/styx-parse/src/parser/mod.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index be5c3db..a34ab93 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1196,9 +1196,6 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1502,20 +1499,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From 6d41cdb533e6ea1c6895a4845609e8dbb8fd9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 04/23] fix: only treat `{` as the explicit root object at the
 start of the document

---
 crates/styx-parse/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index a34ab93..aab4f8e 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -280,7 +280,15 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From 224f44d436503ab35acff95dd8d24a9dfadf38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 05/23] fix: detect every duplicate key and reopened path at
 the document root

---
 crates/styx-parse/src/parser/mod.rs | 57 ++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index aab4f8e..d8f150b 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -501,8 +501,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = vec![key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1048,7 +1047,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1640,13 +1642,13 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
 /// Path state tracker with O(depth) memory usage.
@@ -1660,12 +1662,14 @@ struct PathSegment {
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Root keys that have been closed (can't be reopened).
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1682,14 +1686,11 @@ impl PathState {
             .count();
 
         // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
+        // This happens when we see `a 1` (or `a.b 1`) then `a 2` - the path ["a"] fully matches
+        if common_len == path.len() {
             // Exact same path - this is a duplicate
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
@@ -1698,12 +1699,12 @@ impl PathState {
         while self.segments.len() > common_len {
             let closed_segment = self.segments.pop().unwrap();
 
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
-                    .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+            // Add this key to its parent's closed children
+            let closed = match self.segments.last_mut() {
+                Some(parent) => &mut parent.closed_children,
+                None => &mut self.closed_roots,
+            };
+            closed.insert(closed_segment.key, closed_segment.span);
         }
 
         // Now process each new segment of the path
@@ -1740,6 +1741,16 @@ impl PathState {
                     // Continue using existing segment
                     continue;
                 }
+                // Check if this root key was already closed
+                if let Some(&original) = self.closed_roots.get(key) {
+                    return Err(if is_last {
+                        PathError::Duplicate { original }
+                    } else {
+                        PathError::Reopened {
+                            closed_path: vec![key.to_key_string()],
+                        }
+                    });
+                }
                 // New root segment
                 self.segments.push(PathSegment {
                     key: key.clone(),
@@ -1754,7 +1765,11 @@ impl PathState {
                 // Check if parent is terminal (can't nest into it)
                 if parent.value_kind == PathValueKind::Terminal {
                     return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
+                        terminal_path: self
+                            .segments
+                            .iter()
+                            .map(|s| s.key.to_key_string())
+                            .collect(),
                     });
                 }
 
@@ -1763,8 +1778,8 @@ impl PathState {
                     return Err(PathError::Reopened {
                         closed_path: self.segments[..i]
                             .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
+                            .map(|s| s.key.to_key_string())
+                            .chain(std::iter::once(key.to_key_string()))
                             .collect(),
                     });
                 }
-- 
2.43.0


From ea4e1b5b970daee5ee94f03a5d3615d3c4225ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 06/23] fix: attach a doc comment to the entry after it, not
 the one before

---
 crates/styx-parse/src/parser/mod.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index d8f150b..e86469e 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -630,7 +630,8 @@ impl<'src> Parser<'src> {
                 | Lexeme::Newline { .. }
                 | Lexeme::Comma { .. }
                 | Lexeme::ObjectEnd { .. }
-                | Lexeme::SeqEnd { .. } => {
+                | Lexeme::SeqEnd { .. }
+                | Lexeme::DocComment { .. } => {
                     self.source.stash(lexeme);
                     break;
                 }
@@ -641,18 +642,6 @@ impl<'src> Parser<'src> {
                     });
                     break;
                 }
-                Lexeme::DocComment { span, text } => {
-                    // Strip `/// ` or `///` prefix
-                    let line = text
-                        .strip_prefix("/// ")
-                        .or_else(|| text.strip_prefix("///"))
-                        .unwrap_or(text);
-                    self.event_queue.push_back(Event {
-                        span,
-                        kind: EventKind::DocComment { lines: vec![line] },
-                    });
-                    break;
-                }
                 Lexeme::ObjectStart { span } | Lexeme::SeqStart { span } => {
                     // Check for MissingWhitespaceBeforeBlock: bare scalar immediately
                     // followed by { or ( with no whitespace
-- 
2.43.0


From 2ad38497301924fb9fadbaaf18cd95c52cfd0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 07/23] fix: quote scalars containing the attribute separator

---
 crates/styx-format/src/scalar.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..4628f02 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -20,8 +20,9 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
 }
 
 /// Count escape sequences needed for a quoted string.
-- 
2.43.0


From af54aaa006138c584b1191af0b8fbeb9f46cc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 08/23] fix: only write a heredoc where it reads back as the
 same string

---
 crates/styx-format/src/writer.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..cd2f288 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -6,6 +6,9 @@
 use crate::options::{ForceStyle, FormatOptions};
 use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
 
+/// Delimiters to choose from when writing a heredoc.
+const HEREDOC_DELIMITERS: [&str; 6] = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
+
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
 pub enum Context {
@@ -885,7 +888,10 @@ impl StyxWriter {
         let escape_count = count_escapes(s);
 
         // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
+        if newline_count >= self.options.heredoc_line_threshold
+            && !force_quote
+            && self.can_write_heredoc(s)
+        {
             self.write_heredoc(s);
             return;
         }
@@ -930,11 +936,26 @@ impl StyxWriter {
         }
     }
 
+    /// Check whether a string read back from a heredoc written here is unchanged.
+    ///
+    /// A heredoc's content ends with a newline, and its closing delimiter must be alone on
+    /// its line, which it is not where a separator or closing bracket follows inline.
+    fn can_write_heredoc(&self, s: &str) -> bool {
+        s.ends_with('\n')
+            && HEREDOC_DELIMITERS.iter().any(|d| !s.contains(d))
+            && self.stack.iter().all(|ctx| match ctx {
+                Context::Struct { is_root: true, .. } => true,
+                Context::Struct {
+                    force_multiline, ..
+                } => *force_multiline && self.options.force_style != ForceStyle::Inline,
+                Context::Seq { .. } => false,
+            })
+    }
+
     /// Write a heredoc string.
     fn write_heredoc(&mut self, s: &str) {
         // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
+        let delimiter = HEREDOC_DELIMITERS
             .iter()
             .find(|d| !s.contains(*d))
             .unwrap_or(&"TEXT");
-- 
2.43.0


From 6baa72a5abb3d14e12b4749cbf4229b038c71617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 09/23] fix: write units, payload-less tags and keys of a value
 so they read back unchanged

---
 crates/styx-format/src/value_format.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..d3f3743 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -29,6 +29,11 @@ pub fn format_object_braced(obj: &Object, options: FormatOptions) -> String {
     formatter.finish()
 }
 
+/// Check if a key can be written bare: unlike a bare value, a `.` would split it.
+fn can_be_bare_key(s: &str) -> bool {
+    crate::scalar::can_be_bare(s) && !s.contains('.')
+}
+
 struct ValueFormatter {
     writer: StyxWriter,
 }
@@ -78,10 +83,12 @@ impl ValueFormatter {
         match &value.payload {
             None => {
                 // No payload - if no tag either, this is unit (@)
-                if !has_tag {
-                    self.writer.write_str("@");
+                if has_tag {
+                    // Tag was already written; the next value is not its payload
+                    self.writer.clear_skip_before_value();
+                } else {
+                    self.writer.write_null();
                 }
-                // If there's a tag but no payload, tag was already written
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
@@ -187,7 +194,7 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                if key.tag.is_none() && can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
-- 
2.43.0


From 72d9d6d0c2bb25d2e612f54d4ace85193be6d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 10/23] fix: quote written keys that contain a dot

---
 crates/styx-format/src/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index cd2f288..2dc6826 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -358,8 +358,8 @@ impl StyxWriter {
             *first = false;
         }
 
-        // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        // Write the key - keys are typically bare identifiers; a bare `.` would nest
+        if can_be_bare(key) && !key.contains('.') {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -617,7 +617,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare(key) && !key.contains('.') {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From d23e37e10e89253e8e30d63b4d80449f06eacc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 11/23] fix: do not write a raw string directly after a tag
 name

---
 crates/styx-format/src/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 2dc6826..dee2cfe 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -896,8 +896,9 @@ impl StyxWriter {
             return;
         }
 
-        // Rule 2: Use raw strings for complex escaping (> 3 escapes)
-        if escape_count > 3 && !s.contains("\"#") {
+        // Rule 2: Use raw strings for complex escaping (> 3 escapes), but not after a tag,
+        // whose name would swallow the `r`
+        if escape_count > 3 && !force_quote && !s.contains("\"#") {
             self.write_raw_string(s);
             return;
         }
-- 
2.43.0


From ba4ad8ec46d7610a5e9ea2a30938c02bb0f8d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 12/23] fix: keep brace positions right when commas become
 newlines

---
 crates/styx-format/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index dee2cfe..758db93 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -728,6 +728,18 @@ impl StyxWriter {
                     for (i, &b) in bytes.iter().enumerate() {
                         self.out.insert(comma_pos + i, b);
                     }
+
+                    // Update all positions in the stack that come after this replacement
+                    for ctx in self.stack.iter_mut() {
+                        if let Context::Struct {
+                            open_brace_pos: Some(p),
+                            ..
+                        } = ctx
+                            && *p > comma_pos
+                        {
+                            *p = *p - 2 + newline_indent.len();
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 9b40df47347e90040d6076bd8848aeb512a03099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 13/23] fix: read a quoted payload after a tag name ending in
 `r`

`@user"bob"` was read as the tag `use` with the raw payload `r"bob"`.
---
 crates/styx-tokenizer/src/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 9956468..7d2ce58 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -252,10 +252,11 @@ impl<'src> Tokenizer<'src> {
     /// Consume one tag name segment after the leading `@`.
     fn consume_tag_segment(&mut self) {
         // Tag name: consume [A-Za-z0-9_-]*
-        // But stop before `r#` or `r"` which starts a raw string payload.
+        // But stop before `r#` which starts a raw string payload. (`r"` does not: `@user"bob"`
+        // is the tag `user` with a quoted payload.)
         self.advance();
         while let Some(c) = self.peek() {
-            if c == 'r' && matches!(self.peek_nth(1), Some('#' | '"')) {
+            if c == 'r' && self.peek_nth(1) == Some('#') {
                 break;
             }
             if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
-- 
2.43.0


From 417dbbc120c3de4bc63c2325b10013ec552af2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:20 +0000
Subject: [PATCH 14/23] fix: count editor columns in UTF-16 units in every
 conversion

---
 crates/styx-lsp/src/extensions.rs      | 37 +++++++-------------------
 crates/styx-lsp/src/semantic_tokens.rs |  7 +++--
 crates/styx-lsp/src/server.rs          | 12 ++++-----
 3 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..fae9c5e 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -384,12 +384,12 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
+        let position = crate::server::offset_to_position(&doc.content, offset);
 
-        Some(styx_lsp_ext::Position { line, character })
+        Some(styx_lsp_ext::Position {
+            line: position.line,
+            character: position.character,
+        })
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -397,28 +397,11 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
-        }
+        let position = tower_lsp::lsp_types::Position::new(
+            params.position.line,
+            params.position.character,
+        );
 
-        None
+        Some(crate::server::position_to_offset(&doc.content, position) as u32)
     }
 }
diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..4590453 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -572,9 +572,8 @@ fn add_token_from_syntax(
     modifiers: u32,
 ) {
     let start: usize = token.text_range().start().into();
-    let end: usize = token.text_range().end().into();
     let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
+    let length = token.text().encode_utf16().count() as u32;
 
     tokens.push(RawToken {
         line,
@@ -585,7 +584,7 @@ fn add_token_from_syntax(
     });
 }
 
-/// Convert byte offset to (line, column)
+/// Convert byte offset to (line, column in UTF-16 code units)
 fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
     let mut line = 0u32;
     let mut col = 0u32;
@@ -598,7 +597,7 @@ fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..4458f1e 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2145,8 +2145,8 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
     None
 }
 
-/// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+/// Convert byte offset to LSP Position (columns count UTF-16 code units, the LSP default)
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
 
@@ -2158,7 +2158,7 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
@@ -2166,12 +2166,12 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
 }
 
 /// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
     for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+        if current_line == position.line && current_col >= position.character {
             return i;
         }
         if ch == '\n' {
@@ -2182,7 +2182,7 @@ fn position_to_offset(content: &str, position: Position) -> usize {
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
-- 
2.43.0


From 213fdb71ad21aa5d30c1d311821ec76ddc42dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 15/23] fix: replace the whole document, final line break
 included, when formatting in the editor

---
 crates/styx-lsp/src/server.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 4458f1e..e8ca658 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1891,20 +1891,13 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
                 start: Position {
                     line: 0,
                     character: 0,
                 },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
-- 
2.43.0


From c341948f9cb86d912dedbe8fca8a8020d7459530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 16/23] fix: do not split a multi-byte blank before the word at
 the cursor

---
 crates/styx-lsp/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index e8ca658..1b4dcf0 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2984,8 +2984,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From e6781adc72601b0b7574a184f1e0b6a363af876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 17/23] fix: do not overflow on section bounds claimed by a
 malformed object file

---
 crates/styx-embed/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..71c5364 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -347,6 +347,12 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The `size` bytes at `start`, if they lie inside the data (headers may claim anything).
+fn slice_at(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    let end = start.checked_add(size)?;
+    data.get(start..end)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +361,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(bytes) = slice_at(data, start, size) {
+                return Some(bytes);
             }
         }
     }
@@ -404,8 +410,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(bytes) = slice_at(data, start, size) {
+                        return Some(bytes);
                     }
                 }
             }
-- 
2.43.0


From 4f1c909220cd74f615024b9545b8d373e8aa5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:55 +0000
Subject: [PATCH 18/23] fix: treat a tagged key with an explicit unit payload
 as the same key as the bare tag

`@tag@` is longhand for `@tag`, so giving both is a duplicate key.
---
 crates/styx-parse/src/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index e86469e..f7348d3 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1584,7 +1584,13 @@ impl KeyValue {
             AtomContent::Unit => KeyValue::Unit,
             AtomContent::Tag { name, payload, .. } => KeyValue::Tagged {
                 name: (*name).to_string(),
-                payload: payload.as_ref().map(|p| Box::new(KeyValue::from_atom(p))),
+                // `@tag@` is the same key as `@tag`
+                payload: match payload {
+                    Some(p) if !matches!(p.content, AtomContent::Unit) => {
+                        Some(Box::new(KeyValue::from_atom(p)))
+                    }
+                    _ => None,
+                },
             },
             AtomContent::Object { .. } => KeyValue::Scalar("{}".into()),
             AtomContent::Sequence { .. } => KeyValue::Scalar("()".into()),
-- 
2.43.0


From fbb89cc60e0f016a4c9f19d79280dacc9245c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 19/23] fix: validate a unit key against the catch-all, not the
 field ""

---
 crates/facet-styx/src/schema_validate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..4cd177f 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -485,9 +485,12 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            // Look up by Documented<ObjectKey> - for named fields (a unit key is not the field `""`)
+            let declared = match key_opt {
+                Some(name) => schema.0.get(&Documented::new(ObjectKey::named(name))),
+                None => None,
+            };
+            if let Some(field_schema) = declared {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
             } else if let Some(add_schema) = additional_schema {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
-- 
2.43.0


From 6aff6696836dafe8d0c880187072f0f25513ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 20/23] fix: a stray comma or a comment after a doc comment is
 not an empty entry

---
 crates/styx-cst/src/ast.rs    | 1 +
 crates/styx-cst/src/parser.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..a868e42 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -138,6 +138,7 @@ impl Entry {
             .take_while(|el| {
                 el.kind() == SyntaxKind::WHITESPACE
                     || el.kind() == SyntaxKind::NEWLINE
+                    || el.kind() == SyntaxKind::COMMA
                     || el.kind() == SyntaxKind::DOC_COMMENT
             })
             .filter_map(|el| el.into_token())
diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..8782331 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -238,6 +238,12 @@ impl<'src> CstParser<'src> {
                 break;
             }
 
+            // A stray separator, or a comment after a doc comment, is not an entry
+            if matches!(self.peek(), TokenKind::Comma | TokenKind::LineComment) {
+                self.bump();
+                continue;
+            }
+
             // Parse an entry
             self.parse_entry(closing);
 
-- 
2.43.0


From 9acd8895a08e6c2b41f899058e0f8e30cbc6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 21/23] fix: do not collapse a sequence whose entry ends with a
 heredoc

---
 crates/styx-format/src/cst_format.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..2d0a3b2 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -384,8 +384,11 @@ impl CstFormatter {
 
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        // (unless it ends with a heredoc, whose closing delimiter must be alone on its line)
+        let should_collapse = !has_comments
+            && entries.len() == 1
+            && !contains_block_object(entries[0].syntax())
+            && !ends_with_heredoc(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -636,6 +639,12 @@ fn is_tag_with_block_payload(entry_node: &SyntaxNode) -> bool {
     false
 }
 
+/// Check if the last token of a node closes a heredoc.
+fn ends_with_heredoc(node: &SyntaxNode) -> bool {
+    node.last_token()
+        .is_some_and(|token| token.kind() == SyntaxKind::HEREDOC_END)
+}
+
 /// Recursively check if a node contains a block-style object or doc comments.
 /// Objects with doc comments also need to be block-formatted.
 fn contains_block_object(node: &SyntaxNode) -> bool {
-- 
2.43.0


From 73f01488cee8263134dd9f9cd79ecec05440ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 22/23] fix: an object without entries and comments is not a
 block when formatting

---
 crates/styx-format/src/cst_format.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 2d0a3b2..b2a29a6 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -653,7 +653,15 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
         && let Some(obj) = Object::cast(node.clone())
     {
         let sep = obj.separator();
-        if matches!(sep, Separator::Newline | Separator::Mixed) {
+        // An object without entries and comments is formatted as `{}`
+        let is_empty = obj.entries().next().is_none()
+            && !node.children_with_tokens().any(|el| {
+                matches!(
+                    el.kind(),
+                    SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT
+                )
+            });
+        if matches!(sep, Separator::Newline | Separator::Mixed) && !is_empty {
             return true;
         }
         // Also check if the object contains doc comments
-- 
2.43.0


From ec105e1d058c37087b520044870533a508519d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:19 +0000
Subject: [PATCH 23/23] fix: a heredoc is not a key of a nested object either

---
 crates/styx-parse/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index f7348d3..33c5d21 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1364,6 +1364,18 @@ impl<'src> Parser<'src> {
                             },
                         });
                     }
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: entry.key.span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     self.event_queue.push_back(Event {
                         span: entry.key.span,
                         kind: EventKind::EntryStart,
-- 
2.43.0

