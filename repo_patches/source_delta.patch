From a117112debfa5e9542e826f959e676dd1f2a3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 01/18] fix: convert between spans and LSP positions in
 characters and UTF-16 code units

Spans of the tokenizer count characters, but were taken as byte offsets, and
LSP columns count UTF-16 code units. All ranges behind non-ASCII text were off,
and positions past the end of a line resolved to symbols of later lines.
---
 src/lsp_utils.rs      | 15 +++++++++++----
 src/semantic_token.rs | 12 ++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..c99163b 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -4,14 +4,21 @@ use tower_lsp::lsp_types::{Position, Range};
 use crate::hir_tokenizer::Span;
 
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let line = rope.get_line(pos.line as usize)?;
+    let first = rope.try_line_to_char(pos.line as usize).ok()?;
+    // Positions past the end of the line refer to the end of the line
+    let mut len = line.len_chars();
+    while len > 0 && matches!(line.char(len - 1), '\n' | '\r') {
+        len -= 1;
+    }
+    let character = (pos.character as usize).min(line.try_char_to_utf16_cu(len).ok()?);
+    Some(first + line.try_utf16_cu_to_char(character).ok()?)
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character = rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..e8af175 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -60,9 +60,13 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let line = rope.try_char_to_line(token.start).ok()? as u32;
+            let first = rope.try_line_to_char(line as usize).ok()?;
+            let first_cu = rope.try_char_to_utf16_cu(first).ok()? as u32;
+            let start_cu = rope.try_char_to_utf16_cu(token.start).ok()? as u32;
+            let end = token.start + token.length;
+            let end_cu = rope.try_char_to_utf16_cu(end).ok()? as u32;
+            let start = start_cu - first_cu;
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +76,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: end_cu - start_cu,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From 92068ed59f49bfd2f222306ad6443d9ca35b4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 02/18] fix: do not slice annotation values at character
 offsets taken as bytes

Non-ASCII text in front of a debug annotation crashed the server or cut the
annotation at the wrong place.
---
 src/hir_index.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..0d8f7d4 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,11 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // Spans count characters; we need the byte offsets to slice the source text
+    let byte_offsets = (src.char_indices().map(|(i, _)| i))
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -216,7 +221,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                 if !def.is_empty() {
                     let start = def.first().unwrap().1.start;
                     let end = def.last().unwrap().1.end;
-                    let value = &src[start..end];
+                    let value = &src[byte_offsets[start]..byte_offsets[end]];
                     index
                         .dgb_annotation_values
                         .insert(name.0.clone(), value.to_string());
-- 
2.43.0


From a77a0ba36d4c835ce2a3002b6a811fbd284130d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 03/18] fix: report syntax errors at the end of the file

Their span ends one past the last character, hence they could not be converted
to a LSP range and were dropped.
---
 src/diagnostics.rs | 4 ++++
 src/hir_parser.rs  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diagnostics.rs b/src/diagnostics.rs
index 3e9169a..e4dcd6d 100644
--- a/src/diagnostics.rs
+++ b/src/diagnostics.rs
@@ -42,6 +42,10 @@ pub fn diagnostics_from_parser<'a>(
             chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),
         };
 
+        // Errors at the end of the input point one past the last character
+        let eof = rope.len_chars();
+        let span = span.start.min(eof)..span.end.min(eof);
+
         || -> Option<Diagnostic> {
             Some(Diagnostic::new_simple(range_to_lsp(rope, &span)?, message))
         }()
diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..5713b8b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -438,7 +438,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
+        let strlen = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
             strlen..strlen + 1,
             // TODO: can we somehow avoid this copy?
-- 
2.43.0


From 5fdd43c6ccb3ccb36d237244dbd5d0f816b83b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 04/18] fix: keep everything analysed when the end of a
 document is malformed

Neither the tokenizer nor the parser could recover when no valid token or
statement followed a malformed one (or when the document consisted of empty
lines only): the whole document was dropped. Also, the token after an invalid
character got a span which included the skipped characters.
---
 src/hir_parser.rs    | 10 ++++++++--
 src/hir_tokenizer.rs | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 5713b8b..e15945b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -415,14 +415,20 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(eol.clone())
         .map(|(n, def)| Statement::DbgAnnotation { name: n, def });
 
-    global_var
+    let statement = global_var
         .or(func_decl)
         .or(func_def)
         .or(func_dependencies)
         .or(dbg_annotation)
-        .padded_by(just(Token::Newline).repeated())
+        .then_ignore(just(Token::Newline).repeated())
         .recover_with(skip_then_retry_until([]))
+        .map(Some)
+        // There might be no further valid statement after a malformed one
+        .recover_with(skip_parser(any().repeated().at_least(1).to(None)));
+
+    just(Token::Newline)
         .repeated()
+        .ignore_then(statement.repeated().flatten())
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..106654f 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,12 +138,22 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
-    token
-        .map_with_span(|tok, span| (tok, span))
-        .padded_by(one_of(" \t").repeated())
-        .repeated()
+    let padding = one_of(" \t").repeated();
+
+    padding
+        .clone()
+        .ignore_then(
+            token
+                .then_ignore(padding)
+                .map(Some)
+                // There might be no further valid token after an invalid character
+                .recover_with(skip_parser(any().repeated().at_least(1).to(None)))
+                .repeated()
+                .flatten(),
+        )
         .then_ignore(end())
 }
 
-- 
2.43.0


From 97e5f2f5a061e10708004b5bcf9d652146ba0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 05/18] fix: reject new names which are empty or not a single
 name token

Renaming to an empty name crashed the server. Keywords and type names as label
names as well as leading or trailing colons broke the document.
---
 src/hir_tokenizer.rs | 10 ++++++++++
 src/main.rs          | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 106654f..48581db 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -24,6 +24,16 @@ pub enum Token {
     Define,
 }
 
+impl Token {
+    /// Can this token name a variable, function, label or debug annotation?
+    pub fn is_name(&self) -> bool {
+        matches!(
+            self,
+            Token::LocalName(_) | Token::GlobalName(_) | Token::DebugRef(_) | Token::Ident(_)
+        )
+    }
+}
+
 impl fmt::Display for Token {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
diff --git a/src/main.rs b/src/main.rs
index 50c5aea..13c49db 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ use std::cell::Cell;
 use std::collections::HashMap;
 use std::sync::Mutex;
 
+use chumsky::Parser;
 use dashmap::DashMap;
 use hyper_ir_lsp::backtrace::{
     inlay_hint_for_backtrace, parse_backtrace_from_json, resolve_relative_path,
@@ -12,6 +13,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
+use hyper_ir_lsp::hir_tokenizer::tokenizer;
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
@@ -376,12 +378,23 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            let first_char = new_name
+                .chars()
+                .next()
+                .ok_or_else(|| Error::invalid_params("Name must not be empty"))?;
+            if first_char.is_numeric()
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            // Reject keywords, type names and misplaced colons, which would break the document
+            let is_name = tokenizer()
+                .parse(new_name.as_str())
+                .is_ok_and(|t| matches!(&t[..], [(t, _)] if t.is_name()));
+            if !is_name {
+                return Result::Err(Error::invalid_params("Not a valid name"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
-- 
2.43.0


From 87ce0a8a341aebe13737a9b737acd777ac694dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 06/18] fix: extract numbers from identifiers whose name ends
 in a non-ASCII character

---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..3a88240 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(char::is_numeric).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From 56cdc16bd0d7087763c84b169ff027f7e7365d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 07/18] fix: do not overflow when shifting the numbering

---
 src/main.rs   | 11 +++++++----
 src/rename.rs |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 13c49db..a1c79ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -342,10 +342,13 @@ impl LanguageServer for Backend {
         let mut new_name = params.new_name;
         let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
             let sign = if new_name.starts_with('-') { -1 } else { 1 };
-            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
-                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
-            })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = new_name[1..]
+                .parse::<i64>()
+                .ok()
+                .and_then(|rename_nr| rename_nr.checked_mul(sign))
+                .ok_or_else(|| {
+                    Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
+                })?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index 3a88240..2268b3c 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -46,7 +46,7 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_name = format!("{}{}", prefix, (i128::from(nr) + i128::from(shift)).unsigned_abs());
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From 99c13f1739e2afedf177c7763bc39ca84eca309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 08/18] fix: handle change notifications with no or several
 content changes

---
 src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a1c79ec..ba71457 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -172,12 +172,15 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
-        self.on_change(TextDocumentItem {
-            uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
-            version: params.text_document.version,
-        })
-        .await
+        // With full document sync, the last change wins. There might also be no change at all.
+        if let Some(change) = params.content_changes.pop() {
+            self.on_change(TextDocumentItem {
+                uri: params.text_document.uri,
+                text: change.text,
+                version: params.text_document.version,
+            })
+            .await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From 821a2c2f1e06438c04770e60abadd33996fdbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 09/18] fix: do not underflow for external definitions in line
 0

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ba71457..bc48d3e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -820,11 +820,12 @@ impl Backend {
                 let root_paths = self.root_paths.lock().unwrap();
                 let uri = resolve_relative_path(&root_paths, &d.filepath)?;
 
+                let line = d.line.saturating_sub(1);
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(line, 0),
+                        end: Position::new(line, 0),
                     },
                 })
             }));
-- 
2.43.0


From f9c21e592d4366b9efe80757b5e587905edb098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 10/18] fix: skip workspace roots whose URI cannot be a base

---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..8bfb051 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From f092999804e1dc6d8f6a3cea2ad6a9dd0ed3bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 11/18] fix: shorten symbol names at character boundaries

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 8bfb051..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From 963fdabf1393a367b5534d6f8bb4d9f26b64345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 12/18] fix: do not forward line breaks into Markdown code
 spans

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 7a3651d..9ff0817 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -109,8 +109,8 @@ pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
 fn sanitize_markdown_code(txt: &str) -> String {
     let mut sanitized = String::with_capacity(txt.bytes().len());
     for c in txt.chars() {
-        if c.is_alphanumeric() || c.is_whitespace() {
-            // We allow all alphanumeric chars.
+        if c.is_alphanumeric() || c == ' ' {
+            // We allow all alphanumeric chars and spaces, but no line breaks.
             // Hopefully, none of them has a special meaning in Markdown.
             sanitized.push(c);
         } else {
-- 
2.43.0


From 0960d26484169c310bdc2777224f4c9268eeb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 13/18] fix: do not lock the document while the client displays
 its graph

---
 src/main.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bc48d3e..8e8b8bd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -680,27 +680,27 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
+                let title = format!("CFG for {}", func_name);
+                // Don't hold on to the document while waiting for the client below. The client
+                // might first change the document, and that change would block forever.
+                let dot_graph = {
+                    let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                         code: ErrorCode::InvalidParams,
                         message: format!("document `{}` not found", doc_uri).into(),
                         data: None,
-                    })?
-                    .index;
-                let func_body = index
-                    .function_bodies
-                    .iter()
-                    .find(|b| b.name.0 == *func_name)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("function `{}` not found", func_name).into(),
-                        data: None,
                     })?;
-
-                let title = format!("CFG for {}", func_name);
-                let dot_graph = create_cfg_dot_visualization(func_body);
+                    let func_body = doc
+                        .index
+                        .function_bodies
+                        .iter()
+                        .find(|b| b.name.0 == *func_name)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("function `{}` not found", func_name).into(),
+                            data: None,
+                        })?;
+                    create_cfg_dot_visualization(func_body)
+                };
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From f69a8a0919b396734900102246b30af78f59dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 14/18] fix: reject resolving a code action whose function is
 gone

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 8e8b8bd..e16c3bc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -855,6 +855,16 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The function might be gone if the document changed in the meantime
+                let is_local = matches!(
+                    symbol_kind,
+                    hyper_ir_lsp::hir_index::SymbolKind::Label
+                        | hyper_ir_lsp::hir_index::SymbolKind::LocalVar
+                );
+                let func_exists = |id| id < doc.index.function_bodies.len();
+                if !func_body_id.map_or(!is_local, func_exists) {
+                    return Err(Error::invalid_params("Function not found"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 1e80f747682fd98c73b23fccfce2c41b0695e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:07 +0000
Subject: [PATCH 15/18] fix: do not let branch instructions continue on the
 next line

---
 src/hir_parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index e15945b..a7b732d 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -170,7 +170,7 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
     let condbr_instruction = just(Token::Ident("br".to_string()))
         .map_with_span(|_, span| ("br".to_string(), span))
         .then_ignore(just(Token::Type("int1".to_string())))
-        .then_ignore(any())
+        .then_ignore(none_of(Token::Newline))
         .then_ignore(just(Token::Punctuation(',')))
         .then(ident)
         .then_ignore(just(Token::Punctuation(',')))
@@ -202,7 +202,7 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(
             none_of([Token::Punctuation(','), Token::Newline])
                 .or(just(Token::Punctuation(','))
-                    .then_ignore(none_of(Token::Ident("cont".to_string()))))
+                    .then_ignore(none_of([Token::Ident("cont".to_string()), Token::Newline])))
                 .repeated(),
         )
         .then_ignore(just(Token::Punctuation(',')))
@@ -231,8 +231,10 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .map_with_span(|_, span| ("switch".to_string(), span))
         .then_ignore(
             none_of([Token::Punctuation(','), Token::Newline])
-                .or(just(Token::Punctuation(','))
-                    .then_ignore(none_of(Token::Ident("default".to_string()))))
+                .or(just(Token::Punctuation(',')).then_ignore(none_of([
+                    Token::Ident("default".to_string()),
+                    Token::Newline,
+                ])))
                 .repeated(),
         )
         .then_ignore(just(Token::Punctuation(',')))
@@ -242,7 +244,7 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(just(Token::Punctuation(',')))
         .then(
             type_
-                .then(any())
+                .then(none_of(Token::Newline))
                 .then(just(Token::Ident("label".to_string())))
                 .then(just(Token::Punctuation('=')))
                 .ignore_then(ident)
-- 
2.43.0


From f46dbe1494d150bfceb613a6a5c785672c1dfd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:07 +0000
Subject: [PATCH 16/18] fix: find the external definitions of all declared
 functions

---
 src/hir_index.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index 0d8f7d4..70eb3f1 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -201,7 +201,8 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         .collect::<Vec<_>>();
 
     // Index all definitions / declarations based on the actual parse tree
-    let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
+    let mut function_dbgrefs: Vec<(&str, &str)> = Default::default();
+    let mut source_locations: HashMap<&str, Vec<ExternalDef>> = Default::default();
     for s in stmts.iter() {
         match s {
             Statement::GlobalVar { name, def: _ } => {
@@ -212,7 +213,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             } => {
                 index.add_global_spanned(SymbolKind::Function, UseDefKind::Decl, &signature.name);
                 if let Some(dbgref) = dbgref {
-                    unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());
+                    function_dbgrefs.push((&dbgref.0, &signature.name.0));
                 }
             }
             Statement::FuncDependencies { .. } => {}
@@ -227,20 +228,16 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                         .insert(name.0.clone(), value.to_string());
                 }
                 // Recognize the filenames and numbers associated with function definitions
-                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
-                    if let [(Token::Str(dbgstr), _)] = &def[..] {
-                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
-                            if let Ok(line) = linestr.parse::<u32>() {
-                                index
-                                    .functions
-                                    .get_mut(funcname)
-                                    .unwrap()
-                                    .external_defs
-                                    .push(ExternalDef {
-                                        filepath: filepath.to_string(),
-                                        line,
-                                    });
-                            }
+                if let [(Token::Str(dbgstr), _)] = &def[..] {
+                    if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
+                        if let Ok(line) = linestr.parse::<u32>() {
+                            source_locations
+                                .entry(&name.0)
+                                .or_default()
+                                .push(ExternalDef {
+                                    filepath: filepath.to_string(),
+                                    line,
+                                });
                         }
                     }
                 }
@@ -318,6 +315,16 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         }
     }
 
+    // Associate the declared functions with the source locations from their debug annotations
+    for (dbgref, funcname) in function_dbgrefs {
+        let external_defs = &mut index.functions.get_mut(funcname).unwrap().external_defs;
+        for external_def in source_locations.get(dbgref).into_iter().flatten() {
+            if !external_defs.contains(external_def) {
+                external_defs.push(external_def.clone());
+            }
+        }
+    }
+
     // Index all uses based on the raw token stream
     let mut func_body_id: Option<usize> = None;
     for t in tokens.iter() {
-- 
2.43.0


From 9caf6c2295e53c799ec34853cdcb75e1cef0149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:07 +0000
Subject: [PATCH 17/18] fix: escape file names in the Markdown of backtraces

---
 src/backtrace.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 9ff0817..e4ff313 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -136,9 +136,25 @@ fn sanitize_markdown_code(txt: &str) -> String {
     sanitized
 }
 
+// Escapes a string such that Markdown displays it literally outside of code blocks
+fn escape_markdown(txt: &str) -> String {
+    let mut escaped = String::with_capacity(txt.len());
+    for c in txt.chars() {
+        match c {
+            // Those characters have no special meaning inside a line of text
+            '.' | ',' | ':' | '+' | '-' | '=' | '/' => escaped.push(c),
+            _ if c.is_ascii_punctuation() => escaped.extend(['\\', c]),
+            // No line breaks
+            _ if c.is_control() => escaped.push('�'),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn format_frame_as_md(frame: &Frame) -> String {
     if let Some(fp) = &frame.filepath {
-        let shortened_path: &str = shorten_filepath(fp);
+        let shortened_path = escape_markdown(shorten_filepath(fp));
         if let Some(resolved_fp) = &frame.resolved_filepath {
             // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
             // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
@@ -147,7 +163,8 @@ fn format_frame_as_md(frame: &Frame) -> String {
                 sanitize_markdown_code(&frame.symbol),
                 shortened_path,
                 frame.line,
-                resolved_fp,
+                // Parentheses would end the link
+                resolved_fp.as_str().replace('(', "%28").replace(')', "%29"),
                 frame.line
             )
         } else {
-- 
2.43.0


From 74bdbba8f9577f7969396011230f095820bc36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 18/18] fix: state the number of basic blocks on folded
 functions

The number of distinct labels also counted labels which are only
referenced, and missed blocks without a label.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e16c3bc..3f4946d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -494,7 +494,7 @@ impl LanguageServer for Backend {
             let mut folding_ranges = Vec::<FoldingRange>::new();
 
             folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
-                let collapsed_text = format!("{} basic blocks", f.labels.len());
+                let collapsed_text = format!("{} basic blocks", f.basic_blocks.len());
                 let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                 Some(FoldingRange {
                     start_line: range.start.line,
-- 
2.43.0

