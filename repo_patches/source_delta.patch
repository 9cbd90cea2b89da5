From 9b6af6da30f343b7085a2a00f78206c3d59f1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:09 +0000
Subject: [PATCH 01/27] fix: convert between character offsets and UTF-16 LSP
 positions

The tokenizer counts spans in characters, but they were used as byte
offsets, and LSP columns are UTF-16 code units. In documents with
non-ASCII text every reported position was off, and the text of debug
annotations was cut at the wrong place (or panicked inside a character).
---
 src/hir_index.rs      | 11 +++++++++--
 src/hir_parser.rs     |  2 +-
 src/lsp_utils.rs      | 11 ++++++++---
 src/semantic_token.rs | 15 ++++++++++-----
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..a1aaea3 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,13 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // All spans are counted in characters. Remember the byte offset of each character
+    let byte_offsets = src
+        .char_indices()
+        .map(|(byte_offset, _)| byte_offset)
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -214,8 +221,8 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             Statement::DbgAnnotation { name, def } => {
                 index.add_global_spanned(SymbolKind::DbgAnnotation, UseDefKind::Def, name);
                 if !def.is_empty() {
-                    let start = def.first().unwrap().1.start;
-                    let end = def.last().unwrap().1.end;
+                    let start = byte_offsets[def.first().unwrap().1.start];
+                    let end = byte_offsets[def.last().unwrap().1.end];
                     let value = &src[start..end];
                     index
                         .dgb_annotation_values
diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..5713b8b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -438,7 +438,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
+        let strlen = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
             strlen..strlen + 1,
             // TODO: can we somehow avoid this copy?
diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..38c5f34 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -3,15 +3,20 @@ use tower_lsp::lsp_types::{Position, Range};
 
 use crate::hir_tokenizer::Span;
 
+// All our offsets are counted in `char`s, since that's what the tokenizer counts.
+// The columns of LSP positions are counted in UTF-16 code units.
+
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
     let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let line_start = rope.try_char_to_utf16_cu(char).ok()?;
+    let utf16_pos = line_start + pos.character as usize;
+    rope.try_utf16_cu_to_char(utf16_pos).ok()
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character = rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..00532b9 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -1,7 +1,8 @@
 use ropey::Rope;
-use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
+use tower_lsp::lsp_types::{Position, SemanticToken, SemanticTokenType};
 
 use crate::hir_tokenizer::{Span, Token};
+use crate::lsp_utils::offset_to_lsp_pos;
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +61,13 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let Position {
+                line,
+                character: start,
+            } = offset_to_lsp_pos(rope, token.start)?;
+            let length = rope
+                .get_slice(token.start..token.start + token.length)?
+                .len_utf16_cu();
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +77,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: length as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From 7637b5737db0d50984495f228bf6b74cba829669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:18 +0000
Subject: [PATCH 02/27] fix: clamp query columns to the end of the line

A column past the end of a line wrapped around to symbols on the
following lines instead of denoting the end of the line.
---
 src/lsp_utils.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index 38c5f34..8c01779 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -7,10 +7,17 @@ use crate::hir_tokenizer::Span;
 // The columns of LSP positions are counted in UTF-16 code units.
 
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
+    let line = rope.get_line(pos.line as usize)?;
     let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    let line_start = rope.try_char_to_utf16_cu(char).ok()?;
-    let utf16_pos = line_start + pos.character as usize;
-    rope.try_utf16_cu_to_char(utf16_pos).ok()
+    // A column past the end of the line refers to the end of the line
+    let line_break_len = line
+        .chars_at(line.len_chars())
+        .reversed()
+        .take_while(|c| *c == '\n' || *c == '\r')
+        .count();
+    let line_end = line.char_to_utf16_cu(line.len_chars() - line_break_len);
+    let character = line_end.min(pos.character as usize);
+    Some(char + line.utf16_cu_to_char(character))
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-- 
2.43.0


From 078026b2edcfcb0efe9174802b2c634c707693e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:57 +0000
Subject: [PATCH 03/27] fix: reject empty names instead of panicking in rename

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..a09e309 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -376,7 +376,10 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
+            if new_name.starts_with(char::is_numeric)
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
-- 
2.43.0


From 02f1d697b6968ac648c2086bbdf7392c03ee134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 04/27] fix: avoid integer overflows when shifting numbered
 names

---
 src/main.rs   | 4 +++-
 src/rename.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a09e309..ffd59f7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -343,7 +343,9 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr.checked_mul(sign).ok_or_else(|| {
+                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
+            })?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index 558d253..7421e35 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -49,7 +49,8 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_nr = (i128::from(nr) + i128::from(shift)).abs();
+            let new_name = format!("{}{}", prefix, new_nr);
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From 6be438af0077ea233594be70dd9f9d57110074db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 05/27] fix: do not split identifiers inside a multi-byte
 character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Extracting the trailing number of an identifier such as `%é1` panicked.
---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 7421e35..6406d23 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(char::is_numeric).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From daea179e9083ad5701e69a60d4c7df10daf4e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 06/27] fix: skip workspace roots which cannot have a path

A root such as `untitled:foo` caused a panic when resolving file paths.
---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..8bfb051 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From dfd34b08264a2e023a795f0fa83962c89e6969f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:29 +0000
Subject: [PATCH 07/27] fix: handle external definitions in line 0

Hyper dumps `file:0` for locations without a line; going to such a
definition underflowed.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ffd59f7..52c89c3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -806,11 +806,13 @@ impl Backend {
                 let root_paths = self.root_paths.lock().unwrap();
                 let uri = resolve_relative_path(&root_paths, &d.filepath)?;
 
+                // Hyper dumps line 0 if it doesn't know the line
+                let position = Position::new(d.line.saturating_sub(1), 0);
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: position,
+                        end: position,
                     },
                 })
             }));
-- 
2.43.0


From 6be45091f16574c9d0b4c2b9da82085759a3882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:36 +0000
Subject: [PATCH 08/27] fix: shorten names at character boundaries

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 8bfb051..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From c7d18c7c5e1afbd29b2aa8d7655f551ea6cb624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:43 +0000
Subject: [PATCH 09/27] fix: use the last of several content changes

Changes are applied in order, so the last full text is the current one.
An empty list of changes panicked.
---
 src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 52c89c3..cba4421 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,12 +170,15 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
-        self.on_change(TextDocumentItem {
-            uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
-            version: params.text_document.version,
-        })
-        .await
+        // With full synchronization, the last change contains the final text
+        if let Some(change) = params.content_changes.pop() {
+            self.on_change(TextDocumentItem {
+                uri: params.text_document.uri,
+                text: change.text,
+                version: params.text_document.version,
+            })
+            .await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From c341d3469f6adae2dba9b426b8430253262fabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:56 +0000
Subject: [PATCH 10/27] fix: check the function when resolving a code action

Resolving an action after its function was removed from the document
panicked.
---
 src/hir_index.rs | 6 ++++++
 src/main.rs      | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index a1aaea3..a925f4c 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -65,6 +65,12 @@ pub enum SymbolKind {
     LocalVar,
 }
 
+impl SymbolKind {
+    pub fn is_function_local(self) -> bool {
+        matches!(self, SymbolKind::Label | SymbolKind::LocalVar)
+    }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct SymbolOccurrence {
     pub span: Span,
diff --git a/src/main.rs b/src/main.rs
index cba4421..38fc35a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -845,6 +845,14 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The document might have changed since we created the code action
+                let func_found = match func_body_id {
+                    Some(id) => id < doc.index.function_bodies.len(),
+                    None => !symbol_kind.is_function_local(),
+                };
+                if !func_found {
+                    return Err(Error::invalid_params("Function not found"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 8fba0db91f271a804e86a3d62f76ed4275082525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 11/27] fix: do not hold the document lock while waiting for
 the client

Changing a document while the client had not yet answered the request to
display a control flow graph deadlocked the server.
---
 src/main.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 38fc35a..19d3cde 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -669,16 +669,13 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("document `{}` not found", doc_uri).into(),
-                        data: None,
-                    })?
-                    .index;
-                let func_body = index
+                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
+                    code: ErrorCode::InvalidParams,
+                    message: format!("document `{}` not found", doc_uri).into(),
+                    data: None,
+                })?;
+                let func_body = doc
+                    .index
                     .function_bodies
                     .iter()
                     .find(|b| b.name.0 == *func_name)
@@ -690,6 +687,9 @@ impl LanguageServer for Backend {
 
                 let title = format!("CFG for {}", func_name);
                 let dot_graph = create_cfg_dot_visualization(func_body);
+                // Release the lock, such that the document can still be updated while
+                // we are waiting for the client
+                drop(doc);
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From bf9790ca4fbdfad102f837a33b0c6ed011c2cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 12/27] fix: exclude skipped characters from the span of the
 next token

After an unrecognized character, the following token also covered the
skipped text, so that e.g. a rename deleted it.
---
 src/hir_tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..22a1776 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,10 +138,10 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .repeated()
         .then_ignore(end())
-- 
2.43.0


From d190568227242c1a1147925ce683152b79eac152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:03 +0000
Subject: [PATCH 13/27] fix: keep the analysis of a file whose last statement
 is malformed

If the tokenizer or parser could not recover before the end of the file,
all tokens and statements of the file were dropped.
---
 src/hir_parser.rs    | 5 +++++
 src/hir_tokenizer.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 5713b8b..e3ec524 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -421,8 +421,13 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .or(func_dependencies)
         .or(dbg_annotation)
         .padded_by(just(Token::Newline).repeated())
+        .map(Some)
         .recover_with(skip_then_retry_until([]))
+        // There might be no more valid statement; then skip the rest of the file
+        .recover_with(skip_until([], |_| None))
         .repeated()
+        .flatten()
+        .padded_by(just(Token::Newline).repeated())
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 22a1776..a7b3a9a 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -144,7 +144,8 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     token
         .padded_by(one_of(" \t").repeated())
         .repeated()
-        .then_ignore(end())
+        // Skip unrecognized characters at the end of the file
+        .then_ignore(end().recover_with(skip_then_retry_until([])))
 }
 
 #[test]
-- 
2.43.0


From 11d7dff0d781015f16ff14449978411d7b868a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:11 +0000
Subject: [PATCH 14/27] fix: report syntax errors at the end of the file

Their span lies after the last character, so they could not be converted
to a range and were dropped.
---
 src/diagnostics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostics.rs b/src/diagnostics.rs
index 3e9169a..29d5708 100644
--- a/src/diagnostics.rs
+++ b/src/diagnostics.rs
@@ -42,6 +42,10 @@ pub fn diagnostics_from_parser<'a>(
             chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),
         };
 
+        // Errors at the end of the input have a span after the last character
+        let len = rope.len_chars();
+        let span = span.start.min(len)..span.end.min(len);
+
         || -> Option<Diagnostic> {
             Some(Diagnostic::new_simple(range_to_lsp(rope, &span)?, message))
         }()
-- 
2.43.0


From 01f06715537707765cdd88ac035a1274126e7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 15/27] fix: exclude the carriage return of a line break from
 comments

With Windows line breaks, comment tokens reached past the end of their line.
---
 src/hir_tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index a7b3a9a..a5ac704 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -53,7 +53,7 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
 
     // A comment parser
     let comment = just('#')
-        .chain(take_until(just('\n').or(end().to('\n')).rewind()))
+        .then(take_until(newline.clone().ignored().or(end()).rewind()))
         .to(Token::Comment);
 
     // A parser for hex numbers
-- 
2.43.0


From b51074062f9cbe4f9354f5b1970e2c33bf78beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 16/27] fix: split semantic tokens at line breaks

---
 src/semantic_token.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index 00532b9..fe32708 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -60,14 +60,13 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let mut pre_start = 0;
     let lsp_tokens = semtoks
         .iter()
-        .filter_map(|token| {
+        .flat_map(|token| split_at_line_breaks(rope, token))
+        .filter_map(|(span, token_type)| {
             let Position {
                 line,
                 character: start,
-            } = offset_to_lsp_pos(rope, token.start)?;
-            let length = rope
-                .get_slice(token.start..token.start + token.length)?
-                .len_utf16_cu();
+            } = offset_to_lsp_pos(rope, span.start)?;
+            let length = rope.get_slice(span)?.len_utf16_cu();
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -78,7 +77,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
                 delta_line,
                 delta_start,
                 length: length as u32,
-                token_type: token.token_type as u32,
+                token_type: token_type as u32,
                 token_modifiers_bitset: 0,
             });
             pre_line = line;
@@ -88,3 +87,24 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
         .collect::<Vec<_>>();
     lsp_tokens
 }
+
+// Clients do not support tokens spanning multiple lines. Hence, split strings at their line breaks
+fn split_at_line_breaks(rope: &Rope, token: &HIRSemanticToken) -> Vec<(Span, usize)> {
+    let mut spans = Vec::new();
+    let mut pos = token.start;
+    if let Some(slice) = rope.get_slice(token.start..token.start + token.length) {
+        for line in slice.lines() {
+            let line_break_len = line
+                .chars_at(line.len_chars())
+                .reversed()
+                .take_while(|c| *c == '\n' || *c == '\r')
+                .count();
+            let end = pos + line.len_chars() - line_break_len;
+            if pos < end {
+                spans.push((pos..end, token.token_type));
+            }
+            pos += line.len_chars();
+        }
+    }
+    spans
+}
-- 
2.43.0


From 177531712a1bfa9eb58aa09cb436303d7ca119a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:44 +0000
Subject: [PATCH 17/27] fix: reject new names which are no single symbol of the
 renamed kind

---
 src/main.rs   |  9 ++++++++-
 src/rename.rs | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 19d3cde..af039c6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,7 +13,9 @@ use hyper_ir_lsp::diagnostics::{
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
-use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
+use hyper_ir_lsp::rename::{
+    extract_number_from_identifier, get_rename_edits, get_shift_edits, is_valid_symbol_name,
+};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
 };
@@ -391,6 +393,11 @@ impl LanguageServer for Backend {
             }
             new_name = format!("{}{}", prefix, new_name);
 
+            // Colons are only allowed inside a name, and keywords can't be used as labels
+            if !is_valid_symbol_name(symbol.symbol_kind, &new_name) {
+                return Result::Err(Error::invalid_params("Invalid name"));
+            }
+
             // Rename all occurrences
             let usedefs = doc
                 .index
diff --git a/src/rename.rs b/src/rename.rs
index 6406d23..1e8c6ff 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -1,8 +1,10 @@
+use chumsky::Parser;
 use ropey::Rope;
 use tower_lsp::lsp_types::TextEdit;
 
 use crate::{
     hir_index::{HIRIndex, SymbolKind, UseDefList},
+    hir_tokenizer::{tokenizer, Token},
     lsp_utils::range_to_lsp,
 };
 
@@ -12,6 +14,19 @@ pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
     Some((name, nr.parse::<i64>().ok()?))
 }
 
+/// Checks if a name (including its sigil) is recognized as a single symbol of the given kind
+pub fn is_valid_symbol_name(symbol_kind: SymbolKind, name: &str) -> bool {
+    match tokenizer().parse(name).as_deref() {
+        Ok([(token, _)]) => match symbol_kind {
+            SymbolKind::GlobalVar | SymbolKind::Function => matches!(token, Token::GlobalName(_)),
+            SymbolKind::DbgAnnotation => matches!(token, Token::DebugRef(_)),
+            SymbolKind::Label => matches!(token, Token::Ident(_)),
+            SymbolKind::LocalVar => matches!(token, Token::LocalName(_)),
+        },
+        _ => false,
+    }
+}
+
 pub fn get_rename_edits(rope: &Rope, usedefs: &UseDefList, new_name: &str) -> Vec<TextEdit> {
     usedefs
         .decls
-- 
2.43.0


From e010d6d97785bc764c2ecb4c3dc1e044bdb27d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:52 +0000
Subject: [PATCH 18/27] fix: do not let symbol names add lines to backtrace
 tooltips

---
 src/backtrace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 7a3651d..2eda24d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -109,10 +109,13 @@ pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
 fn sanitize_markdown_code(txt: &str) -> String {
     let mut sanitized = String::with_capacity(txt.bytes().len());
     for c in txt.chars() {
-        if c.is_alphanumeric() || c.is_whitespace() {
+        if c.is_alphanumeric() {
             // We allow all alphanumeric chars.
             // Hopefully, none of them has a special meaning in Markdown.
             sanitized.push(c);
+        } else if c.is_whitespace() {
+            // Line breaks would end the code span
+            sanitized.push(' ');
         } else {
             match c {
                 // Forward characters which are safe in Markdown code blocks.
-- 
2.43.0


From bb0e388e8ab0c6a5cb7faf7a22adea5f67bda782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:14 +0000
Subject: [PATCH 19/27] fix: escape file names in backtrace tooltips

---
 src/backtrace.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 2eda24d..4fc45d7 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -139,9 +139,27 @@ fn sanitize_markdown_code(txt: &str) -> String {
     sanitized
 }
 
+// Escapes a string which we are about to embed into Markdown text
+fn escape_markdown_text(txt: &str) -> String {
+    let mut escaped = String::with_capacity(txt.len());
+    for c in txt.chars() {
+        match c {
+            '\\' | '`' | '*' | '_' | '[' | ']' | '(' | ')' | '<' | '>' | '!' | '#' | '&' | '~'
+            | '|' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            // Line breaks would end the list item
+            _ if c.is_whitespace() => escaped.push(' '),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn format_frame_as_md(frame: &Frame) -> String {
     if let Some(fp) = &frame.filepath {
-        let shortened_path: &str = shorten_filepath(fp);
+        let shortened_path = escape_markdown_text(shorten_filepath(fp));
         if let Some(resolved_fp) = &frame.resolved_filepath {
             // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
             // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
@@ -150,7 +168,8 @@ fn format_frame_as_md(frame: &Frame) -> String {
                 sanitize_markdown_code(&frame.symbol),
                 shortened_path,
                 frame.line,
-                resolved_fp,
+                // Unbalanced parentheses would end the link target
+                resolved_fp.as_str().replace('(', "%28").replace(')', "%29"),
                 frame.line
             )
         } else {
-- 
2.43.0


From 1093ad04728b1ba0ebd37e78a8c6aa3e00e856d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 20/27] fix: count all basic blocks of a folded function

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index af039c6..4df933e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -490,7 +490,7 @@ impl LanguageServer for Backend {
             let mut folding_ranges = Vec::<FoldingRange>::new();
 
             folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
-                let collapsed_text = format!("{} basic blocks", f.labels.len());
+                let collapsed_text = format!("{} basic blocks", f.basic_blocks.len());
                 let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                 Some(FoldingRange {
                     start_line: range.start.line,
-- 
2.43.0


From 423e106682cd086baae4c52ef1b96f1c7c329d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:03 +0000
Subject: [PATCH 21/27] fix: report no position inside of a CRLF line break

---
 src/lsp_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index 8c01779..27aca03 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -21,6 +21,10 @@ pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
+    // There is no position between the CR and the LF of a line break
+    let inside_crlf =
+        pos > 0 && rope.get_char(pos - 1) == Some('\r') && rope.get_char(pos) == Some('\n');
+    let pos = if inside_crlf { pos - 1 } else { pos };
     let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
     let character = rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
-- 
2.43.0


From be7e4673e4794b3ffb47aa92a4db2e4a31e94d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:27 +0000
Subject: [PATCH 22/27] fix: accept files which consist of blanks only

---
 src/hir_tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index a5ac704..d599a1a 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -144,6 +144,8 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     token
         .padded_by(one_of(" \t").repeated())
         .repeated()
+        // A file can consist of whitespace only
+        .then_ignore(one_of(" \t").repeated())
         // Skip unrecognized characters at the end of the file
         .then_ignore(end().recover_with(skip_then_retry_until([])))
 }
-- 
2.43.0


From 5517787cb278cac98af64444ae5821a75ca04074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:49 +0000
Subject: [PATCH 23/27] fix: link all functions which share a debug reference

---
 src/hir_index.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index a925f4c..819184f 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -4,7 +4,7 @@ use crate::{
     hir_parser::{BasicBlock, Statement},
     hir_tokenizer::{Span, Spanned, Token},
 };
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum UseDefKind {
@@ -209,7 +209,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         .collect::<Vec<_>>();
 
     // Index all definitions / declarations based on the actual parse tree
-    let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
+    let mut unresolved_function_dbgrefs: HashMap<String, HashSet<String>> = Default::default();
     for s in stmts.iter() {
         match s {
             Statement::GlobalVar { name, def: _ } => {
@@ -220,7 +220,10 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             } => {
                 index.add_global_spanned(SymbolKind::Function, UseDefKind::Decl, &signature.name);
                 if let Some(dbgref) = dbgref {
-                    unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());
+                    unresolved_function_dbgrefs
+                        .entry(dbgref.0.clone())
+                        .or_default()
+                        .insert(signature.name.0.clone());
                 }
             }
             Statement::FuncDependencies { .. } => {}
@@ -235,19 +238,21 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                         .insert(name.0.clone(), value.to_string());
                 }
                 // Recognize the filenames and numbers associated with function definitions
-                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
+                if let Some(funcnames) = unresolved_function_dbgrefs.get(&name.0) {
                     if let [(Token::Str(dbgstr), _)] = &def[..] {
                         if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                             if let Ok(line) = linestr.parse::<u32>() {
-                                index
-                                    .functions
-                                    .get_mut(funcname)
-                                    .unwrap()
-                                    .external_defs
-                                    .push(ExternalDef {
-                                        filepath: filepath.to_string(),
-                                        line,
-                                    });
+                                for funcname in funcnames {
+                                    index
+                                        .functions
+                                        .get_mut(funcname)
+                                        .unwrap()
+                                        .external_defs
+                                        .push(ExternalDef {
+                                            filepath: filepath.to_string(),
+                                            line,
+                                        });
+                                }
                             }
                         }
                     }
-- 
2.43.0


From c617daaa9011de053b9a09d69fd42373cd126ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:44 +0000
Subject: [PATCH 24/27] fix: keep source links with tabs or line breaks inside
 the workspace

---
 src/backtrace.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 4fc45d7..5d773bb 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -6,6 +6,11 @@ use tower_lsp::lsp_types::{
 };
 
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
+    // URLs silently drop those characters. E.g., `.\t.` would become `..` and thereby leave the
+    // workspace root.
+    if path.contains(['\t', '\n', '\r']) {
+        return None;
+    }
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
         uri.path_segments_mut().ok()?.extend(path.split('/'));
-- 
2.43.0


From 3e0e0937b3ef14769c55dcb8a09a254f6a5fc57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 25/27] fix: survive replies to canceled commands

---
 src/main.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4df933e..99f5690 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -700,14 +700,23 @@ impl LanguageServer for Backend {
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-                self.client
-                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
-                    .await
-                    .map_err(|e| Error {
-                        code: ErrorCode::InternalError,
-                        message: format!("Failed displaying the dot graph: `{}`", e).into(),
-                        data: None,
-                    })?;
+                //
+                // We wait in a separate task, such that the client can still reply to the
+                // request after it canceled the command.
+                let client = self.client.clone();
+                tokio::spawn(async move {
+                    client
+                        .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
+                        .await
+                })
+                .await
+                .map_err(|_| Error::internal_error())
+                .and_then(|response| response)
+                .map_err(|e| Error {
+                    code: ErrorCode::InternalError,
+                    message: format!("Failed displaying the dot graph: `{}`", e).into(),
+                    data: None,
+                })?;
                 Ok(None)
             }
             _ => Err(Error {
-- 
2.43.0


From 6d2eeff4082aef79b3508ed1684b9fa8cdb20b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:00 +0000
Subject: [PATCH 26/27] fix: reply before the error message is dismissed

---
 vscode-extension/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-extension/src/extension.ts b/vscode-extension/src/extension.ts
index c23d1da..3ac1615 100644
--- a/vscode-extension/src/extension.ts
+++ b/vscode-extension/src/extension.ts
@@ -46,7 +46,7 @@ export async function activate (context: ExtensionContext) {
   client.onRequest('hyperir/showDot', async (params) => {
     const dotGraph = params.dotGraph;
     if (typeof dotGraph !== 'string') {
-      await window.showErrorMessage('Failed to receive Dot visualization. Please report this bug!');
+      void window.showErrorMessage('Failed to receive Dot visualization. Please report this bug!');
       return {};
     }
     // Try to open it in the GraphViz viewer extension
-- 
2.43.0


From 6cbe116882cca0617334117a6e24575eb7f76c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:38 +0000
Subject: [PATCH 27/27] fix: shift names whose number follows a non-decimal
 digit

---
 src/rename.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rename.rs b/src/rename.rs
index 1e8c6ff..eb3aa3d 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id.trim_end_matches(char::is_numeric).len();
+    let offset = id.trim_end_matches(|c: char| c.is_ascii_digit()).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0

