From ae94c4df7d13f76aafa8ab5366cbbd034f9734a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 01/15] fix: do not read a bracket inside a field's value as an
 array header

An unquoted key ends at the first colon. A line such as
  a: "[1]: x"
was parsed as an array header with the key 'a: "', so text written by the
encoder could not be decoded again.
---
 src/decode/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..c1c93b7 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -57,6 +57,12 @@ pub fn parse_array_header_line(
         return Ok(None);
     };
 
+    // A colon before the bracket ends an unquoted key: the bracket then belongs
+    // to the value (`key: "[1]: x"`), not to an array header.
+    if !trimmed.starts_with(DOUBLE_QUOTE) && content[..bracket_start].contains(COLON) {
+        return Ok(None);
+    }
+
     let Some(bracket_end) = content[bracket_start..].find(CLOSE_BRACKET) else {
         return Ok(None);
     };
-- 
2.43.0


From a2473551eaa5c21da39f38b69a8919014686ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 02/15] fix: find the closing brace of a field list outside
 quotes

A quoted field name may contain a closing brace; the header
  [1]{"a}b"}:
was cut at it and the document rejected.
---
 src/decode/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index c1c93b7..edbdff0 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -78,9 +78,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_closing_brace(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -120,9 +119,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_closing_brace(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
@@ -154,6 +152,17 @@ pub fn parse_array_header_line(
     }))
 }
 
+/// Find the brace that closes the field list opened at `brace_start`. Braces in
+/// quoted field names do not count, unless a quote is left open: then the field
+/// list is cut at the first brace, and parsing its names reports the quote.
+fn find_closing_brace(content: &str, brace_start: usize) -> Option<usize> {
+    find_unquoted_char(content, CLOSE_BRACE, brace_start).or_else(|| {
+        content[brace_start..]
+            .find(CLOSE_BRACE)
+            .map(|idx| brace_start + idx)
+    })
+}
+
 /// Hard cap on the declared length that appears inside an array header `[N]`.
 ///
 /// A TOON file claiming e.g. `[9999999999]` should not be allowed to drive
-- 
2.43.0


From ce70f50332026536eebc137e0aebff6fe83e8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 03/15] fix: quote a leading-zero string only when all of it
 looks numeric

Strings such as 05abc or 00123-456 were quoted although no reader can
take them for a number.
---
 src/shared/literal_utils.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/shared/literal_utils.rs b/src/shared/literal_utils.rs
index 881a5d5..9a635f9 100644
--- a/src/shared/literal_utils.rs
+++ b/src/shared/literal_utils.rs
@@ -15,15 +15,12 @@ pub fn is_numeric_like(value: &str) -> bool {
     let bytes = trimmed.as_bytes();
     let mut i = 0usize;
 
-    let digit_start = if bytes[0] == b'-' {
+    if bytes[0] == b'-' {
         i += 1;
         if i >= bytes.len() {
             return false;
         }
-        1
-    } else {
-        0
-    };
+    }
 
     let mut digit_count = 0usize;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
@@ -35,11 +32,6 @@ pub fn is_numeric_like(value: &str) -> bool {
         return false;
     }
 
-    // Leading zero checks for integer-like values (works for both positive and negative).
-    if digit_count > 1 && bytes[digit_start] == b'0' {
-        return true;
-    }
-
     let mut saw_dot = false;
     if i < bytes.len() && bytes[i] == b'.' {
         saw_dot = true;
-- 
2.43.0


From 17df464abd75b8ddc36f487af6cbf0053d4fdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 04/15] fix: check folded keys against the first field of a
 list item

The fields after the first one of an object in a list were folded without
looking at the first field's key, so [{"a.b":1,"a":{"b":2}}] was written
with the key a.b twice.
---
 src/encode/encoders.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..1cd7461 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -366,11 +366,6 @@ fn encode_object_as_list_item_lines(
     }
 
     let first = obj[0].clone();
-    let rest = if obj.len() > 1 {
-        obj[1..].to_vec()
-    } else {
-        Vec::new()
-    };
     let (first_key, first_value) = first;
 
     if let JsonValue::Array(items) = &first_value
@@ -385,9 +380,7 @@ fn encode_object_as_list_item_lines(
         );
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
-        if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
-        }
+        encode_remaining_fields_lines(obj, depth + 1, options, out);
         return;
     }
 
@@ -445,8 +438,31 @@ fn encode_object_as_list_item_lines(
         }
     }
 
-    if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+    encode_remaining_fields_lines(obj, depth + 1, options, out);
+}
+
+/// Encode every field of a list-item object but the first, which is on the
+/// hyphen line. A folded key must not collide with any of its siblings, the
+/// first one included.
+fn encode_remaining_fields_lines(
+    obj: &JsonObject,
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    out: &mut Vec<String>,
+) {
+    let keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    for (key, val) in obj.iter().skip(1) {
+        encode_key_value_pair_lines(
+            key,
+            val,
+            depth,
+            options,
+            &keys,
+            None,
+            None,
+            options.flatten_depth,
+            out,
+        );
     }
 }
 
-- 
2.43.0


From f3b3f2a971c5b5c12b01fba9ddd015a8ad25c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 05/15] fix: reject lines that nothing reads in strict mode

Leftover lines after a root array, and lines no object or array reads,
ended the decoding quietly and the rest of the document was dropped.
---
 src/decode/decoders.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..2db1f40 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -58,6 +58,7 @@ pub fn decode_stream_sync(
     {
         cursor.advance_sync();
         decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        reject_unread_lines(&cursor, context)?;
         return Ok(events);
     }
 
@@ -85,10 +86,22 @@ pub fn decode_stream_sync(
         decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
     }
 
+    reject_unread_lines(&cursor, context)?;
     events.push(JsonStreamEvent::EndObject);
     Ok(events)
 }
 
+/// In strict mode every line must have found its place in the document.
+fn reject_unread_lines(cursor: &StreamingLineCursor, options: DecoderContext) -> Result<()> {
+    match cursor.peek_sync() {
+        Some(line) if options.strict => Err(ToonError::validation(
+            line.line_number,
+            "Unexpected content: the line belongs to no object or array at its indentation",
+        )),
+        _ => Ok(()),
+    }
+}
+
 fn decode_key_value_sync(
     events: &mut Vec<JsonStreamEvent>,
     content: &str,
-- 
2.43.0


From 18acb6ab2541a93832c152cec0ff309a2ab939e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 06/15] fix: reject event streams with keyless members or
 valueless keys

An object or array inside an object without a key, and a key followed by
another key or the end, produced text that is not JSON.
---
 src/cli/json_stream.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..336d39b 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -42,7 +42,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "startObject event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -57,8 +63,11 @@ pub fn json_stream_from_events(
                 let Some(context) = stack.pop() else {
                     return Err(ToonError::message("Mismatched endObject event"));
                 };
-                if !matches!(context, JsonContext::Object { .. }) {
+                let JsonContext::Object { expect_value, .. } = context else {
                     return Err(ToonError::message("Mismatched endObject event"));
+                };
+                if expect_value {
+                    return Err(ToonError::message("Key event without a value"));
                 }
                 depth = depth.saturating_sub(1);
                 if indent > 0
@@ -97,7 +106,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "startArray event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -145,6 +160,9 @@ pub fn json_stream_from_events(
                 else {
                     return Err(ToonError::message("Key event outside of object context"));
                 };
+                if *expect_value {
+                    return Err(ToonError::message("Key event without a value"));
+                }
 
                 if *needs_comma {
                     out.push(",".to_string());
-- 
2.43.0


From 69c5dbe13a453520c630d252e4f605379b0e6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 07/15] fix: escape strings in JSON text as JSON.stringify does

The value writer used long escapes for DEL, the C1 controls, backspace
and form feed and so differed from the event writer.
---
 src/cli/json_stringify.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_stringify.rs b/src/cli/json_stringify.rs
index 33fc952..2d709ee 100644
--- a/src/cli/json_stringify.rs
+++ b/src/cli/json_stringify.rs
@@ -155,8 +155,10 @@ fn push_json_string(buf: &mut String, s: &str) {
             '\n' => buf.push_str("\\n"),
             '\r' => buf.push_str("\\r"),
             '\t' => buf.push_str("\\t"),
-            c if c.is_control() => {
-                // Use \uXXXX format for control characters
+            '\u{8}' => buf.push_str("\\b"),
+            '\u{c}' => buf.push_str("\\f"),
+            c if c < ' ' => {
+                // Use \uXXXX format for the remaining C0 control characters
                 let _ = write!(buf, "\\u{:04x}", c as u32);
             }
             c => buf.push(c),
-- 
2.43.0


From 6f537155582209045651504c23e0fdf8d6c20920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 08/15] fix: report errors from the last buffered write to the
 output file

---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..758bfcf 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping the writer would hide an error from the buffered rest
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping the writer would hide an error from the buffered rest
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 68cfa5f63084f76036ff2b86cbe358a834145ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 09/15] fix: limit the nesting depth of documents

The decoder recurses per level, so a document nested some thousand levels
deep overflowed the stack and aborted the process.
---
 src/decode/scanner.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decode/scanner.rs b/src/decode/scanner.rs
index 8550e29..329a98b 100644
--- a/src/decode/scanner.rs
+++ b/src/decode/scanner.rs
@@ -3,6 +3,10 @@ use crate::shared::constants::{SPACE, TAB};
 
 pub type Depth = usize;
 
+/// Maximum nesting depth of a document. The decoder recurses once or twice per
+/// level, so deeper documents could exhaust the stack and abort the process.
+pub const MAX_NESTING_DEPTH: Depth = 1000;
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct ParsedLine {
     pub raw: String,
@@ -100,6 +104,13 @@ pub fn parse_line_incremental(
         }
     }
 
+    if depth > MAX_NESTING_DEPTH {
+        return Err(ToonError::validation(
+            line_number,
+            format!("Nesting depth {depth} exceeds maximum allowed ({MAX_NESTING_DEPTH})"),
+        ));
+    }
+
     Ok(Some(ParsedLine {
         raw: raw.to_string(),
         indent,
-- 
2.43.0


From 9376f6ea0b388a4fa9217f66ec35f22565d9af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 10/15] fix: decode nested documents correctly in the async
 decode stream

Array fields lost their length, the root object was opened a second time
for the rest of a document after its first nested field, line numbers
and blank lines were lost, and an error was reported again on every poll.
The stream now decodes the root object field by field with the decoder of
the synchronous path, and ends after its first error.
---
 src/decode/async_decode.rs | 362 +++++++++++++------------------------
 src/decode/decoders.rs     |  26 ++-
 2 files changed, 147 insertions(+), 241 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..fb8b3d7 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -23,18 +23,17 @@
 //! ```
 
 use crate::JsonStreamEvent;
-use crate::decode::decoders as decoder_impl;
-use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+use crate::decode::decoders::{
+    self as decoder_impl, DecoderContext, decode_document, decode_key_value_sync,
+    is_key_value_line_sync, reject_unread_lines,
 };
+use crate::decode::parser::{is_array_header_content, parse_array_header_line, parse_key_token};
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    ParsedLine, StreamingLineCursor, StreamingScanState, create_scan_state, parse_line_incremental,
 };
-use crate::error::{Result, ToonError};
+use crate::error::Result;
 use crate::options::DecodeStreamOptions;
-use crate::shared::constants::{COLON, DEFAULT_DELIMITER, LIST_ITEM_PREFIX};
-use crate::shared::string_utils::find_closing_quote;
+use crate::shared::constants::DEFAULT_DELIMITER;
 use asupersync::stream::{Stream, StreamExt, iter};
 use std::collections::VecDeque;
 use std::pin::Pin;
@@ -45,18 +44,16 @@ use std::task::{Context, Poll};
 enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
-    /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
-    ArrayMode,
+    /// Inside the root object: fields are decoded one after the other
+    RootObject,
+    /// Root array, or root scalar: decoded as a whole at the end
+    WholeDocument,
+    /// Lenient mode met a line that belongs nowhere: the rest is only scanned
+    IgnoringRest,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -66,9 +63,12 @@ type ObjectDepth = Depth;
 /// # Incremental Processing
 ///
 /// The stream emits events incrementally when possible:
-/// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// - A root object field with a scalar value is emitted as its line arrives
+/// - A root object field with nested content is emitted once its last line has
+///   been read
+/// - Root arrays are emitted when all lines have been read
+///
+/// After an error the stream ends.
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +80,11 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
+    /// Lines read but not decoded yet: a root field with the lines below it,
+    /// or the whole document
     line_buffer: Vec<ParsedLine>,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
-    /// Error encountered during processing
-    error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,22 +97,16 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
             line_buffer: Vec::new(),
             lines_exhausted: false,
-            error: None,
-            last_depth: None,
         }
     }
 
-    /// Get the indent size from options
-    fn indent_size(&self) -> usize {
-        self.options.indent.unwrap_or(2)
-    }
-
-    /// Get the strict mode setting
-    fn strict(&self) -> bool {
-        self.options.strict.unwrap_or(true)
+    fn context(&self) -> DecoderContext {
+        DecoderContext {
+            indent: self.options.indent.unwrap_or(2),
+            strict: self.options.strict.unwrap_or(true),
+        }
     }
 
     /// Process the next available event or line
@@ -127,237 +116,138 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             return Ok(Some(event));
         }
 
-        // Check for stored error
-        if let Some(err) = self.error.take() {
-            return Err(err);
-        }
-
         // If finished, nothing more to do
         if self.state == DecoderState::Finished {
             return Ok(None);
         }
 
-        // If lines are exhausted, finalize
-        if self.lines_exhausted {
-            return self.finalize();
-        }
-
         // Get next line
         let Some(raw_line) = self.lines.next() else {
             self.lines_exhausted = true;
-            return self.finalize();
+            self.finalize()?;
+            return Ok(self.event_queue.pop_front());
         };
 
-        // Parse the line (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+        let context = self.context();
+        let parsed = parse_line_incremental(
+            &raw_line,
+            &mut self.scan_state,
+            context.indent,
+            context.strict,
+        )?;
 
         // Skip blank lines
-        let Some(line) = parsed else {
-            return Ok(None);
-        };
+        if let Some(line) = parsed {
+            self.process_line(line)?;
+        }
+        Ok(self.event_queue.pop_front())
+    }
 
-        // Process based on current state
+    fn process_line(&mut self, line: ParsedLine) -> Result<()> {
         match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
+            DecoderState::Initial => {
+                let is_root_array = is_array_header_content(&line.content)
+                    && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some();
+                if is_root_array || !is_key_value_line_sync(&line) {
+                    self.state = DecoderState::WholeDocument;
+                    self.line_buffer.push(line);
+                    return Ok(());
+                }
+                self.state = DecoderState::RootObject;
+                self.event_queue.push_back(JsonStreamEvent::StartObject);
+                self.start_field(line)
             }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
+            DecoderState::RootObject if line.depth == 0 => {
+                self.finish_field()?;
+                if self.state == DecoderState::RootObject {
+                    self.start_field(line)?;
+                }
+                Ok(())
             }
-            DecoderState::Finished => Ok(None),
-        }
-    }
-
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
-
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
+            DecoderState::RootObject => {
+                let orphan = self.line_buffer.is_empty();
+                self.line_buffer.push(line);
+                if orphan {
+                    // The field above is complete, so nothing reads this line.
+                    let cursor = self.take_cursor();
+                    self.reject_or_ignore(&cursor)?;
                 }
+                Ok(())
             }
+            DecoderState::WholeDocument => {
+                self.line_buffer.push(line);
+                Ok(())
+            }
+            DecoderState::IgnoringRest | DecoderState::Finished => Ok(()),
         }
+    }
 
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
+    /// Start a field of the root object. A field that ends on its first line
+    /// is decoded at once.
+    fn start_field(&mut self, line: ParsedLine) -> Result<()> {
+        let ends_here = if parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some() {
+            false
+        } else {
+            let (_, end, _) = parse_key_token(&line.content, 0)?;
+            !line.content[end..].trim().is_empty()
+        };
+        self.line_buffer.push(line);
+        if ends_here {
+            self.finish_field()
+        } else {
+            Ok(())
         }
-
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
-        Ok(self.event_queue.pop_front())
     }
 
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
-
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
+    /// Decode the buffered field of the root object, if there is one.
+    fn finish_field(&mut self) -> Result<()> {
+        if self.line_buffer.is_empty() {
             return Ok(());
         }
-
-        // Parse key-value
-        let (key, end, is_quoted) = parse_key_token(content, 0)?;
-        let rest = content[end..].trim();
-
-        if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
+        let mut cursor = self.take_cursor();
+        let Some(line) = cursor.next_sync() else {
             return Ok(());
-        }
-
-        // Key with inline value - can emit incrementally
-        self.event_queue.push_back(JsonStreamEvent::Key {
-            key,
-            was_quoted: is_quoted,
-        });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
-
-        Ok(())
+        };
+        let mut events = Vec::new();
+        let context = self.context();
+        decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
+        self.event_queue.extend(events);
+        self.reject_or_ignore(&cursor)
     }
 
-    /// Check if a line is a key-value line
-    fn is_key_value_line(line: &ParsedLine) -> bool {
-        let content = line.content.as_str();
-
-        // Handle list items
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            return false;
-        }
-
-        // Handle quoted keys
-        if content.starts_with('"') {
-            if let Some(closing) = find_closing_quote(content, 0) {
-                return content[closing + 1..].contains(COLON);
-            }
-            return false;
+    /// Lines that nothing reads are an error in strict mode and end the
+    /// document in lenient mode.
+    fn reject_or_ignore(&mut self, cursor: &StreamingLineCursor) -> Result<()> {
+        reject_unread_lines(cursor, self.context())?;
+        if !cursor.at_end_sync() {
+            self.state = DecoderState::IgnoringRest;
         }
-
-        // Regular key-value check
-        content.contains(COLON) && is_key_value_content(content)
+        Ok(())
     }
 
-    /// Finalize decoding when all lines are read
-    fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
-            return self.batch_decode_remaining();
-        }
-
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        }
-
-        // If we haven't emitted anything for an empty document
-        if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        } else {
-            self.state = DecoderState::Finished;
-        }
-
-        Ok(self.event_queue.pop_front())
+    fn take_cursor(&mut self) -> StreamingLineCursor {
+        StreamingLineCursor::new(
+            std::mem::take(&mut self.line_buffer),
+            std::mem::take(&mut self.scan_state.blank_lines),
+        )
     }
 
-    /// Fall back to batch decoding for complex structures
-    fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
+    /// Finalize decoding when all lines are read
+    fn finalize(&mut self) -> Result<()> {
+        match self.state {
+            DecoderState::Initial | DecoderState::WholeDocument => {
+                let mut cursor = self.take_cursor();
+                let events = decode_document(&mut cursor, self.context())?;
+                self.event_queue.extend(events);
             }
+            DecoderState::RootObject | DecoderState::IgnoringRest => {
+                self.finish_field()?;
+                self.event_queue.push_back(JsonStreamEvent::EndObject);
+            }
+            DecoderState::Finished => {}
         }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
-
-        let events = decoder_impl::decode_stream_sync(
-            raw_lines,
-            Some(DecodeStreamOptions {
-                indent: self.options.indent,
-                strict: self.options.strict,
-            }),
-        )?;
-
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
         self.state = DecoderState::Finished;
-
-        Ok(self.event_queue.pop_front())
+        Ok(())
     }
 }
 
@@ -376,7 +266,13 @@ impl<I: Iterator<Item = String> + Unpin> Stream for AsyncDecodeStream<I> {
                     }
                     // Not done yet, continue processing
                 }
-                Err(e) => return Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // The stream ends with its first error
+                    self.state = DecoderState::Finished;
+                    self.event_queue.clear();
+                    self.line_buffer.clear();
+                    return Poll::Ready(Some(Err(e)));
+                }
             }
         }
     }
diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index 2db1f40..5470ddb 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -43,7 +43,14 @@ pub fn decode_stream_sync(
     let mut scan_state = create_scan_state();
     let lines = parse_lines_sync(source, context.indent, context.strict, &mut scan_state)?;
     let mut cursor = StreamingLineCursor::new(lines, scan_state.blank_lines);
+    decode_document(&mut cursor, context)
+}
 
+/// Decode a whole scanned document.
+pub(crate) fn decode_document(
+    cursor: &mut StreamingLineCursor,
+    context: DecoderContext,
+) -> Result<Vec<JsonStreamEvent>> {
     let mut events = Vec::new();
 
     let first = cursor.peek_sync().cloned();
@@ -57,8 +64,8 @@ pub fn decode_stream_sync(
         && let Some(header_info) = parse_array_header_line(&first.content, DEFAULT_DELIMITER)?
     {
         cursor.advance_sync();
-        decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
-        reject_unread_lines(&cursor, context)?;
+        decode_array_from_header_sync(&mut events, header_info, cursor, 0, context)?;
+        reject_unread_lines(cursor, context)?;
         return Ok(events);
     }
 
@@ -72,7 +79,7 @@ pub fn decode_stream_sync(
     }
 
     events.push(JsonStreamEvent::StartObject);
-    decode_key_value_sync(&mut events, &first.content, &mut cursor, 0, context)?;
+    decode_key_value_sync(&mut events, &first.content, cursor, 0, context)?;
 
     while !cursor.at_end_sync() {
         let line = cursor.peek_sync().cloned();
@@ -83,16 +90,19 @@ pub fn decode_stream_sync(
             break;
         }
         cursor.advance_sync();
-        decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
+        decode_key_value_sync(&mut events, &line.content, cursor, 0, context)?;
     }
 
-    reject_unread_lines(&cursor, context)?;
+    reject_unread_lines(cursor, context)?;
     events.push(JsonStreamEvent::EndObject);
     Ok(events)
 }
 
 /// In strict mode every line must have found its place in the document.
-fn reject_unread_lines(cursor: &StreamingLineCursor, options: DecoderContext) -> Result<()> {
+pub(crate) fn reject_unread_lines(
+    cursor: &StreamingLineCursor,
+    options: DecoderContext,
+) -> Result<()> {
     match cursor.peek_sync() {
         Some(line) if options.strict => Err(ToonError::validation(
             line.line_number,
@@ -102,7 +112,7 @@ fn reject_unread_lines(cursor: &StreamingLineCursor, options: DecoderContext) ->
     }
 }
 
-fn decode_key_value_sync(
+pub(crate) fn decode_key_value_sync(
     events: &mut Vec<JsonStreamEvent>,
     content: &str,
     cursor: &mut StreamingLineCursor,
@@ -513,7 +523,7 @@ fn yield_object_from_fields(
     events.push(JsonStreamEvent::EndObject);
 }
 
-fn is_key_value_line_sync(line: &ParsedLine) -> bool {
+pub(crate) fn is_key_value_line_sync(line: &ParsedLine) -> bool {
     let content = line.content.as_str();
     if content.starts_with('"') {
         if let Some(closing) = find_closing_quote(content, 0) {
-- 
2.43.0


From 80f60a520b188cb1730d84bda36003fe6a56fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 11/15] fix: do not copy the first field of each list item
 while encoding

---
 src/encode/encoders.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 1cd7461..9628b7d 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -365,16 +365,15 @@ fn encode_object_as_list_item_lines(
         return;
     }
 
-    let first = obj[0].clone();
-    let (first_key, first_value) = first;
+    let (first_key, first_value) = &obj[0];
 
-    if let JsonValue::Array(items) = &first_value
+    if let JsonValue::Array(items) = first_value
         && is_array_of_objects(items)
         && let Some(header) = extract_tabular_header(items)
     {
         let formatted = format_header(
             items.len(),
-            Some(&first_key),
+            Some(first_key),
             Some(&header),
             options.delimiter,
         );
@@ -384,11 +383,11 @@ fn encode_object_as_list_item_lines(
         return;
     }
 
-    let encoded_key = encode_key(&first_key);
+    let encoded_key = encode_key(first_key);
 
     match first_value {
         JsonValue::Primitive(primitive) => {
-            let encoded = encode_primitive(&primitive, options.delimiter);
+            let encoded = encode_primitive(primitive, options.delimiter);
             out.push(indented_list_item_key_value(
                 depth,
                 &encoded_key,
@@ -405,8 +404,8 @@ fn encode_object_as_list_item_lines(
                     &header,
                     options.indent,
                 ));
-            } else if is_array_of_primitives(&items) {
-                let line = encode_inline_array_line(&items, options.delimiter, None);
+            } else if is_array_of_primitives(items) {
+                let line = encode_inline_array_line(items, options.delimiter, None);
                 out.push(indented_list_item_key_header(
                     depth,
                     &encoded_key,
@@ -421,7 +420,7 @@ fn encode_object_as_list_item_lines(
                     &header,
                     options.indent,
                 ));
-                for item in &items {
+                for item in items {
                     encode_list_item_value_lines(item, depth + 2, options, out);
                 }
             }
@@ -432,8 +431,8 @@ fn encode_object_as_list_item_lines(
                 &encoded_key,
                 options.indent,
             ));
-            if !is_empty_object(&entries) {
-                encode_object_lines(&entries, depth + 2, options, None, None, None, out);
+            if !is_empty_object(entries) {
+                encode_object_lines(entries, depth + 2, options, None, None, None, out);
             }
         }
     }
-- 
2.43.0


From e5e42fd84182dac12b01a3cd0f513adac0fba332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 12/15] fix: follow key chains by reference when folding

---
 src/encode/encoders.rs |  8 ++++----
 src/encode/folding.rs  | 43 +++++++++++++++++++-----------------------
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 9628b7d..642f19d 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -103,7 +103,7 @@ fn encode_key_value_pair_lines(
         if folded.remainder.is_none() {
             match folded.leaf_value {
                 JsonValue::Primitive(primitive) => {
-                    let encoded = encode_primitive(&primitive, options.delimiter);
+                    let encoded = encode_primitive(primitive, options.delimiter);
                     out.push(indented_key_value_line(
                         depth,
                         &encoded_key,
@@ -113,11 +113,11 @@ fn encode_key_value_pair_lines(
                     return;
                 }
                 JsonValue::Array(items) => {
-                    encode_array_lines(Some(&folded.folded_key), &items, depth, options, out);
+                    encode_array_lines(Some(&folded.folded_key), items, depth, options, out);
                     return;
                 }
                 JsonValue::Object(entries) => {
-                    if is_empty_object(&entries) {
+                    if is_empty_object(entries) {
                         out.push(indented_key_colon_line(depth, &encoded_key, options.indent));
                         return;
                     }
@@ -134,7 +134,7 @@ fn encode_key_value_pair_lines(
                 folded.folded_key.clone()
             };
             encode_object_lines(
-                &entries,
+                entries,
                 depth + 1,
                 options,
                 root_literal_keys,
diff --git a/src/encode/folding.rs b/src/encode/folding.rs
index 9d88198..9dd227e 100644
--- a/src/encode/folding.rs
+++ b/src/encode/folding.rs
@@ -8,24 +8,24 @@ use crate::shared::constants::DOT;
 use crate::shared::validation::is_identifier_segment;
 
 #[derive(Debug, Clone)]
-pub struct FoldResult {
+pub struct FoldResult<'a> {
     pub folded_key: String,
-    pub remainder: Option<JsonValue>,
-    pub leaf_value: JsonValue,
+    pub remainder: Option<&'a JsonValue>,
+    pub leaf_value: &'a JsonValue,
     pub segment_count: usize,
 }
 
 #[must_use]
 #[allow(clippy::implicit_hasher)]
-pub fn try_fold_key_chain(
-    key: &str,
-    value: &JsonValue,
+pub fn try_fold_key_chain<'a>(
+    key: &'a str,
+    value: &'a JsonValue,
     siblings: &[&str],
     options: &ResolvedEncodeOptions,
     root_literal_keys: Option<&HashSet<String>>,
     path_prefix: Option<&str>,
     flatten_depth: usize,
-) -> Option<FoldResult> {
+) -> Option<FoldResult<'a>> {
     if options.key_folding != KeyFoldingMode::Safe {
         return None;
     }
@@ -50,7 +50,7 @@ pub fn try_fold_key_chain(
     }
 
     let mut folded_key =
-        String::with_capacity(segments.iter().map(String::len).sum::<usize>() + segments.len());
+        String::with_capacity(segments.iter().map(|seg| seg.len()).sum::<usize>() + segments.len());
     for (i, seg) in segments.iter().enumerate() {
         if i > 0 {
             folded_key.push(DOT);
@@ -81,16 +81,16 @@ pub fn try_fold_key_chain(
     })
 }
 
-fn collect_single_key_chain(
-    start_key: &str,
-    start_value: &JsonValue,
+fn collect_single_key_chain<'a>(
+    start_key: &'a str,
+    start_value: &'a JsonValue,
     max_depth: usize,
-) -> (Vec<String>, Option<JsonValue>, JsonValue) {
-    let mut segments = vec![start_key.to_string()];
-    let mut current_value = start_value.clone();
+) -> (Vec<&'a str>, Option<&'a JsonValue>, &'a JsonValue) {
+    let mut segments = vec![start_key];
+    let mut current_value = start_value;
 
     while segments.len() < max_depth {
-        let JsonValue::Object(ref obj) = current_value else {
+        let JsonValue::Object(obj) = current_value else {
             break;
         };
 
@@ -98,20 +98,15 @@ fn collect_single_key_chain(
             break;
         }
 
-        let (next_key, next_value) = obj[0].clone();
+        let (next_key, next_value) = &obj[0];
         segments.push(next_key);
         current_value = next_value;
     }
 
     match current_value {
-        JsonValue::Object(entries) if is_empty_object(&entries) => {
-            let obj = JsonValue::Object(entries);
-            (segments, None, obj)
+        JsonValue::Object(entries) if !is_empty_object(entries) => {
+            (segments, Some(current_value), current_value)
         }
-        JsonValue::Object(entries) => {
-            let remainder = JsonValue::Object(entries);
-            (segments, Some(remainder.clone()), remainder)
-        }
-        other => (segments, None, other),
+        _ => (segments, None, current_value),
     }
 }
-- 
2.43.0


From 6ca985bbd1c9e36eaaf9f4cdb69ed9e89e4a9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 13/15] fix: do not build key paths that nothing compares

---
 src/encode/encoders.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 642f19d..d838a8b 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -8,7 +8,7 @@ use crate::encode::normalize::{
 use crate::encode::primitives::{
     encode_and_join_primitives, encode_key, encode_primitive, format_header,
 };
-use crate::options::ResolvedEncodeOptions;
+use crate::options::{KeyFoldingMode, ResolvedEncodeOptions};
 use crate::shared::constants::{DOT, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::{JsonArray, JsonObject, JsonPrimitive, JsonValue};
 
@@ -86,8 +86,14 @@ fn encode_key_value_pair_lines(
     flatten_depth: usize,
     out: &mut Vec<String>,
 ) {
-    let current_path =
-        path_prefix.map_or_else(|| key.to_string(), |prefix| format!("{prefix}{DOT}{key}"));
+    // Paths are only compared with the literal dotted keys of the root, so they
+    // are not built when folding is off or there are no such keys.
+    let tracks_paths = options.key_folding == KeyFoldingMode::Safe
+        && root_literal_keys.is_some_and(|keys| !keys.is_empty());
+    let join_path = |key: &str| {
+        tracks_paths
+            .then(|| path_prefix.map_or_else(|| key.to_string(), |p| format!("{p}{DOT}{key}")))
+    };
 
     if let Some(folded) = try_fold_key_chain(
         key,
@@ -128,17 +134,13 @@ fn encode_key_value_pair_lines(
         if let Some(JsonValue::Object(entries)) = folded.remainder {
             out.push(indented_key_colon_line(depth, &encoded_key, options.indent));
             let remaining_depth = flatten_depth.saturating_sub(folded.segment_count);
-            let folded_path = if let Some(prefix) = path_prefix {
-                format!("{prefix}{DOT}{}", folded.folded_key)
-            } else {
-                folded.folded_key.clone()
-            };
+            let folded_path = join_path(&folded.folded_key);
             encode_object_lines(
                 entries,
                 depth + 1,
                 options,
                 root_literal_keys,
-                Some(&folded_path),
+                folded_path.as_deref(),
                 Some(remaining_depth),
                 out,
             );
@@ -169,7 +171,7 @@ fn encode_key_value_pair_lines(
                     depth + 1,
                     options,
                     root_literal_keys,
-                    Some(&current_path),
+                    join_path(key).as_deref(),
                     Some(flatten_depth),
                     out,
                 );
-- 
2.43.0


From a9327077299038c9bb9da8a777e569e0c1d78707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 14/15] fix: reject valueless keys and several roots when
 building a tree from events

---
 src/decode/event_builder.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/decode/event_builder.rs b/src/decode/event_builder.rs
index 697d5e2..175d076 100644
--- a/src/decode/event_builder.rs
+++ b/src/decode/event_builder.rs
@@ -70,6 +70,10 @@ pub fn node_to_json(value: NodeValue) -> JsonValue {
 
 #[allow(clippy::too_many_lines)]
 fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
+    if state.root.is_some() {
+        return Err(ToonError::event_stream("Event after the root value"));
+    }
+
     match event {
         JsonStreamEvent::StartObject => {
             state.stack.push(BuildContext::Object {
@@ -84,12 +88,18 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
             };
             let BuildContext::Object {
                 entries,
+                current_key,
                 quoted_keys,
-                ..
             } = context
             else {
                 return Err(ToonError::mismatched_end("Object", "Array"));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event(
+                    "endObject",
+                    "after a key without value",
+                ));
+            }
             let node = NodeValue::Object(ObjectNode {
                 entries,
                 quoted_keys,
@@ -161,6 +171,12 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
                     "outside of object context",
                 ));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event(
+                    "Key",
+                    "after a key without value",
+                ));
+            }
             *current_key = Some(key.clone());
             if was_quoted {
                 quoted_keys.insert(key);
-- 
2.43.0


From 3e34dd009788662043b3c6a9b3b488b9ed378b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 15/15] fix: reject several roots or none when writing JSON
 from events

---
 src/cli/json_stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 336d39b..f49bb49 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -28,6 +28,9 @@ pub fn json_stream_from_events(
     let mut out = Vec::new();
 
     for event in events {
+        if stack.is_empty() && !out.is_empty() {
+            return Err(ToonError::message("Event after the root value"));
+        }
         let parent = stack.last_mut();
         match event {
             JsonStreamEvent::StartObject => {
@@ -221,6 +224,9 @@ pub fn json_stream_from_events(
             "Incomplete event stream: unclosed objects or arrays",
         ));
     }
+    if out.is_empty() {
+        return Err(ToonError::message("Event stream without a root value"));
+    }
 
     Ok(out)
 }
-- 
2.43.0

