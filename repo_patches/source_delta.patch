From 68291bafb6cbfc06b450830157e49a39da79dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 1/9] fix: do not read an array header out of a key's value

A bracket segment inside the (quoted or unquoted) value of a key-value line,
as in `key: "[2]: x"`, was taken for the header of an array, so encoded
strings did not decode to themselves.
---
 src/decode/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..9780d0d 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -50,7 +50,10 @@ pub fn parse_array_header_line(
             .find(OPEN_BRACKET)
             .map(|idx| key_end + idx)
     } else {
-        content.find(OPEN_BRACKET)
+        // A bracket after the key's colon, or inside quotes, belongs to the value.
+        find_unquoted_char(content, OPEN_BRACKET, 0).filter(|&bracket| {
+            find_unquoted_char(content, COLON, 0).is_none_or(|colon| bracket < colon)
+        })
     };
 
     let Some(bracket_start) = bracket_start else {
-- 
2.43.0


From 6afb0631ef96c0ca10fcd56e57c29cd5d7017171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 2/9] fix: find the end of a table's field list outside quotes

A closing brace inside a quoted field name, as in `[1]{"}"}:`, ended the
field list early, so tables with such field names did not decode.
---
 src/decode/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 9780d0d..99144f7 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -75,9 +75,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -117,9 +116,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
-- 
2.43.0


From 8b99aad81b47bf5565856c46a25532ab69b8c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 3/9] fix: a folded key must not collide with the first field
 of a list item

The fields after the first one of a list-item object were folded without
regard to the first key, so `{"a.b": 5, "a": {"b": 1}}` in a list came out
with two `a.b` fields.
---
 src/encode/encoders.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..e0b7d29 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -365,13 +365,7 @@ fn encode_object_as_list_item_lines(
         return;
     }
 
-    let first = obj[0].clone();
-    let rest = if obj.len() > 1 {
-        obj[1..].to_vec()
-    } else {
-        Vec::new()
-    };
-    let (first_key, first_value) = first;
+    let (first_key, first_value) = obj[0].clone();
 
     if let JsonValue::Array(items) = &first_value
         && is_array_of_objects(items)
@@ -385,9 +379,7 @@ fn encode_object_as_list_item_lines(
         );
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
-        if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
-        }
+        encode_remaining_fields_lines(obj, depth + 1, options, out);
         return;
     }
 
@@ -445,8 +437,30 @@ fn encode_object_as_list_item_lines(
         }
     }
 
-    if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+    encode_remaining_fields_lines(obj, depth + 1, options, out);
+}
+
+/// Encode the fields after the first one of a list item. The first key stays a sibling
+/// of theirs, so a folded key cannot collide with it.
+fn encode_remaining_fields_lines(
+    obj: &JsonObject,
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    out: &mut Vec<String>,
+) {
+    let keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    for (key, val) in &obj[1..] {
+        encode_key_value_pair_lines(
+            key,
+            val,
+            depth,
+            options,
+            &keys,
+            None,
+            None,
+            options.flatten_depth,
+            out,
+        );
     }
 }
 
-- 
2.43.0


From 14a5f39635425a1aa54ff022bf72fa72124cce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 4/9] fix: strict decoding rejects lines it would otherwise
 drop

---
 src/decode/decoders.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..d7049c4 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -58,6 +58,7 @@ pub fn decode_stream_sync(
     {
         cursor.advance_sync();
         decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        assert_no_remaining_lines(&cursor, context.strict)?;
         return Ok(events);
     }
 
@@ -84,11 +85,24 @@ pub fn decode_stream_sync(
         cursor.advance_sync();
         decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
     }
+    assert_no_remaining_lines(&cursor, context.strict)?;
 
     events.push(JsonStreamEvent::EndObject);
     Ok(events)
 }
 
+/// In strict mode, a line that belongs to nothing (unexpected indentation, surplus content
+/// after the root value) is an error rather than being dropped silently.
+fn assert_no_remaining_lines(cursor: &StreamingLineCursor, strict: bool) -> Result<()> {
+    if strict && let Some(line) = cursor.peek_sync() {
+        return Err(ToonError::validation(
+            line.line_number,
+            "Unexpected content or indentation",
+        ));
+    }
+    Ok(())
+}
+
 fn decode_key_value_sync(
     events: &mut Vec<JsonStreamEvent>,
     content: &str,
-- 
2.43.0


From 666be54f51249986606bd4986ef3904a8b33baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 5/9] fix: AsyncDecodeStream yields the events of the
 synchronous decoder

---
 src/decode/async_decode.rs | 254 ++++++++++---------------------------
 1 file changed, 69 insertions(+), 185 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..6a7494b 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -25,15 +25,12 @@
 use crate::JsonStreamEvent;
 use crate::decode::decoders as decoder_impl;
 use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+    is_key_value_content, parse_array_header_line, parse_key_token, parse_primitive_token,
 };
-use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
-};
-use crate::error::{Result, ToonError};
+use crate::decode::scanner::{StreamingScanState, create_scan_state, parse_line_incremental};
+use crate::error::Result;
 use crate::options::DecodeStreamOptions;
-use crate::shared::constants::{COLON, DEFAULT_DELIMITER, LIST_ITEM_PREFIX};
+use crate::shared::constants::{COLON, DEFAULT_DELIMITER};
 use crate::shared::string_utils::find_closing_quote;
 use asupersync::stream::{Stream, StreamExt, iter};
 use std::collections::VecDeque;
@@ -45,18 +42,14 @@ use std::task::{Context, Poll};
 enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
-    /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
+    /// Processing root-level `key: value` lines (can emit incrementally)
+    SimpleObject,
+    /// Saw a nested structure or an array, need to process the document as a whole
     ArrayMode,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -65,10 +58,11 @@ type ObjectDepth = Depth;
 ///
 /// # Incremental Processing
 ///
-/// The stream emits events incrementally when possible:
-/// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// The stream emits events incrementally while the document is a flat root object:
+/// every `key: value` line yields its Key and Primitive events as it arrives. The first
+/// line that starts anything else (a nested object, an array, a root primitive) makes the
+/// stream read the rest of the input and decode the document as a whole, continuing after
+/// the events already emitted.
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +74,12 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
-    line_buffer: Vec<ParsedLine>,
+    /// Raw lines read so far, kept for whole-document processing
+    line_buffer: Vec<String>,
+    /// Number of events queued by incremental processing
+    emitted: usize,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
-    /// Error encountered during processing
-    error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,11 +92,9 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
             line_buffer: Vec::new(),
+            emitted: 0,
             lines_exhausted: false,
-            error: None,
-            last_depth: None,
         }
     }
 
@@ -127,18 +115,24 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             return Ok(Some(event));
         }
 
-        // Check for stored error
-        if let Some(err) = self.error.take() {
-            return Err(err);
-        }
-
         // If finished, nothing more to do
         if self.state == DecoderState::Finished {
             return Ok(None);
         }
 
-        // If lines are exhausted, finalize
-        if self.lines_exhausted {
+        // The stream ends with the first error
+        let result = self.process_line();
+        if result.is_err() {
+            self.state = DecoderState::Finished;
+            self.event_queue.clear();
+        }
+        result
+    }
+
+    /// Read and process one line
+    fn process_line(&mut self) -> Result<Option<JsonStreamEvent>> {
+        // Whole-document processing and exhausted input both end the stream
+        if self.lines_exhausted || self.state == DecoderState::ArrayMode {
             return self.finalize();
         }
 
@@ -152,145 +146,59 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         let indent_size = self.indent_size();
         let strict = self.strict();
         let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+        self.line_buffer.push(raw_line);
 
         // Skip blank lines
         let Some(line) = parsed else {
             return Ok(None);
         };
 
-        // Process based on current state
-        match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
-            }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
-            }
-            DecoderState::Finished => Ok(None),
-        }
-    }
-
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
-
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
-                }
-            }
-        }
-
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
+        if line.depth != 0 || !self.process_key_value_line(&line.content)? {
             self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
         }
 
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
         Ok(self.event_queue.pop_front())
     }
 
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
+    /// Queue the events of a root-level line that is a complete `key: value` entry.
+    ///
+    /// Returns `false`, queueing nothing, if the line is anything else.
+    fn process_key_value_line(&mut self, content: &str) -> Result<bool> {
+        let first = self.state == DecoderState::Initial;
+        if first && !Self::is_key_value_line(content) {
+            return Ok(false);
+        }
 
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
+        if parse_array_header_line(content, DEFAULT_DELIMITER)?.is_some() {
+            return Ok(false);
         }
 
-        // Parse key-value
         let (key, end, is_quoted) = parse_key_token(content, 0)?;
         let rest = content[end..].trim();
-
         if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
+            // Key without value - nested content may follow
+            return Ok(false);
         }
+        let value = parse_primitive_token(rest)?;
 
-        // Key with inline value - can emit incrementally
+        let queued = self.event_queue.len();
+        if first {
+            self.state = DecoderState::SimpleObject;
+            self.event_queue.push_back(JsonStreamEvent::StartObject);
+        }
         self.event_queue.push_back(JsonStreamEvent::Key {
             key,
             was_quoted: is_quoted,
         });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
+        self.event_queue
+            .push_back(JsonStreamEvent::Primitive { value });
+        self.emitted += self.event_queue.len() - queued;
 
-        Ok(())
+        Ok(true)
     }
 
     /// Check if a line is a key-value line
-    fn is_key_value_line(line: &ParsedLine) -> bool {
-        let content = line.content.as_str();
-
-        // Handle list items
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            return false;
-        }
-
+    fn is_key_value_line(content: &str) -> bool {
         // Handle quoted keys
         if content.starts_with('"') {
             if let Some(closing) = find_closing_quote(content, 0) {
@@ -305,56 +213,32 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
     /// Finalize decoding when all lines are read
     fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
-            return self.batch_decode_remaining();
-        }
-
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
+        if self.state == DecoderState::ArrayMode {
+            return self.batch_decode();
         }
 
-        // If we haven't emitted anything for an empty document
+        // An empty document is an empty object
         if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
             self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        } else {
-            self.state = DecoderState::Finished;
         }
+        self.event_queue.push_back(JsonStreamEvent::EndObject);
+        self.state = DecoderState::Finished;
 
         Ok(self.event_queue.pop_front())
     }
 
-    /// Fall back to batch decoding for complex structures
-    fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
-        }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
+    /// Fall back to decoding the whole document at once
+    fn batch_decode(&mut self) -> Result<Option<JsonStreamEvent>> {
+        self.line_buffer.extend(self.lines.by_ref());
+        self.lines_exhausted = true;
 
+        // Use sync decoder on the whole document; its first events were emitted already
         let events = decoder_impl::decode_stream_sync(
-            raw_lines,
-            Some(DecodeStreamOptions {
-                indent: self.options.indent,
-                strict: self.options.strict,
-            }),
+            std::mem::take(&mut self.line_buffer),
+            Some(self.options.clone()),
         )?;
-
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
+        self.event_queue
+            .extend(events.into_iter().skip(self.emitted));
         self.state = DecoderState::Finished;
 
         Ok(self.event_queue.pop_front())
-- 
2.43.0


From 8ae328fcb3f0c3468377f4f4a1a2270546f6445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 6/9] fix: read declared array lengths as digits only and
 reject ones that overflow

---
 src/decode/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 99144f7..a6ee181 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -177,9 +177,11 @@ pub fn parse_bracket_segment(seg: &str, default_delimiter: char) -> Result<(usiz
         content.pop();
     }
 
-    let length = content
-        .parse::<usize>()
-        .map_err(|_| ToonError::message(format!("Invalid array length: {seg}")))?;
+    if content.is_empty() || !content.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ToonError::message(format!("Invalid array length: {seg}")));
+    }
+    // A length too large for a machine word saturates, so that the cap rejects it.
+    let length = content.parse::<usize>().unwrap_or(usize::MAX);
 
     Ok((length, delimiter))
 }
-- 
2.43.0


From d58852b9e78ab8cf62dfd88568705ad147371b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 7/9] fix: reject event streams with a dangling key or more
 than one root

---
 src/decode/event_builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decode/event_builder.rs b/src/decode/event_builder.rs
index 697d5e2..eac6dec 100644
--- a/src/decode/event_builder.rs
+++ b/src/decode/event_builder.rs
@@ -49,6 +49,9 @@ pub fn build_node_from_events(
     };
 
     for event in events {
+        if state.root.is_some() {
+            return Err(ToonError::event_stream("Unexpected event after root value"));
+        }
         apply_event(&mut state, event)?;
     }
 
@@ -84,12 +87,15 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
             };
             let BuildContext::Object {
                 entries,
+                current_key,
                 quoted_keys,
-                ..
             } = context
             else {
                 return Err(ToonError::mismatched_end("Object", "Array"));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event("endObject", "after a key"));
+            }
             let node = NodeValue::Object(ObjectNode {
                 entries,
                 quoted_keys,
@@ -161,6 +167,9 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
                     "outside of object context",
                 ));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event("Key", "after a key"));
+            }
             *current_key = Some(key.clone());
             if was_quoted {
                 quoted_keys.insert(key);
-- 
2.43.0


From 602f8e89e0f3820713330f821bb912b055d2125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 8/9] fix: the JSON stream writer rejects event sequences that
 are not one value

---
 src/cli/json_stream.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..c244923 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -28,6 +28,9 @@ pub fn json_stream_from_events(
     let mut out = Vec::new();
 
     for event in events {
+        if stack.is_empty() && !out.is_empty() {
+            return Err(ToonError::message("Event after the root value"));
+        }
         let parent = stack.last_mut();
         match event {
             JsonStreamEvent::StartObject => {
@@ -42,7 +45,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "StartObject event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -57,7 +66,13 @@ pub fn json_stream_from_events(
                 let Some(context) = stack.pop() else {
                     return Err(ToonError::message("Mismatched endObject event"));
                 };
-                if !matches!(context, JsonContext::Object { .. }) {
+                if !matches!(
+                    context,
+                    JsonContext::Object {
+                        expect_value: false,
+                        ..
+                    }
+                ) {
                     return Err(ToonError::message("Mismatched endObject event"));
                 }
                 depth = depth.saturating_sub(1);
@@ -97,7 +112,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "StartArray event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -146,6 +167,9 @@ pub fn json_stream_from_events(
                     return Err(ToonError::message("Key event outside of object context"));
                 };
 
+                if *expect_value {
+                    return Err(ToonError::message("Key event without value"));
+                }
                 if *needs_comma {
                     out.push(",".to_string());
                 }
@@ -203,6 +227,9 @@ pub fn json_stream_from_events(
             "Incomplete event stream: unclosed objects or arrays",
         ));
     }
+    if out.is_empty() {
+        return Err(ToonError::message("No root value in event stream"));
+    }
 
     Ok(out)
 }
-- 
2.43.0


From 14fcea4221eed27e613f75e530643068a320c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 9/9] fix: report write errors of buffered output files

The BufWriter around an output file was dropped without a flush, and errors
while dropping are ignored: on a full disk the command reported success and
left a truncated file.
---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..cc3acf7 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Errors are ignored when a BufWriter is dropped
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Errors are ignored when a BufWriter is dropped
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0

