From f47c89e8fbae0c11c4dc952d815d482c6ad3d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 01/55] fix: StrSource::peek_char read past the end of the
 input near EOF

---
 yam-core/src/parsing/source.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..f044f0d 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,13 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        // A character is at most four bytes long, and fewer may be left in the input.
+        let end = self.input.len().min(self.pos + 4);
+        self.input
+            .get(self.pos..end)
+            .and_then(|bytes| bytes.utf8_chunks().next())
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From f2ebb3227f09ed3ca7c2774597a6a75f238eaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 02/55] fix: a lone carriage return made the scanner loop
 forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..8bc87c7 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\r' | b'\n', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From b0a554da6a2cfc6a87e381cccc49328eeeb5302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 03/55] fix: a NUL byte inside a quoted scalar made the scanner
 loop forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8bc87c7..50c1ae2 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1121,7 +1121,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From a2fa1b7ba7b375b080d6b438bf17a0d3effb01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 04/55] fix: %YAML version numbers above 255 overflowed

---
 yam-core/src/parsing/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 50c1ae2..89d9996 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2134,7 +2134,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2145,7 +2145,15 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = val
+                .checked_mul(10)
+                .and_then(|val| val.checked_add(digit))
+                .ok_or_else(|| {
+                    YamlError::new_str(
+                        *mark,
+                        "while scanning a YAML directive, found a version number that is too large",
+                    )
+                })?;
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 00a2653f087326c6bbfe3c3e87ea3f7e1a5ef8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 05/55] fix: block scalars indented by 126 or more columns
 could make the scanner loop forever

---
 yam-core/src/parsing/scanner.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 89d9996..581c738 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1710,10 +1710,10 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     }
                     // If we reached our indent, we can break. We must also break if we have
-                    // reached content or EOF; that is, the buffer is not empty and the next
-                    // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
+                    // reached content or EOF; that is, the next character is not a space.
+                    if self.mark.col >= indent
+                        || self.src.buf_is_empty()
+                        || self.src.peekz(0) != b' '
                     {
                         break;
                     }
-- 
2.43.0


From cda54fa67a7142754bf380c3f27220b13ffc1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 06/55] fix: an empty explicit key in a flow sequence swallowed
 the following token

---
 yam-core/src/parsing/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..8025be4 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1538,7 +1538,7 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
+            // The token is not part of the key: it is handled when parsing the value.
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From e3a91875f40cdd028883d3fc9a424f07753dc7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 07/55] fix: the end of a single pair mapping in a flow
 sequence was reported out of order

---
 yam-core/src/parsing/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 8025be4..6aaa632 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError};
+use crate::prelude::{ScalarType, Span, YamlError};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -116,7 +116,7 @@ enum State {
     FlowSequenceEntry,
     FlowSequenceEntryMappingKey,
     FlowSequenceEntryMappingValue,
-    FlowSequenceEntryMappingEnd(Marker),
+    FlowSequenceEntryMappingEnd,
     FlowMappingFirstKey,
     FlowMappingKey,
     FlowMappingValue,
@@ -784,7 +784,7 @@ impl<'input, T: Source> Parser<'input, T> {
 
             State::FlowSequenceEntryMappingKey => self.flow_sequence_entry_mapping_key(),
             State::FlowSequenceEntryMappingValue => self.flow_sequence_entry_mapping_value(),
-            State::FlowSequenceEntryMappingEnd(mark) => self.flow_sequence_entry_mapping_end(mark),
+            State::FlowSequenceEntryMappingEnd => self.flow_sequence_entry_mapping_end(),
             State::FlowMappingEmptyValue => self.flow_mapping_value(true),
 
             /* impossible */
@@ -1566,25 +1566,26 @@ impl<'input, T: Source> Parser<'input, T> {
                     token_type,
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
-                    self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                    self.state = State::FlowSequenceEntryMappingEnd;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    self.push_state(State::FlowSequenceEntryMappingEnd(span.end));
+                    self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
                 }
             }
             Token { span, .. } => {
-                self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                self.state = State::FlowSequenceEntryMappingEnd;
                 Ok((Event::empty_scalar(), span))
             }
         }
     }
 
-    #[allow(clippy::unnecessary_wraps)]
-    fn flow_sequence_entry_mapping_end<'a>(&mut self, mark: Marker) -> ParseResult<'a>
+    fn flow_sequence_entry_mapping_end<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        // The mapping ends where the next token starts.
+        let mark = self.peek_token()?.span.start;
         self.state = State::FlowSequenceEntry;
         Ok((Event::MappingEnd, Span::empty(mark)))
     }
-- 
2.43.0


From 3c441faecf4543a3b433f0cf616d82eda339760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 08/55] fix: only the last TAG directive of a document was
 taken into account

---
 yam-core/src/parsing/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6aaa632..5445964 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -875,8 +875,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -899,7 +899,8 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::TagDirective { handle, prefix },
                 } => {
-                    if tags.contains_key(&**handle) {
+                    // Unknown directives are reported as a TAG directive without a handle.
+                    if !handle.is_empty() && tags.contains_key(&**handle) {
                         return Err(YamlError::new_str(
                             span.start,
                             "the TAG directive must only be given at most once per handle in the same document",
@@ -909,9 +910,9 @@ impl<'input, T: Source> Parser<'input, T> {
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.append(&mut tags);
         Ok(())
     }
 
-- 
2.43.0


From 6250755b97e341733b1b9659581ba44c78ff7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 09/55] fix: the event API resolved aliases to anchors of
 earlier documents

---
 yam-core/src/parsing/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 5445964..76ec1d3 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -648,8 +648,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 recv.on_event(ev, span);
                 return Ok(());
             }
-            // clear anchors before a new document
-            self.anchors.clear();
             self.load_document(ev, span, recv)?;
             if !multi {
                 break;
@@ -847,6 +845,8 @@ impl<'input, T: Source> Parser<'input, T> {
             Token { span, .. } if implicit => {
                 self.parser_process_directives()?;
                 self.push_state(State::DocumentEnd);
+                // Anchors are only valid in the document that defines them.
+                self.anchors.clear();
                 self.state = State::BlockNode;
                 Ok((Event::DocumentStart(false), span))
             }
@@ -927,6 +927,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 token_type: TokenType::DocumentStart,
             } => {
                 self.push_state(State::DocumentEnd);
+                self.anchors.clear();
                 self.state = State::DocumentContent;
                 self.skip();
                 Ok((Event::DocumentStart(true), span))
-- 
2.43.0


From c048dbcf0e41289cda3f97392be7130742ddab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 10/55] fix: load failed when the stream start had been peeked
 at

---
 yam-core/src/parsing/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 76ec1d3..adc1cfb 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -626,7 +626,10 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        // The <stream-start> is still due if it was not asked for, or if it was only peeked at.
+        if !self.scanner.stream_start_produced
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
-- 
2.43.0


From e6ddff80544fad665ae03b72d1ebe855fc2e904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 11/55] fix: the simplified event iterator dropped aliases

---
 yam-core/src/parsing/parser_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..aa21f97 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From ebc8500dc94dbc80e29ee22b9aaf5e502f5f74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 12/55] fix: tabs and the end of input after the key indicator
 ? were rejected

---
 yam-core/src/parsing/scanner.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 581c738..a79a530 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -553,12 +553,17 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
-        self.skip_yaml_whitespace()?;
+        self.skip_yaml_whitespace();
         if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
+            // A tab can only separate tokens, it can't indent a block node.
+            self.skip_ws_to_eol(SkipTabs::Yes, true)?;
+            let c = self.src.peekz(0);
+            if self.flow_level == 0 && !is_breakz(c) && c != b'#' {
+                return Err(YamlError::new_str(
+                    self.mark,
+                    "tabs disallowed in this context",
+                ));
+            }
         }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
@@ -569,14 +574,11 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     #[allow(clippy::cast_possible_truncation)]
-    fn skip_yaml_whitespace(&mut self) -> ScanResult {
-        let mut need_whitespace = true;
+    fn skip_yaml_whitespace(&mut self) {
         loop {
             match self.src.peekz(0) {
                 b' ' => {
                     self.skip_blank();
-
-                    need_whitespace = false;
                 }
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
@@ -584,7 +586,6 @@ impl<'input, S: Source> Scanner<'input, S> {
                     if self.flow_level == 0 {
                         self.simple_key_allowed = true;
                     }
-                    need_whitespace = false;
                 }
                 b'#' => {
                     #[cfg(feature = "comment")]
@@ -602,12 +603,6 @@ impl<'input, S: Source> Scanner<'input, S> {
                 _ => break,
             }
         }
-
-        if need_whitespace {
-            Err(YamlError::new_str(self.mark, "expected whitespace"))
-        } else {
-            Ok(())
-        }
     }
 
     fn fetch_value(&mut self) -> ScanResult {
-- 
2.43.0


From 91856538dd4954c7dba6b5ddf23b544e5927e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 13/55] fix: an indented --- or ... line ended a plain scalar

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index a79a530..96baa81 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -957,7 +957,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut end_mark = self.mark;
 
         loop {
-            let next_is_document_indicator = self.src.next_is_document_indicator();
+            let next_is_document_indicator =
+                self.mark.col == 1 && self.src.next_is_document_indicator();
             if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
             {
                 break;
-- 
2.43.0


From 97802a43e41e5208498824335dac17096bfa2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 14/55] fix: a plain scalar ending in - before a flow indicator
 was rejected

---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 96baa81..45bdc67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -964,7 +964,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && self.src.peekz(0) == b'-'
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
                     "plain scalar cannot start with '-' followed by ,[]{}",
-- 
2.43.0


From c2185c5ebbff307a9d5c1c1a5441c558f3cc5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 15/55] fix: a document start marker did not end a block scalar
 without indentation

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 45bdc67..cd9b485 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1387,7 +1387,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.src.next_is_document_indicator() {
                     break;
                 }
             }
-- 
2.43.0


From 1d04a9439fd57735b8564f9c73c98bc175f89f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 16/55] fix: a document marker after an empty block scalar with
 indented lines was rejected

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cd9b485..33a6824 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1375,7 +1375,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        let at_document_indicator = self.mark.col == 1 && self.src.next_is_document_indicator();
+        if self.mark.col < indent && self.mark.col > self.indent && !at_document_indicator {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 669af9f96f144bb23ca31b26f5a81fb5491d472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 17/55] fix: an empty clipped block scalar at the end of the
 input was a line feed

---
 yam-core/src/parsing/scanner.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 33a6824..2f0f882 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1352,13 +1352,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         // ```
         if self.src.peek_checked(0).is_none() {
             let contents = match chomping {
-                // We strip trailing linebreaks. Nothing remain.
-                ChompIndicator::Strip => Vec::new(),
+                // We strip or clip trailing linebreaks. Without content nothing remains.
+                ChompIndicator::Strip | ChompIndicator::Clip => Vec::new(),
                 // There was no newline after the chomping indicator.
                 _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
                 // We keep lines. There was a newline after the chomping indicator but nothing
                 // else.
                 ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-- 
2.43.0


From 96b37bc7c8d8ae5e235376a56d97e058db10492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 18/55] fix: pairs with an empty key were rejected after
 another pair or mapping in a flow sequence

---
 yam-core/src/parsing/scanner.rs | 55 ++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 2f0f882..0e449f8 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -83,6 +83,10 @@ enum ImplicitMappingState {
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
     Inside,
+    /// We are in a `[ ]` entry that starts with `?`, it can't be an implicit mapping.
+    Explicit,
+    /// We are directly inside `{ }`, none of the entries are implicit mappings.
+    Mapping,
 }
 
 #[allow(clippy::struct_excessive_bools)] // TODO maybe too much bools?
@@ -101,7 +105,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +136,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -383,12 +385,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
-        } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+        self.implicit_flow_mapping_states
+            .push(if token_type == TokenType::FlowMappingStart {
+                ImplicitMappingState::Mapping
+            } else {
+                ImplicitMappingState::Possible
+            });
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -406,8 +408,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if matches!(token_type, TokenType::FlowSequenceEnd) {
             self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
         }
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,16 +425,19 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        match self.implicit_flow_mapping_states.last_mut() {
+            Some(state @ ImplicitMappingState::Inside) => {
+                *state = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            Some(state @ ImplicitMappingState::Explicit) => {
+                *state = ImplicitMappingState::Possible;
+            }
+            _ => {}
         }
     }
 
@@ -545,7 +550,11 @@ impl<'input, S: Source> Scanner<'input, S> {
             );
         } else {
             // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+            if let Some(state @ ImplicitMappingState::Possible) =
+                self.implicit_flow_mapping_states.last_mut()
+            {
+                *state = ImplicitMappingState::Explicit;
+            }
         }
 
         self.remove_simple_key()?;
@@ -608,8 +617,10 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-        let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
+        let is_implicit_flow_mapping = matches!(
+            self.implicit_flow_mapping_states.last(),
+            Some(ImplicitMappingState::Possible | ImplicitMappingState::Inside)
+        );
         if is_implicit_flow_mapping {
             *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
         }
-- 
2.43.0


From eedd7763295ea101f7e2e19dba95cf931112fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 19/55] fix: a tab between : or ? and a scalar was rejected

---
 yam-core/src/parsing/scanner.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 0e449f8..2ad1e68 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -565,14 +565,16 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_yaml_whitespace();
         if self.src.peekz(0) == b'\t' {
             // A tab can only separate tokens, it can't indent a block node.
+            let indented = self.mark.line == start_mark.line || self.mark.col > start_mark.col;
             self.skip_ws_to_eol(SkipTabs::Yes, true)?;
             let c = self.src.peekz(0);
-            if self.flow_level == 0 && !is_breakz(c) && c != b'#' {
+            if self.flow_level == 0 && !indented && !is_breakz(c) && c != b'#' {
                 return Err(YamlError::new_str(
                     self.mark,
                     "tabs disallowed in this context",
                 ));
             }
+            self.simple_key_allowed = false;
         }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
@@ -627,16 +629,10 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
+        let mut found_tab = false;
+        while is_blank(self.src.peekz(0)) {
+            found_tab |= self.src.peekz(0) == b'\t';
+            self.skip_blank();
         }
 
         if sk.possible {
@@ -698,7 +694,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0;
+            // A tab can only separate tokens, it can't indent a block node.
+            self.simple_key_allowed = self.flow_level == 0 && !found_tab;
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
-- 
2.43.0


From 2cdd732c878c3ebaba6164ba218d9dffa35401f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 20/55] fix: percent-encoded characters of a tag were decoded
 wrongly

---
 yam-core/src/parsing/scanner.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 2ad1e68..c4449a4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1996,9 +1996,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::new();
         loop {
             // self.src.lookahead(3);
 
@@ -2026,16 +2027,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
-            } else {
-                if byte & 0xc0 != 0x80 {
-                    return Err(YamlError::new_str(
-                        *mark,
-                        "while parsing a tag, found an incorrect trailing UTF-8 byte",
-                    ));
-                }
-                code = (code << 8) + byte;
+            } else if byte & 0xc0 != 0x80 {
+                return Err(YamlError::new_str(
+                    *mark,
+                    "while parsing a tag, found an incorrect trailing UTF-8 byte",
+                ));
             }
+            bytes.push(byte as u8);
 
             self.skip_n_non_blank(3);
 
@@ -2045,13 +2043,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        if core::str::from_utf8(&bytes).is_err() {
+            return Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
-            )),
+            ));
         }
+        Ok(bytes)
     }
 
     #[allow(clippy::cast_possible_truncation)]
-- 
2.43.0


From a6058b7daa65c9e203509b719db1a333df0ac699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 21/55] fix: a byte order mark at the start of the stream was
 part of the content

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index c4449a4..66c8625 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -331,6 +331,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             token_type: TokenType::StreamStart,
         });
         self.simple_keys.push(SimpleKey::new(Marker::default()));
+
+        // A byte order mark is not part of the content.
+        if [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == *b"\xEF\xBB\xBF" {
+            self.src.skip(3);
+            self.mark.pos += 3;
+        }
     }
 
     fn fetch_main_loop(&mut self) -> ScanResult {
-- 
2.43.0


From 875e3707e6708531182f82c071546a9e7e628497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 22/55] fix: keep key and value paired when a mapping key is
 tagged or a bad value

---
 yam-core/src/prelude/loader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..7360e4c 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,8 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    /// For every open mapping, the key still waiting for its value.
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +142,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +427,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From b68a6da639fafefba7be2072c9d73053cb852499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 23/55] fix: a second sign does not make an integer, !!int
 takes hex and octal

---
 yam-core/src/node/scalar.rs | 41 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..b7672bd 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -91,7 +91,7 @@ where
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
                     "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    "int" => parse_core_schema_int(&v).map(|x| Self::Integer(x.into())),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
                     "null" => {
                         if ScalarValue::is_null_tagged(&v, &tag) {
@@ -127,27 +127,6 @@ where
         let s = &*v;
         let bytes = s.as_bytes();
 
-        if bytes.len() >= 2 {
-            match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                (b'0', b'o') => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
-                _ => {}
-            }
-        }
-
         match bytes.len() {
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
@@ -164,7 +143,7 @@ where
             _ => {}
         }
 
-        if let Ok(integer) = parse_i64_from_cow(s) {
+        if let Some(integer) = parse_core_schema_int(s) {
             return Self::Integer(integer.into());
         }
 
@@ -176,6 +155,22 @@ where
     }
 }
 
+/// Parse the given string as an integer according to the core schema.
+///
+/// See [10.2.1.3](https://yaml.org/spec/1.2.2/#10213-integer) for the integer definition. A sign is
+/// only allowed in front of decimal integers.
+///
+/// # Return
+/// Returns `Some` if parsing succeeds, `None` if `v` isn't an integer or doesn't fit an `i64`.
+fn parse_core_schema_int(v: &str) -> Option<i64> {
+    let (digits, radix) = match v.as_bytes() {
+        [b'0', b'x', b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F', ..] => (&v[2..], 16),
+        [b'0', b'o', b'0'..=b'7', ..] => (&v[2..], 8),
+        _ => return parse_i64_from_cow(v).ok(),
+    };
+    i64::from_str_radix(digits, radix).ok()
+}
+
 /// Parse the given string as a floating point according to the core schema.
 ///
 /// See [10.2.1.4](https://yaml.org/spec/1.2.2/#10214-floating-point) for the floating point
-- 
2.43.0


From 2b07155c2f6f691899eddabfecb454128d07fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 24/55] fix: an empty plain scalar is null

---
 yam-core/src/node/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index b7672bd..1250454 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -128,6 +128,7 @@ where
         let bytes = s.as_bytes();
 
         match bytes.len() {
+            0 => return Self::Null(PhantomData),
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
                 let f = bytes[0] & 0xDF;
-- 
2.43.0


From 658bfaa9a29c3eb58783449f737e289c20b494cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 25/55] fix: !!bool and !!null take every spelling of the core
 schema

---
 yam-core/src/node/scalar.rs    | 6 +++++-
 yam-core/src/parsing/parser.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 1250454..29053f9 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,7 +90,11 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
+                    "bool" => match v.as_ref() {
+                        "true" | "True" | "TRUE" => Some(Self::Bool(true)),
+                        "false" | "False" | "FALSE" => Some(Self::Bool(false)),
+                        _ => None,
+                    },
                     "int" => parse_core_schema_int(&v).map(|x| Self::Integer(x.into())),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
                     "null" => {
diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index adc1cfb..d432c57 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -91,7 +91,7 @@ impl<'input> ScalarValue<'input> {
             return true;
         }
         if tag.is_yaml_core_schema() {
-            return v == "~" || v == "null";
+            return matches!(v, "~" | "null" | "Null" | "NULL");
         }
         false
     }
-- 
2.43.0


From b28136dfddacecebbc0317ecd01fd53a13e5b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 26/55] fix: index a mapping mutably by integer key gives the
 value

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From 08e2801fb98d6d9bc0185fb81d2e1fa9f9089d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 27/55] fix: reject a block scalar inside a flow collection

---
 yam-core/src/parsing/scanner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 66c8625..428026e 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -363,6 +363,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b'!', _] => self.fetch_tag(),
             [b'|', _] if self.flow_level == 0 => self.fetch_block_scalar(true),
             [b'>', _] if self.flow_level == 0 => self.fetch_block_scalar(false),
+            [b'|' | b'>', _] => Err(YamlError::new_str(
+                self.mark,
+                "block scalars are not allowed in a flow collection",
+            )),
             [b'\'', _] => self.fetch_flow_scalar(true),
             [b'"', _] => self.fetch_flow_scalar(false),
             [b'-', x] if !is_blank_or_break(x) => self.fetch_plain_scalar(),
-- 
2.43.0


From 24b55b08a0a8157b0a630b69c8b2194fbf7e9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 28/55] fix: read nested sequences, maps and options when
 deserializing

---
 yam-serde/src/de.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..bd904b2 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -33,14 +33,12 @@ impl<'a, R> YamIterDeserializer<'a, R>
 where
     R: Source,
 {
+    /// Returns the next event without consuming it, see [`Self::skip`].
     fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+        if !self.has_peeked {
+            self.last_event = self.yaml_iter.next()?;
+            self.has_peeked = true;
         }
-
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
         Some(self.last_event.clone())
     }
 
@@ -261,9 +259,7 @@ where
         }
         self.skip();
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::SeqEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "SeqEnd",
                 found: self.last_event.as_simple_str(),
@@ -285,9 +281,7 @@ where
         }
         self.skip();
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "MapEnd",
                 found: self.last_event.as_simple_str(),
@@ -321,6 +315,7 @@ where
                         expected: "MapEnd",
                     }));
                 }
+                self.skip();
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
-- 
2.43.0


From 75be4723c57079dbf7fa22a997b1d097d0f59406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 29/55] fix: from_str fails on an error or another document
 after the value

---
 yam-core/src/parsing/parser_iter.rs |  6 ++++++
 yam-serde/src/de.rs                 | 19 +++++++++++++++++++
 yam-serde/src/lib.rs                |  1 +
 3 files changed, 26 insertions(+)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index aa21f97..f6a6af3 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -72,6 +72,12 @@ where
             error: None,
         }
     }
+
+    /// The error that ended the iteration, if any.
+    #[must_use]
+    pub fn error(&self) -> Option<&YamlError> {
+        self.error.as_ref()
+    }
 }
 
 impl<'de, R> Iterator for ParserIter<'de, R>
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bd904b2..454d0ff 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -46,6 +46,25 @@ where
         self.has_peeked = false;
     }
 
+    /// Checks that the stream ends with the document whose value was read.
+    pub fn finish(&mut self) -> Result<(), DeYamlError> {
+        if !matches!(self.next_el(), Some(YamEvent::DocEnd)) {
+            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected: "DocEnd",
+                found: self.last_event.as_simple_str(),
+            }));
+        }
+        self.skip();
+        match (self.next_el(), self.yaml_iter.error()) {
+            (None, None) => Ok(()),
+            (_, Some(err)) => Err(DeYamlError::ParserError(err.clone())),
+            (Some(ev), None) => Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected: "StreamEnd",
+                found: ev.as_simple_str(),
+            })),
+        }
+    }
+
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             scalar.is_null()
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a63847d..f7534bb 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -67,6 +67,7 @@ where
 {
     let mut de = crate::de::YamIterDeserializer::new(input);
     let value = T::deserialize(&mut de)?;
+    de.finish()?;
 
     Ok(value)
 }
-- 
2.43.0


From c0465a926ec95cb25ba8c29d561f446455277359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 30/55] fix: deserialize integers by the core schema

---
 yam-serde/src/de.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 454d0ff..24821ec 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -1,6 +1,7 @@
 use alloc::format;
 use alloc::string::{String, ToString};
 use core::fmt::{Display, Formatter};
+use core::str::FromStr;
 use serde_core::de::{
     DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, StdError, VariantAccess,
 };
@@ -89,11 +90,23 @@ where
     }
 }
 
-macro_rules! parse_from_cow {
+/// The integer a scalar resolves to, if it is one and fits.
+fn parse_int<T: TryFrom<i64> + FromStr>(scalar: ScalarValue) -> Option<T> {
+    let value = scalar.value.clone();
+    let untagged = scalar.tag.is_none();
+    match YamlScalar::parse_from_scalar(scalar) {
+        Some(YamlScalar::Integer(x)) => T::try_from(x).ok(),
+        // Integers beyond `i64` are resolved as floats.
+        Some(YamlScalar::FloatingPoint(_)) if untagged => value.parse().ok(),
+        _ => None,
+    }
+}
+
+macro_rules! parse_from_scalar {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {
-        match $e.parse::<$t>() {
-            Ok(i) => $v.$method(i),
-            Err(_) => Err(DeYamlError::Custom(format!(
+        match parse_int::<$t>($e) {
+            Some(i) => $v.$method(i),
+            None => Err(DeYamlError::Custom(format!(
                 "Failed to parse {:?} from scalar value",
                 stringify!($t)
             ))),
@@ -130,7 +143,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
+            parse_from_scalar!(scalar, visitor, visit_i8, i8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -144,7 +157,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
+            parse_from_scalar!(scalar, visitor, visit_i16, i16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i16 deserialization".to_string(),
@@ -158,7 +171,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i32, i32)
+            parse_from_scalar!(scalar, visitor, visit_i32, i32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -172,7 +185,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i64, i64)
+            parse_from_scalar!(scalar, visitor, visit_i64, i64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i64 deserialization".to_string(),
@@ -186,7 +199,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
+            parse_from_scalar!(scalar, visitor, visit_u8, u8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i8 deserialization".to_string(),
@@ -200,7 +213,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
+            parse_from_scalar!(scalar, visitor, visit_u16, u16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u16 deserialization".to_string(),
@@ -214,7 +227,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u32, u32)
+            parse_from_scalar!(scalar, visitor, visit_u32, u32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u32 deserialization".to_string(),
@@ -228,7 +241,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u64, u64)
+            parse_from_scalar!(scalar, visitor, visit_u64, u64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u64 deserialization".to_string(),
-- 
2.43.0


From a1de047bf899447742b669b31112e3fbf74d4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 31/55] fix: deserialize newtype structs

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 24821ec..e0a8a04 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -275,10 +275,21 @@ where
 
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
-- 
2.43.0


From f6fa40a90f52c2e5884d8dae8b437af4c2b793b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 32/55] fix: deserialize a unit variant given as a mapping

---
 yam-serde/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index e0a8a04..53914a5 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -538,7 +538,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From ba82d4af858199f1f88e3683174bd3dbe1e66cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 33/55] fix: deserialize options and units from null by the
 core schema

---
 yam-serde/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 53914a5..6396e51 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -68,7 +68,10 @@ where
 
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            scalar.is_null()
+            matches!(
+                YamlScalar::parse_from_scalar(scalar),
+                Some(YamlScalar::Null(_))
+            )
         } else {
             false
         }
-- 
2.43.0


From 70c59f1e0e435ba2b9cdda502529445e2a375edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 34/55] fix: serialize infinities and NaN as YAML spells them

---
 yam-serde/src/ser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 55bd3fb..003ac3d 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -367,22 +367,26 @@ where
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
+        if v.is_nan() {
+            self.writer.write_str(".nan")?;
+        } else if v.is_infinite() {
+            self.writer.write_str(if v < 0.0 { "-.inf" } else { ".inf" })?;
+        } else {
+            write!(self.writer, "{v}")?;
         }
 
-        write!(self.writer, "{v}")?;
-
         Ok(())
     }
 
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
+        if v.is_nan() {
+            self.writer.write_str(".nan")?;
+        } else if v.is_infinite() {
+            self.writer.write_str(if v < 0.0 { "-.inf" } else { ".inf" })?;
+        } else {
+            write!(self.writer, "{v}")?;
         }
 
-        write!(self.writer, "{v}")?;
-
         Ok(())
     }
 
-- 
2.43.0


From 4701cf859059a016665d07614b0c0773727f964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 35/55] fix: escape strings and characters when serializing,
 fold only where blanks survive

---
 yam-serde/src/escape_str.rs | 131 ++++++++----------------------------
 yam-serde/src/ser.rs        |  93 +++++++++----------------
 2 files changed, 58 insertions(+), 166 deletions(-)

diff --git a/yam-serde/src/escape_str.rs b/yam-serde/src/escape_str.rs
index bcc4108..9a0fe18 100644
--- a/yam-serde/src/escape_str.rs
+++ b/yam-serde/src/escape_str.rs
@@ -3,114 +3,39 @@ use core::fmt::{Error, Write};
 pub(crate) fn peekz_byte(array: &[u8], pos: usize) -> u8 {
     if pos < array.len() { array[pos] } else { 0 }
 }
-pub(crate) fn decode_hex<W: Write>(writer: &mut W, digit_slice: &[u8]) -> Result<(), Error> {
-    if !digit_slice.iter().all(u8::is_ascii_hexdigit) {
-        writer.write_char('\u{FFFD}')?;
-        return Ok(());
-    }
-
-    let code_point = digit_slice
-        .iter()
-        .map(|x| match *x {
-            n @ b'0'..=b'9' => n - b'0',
-            a @ b'a'..=b'f' => a - b'a' + 10,
-            a @ b'A'..=b'F' => a - b'A' + 10,
-            _ => 0u8,
-        })
-        .fold(0u32, |acc, digit| (acc << 4) + u32::from(digit));
-    match code_point {
-        // YAML has special escape rules for certain values
-        // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
-        0 => writer.write_char('\u{FFFD}')?,
-        0x07 => writer.write_str("\\a")?,
-        0x08 => writer.write_str("\\b")?,
-        0x09 => writer.write_str("\\t")?,
-        0x0A => writer.write_str("\\n")?,
-        0x0B => writer.write_str("\\v")?,
-        0x0C => writer.write_str("\\f")?,
-        0x0D => writer.write_str("\\r")?,
-        0x1B => writer.write_str("\\e")?,
-        0x22 => writer.write_str("\\\"")?,
-        0x2F => writer.write_str("\\/")?,
-        0x5C => writer.write_str("\\\\")?,
-        0x85 => writer.write_str("\\N")?,
-        0xA0 => writer.write_str("\\_")?,
-        0x2028 => writer.write_str("\\L")?,
-        0x2029 => writer.write_str("\\P")?,
-        _ => {
-            let encode_char = char::from_u32(code_point);
-            if let Some(encode_char) = encode_char {
-                return writer.write_char(encode_char);
-            }
-        }
-    }
-
-    Ok(())
+/// Characters that can't be written as they are inside a double-quoted scalar.
+pub(crate) fn needs_escape(chr: char) -> bool {
+    matches!(
+        chr,
+        '\0'..='\x1f'
+            | '"'
+            | '\\'
+            | '\x7f'..='\u{a0}'
+            | '\u{2028}'
+            | '\u{2029}'
+            | '\u{feff}'
+            | '\u{fffe}'
+            | '\u{ffff}'
+    )
 }
 
 pub(crate) fn escape_double_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
-    let bytes = value.as_bytes();
-
-    let (mut old_pos, mut pos) = (0, 0);
-    while pos < bytes.len() {
-        let byte_char = bytes[pos];
-        let peek_char = peekz_byte(bytes, pos + 1);
-        match (byte_char, peek_char) {
-            (b'\\', b't' | b'r' | b'n') => {
-                // TODO normalize `\r\n` into `\n`
-                pos += 2;
-            }
-
-            (b'\t', _) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\t")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\r', b'\n') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 2;
-                old_pos = pos;
-            }
-            (b'\n', ..) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\\', b'x') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 4])?;
-                pos += 4;
-                old_pos = pos;
-            }
-            (b'\\', b'u') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 6])?;
-                pos += 6;
-                old_pos = pos;
-            }
-            (b'\\', b'U') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 8])?;
-                pos += 8;
-                old_pos = pos;
-            }
-            _ => {
-                pos += 1;
-            }
+    let mut old_pos = 0;
+    for (pos, chr) in value.char_indices().filter(|(_, chr)| needs_escape(*chr)) {
+        writer.write_str(&value[old_pos..pos])?;
+        match chr {
+            '\0' => writer.write_str("\\0")?,
+            '\t' => writer.write_str("\\t")?,
+            '\n' => writer.write_str("\\n")?,
+            '\r' => writer.write_str("\\r")?,
+            '"' => writer.write_str("\\\"")?,
+            '\\' => writer.write_str("\\\\")?,
+            '\u{0}'..='\u{ff}' => write!(writer, "\\x{:02x}", u32::from(chr))?,
+            _ => write!(writer, "\\u{:04x}", u32::from(chr))?,
         }
+        old_pos = pos + chr.len_utf8();
     }
-    let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-    writer.write_str(prev_str)?;
-    Ok(())
+    writer.write_str(&value[old_pos..])
 }
 
 // TODO Enable or delete
diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 003ac3d..f4dd028 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -2,28 +2,20 @@ use crate::escape_str;
 use crate::escape_str::peekz_byte;
 use alloc::borrow::Cow;
 use alloc::string::String;
-use alloc::vec::Vec;
 use core::fmt::{Debug, Display, Error, Write};
 use serde_core::ser::SerializeStructVariant;
 use serde_core::{Serialize, ser};
 use unicode_segmentation::UnicodeSegmentation;
 
-trait YamlWhitespace {
-    fn is_splittable_ws(&self) -> bool;
-    fn is_last_char_splittable_ws(&self) -> bool;
-}
-
-impl YamlWhitespace for str {
-    fn is_splittable_ws(&self) -> bool {
-        self.bytes().all(|c| c == b' ' || c == b'\n')
-    }
-
-    fn is_last_char_splittable_ws(&self) -> bool {
-        self.bytes()
-            .last()
-            .map(|c| c == b' ' || c == b'\n')
-            .unwrap_or_default()
-    }
+/// A space or a newline of a double-quoted scalar can be written as a line fold
+/// only when it is surrounded by text: blanks around a fold are not content. And
+/// the next line must not begin like a document marker.
+fn is_foldable(before: &str, ws: &str, after: &str) -> bool {
+    const BLANKS: [char; 2] = [' ', '\n'];
+    matches!(ws, " " | "\n")
+        && !(before.is_empty() || before.ends_with(BLANKS))
+        && !(after.is_empty() || after.starts_with(BLANKS))
+        && !(after.starts_with("---") || after.starts_with("..."))
 }
 
 #[derive(Debug)]
@@ -100,56 +92,29 @@ where
         Ok(())
     }
 
-    fn line_split_at(&mut self, line_buff: &str, line_split: &str) -> Result<(), Error> {
-        let escaped = if line_split == " " { "\n" } else { "\n\n" };
-        self.writer.write_str(line_buff)?;
-        self.writer.write_str(escaped)?;
-        self.write_indentors(self.current_depth)
-    }
-
     fn write_double_quote_multi(&mut self, str: &str) -> Result<(), Error> {
         self.write_char('"')?;
 
-        let mut line_buff = String::with_capacity(self.formatter.pref_string_length + 20);
-        let mut line_buff_len = 0;
-        let word_bounds = str
+        let mut line_len = 0;
+        let mut words = str
             .split_word_bound_indices()
-            .map(|(_, word)| (word, word.graphemes(true).count()))
-            .collect::<Vec<(&str, usize)>>();
-
-        for (word, grapheme_len) in word_bounds {
-            if self.is_time_to_split(line_buff_len, grapheme_len) {
-                let word_is_splittable = word.is_splittable_ws();
-                let line_buff_is_splittable = line_buff.is_last_char_splittable_ws();
-
-                if line_buff_is_splittable {
-                    // Try to split line on existing buffer
-                    let (line, nl) = line_buff.split_at(line_buff.len() - 1);
-                    self.line_split_at(line, nl)?;
-
-                    // Set current buffer to current word
-                    line_buff.clear();
-                    line_buff.push_str(word);
-                    line_buff_len = grapheme_len;
-                } else if word_is_splittable {
-                    // Try to split line on word
-                    let (front, nl) = word.split_at(0);
-                    self.line_split_at(&line_buff, nl)?;
-
-                    line_buff.clear();
-                    line_buff.push_str(front);
-                    line_buff_len = front.len();
-                } else {
-                    // Write the word to buffer
-                    line_buff.push_str(word);
-                    line_buff_len += grapheme_len;
-                }
+            .map(|(pos, word)| (pos, word, word.graphemes(true).count()))
+            .peekable();
+
+        while let Some((pos, word, grapheme_len)) = words.next() {
+            let next_len = words.peek().map_or(0, |(_, _, len)| *len);
+            let rest = &str[pos + word.len()..];
+            if self.is_time_to_split(line_len + grapheme_len, next_len)
+                && is_foldable(&str[..pos], word, rest)
+            {
+                self.writer.write_str(if word == " " { "\n" } else { "\n\n" })?;
+                self.write_indentors(self.current_depth)?;
+                line_len = 0;
             } else {
-                line_buff.push_str(word);
-                line_buff_len += grapheme_len;
+                escape_str::escape_double_quotes(&mut self.writer, word)?;
+                line_len += grapheme_len;
             }
         }
-        self.writer.write_str(&line_buff)?;
         self.write_char('"')?;
         Ok(())
     }
@@ -391,11 +356,13 @@ where
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        let string_chr = if v == '\'' { '"' } else { '\'' };
+        if v == '\'' || escape_str::needs_escape(v) {
+            return self.write_double_quote_single(v.encode_utf8(&mut [0; 4]));
+        }
 
-        self.writer.write_char(string_chr)?;
+        self.writer.write_char('\'')?;
         self.writer.write_char(v)?;
-        self.writer.write_char(string_chr)?;
+        self.writer.write_char('\'')?;
         Ok(())
     }
 
-- 
2.43.0


From 3a76ef9cabc0d750b6ca7bdad3018cfe2c2f0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 36/55] fix: report every comment in its place and keep the
 other events with the comment feature

---
 yam-core/src/parsing/parser.rs      | 147 +++++++++++-----------------
 yam-core/src/parsing/parser_iter.rs |  15 ++-
 yam-core/src/parsing/scanner.rs     |  59 ++++++-----
 3 files changed, 96 insertions(+), 125 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index d432c57..14ea96b 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -122,8 +122,6 @@ enum State {
     FlowMappingValue,
     FlowMappingEmptyValue,
     End,
-    FlowMappingFirstKeyCont,
-    BlockMappingValueCont,
 }
 
 /// An event generated by the YAML parser.
@@ -266,6 +264,9 @@ pub struct Parser<'input, T: Source> {
     token: Option<Token<'input>>,
     /// The next YAML event to emit.
     current: Option<(Event<'input>, Span)>,
+    /// An event that waits for the comments before it to be reported.
+    #[cfg(feature = "comment")]
+    commented: Option<(Event<'input>, Span)>,
     /// Anchors that have been encountered in the YAML document.
     anchors: BTreeMap<Cow<'input, str>, usize>,
     /// Next ID available for an anchor.
@@ -414,6 +415,8 @@ impl<'input, T: Source> Parser<'input, T> {
             state: State::StreamStart,
             token: None,
             current: None,
+            #[cfg(feature = "comment")]
+            commented: None,
 
             anchors: BTreeMap::new(),
             // valid anchor_id starts from 1
@@ -603,6 +606,26 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         'input: 'a,
     {
+        #[cfg(feature = "comment")]
+        {
+            let (ev, span) = match self.commented.take() {
+                Some(waiting) => waiting,
+                None => self.parse_event()?,
+            };
+            // A comment is reported before the first event that starts after it.
+            if let Some(comment) = self.scanner.comments.front()
+                && comment.span.start.pos < span.start.pos
+            {
+                self.commented = Some((ev, span));
+                return Ok(self.extract_comment());
+            }
+            Ok((ev, span))
+        }
+        #[cfg(not(feature = "comment"))]
+        self.parse_event()
+    }
+
+    fn parse_event(&mut self) -> ParseResult<'input> {
         if self.state == State::End {
             return Ok((Event::StreamEnd, Span::empty(self.scanner.mark)));
         }
@@ -610,6 +633,20 @@ impl<'input, T: Source> Parser<'input, T> {
         Ok((ev, mark))
     }
 
+    /// Returns the next event that is not a comment, `recv` gets the comments before it.
+    fn next_uncommented<R: SpannedEventReceiver<'input>>(
+        &mut self,
+        recv: &mut R,
+    ) -> ParseResult<'input> {
+        loop {
+            let (ev, span) = self.next_event_impl()?;
+            if !matches!(ev, Event::Comment(_)) {
+                return Ok((ev, span));
+            }
+            recv.on_event(ev, span);
+        }
+    }
+
     /// Load the YAML from the stream in `self`, pushing events into `recv`.
     ///
     /// The contents of the stream are parsed and the corresponding events are sent into the
@@ -630,7 +667,7 @@ impl<'input, T: Source> Parser<'input, T> {
         if !self.scanner.stream_start_produced
             || matches!(self.current, Some((Event::StreamStart, _)))
         {
-            let (ev, span) = self.next_event_impl()?;
+            let (ev, span) = self.next_uncommented(recv)?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
                     span.start,
@@ -646,7 +683,7 @@ impl<'input, T: Source> Parser<'input, T> {
             return Ok(());
         }
         loop {
-            let (ev, span) = self.next_event_impl()?;
+            let (ev, span) = self.next_uncommented(recv)?;
             if ev == Event::StreamEnd {
                 recv.on_event(ev, span);
                 return Ok(());
@@ -673,11 +710,11 @@ impl<'input, T: Source> Parser<'input, T> {
         }
         recv.on_event(first_ev, span);
 
-        let (ev, span) = self.next_event_impl()?;
+        let (ev, span) = self.next_uncommented(recv)?;
         self.load_node(ev, span, recv)?;
 
         // DOCUMENT-END is expected.
-        let (ev, mark) = self.next_event_impl()?;
+        let (ev, mark) = self.next_uncommented(recv)?;
         assert_eq!(ev, Event::DocumentEnd);
         recv.on_event(ev, mark);
 
@@ -713,17 +750,17 @@ impl<'input, T: Source> Parser<'input, T> {
         &mut self,
         recv: &mut R,
     ) -> Result<(), YamlError> {
-        let (mut key_ev, mut key_mark) = self.next_event_impl()?;
+        let (mut key_ev, mut key_mark) = self.next_uncommented(recv)?;
         while key_ev != Event::MappingEnd {
             // key
             self.load_node(key_ev, key_mark, recv)?;
 
             // value
-            let (ev, mark) = self.next_event_impl()?;
+            let (ev, mark) = self.next_uncommented(recv)?;
             self.load_node(ev, mark, recv)?;
 
             // next event
-            let (ev, mark) = self.next_event_impl()?;
+            let (ev, mark) = self.next_uncommented(recv)?;
             key_ev = ev;
             key_mark = mark;
         }
@@ -735,12 +772,12 @@ impl<'input, T: Source> Parser<'input, T> {
         &mut self,
         recv: &mut R,
     ) -> Result<(), YamlError> {
-        let (mut ev, mut mark) = self.next_event_impl()?;
+        let (mut ev, mut mark) = self.next_uncommented(recv)?;
         while ev != Event::SequenceEnd {
             self.load_node(ev, mark, recv)?;
 
             // next event
-            let (next_ev, next_mark) = self.next_event_impl()?;
+            let (next_ev, next_mark) = self.next_uncommented(recv)?;
             ev = next_ev;
             mark = next_mark;
         }
@@ -767,8 +804,7 @@ impl<'input, T: Source> Parser<'input, T> {
             State::BlockNode => self.parse_node(true, false),
             State::BlockMappingFirstKey => self.block_mapping_key(true),
             State::BlockMappingKey => self.block_mapping_key(false),
-            State::BlockMappingValue => self.block_mapping_value(true),
-            State::BlockMappingValueCont => self.block_mapping_value(false),
+            State::BlockMappingValue => self.block_mapping_value(),
 
             State::BlockSequenceFirstEntry => self.block_sequence_entry(true),
             State::BlockSequenceEntry => self.block_sequence_entry(false),
@@ -777,7 +813,6 @@ impl<'input, T: Source> Parser<'input, T> {
             State::FlowSequenceEntry => self.flow_sequence_entry(false),
 
             State::FlowMappingFirstKey => self.flow_mapping_key(KeyFlow::FirstKey),
-            State::FlowMappingFirstKeyCont => self.flow_mapping_key(KeyFlow::FirstKeyContinue),
             State::FlowMappingKey => self.flow_mapping_key(KeyFlow::NonFirstKey),
             State::FlowMappingValue => self.flow_mapping_value(false),
 
@@ -830,11 +865,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::StreamEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type:
                     TokenType::VersionDirective { .. }
@@ -861,16 +891,13 @@ impl<'input, T: Source> Parser<'input, T> {
     }
 
     #[cfg(feature = "comment")]
-    fn extract_comment<'a>(&mut self) -> ParseResult<'a>
-    where
-        'input: 'a,
-    {
-        if let Token {
+    fn extract_comment(&mut self) -> (Event<'input>, Span) {
+        if let Some(Token {
             span,
             token_type: TokenType::Comment(comment),
-        } = self.fetch_token()
+        }) = self.scanner.comments.pop_front()
         {
-            Ok((Event::Comment(comment), span))
+            (Event::Comment(comment), span)
         } else {
             unreachable!()
         }
@@ -1095,11 +1122,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.state = State::IndentlessSequenceEntry;
                 Ok((Event::SequenceStart(anchor_id, tag), span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(_),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type: TokenType::Scalar { .. },
                 ..
@@ -1175,17 +1197,6 @@ impl<'input, T: Source> Parser<'input, T> {
             let _ = self.peek_token()?;
 
             self.skip();
-
-            #[cfg(feature = "comment")]
-            if let Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } = self.peek_token()?
-            {
-                // Ensure we don't skip next entry on repeat entry
-                self.state = State::BlockMappingKey;
-                return self.extract_comment();
-            }
         }
         match *self.peek_token()? {
             Token {
@@ -1222,11 +1233,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::MappingEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token { span, .. } => Err(YamlError::new_str(
                 span.start,
                 "while parsing a block mapping, did not find expected key",
@@ -1234,17 +1240,12 @@ impl<'input, T: Source> Parser<'input, T> {
         }
     }
 
-    fn block_mapping_value<'a>(&mut self, first: bool) -> ParseResult<'a>
+    fn block_mapping_value<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
-        let mut is_before_value_token = !first;
         if self.peek_token()?.token_type == TokenType::Value {
-            is_before_value_token = true;
             self.skip();
-        }
-
-        if is_before_value_token {
             if let Token {
                 token_type: TokenType::Key | TokenType::Value | TokenType::BlockEnd,
                 span,
@@ -1254,16 +1255,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 // empty scalar
                 Ok((Event::empty_scalar(), span))
             } else {
-                #[cfg(feature = "comment")]
-                if let Token {
-                    token_type: TokenType::Comment(_),
-                    ..
-                } = *self.peek_token()?
-                {
-                    self.state = State::BlockMappingValueCont;
-                    return self.extract_comment();
-                }
-
                 self.push_state(State::BlockMappingKey);
                 self.parse_node(true, true)
             }
@@ -1305,12 +1296,8 @@ impl<'input, T: Source> Parser<'input, T> {
                         }
                     }
 
-                    if key_flow == KeyFlow::FirstKeyContinue
-                        || self.peek_token()?.token_type == TokenType::Key
-                    {
-                        if key_flow != KeyFlow::FirstKeyContinue {
-                            self.skip();
-                        }
+                    if self.peek_token()?.token_type == TokenType::Key {
+                        self.skip();
                         if let Token {
                             span,
                             token_type:
@@ -1320,16 +1307,6 @@ impl<'input, T: Source> Parser<'input, T> {
                             self.state = State::FlowMappingValue;
                             return Ok((Event::empty_scalar(), span));
                         }
-                        #[cfg(feature = "comment")]
-                        if let Token {
-                            token_type: TokenType::Comment(_),
-                            ..
-                        } = *self.peek_token()?
-                        {
-                            self.state = State::FlowMappingFirstKeyCont;
-                            return self.extract_comment();
-                        }
-
                         self.push_state(State::FlowMappingValue);
                         return self.parse_node(false, false);
                     } else if let Token {
@@ -1512,17 +1489,6 @@ impl<'input, T: Source> Parser<'input, T> {
                     self.state = State::BlockSequenceEntry;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    #[cfg(feature = "comment")]
-                    if let Token {
-                        token_type: TokenType::Comment(..),
-                        ..
-                    } = self.peek_token()?
-                    {
-                        self.push_state(State::BlockSequenceEntry);
-                        self.state = State::BlockNode;
-                        return self.extract_comment();
-                    }
-
                     self.push_state(State::BlockSequenceEntry);
                     self.parse_node(true, false)
                 }
@@ -1653,7 +1619,6 @@ impl<'input, T: Source> Parser<'input, T> {
 #[derive(PartialEq, Debug, Clone, Copy)]
 enum KeyFlow {
     FirstKey,
-    FirstKeyContinue,
     NonFirstKey,
 }
 
diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index f6a6af3..c44bb6d 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -108,9 +108,18 @@ where
     }
 }
 impl<'de, R: Source> ParserIter<'de, R> {
+    fn next_uncommented(&mut self) -> Result<Event<'de>, YamlError> {
+        loop {
+            let ev = self.parser.next_event_impl()?.0;
+            if !matches!(ev, Event::Comment(_)) {
+                return Ok(ev);
+            }
+        }
+    }
+
     pub(crate) fn process_start(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_uncommented()?;
         if ev != Event::StreamStart {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -118,7 +127,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
             });
         }
         // Expect a <doc-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_uncommented()?;
         if !ev.is_doc_start() {
             return Err(YamlError::UnExpectedEvent {
                 expected: "DocStart",
@@ -171,7 +180,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
 
     pub(crate) fn finish_document(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_uncommented()?;
         if ev != Event::StreamEnd {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 428026e..b9b4600 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -94,6 +94,9 @@ pub struct Scanner<'input, S> {
     src: S,
     pub(crate) mark: Marker,
     tokens: VecDeque<Token<'input>>,
+    /// The comments scanned so far that the parser did not report yet.
+    #[cfg(feature = "comment")]
+    pub(crate) comments: VecDeque<Token<'input>>,
     pub(crate) error: Option<YamlError>,
 
     simple_keys: Vec<SimpleKey>,
@@ -126,6 +129,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 line: 1,
             },
             tokens: VecDeque::new(),
+            #[cfg(feature = "comment")]
+            comments: VecDeque::new(),
             implicit_flow_mapping_states: Vec::new(),
             error: None,
             simple_keys: Vec::new(),
@@ -594,7 +599,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn skip_yaml_whitespace(&mut self) {
         loop {
             match self.src.peekz(0) {
@@ -608,19 +612,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.simple_key_allowed = true;
                     }
                 }
-                b'#' => {
-                    #[cfg(feature = "comment")]
-                    {
-                        let token = self.scan_comment();
-                        self.tokens.push_back(token);
-                    }
-                    #[cfg(not(feature = "comment"))]
-                    {
-                        let comment_length = self.src.skip_while_non_breakz();
-                        self.mark.pos += comment_length;
-                        self.mark.col += comment_length as u32;
-                    }
-                }
+                b'#' => self.skip_comment(),
                 _ => break,
             }
         }
@@ -825,7 +817,12 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.mark.col += n_bytes;
         self.mark.pos += n_bytes as usize;
-        result.map_err(|message| YamlError::new_str(self.mark, message))
+        let result = result.map_err(|message| YamlError::new_str(self.mark, message))?;
+        #[cfg(feature = "comment")]
+        if self.src.peekz(0) == b'#' {
+            self.skip_comment();
+        }
+        Ok(result)
     }
 
     #[inline]
@@ -870,7 +867,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         !self.indents.is_empty()
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn skip_to_next_token(&mut self) -> ScanResult {
         loop {
             match self.src.peekz(0) {
@@ -902,11 +898,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.simple_key_allowed = true;
                     }
                 }
-                b'#' => {
-                    let comment_length = self.src.skip_while_non_breakz();
-                    self.mark.pos += comment_length;
-                    self.mark.col += comment_length as u32;
-                }
+                b'#' => self.skip_comment(),
                 _ => break,
             }
         }
@@ -1233,11 +1225,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             b':' if self.flow_level == 0 && start_mark.line == self.mark.line => {}
             // Inside a flow context, this is allowed.
             b':' if self.flow_level > 0 => {}
-            #[cfg(feature = "comment")]
-            b'#' => {
-                let comment = self.scan_comment();
-                self.tokens.push_back(comment);
-            }
             _ => {
                 return Err(YamlError::new_str(
                     self.mark,
@@ -1323,11 +1310,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        #[cfg(feature = "comment")]
-        if self.src.peekz(0) == b'#' {
-            let comment = self.scan_comment();
-            self.tokens.push_back(comment);
-        }
 
         // Check if we are at the end of the line.
         if !is_breakz(self.src.peekz(0)) {
@@ -2225,6 +2207,21 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(string)
     }
 
+    #[allow(clippy::cast_possible_truncation)]
+    fn skip_comment(&mut self) {
+        #[cfg(feature = "comment")]
+        {
+            let comment = self.scan_comment();
+            self.comments.push_back(comment);
+        }
+        #[cfg(not(feature = "comment"))]
+        {
+            let comment_length = self.src.skip_while_non_breakz();
+            self.mark.pos += comment_length;
+            self.mark.col += comment_length as u32;
+        }
+    }
+
     #[cfg(feature = "comment")]
     #[allow(clippy::cast_possible_truncation)]
     fn scan_comment(&mut self) -> Token<'input> {
-- 
2.43.0


From 5a1d631d4eb1f63cd77499857427cb7bf00f8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 37/55] fix: the break after a block scalar header is not
 content, even at the end of input

---
 yam-core/src/parsing/scanner.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b9b4600..f3cbc15 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1264,7 +1264,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut string = Vec::<u8>::new();
         let mut leading_break = Vec::<u8>::new();
         let mut trailing_breaks = Vec::<u8>::new();
-        let mut chomping_break = Vec::<u8>::new();
 
         // skip '|' or '>'
         self.skip_non_blank();
@@ -1321,7 +1320,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_break(self.src.peekz(0)) {
             // self.src.lookahead(2);
-            self.read_break(&mut chomping_break);
+            self.skip_linebreak();
         }
 
         if self.src.peekz(0) == b'\t' {
@@ -1356,11 +1355,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ChompIndicator::Strip | ChompIndicator::Clip => Vec::new(),
                 // There was no newline after the chomping indicator.
                 _ if self.mark.line == start_mark.line => Vec::new(),
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-                // Otherwise, the newline after chomping is ignored.
-                ChompIndicator::Keep => trailing_breaks,
+                // We keep lines. The break ending the header is not part of the content, but a
+                // last line that has only blanks and no break of its own still counts as a line.
+                ChompIndicator::Keep => {
+                    if self.mark.col > 1 {
+                        trailing_breaks.push(b'\n');
+                    }
+                    trailing_breaks
+                }
             };
             self.tokens.push_back(Token {
                 span: self.get_span(start_mark),
-- 
2.43.0


From e4ae59217c50a5427d8ca48753356b0d6c5d1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 38/55] fix: a simple key may hold 1024 characters, not 1024
 bytes

---
 yam-core/src/parsing/scanner.rs |  6 ++++++
 yam-core/src/parsing/source.rs  | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f3cbc15..684adbb 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1953,6 +1953,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                 && self.flow_level == 0
                     && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
             {
+                // The limit is in characters, which may take several bytes each.
+                if sk.mark.line == self.mark.line
+                    && self.src.chars_behind(self.mark.pos - sk.mark.pos) <= 1024
+                {
+                    continue;
+                }
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
                 }
diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index f044f0d..1aebb55 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -102,6 +102,12 @@ pub unsafe trait Source {
 
     fn skip(&mut self, n: usize);
 
+    /// How many characters the last `n_bytes` skipped bytes hold. Sources that don't keep
+    /// skipped bytes count every byte.
+    fn chars_behind(&self, n_bytes: usize) -> usize {
+        n_bytes
+    }
+
     fn skip_while_blank(&mut self) -> usize {
         let mut n_chars = 0;
         while is_blank(self.peekz(0)) {
@@ -299,6 +305,14 @@ unsafe impl Source for StrSource<'_> {
         self.pos += n;
     }
 
+    fn chars_behind(&self, n_bytes: usize) -> usize {
+        self.input
+            .get(self.pos.saturating_sub(n_bytes)..self.pos)
+            .map_or(n_bytes, |bytes| {
+                bytes.iter().filter(|&&b| b & 0xC0 != 0x80).count()
+            })
+    }
+
     fn skip_ws_to_eol(
         &mut self,
         skip_tabs: bool,
-- 
2.43.0


From 6b14da7705073777c8fedd9eff732854cb318adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 39/55] fix: a tab does not indent a block structure

---
 yam-core/src/parsing/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 684adbb..2bca7a8 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -890,7 +890,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 }
-                b'\t' | b' ' => self.skip_blank(),
+                b'\t' => {
+                    // A tab can precede content, but not indent a block structure.
+                    if self.flow_level == 0 && self.leading_whitespace {
+                        self.simple_key_allowed = false;
+                    }
+                    self.skip_blank();
+                }
+                b' ' => self.skip_blank(),
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
-- 
2.43.0


From bfc3790a3e0293e39b8c9786ee5f4a38dfa7edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 40/55] fix: a tab after a block sequence indicator does not
 indent a block structure

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 2bca7a8..0b5ff2f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -536,7 +536,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.remove_simple_key()?;
-        self.simple_key_allowed = true;
+        // A tab can only separate tokens, it can't indent a block node.
+        self.simple_key_allowed = !res.found_tabs();
 
         let span = self.get_span(mark);
         self.tokens.push_back(Token {
-- 
2.43.0


From 8d18ac0436b85ca2c4c9134c1c27a9a41b29c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 41/55] fix: a tab does not indent the node of a block sequence
 entry

---
 yam-core/src/parsing/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 0b5ff2f..f72de2f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -868,6 +868,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         !self.indents.is_empty()
     }
 
+    /// Content that starts here would be indented like the current block collection.
+    fn is_at_block_collection(&self) -> bool {
+        self.flow_level == 0
+            && self.mark.col == self.indent
+            && self.indents.last().is_some_and(|x| x.needs_block_end)
+    }
+
     fn skip_to_next_token(&mut self) -> ScanResult {
         loop {
             match self.src.peekz(0) {
@@ -880,7 +887,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 b'\t'
                     if self.is_within_block()
                         && self.leading_whitespace
-                        && self.mark.col < self.indent =>
+                        && (self.mark.col < self.indent || self.is_at_block_collection()) =>
                 {
                     self.skip_ws_to_eol(SkipTabs::Yes, false)?;
                     // If we have content on that line with a tab, return an error.
-- 
2.43.0


From 47cfec3a65bd875be602abc207b1de5a804f18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 42/55] fix: every line of a flow collection is indented more
 than the block collection it is in

---
 yam-core/src/parsing/scanner.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f72de2f..242393f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -964,8 +964,13 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     #[allow(clippy::too_many_lines)]
     fn scan_plain_scalar(&mut self) -> Result<Token<'input>, YamlError> {
-        self.unroll_non_block_indents();
-        let indent = self.indent + 1;
+        let indent = if self.flow_level > 0 && self.in_one_col_indent() {
+            // A flow collection in a block collection is indented as a whole.
+            self.indent
+        } else {
+            self.unroll_non_block_indents();
+            self.indent + 1
+        };
         let start_mark = self.mark;
 
         if self.flow_level > 0 && start_mark.col < indent {
@@ -1925,6 +1930,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    fn in_one_col_indent(&self) -> bool {
+        self.indents.last().is_some_and(|x| !x.needs_block_end)
+    }
+
     fn unroll_non_block_indents(&mut self) {
         while let Some(indent) = self.indents.last() {
             if indent.needs_block_end {
-- 
2.43.0


From 80faafcb437fb85df0462383d275fbf0a2989b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 43/55] fix: the lines of a plain scalar in a flow collection
 are indented

---
 yam-core/src/parsing/scanner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 242393f..017f715 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1102,6 +1102,16 @@ impl<'input, S: Source> Scanner<'input, S> {
             if self.flow_level == 0 && self.mark.col < indent {
                 break;
             }
+            if self.flow_level > 0
+                && self.mark.col < indent
+                && self.src.peekz(0) != b'#'
+                && !self.src.buf_is_empty()
+            {
+                return Err(YamlError::new_str(
+                    self.mark,
+                    "invalid indentation in flow construct",
+                ));
+            }
         }
 
         if self.leading_whitespace {
-- 
2.43.0


From e1abef79d2f714c96eb8d2cc7eeabdd20757224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:23 +0000
Subject: [PATCH 44/55] fix: the span of an empty node is empty

---
 yam-core/src/parsing/parser.rs | 40 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 14ea96b..d07daa7 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -985,7 +985,10 @@ impl<'input, T: Source> Parser<'input, T> {
             } => {
                 self.pop_state();
                 // empty scalar
-                Ok((Event::Scalar(ScalarValue::empty_scalar()), span))
+                Ok((
+                    Event::Scalar(ScalarValue::empty_scalar()),
+                    Span::empty(span.start),
+                ))
             }
             _ => self.parse_node(true, false),
         }
@@ -1178,7 +1181,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.pop_state();
                 Ok((
                     Event::Scalar(ScalarValue::empty_scalar_with_anchor(anchor_id, tag)),
-                    span,
+                    Span::empty(span.start),
                 ))
             }
             Token { span, .. } => Err(YamlError::new_str(
@@ -1211,7 +1214,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 {
                     self.state = State::BlockMappingValue;
                     // empty scalar
-                    Ok((Event::empty_scalar(), span))
+                    Ok((Event::empty_scalar(), Span::empty(span.start)))
                 } else {
                     self.push_state(State::BlockMappingValue);
                     self.parse_node(true, true)
@@ -1223,7 +1226,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 token_type: TokenType::Value,
             } => {
                 self.state = State::BlockMappingValue;
-                Ok((Event::empty_scalar(), span))
+                Ok((Event::empty_scalar(), Span::empty(span.start)))
             }
             Token {
                 span,
@@ -1253,7 +1256,7 @@ impl<'input, T: Source> Parser<'input, T> {
             {
                 self.state = State::BlockMappingKey;
                 // empty scalar
-                Ok((Event::empty_scalar(), span))
+                Ok((Event::empty_scalar(), Span::empty(span.start)))
             } else {
                 self.push_state(State::BlockMappingKey);
                 self.parse_node(true, true)
@@ -1262,7 +1265,7 @@ impl<'input, T: Source> Parser<'input, T> {
             self.state = State::BlockMappingKey;
             let span = self.peek_token()?.span;
             // empty scalar
-            Ok((Event::empty_scalar(), span))
+            Ok((Event::empty_scalar(), Span::empty(span.start)))
         }
     }
 
@@ -1280,7 +1283,7 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::FlowMappingEnd,
                 } => span,
-                Token { span, .. } => {
+                _ => {
                     if key_flow.is_non_first() {
                         match *self.peek_token()? {
                             Token {
@@ -1305,7 +1308,7 @@ impl<'input, T: Source> Parser<'input, T> {
                         } = *self.peek_token()?
                         {
                             self.state = State::FlowMappingValue;
-                            return Ok((Event::empty_scalar(), span));
+                            return Ok((Event::empty_scalar(), Span::empty(span.start)));
                         }
                         self.push_state(State::FlowMappingValue);
                         return self.parse_node(false, false);
@@ -1315,18 +1318,17 @@ impl<'input, T: Source> Parser<'input, T> {
                     } = *self.peek_token()?
                     {
                         self.state = State::FlowMappingValue;
-                        return Ok((Event::empty_scalar(), span));
+                        return Ok((Event::empty_scalar(), Span::empty(span.start)));
                     } else if let Token {
+                        span,
                         token_type: TokenType::FlowMappingEnd,
-                        ..
                     } = *self.peek_token()?
                     {
+                        span
                     } else {
                         self.push_state(State::FlowMappingEmptyValue);
                         return self.parse_node(false, false);
                     }
-
-                    span
                 }
             }
         };
@@ -1344,7 +1346,7 @@ impl<'input, T: Source> Parser<'input, T> {
             if empty {
                 let Token { span, .. } = *self.peek_token()?;
                 self.state = State::FlowMappingKey;
-                return Ok((Event::empty_scalar(), span));
+                return Ok((Event::empty_scalar(), Span::empty(span.start)));
             }
             match *self.peek_token()? {
                 Token {
@@ -1366,7 +1368,7 @@ impl<'input, T: Source> Parser<'input, T> {
         };
 
         self.state = State::FlowMappingKey;
-        Ok((Event::empty_scalar(), span))
+        Ok((Event::empty_scalar(), Span::empty(span.start)))
     }
 
     fn flow_sequence_entry<'a>(&mut self, first: bool) -> ParseResult<'a>
@@ -1443,7 +1445,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 } = *self.peek_token()?
                 {
                     self.state = State::IndentlessSequenceEntry;
-                    Ok((Event::empty_scalar(), span))
+                    Ok((Event::empty_scalar(), Span::empty(span.start)))
                 } else {
                     self.push_state(State::IndentlessSequenceEntry);
                     self.parse_node(true, false)
@@ -1487,7 +1489,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 } = *self.peek_token()?
                 {
                     self.state = State::BlockSequenceEntry;
-                    Ok((Event::empty_scalar(), span))
+                    Ok((Event::empty_scalar(), Span::empty(span.start)))
                 } else {
                     self.push_state(State::BlockSequenceEntry);
                     self.parse_node(true, false)
@@ -1511,7 +1513,7 @@ impl<'input, T: Source> Parser<'input, T> {
         {
             // The token is not part of the key: it is handled when parsing the value.
             self.state = State::FlowSequenceEntryMappingValue;
-            Ok((Event::empty_scalar(), span))
+            Ok((Event::empty_scalar(), Span::empty(span.start)))
         } else {
             self.push_state(State::FlowSequenceEntryMappingValue);
             self.parse_node(false, false)
@@ -1538,7 +1540,7 @@ impl<'input, T: Source> Parser<'input, T> {
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
                     self.state = State::FlowSequenceEntryMappingEnd;
-                    Ok((Event::empty_scalar(), span))
+                    Ok((Event::empty_scalar(), Span::empty(span.start)))
                 } else {
                     self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
@@ -1546,7 +1548,7 @@ impl<'input, T: Source> Parser<'input, T> {
             }
             Token { span, .. } => {
                 self.state = State::FlowSequenceEntryMappingEnd;
-                Ok((Event::empty_scalar(), span))
+                Ok((Event::empty_scalar(), Span::empty(span.start)))
             }
         }
     }
-- 
2.43.0


From ceb3e1b91b151ba3f7d90c38d617b6ebf0ec4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 45/55] fix: the span of a quoted scalar or bracket ends with
 it

---
 yam-core/src/parsing/scanner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 017f715..c1802c4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -407,9 +407,9 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ImplicitMappingState::Possible
             });
 
+        let span = self.get_span(start_mark);
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token { span, token_type });
 
         Ok(())
@@ -428,13 +428,13 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         let start_mark = self.mark;
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
         if self.flow_level > 0 {
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
@@ -1242,6 +1242,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Eat the right quote.
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
         // Ensure there is no invalid trailing content.
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -1269,7 +1270,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             ScalarType::DoubleQuote
         };
         Ok(Token {
-            span: Span::new(start_mark, self.mark),
+            span,
             token_type: TokenType::Scalar {
                 scalar_type: style,
                 value: unsafe { Cow::Owned(String::from_utf8_unchecked(string)) },
-- 
2.43.0


From aae49223b2c5120d7532993fbc9506c24e412b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 46/55] fix: '}' does not end a single pair mapping in a flow
 sequence

---
 yam-core/src/parsing/scanner.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index c1802c4..f84eb16 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -424,7 +424,17 @@ impl<'input, S: Source> Scanner<'input, S> {
         if matches!(token_type, TokenType::FlowSequenceEnd) {
             self.end_implicit_mapping(self.mark);
         }
-        self.implicit_flow_mapping_states.pop();
+        // `}` ends what `{` started, not a single pair mapping within `[` and `]`.
+        let in_mapping = matches!(
+            self.implicit_flow_mapping_states.pop(),
+            Some(ImplicitMappingState::Mapping)
+        );
+        if in_mapping != matches!(token_type, TokenType::FlowMappingEnd) {
+            return Err(YamlError::new_str(
+                self.mark,
+                "the end of a flow collection does not match its start",
+            ));
+        }
 
         let start_mark = self.mark;
         self.skip_non_blank();
-- 
2.43.0


From a8811274ccbede90236954f3175f716be2d39427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 47/55] fix: a comment right after an adjacent ':' is an error

---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f84eb16..217798b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -738,6 +738,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                 "':' may not precede any of `[{` in flow mapping",
             ));
         }
+        // The value is empty, and a comment needs a space before it.
+        if nc == b'#' {
+            return Err(YamlError::new_str(
+                self.mark,
+                "comments must be separated from other tokens by whitespace",
+            ));
+        }
 
         self.fetch_value()
     }
-- 
2.43.0


From 7626c143c7a7f7029897580c86e3aeb032e77dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 48/55] fix: the adjacent value of a flow collection key may
 start on a later line

---
 yam-core/src/parsing/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 217798b..6b1113d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -442,6 +442,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
         if self.flow_level > 0 {
+            // The adjacent value may start on a later line, see `fetch_flow_scalar`.
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-- 
2.43.0


From 2e8d5bfffea9b722ce92a07083933f1da5ec98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 49/55] fix: '?' right before a flow indicator is an error

---
 yam-core/src/parsing/scanner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6b1113d..cc4b551 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -378,6 +378,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
+            [b'?', x] if is_flow(x) => Err(YamlError::new_str(
+                self.mark,
+                "'?' must be followed by a blank or a character of a plain scalar",
+            )),
             [b'%' | b'@' | b'`', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
-- 
2.43.0


From b1bd9221f49ed3a65dfe0ae428c474b96c7a9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 50/55] fix: an anchor or alias is followed by a blank or the
 end of the flow entry

---
 yam-core/src/parsing/scanner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cc4b551..67caf53 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1554,6 +1554,16 @@ impl<'input, S: Source> Scanner<'input, S> {
                 "while scanning an anchor or alias, did not find expected alphabetic or numeric character",
             ));
         }
+        match self.src.peekz(0) {
+            c if is_blank_or_breakz(c) => {}
+            b',' | b']' | b'}' if self.flow_level > 0 => {}
+            _ => {
+                return Err(YamlError::new_str(
+                    self.mark,
+                    "while scanning an anchor or alias, did not find expected whitespace or line break",
+                ));
+            }
+        }
 
         let tok = if alias {
             TokenType::Alias(Cow::Owned(unsafe { String::from_utf8_unchecked(string) }))
-- 
2.43.0


From 0dfa7e4c4cbdbef481df0414651ba3e0406b4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 51/55] fix: a tag is followed by a blank or the end of the
 flow entry

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 67caf53..6433430 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1612,7 +1612,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         if is_blank_or_breakz(self.src.peekz(0))
-            || (self.flow_level > 0 && is_flow(self.src.peekz(0)))
+            || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From b26773241b6372ed0f113f5aa7e7ca0b1f0aa09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 52/55] fix: a comment after a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6433430..4eb7679 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1095,9 +1095,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty, or is a comment (which ends the scalar). Skip to the end of the
+                        // line, or to the comment.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From 3bac1a40df3f3284c121bec09f00b3a15125bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 53/55] fix: a double quoted scalar does not end at the column
 of its mapping after an escaped line break

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 4eb7679..9697db4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1211,7 +1211,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
             match self.src.peekz(0) {
                 b'\'' if single => break,
-                b'"' if !single => break,
+                // After an escaped line break, the next line has to be indented.
+                b'"' if !single && !leading_blanks => break,
                 _ => {}
             }
 
-- 
2.43.0


From 2febbfd8c41248f96e27efe9c6a39f6d1d1e3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 54/55] fix: a less indented comment may follow an empty block
 scalar with an indentation indicator

---
 yam-core/src/parsing/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 9697db4..d33eedb 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1433,7 +1433,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         let at_document_indicator = self.mark.col == 1 && self.src.next_is_document_indicator();
-        if self.mark.col < indent && self.mark.col > self.indent && !at_document_indicator {
+        // A comment ends a scalar without content, if it cannot be the first line of the content.
+        let at_comment = increment > 0 && self.src.peekz(0) == b'#';
+        if self.mark.col < indent
+            && self.mark.col > self.indent
+            && !at_document_indicator
+            && !at_comment
+        {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From cb23051a1a9b559235ed10ed818fb3b9146e3ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 55/55] fix: the handle and the prefix of a TAG directive are
 separated

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d33eedb..9ae8dae 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2194,6 +2194,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             .into();
 
         let n_blanks = self.src.skip_while_blank();
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace after the handle",
+            ));
+        }
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
 
-- 
2.43.0

