From bae77e5f2c94314588be6d2a1c64c1ae80a1f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 01/26] fix: treat a lone carriage return as a line break

skip_linebreak ignored a `\r` not followed by `\n`, although every caller
dispatches on is_break(): the scanner looped forever on such input.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..afeef65 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\n' | b'\r', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 0c834ee5512c6de07f62ab035f6d5895f8a54184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 02/26] fix: reject a raw NUL in a quoted scalar

NUL is not a YAML character; no branch of the loop consumed it, so the
scanner never returned.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index afeef65..85afd2d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1121,7 +1121,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From a652187503517c163c21b6baf4d95901533f906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 03/26] fix: leave deep block scalar indentation at end of
 input

With an indentation of 126 columns or more, the indentation loop only
ended on content or on the exact column, and spun forever at end of input.
---
 yam-core/src/parsing/scanner.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 85afd2d..daaac68 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1712,9 +1712,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                     // If we reached our indent, we can break. We must also break if we have
                     // reached content or EOF; that is, the buffer is not empty and the next
                     // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
-                    {
+                    if self.mark.col >= indent || self.src.peekz(0) != b' ' {
                         break;
                     }
                 }
-- 
2.43.0


From 6098d328e285ab1d5b4f892b0d029216c39af433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 04/26] fix: do not read past the input in StrSource::peek_char

The four bytes after the position were read unchecked, and assumed to be
valid UTF-8, even at the end of the input.
---
 yam-core/src/parsing/source.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..ee79624 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,13 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        let end = self.input.len().min(self.pos + 4);
+        let bytes = self.input.get(self.pos..end).unwrap_or_default();
+        bytes
+            .utf8_chunks()
+            .next()
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 40cf5b5a45bec9b1fa0476a3b9f88bc4422a0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 05/26] fix: push_non_breakz_chr takes the rest of a last line
 without break

---
 yam-core/src/parsing/source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index ee79624..318407d 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -289,7 +289,7 @@ unsafe impl Source for StrSource<'_> {
         let len = self.input[self.pos..]
             .iter()
             .position(|&c| is_break(c))
-            .unwrap_or(0);
+            .unwrap_or(self.input.len() - self.pos);
         let slice = &self.input[self.pos..self.pos + len];
         self.skip(len);
         vec.extend_from_slice(slice);
-- 
2.43.0


From cbd85917e274cd14aa128b865f6f6dcbf9432356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 06/26] fix: report a %YAML version number over 255 instead of
 overflowing

---
 yam-core/src/parsing/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index daaac68..b540a5d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2132,7 +2132,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2143,7 +2143,10 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = val
+                .checked_mul(10)
+                .and_then(|v| v.checked_add(digit))
+                .ok_or_else(|| YamlError::new_str(*mark, "version number is too large"))?;
             self.skip_non_blank();
         }
 
-- 
2.43.0


From ef1a75e1a670ef91814b9a1c6f93c509a9fa2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 07/26] fix: decode multi-byte URI escapes in tags as UTF-8

The escaped bytes were concatenated into one code point, so `%C3%A9` became
U+C3A9 instead of U+E9. Overlong encodings are refused.
---
 yam-core/src/parsing/scanner.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b540a5d..53d41a9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1990,6 +1990,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
+        let mut length = 0usize;
         let mut code = 0u32;
         loop {
             // self.src.lookahead(3);
@@ -2018,7 +2019,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
+                code = match width {
+                    1 => byte,
+                    2 => byte & 0x1F,
+                    3 => byte & 0x0F,
+                    _ => byte & 0x07,
+                };
+                length = width;
             } else {
                 if byte & 0xc0 != 0x80 {
                     return Err(YamlError::new_str(
@@ -2026,7 +2033,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         "while parsing a tag, found an incorrect trailing UTF-8 byte",
                     ));
                 }
-                code = (code << 8) + byte;
+                code = (code << 6) + (byte & 0x3F);
             }
 
             self.skip_n_non_blank(3);
@@ -2038,8 +2045,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+            Some(ch) if ch.len_utf8() == length => Ok(ch.to_string().as_bytes().to_vec()),
+            _ => Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
             )),
-- 
2.43.0


From dfcfc5556d25d4c71390fdc969df45daa91510bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 08/26] fix: keep every %TAG directive of a document

The map was created anew for each directive: only the last one was kept, a
duplicated handle was never reported, and keep_tags lost earlier documents'
tags.
---
 yam-core/src/parsing/parser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..de6235a 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -875,8 +875,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -899,19 +899,22 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::TagDirective { handle, prefix },
                 } => {
-                    if tags.contains_key(&**handle) {
-                        return Err(YamlError::new_str(
-                            span.start,
-                            "the TAG directive must only be given at most once per handle in the same document",
-                        ));
+                    // Reserved directives are reported with an empty handle.
+                    if !handle.is_empty() {
+                        if tags.contains_key(&**handle) {
+                            return Err(YamlError::new_str(
+                                span.start,
+                                "the TAG directive must only be given at most once per handle in the same document",
+                            ));
+                        }
+                        tags.insert(handle.to_string(), prefix.to_string());
                     }
-                    tags.insert(handle.to_string(), prefix.to_string());
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.extend(tags);
         Ok(())
     }
 
-- 
2.43.0


From 4fa5f42d2f8b818261c57a5f5ade7a46143dd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 09/26] fix: do not drop the token after an empty explicit key
 in a flow sequence

`[? ]`, `[? , a]` and `[? : b]` were refused.
---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index de6235a..a4a80a5 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1541,7 +1541,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From ac116d1d70dd75ac983c0cb76a318942ab5d22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 10/26] fix: keep mapping entries whose key is tagged or bad

The loader used the bad value, which tagged nodes also report as their type,
to mark a missing key, so it lost such keys and shifted the entries.
---
 yam-core/src/prelude/loader.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..dfdc9d5 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,7 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +141,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +426,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From 3218cb3c49f3fb8f9244c10b2ebfdf06f93cc1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 11/26] fix: IndexMut<usize> on a mapping returns the value

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From 29dfb44d9122ce59f4b85a930f0eec1de5f5ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 12/26] fix: plain scalars with a second sign are not integers

`+-5`, `++5`, `0x-5` and `0o+7` were resolved as integers.
---
 yam-core/src/node/scalar.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..a86d7be 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -128,18 +128,19 @@ where
         let bytes = s.as_bytes();
 
         if bytes.len() >= 2 {
+            // Rust's integer parsers accept a sign: check that a digit follows the prefix.
             match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
+                (b'0', b'x') if bytes.get(2).is_some_and(u8::is_ascii_hexdigit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'0', b'o') => {
+                (b'0', b'o') if bytes.get(2).is_some_and(u8::is_ascii_digit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'+', _) => {
+                (b'+', b'0'..=b'9') => {
                     if let Ok(i) = s[1..].parse::<i64>() {
                         return Self::Integer(i.into());
                     }
-- 
2.43.0


From d859c1213333648d8a64edfaf695b6190f7a8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 13/26] fix: an empty plain scalar is null

The core schema resolves an empty plain scalar to null; `key:` was loaded as
an empty string.
---
 yam-core/src/node/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index a86d7be..57e8d6a 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -150,6 +150,7 @@ where
         }
 
         match bytes.len() {
+            0 => return Self::Null(PhantomData),
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
                 let f = bytes[0] & 0xDF;
-- 
2.43.0


From d15d4342d460f3165db151cb4cb7524b81b4a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 14/26] fix: explicit !!bool, !!int and !!null accept every
 core schema form

`!!bool True`, `!!int 0x1F` and `!!null NULL` were loaded as bad values.
---
 yam-core/src/node/scalar.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 57e8d6a..8004f23 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,16 +90,19 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    "bool" => match Self::parse_from_cow(v) {
+                        b @ Self::Bool(_) => Some(b),
+                        _ => None,
+                    },
+                    "int" => match Self::parse_from_cow(v) {
+                        i @ Self::Integer(_) => Some(i),
+                        _ => None,
+                    },
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
-                    "null" => {
-                        if ScalarValue::is_null_tagged(&v, &tag) {
-                            Some(Self::Null(PhantomData))
-                        } else {
-                            None
-                        }
-                    }
+                    "null" => match Self::parse_from_cow(v) {
+                        n @ Self::Null(_) => Some(n),
+                        _ => None,
+                    },
                     "str" => Some(Self::String(v.into())),
                     // If we have a tag we do not recognize, return `None`.
                     _ => None,
-- 
2.43.0


From a532f21726709d949c2f417fceb068fca45549de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 15/26] fix: anchors end with their document when events are
 pulled

Only load() cleared them: with next_event() an alias could refer to a node
of an earlier document.
---
 yam-core/src/parsing/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index a4a80a5..862adfe 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -846,6 +846,8 @@ impl<'input, T: Source> Parser<'input, T> {
             }
             Token { span, .. } if implicit => {
                 self.parser_process_directives()?;
+                // clear anchors before a new document
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::BlockNode;
                 Ok((Event::DocumentStart(false), span))
@@ -928,6 +930,8 @@ impl<'input, T: Source> Parser<'input, T> {
                 span,
                 token_type: TokenType::DocumentStart,
             } => {
+                // clear anchors before a new document
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::DocumentContent;
                 self.skip();
-- 
2.43.0


From bcda38779af8f324d85e99c27eb6f187584f8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 16/26] fix: ParserIter yields alias events

They were dropped, which shifted the entries of the enclosing collection.
---
 yam-core/src/parsing/parser_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..aa21f97 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From e4627c095b972c81485219aeda4d25f62f96bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 17/26] fix: load works after the stream start was peeked

---
 yam-core/src/parsing/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 862adfe..b3ed6c6 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -626,7 +626,10 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        // A peeked `StreamStart` is yet to be consumed.
+        if !self.scanner.stream_start_produced
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
-- 
2.43.0


From f025575c71d9bcdb62127d65f102e127a224f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 18/26] fix: clipped block scalar without content at the end of
 input is empty

---
 yam-core/src/parsing/scanner.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 53d41a9..aaf76a9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1356,9 +1356,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ChompIndicator::Strip => Vec::new(),
                 // There was no newline after the chomping indicator.
                 _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
+                // There is no content whose final newline clipping could preserve.
+                ChompIndicator::Clip => Vec::new(),
                 // We keep lines. There was a newline after the chomping indicator but nothing
                 // else.
                 ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-- 
2.43.0


From 9dafc041fd71ac7352f23a4ca236ca34237f6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 19/26] fix: a document start marker ends an empty root block
 scalar

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index aaf76a9..6d4dd43 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1386,7 +1386,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.src.next_is_document_indicator() {
                     break;
                 }
             }
-- 
2.43.0


From 0cdcb9760072d054351099c766c7482a7bf2ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 20/26] fix: kept block scalar without content at the end of
 input has no line break

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6d4dd43..3508163 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1358,9 +1358,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 _ if self.mark.line == start_mark.line => Vec::new(),
                 // There is no content whose final newline clipping could preserve.
                 ChompIndicator::Clip => Vec::new(),
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
+                // We keep lines. There was a newline after the chomping indicator and then only
+                // an unterminated line of spaces, which counts as one line.
+                ChompIndicator::Keep if trailing_breaks.is_empty() && self.mark.col > 1 => {
+                    chomping_break
+                }
                 // Otherwise, the newline after chomping is ignored.
                 ChompIndicator::Keep => trailing_breaks,
             };
-- 
2.43.0


From 8384350d0ae98f90ce278bdb38c91d81edd3a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 21/26] fix: a document marker may follow a block scalar of
 longer blank lines

---
 yam-core/src/parsing/scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 3508163..bd7a4d3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1376,7 +1376,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        if self.mark.col < indent
+            && self.mark.col > self.indent
+            && !(self.mark.col == 1 && self.src.next_is_document_indicator())
+        {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 7ae1d3a7188aeb10909b2f330deae655a168cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 22/26] fix: flow mapping nested in a single pair of a flow
 sequence keeps its entries

---
 yam-core/src/parsing/scanner.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index bd7a4d3..92154da 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -83,6 +83,10 @@ enum ImplicitMappingState {
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
     Inside,
+    /// The entry of the flow sequence is a mapping started by an explicit `?`.
+    Explicit,
+    /// The flow collection is a mapping, no implicit mapping can follow.
+    Mapping,
 }
 
 #[allow(clippy::struct_excessive_bools)] // TODO maybe too much bools?
@@ -101,7 +105,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +136,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -384,7 +386,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_non_blank();
 
         if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
+            self.implicit_flow_mapping_states
+                .push(ImplicitMappingState::Mapping);
         } else {
             self.implicit_flow_mapping_states
                 .push(ImplicitMappingState::Possible);
@@ -406,8 +409,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if matches!(token_type, TokenType::FlowSequenceEnd) {
             self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
         }
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,10 +426,14 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
+        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
+            && *implicit_mapping == ImplicitMappingState::Explicit
+        {
+            *implicit_mapping = ImplicitMappingState::Possible;
+        }
         if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
             && *implicit_mapping == ImplicitMappingState::Inside
         {
-            self.flow_mapping_started = false;
             *implicit_mapping = ImplicitMappingState::Possible;
             let span = self.get_span(mark);
             self.tokens.push_back(Token {
@@ -543,9 +550,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 TokenType::BlockMappingStart,
                 start_mark,
             );
-        } else {
+        } else if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
+            && *implicit_mapping == ImplicitMappingState::Possible
+        {
             // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+            *implicit_mapping = ImplicitMappingState::Explicit;
         }
 
         self.remove_simple_key()?;
@@ -613,10 +622,12 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-        let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
-        if is_implicit_flow_mapping {
-            *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
+        let mut is_implicit_flow_mapping = false;
+        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
+            && *implicit_mapping == ImplicitMappingState::Possible
+        {
+            is_implicit_flow_mapping = true;
+            *implicit_mapping = ImplicitMappingState::Inside;
         }
 
         // Skip over ':'.
-- 
2.43.0


From 67c3213c35ad35d5de7f5972446d2efcbbdcd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 23/26] fix: ParserIter yields nothing after an error

---
 yam-core/src/parsing/parser_iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index aa21f97..096b932 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -81,6 +81,10 @@ where
     type Item = YamEvent<'de>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // An error ends the iteration.
+        if self.error.is_some() {
+            return None;
+        }
         let res = loop {
             match self.state {
                 State::StreamStart => break self.process_start(),
-- 
2.43.0


From 2eaf907e85e2675e0efafdcfd45ab45c7c578cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 24/26] fix: a document indicator ends a plain scalar only at
 the start of a line

---
 yam-core/src/parsing/scanner.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 92154da..d646a66 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -974,8 +974,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         loop {
             let next_is_document_indicator = self.src.next_is_document_indicator();
-            if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
-            {
+            if (self.mark.col == 1 && next_is_document_indicator) || self.src.peekz(0) == b'#' {
                 break;
             }
 
-- 
2.43.0


From 68c284e71242e2c704ae819106b23b7f763c2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 25/26] fix: a plain scalar in a flow collection may hold a '-'
 before a flow indicator

---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d646a66..920e8ff 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -978,7 +978,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && self.src.peekz(0) == b'-'
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
                     "plain scalar cannot start with '-' followed by ,[]{}",
-- 
2.43.0


From 4c44a641cd6d25f92c3bae8ba145bba804fc3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 26/26] fix: a comment after a tab on a continuation line ends
 a plain scalar

---
 yam-core/src/parsing/scanner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 920e8ff..0d60171 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -953,7 +953,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
-    #[allow(clippy::too_many_lines)]
+    #[allow(clippy::cast_possible_truncation, clippy::too_many_lines)]
     fn scan_plain_scalar(&mut self) -> Result<Token<'input>, YamlError> {
         self.unroll_non_block_indents();
         let indent = self.indent + 1;
@@ -1056,9 +1056,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty or only holds a comment, which ends the scalar.
+                        let n_blanks = self.src.skip_while_blank();
+                        self.mark.pos += n_blanks;
+                        self.mark.col += n_blanks as u32;
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0

