From f23df45ed25a2318cf43ed92fd4a0cc8cfe5eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 01/62] fix: accept a '?' indicator as the last character of
 the stream

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..52ed27d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -603,7 +603,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        if need_whitespace {
+        if need_whitespace && !self.src.buf_is_empty() {
             Err(YamlError::new_str(self.mark, "expected whitespace"))
         } else {
             Ok(())
-- 
2.43.0


From 70b257e92805683d43ed6c6a9bdb2b25c0a900e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 02/62] fix: an indented '---' or '...' is plain scalar
 content, not a document marker

---
 yam-core/src/parsing/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 52ed27d..1a51150 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -962,7 +962,9 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut end_mark = self.mark;
 
         loop {
-            let next_is_document_indicator = self.src.next_is_document_indicator();
+            // Document markers are only recognised at the start of a line.
+            let next_is_document_indicator =
+                self.mark.col == 1 && self.src.next_is_document_indicator();
             if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
             {
                 break;
-- 
2.43.0


From 31e11558ce55d4b09b83e1ed27a449b3d7502b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 03/62] fix: an empty explicit key in a flow sequence must not
 swallow the following token

---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..2bc8255 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1538,7 +1538,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From 16be7fe0a36ffdc04c75bb6d37c5d5468428f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 04/62] fix: track implicit flow mappings per nesting level

The scanner kept a single flag for 'inside a flow mapping', so an empty key
in a sequence nested in or following a mapping ({[:]}, [{}, :]) was rejected,
and keys split over lines ([{}<newline>: x]) were accepted.
---
 yam-core/src/parsing/scanner.rs | 61 ++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1a51150..3bf955a 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -74,6 +74,10 @@ struct Indent {
 
 #[derive(Debug, PartialEq)]
 enum ImplicitMappingState {
+    /// We are directly inside of a flow mapping (`{}`), no implicit mapping can start here.
+    FlowMapping,
+    /// We are in a flow sequence entry introduced by an explicit `?`.
+    Explicit,
     /// It is possible there is an implicit mapping.
     ///
     /// This state is the one when we have just encountered the opening `[`. We need more context
@@ -101,7 +105,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +136,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -383,12 +385,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
-        } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+        self.implicit_flow_mapping_states
+            .push(if token_type == TokenType::FlowMappingStart {
+                ImplicitMappingState::FlowMapping
+            } else {
+                ImplicitMappingState::Possible
+            });
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -404,10 +406,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.simple_key_allowed = false;
 
-        if matches!(token_type, TokenType::FlowSequenceEnd) {
-            self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
-        }
+        self.end_implicit_mapping(self.mark);
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,16 +423,19 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        match self.implicit_flow_mapping_states.last_mut() {
+            Some(state @ ImplicitMappingState::Inside) => {
+                *state = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            Some(state @ ImplicitMappingState::Explicit) => {
+                *state = ImplicitMappingState::Possible;
+            }
+            _ => {}
         }
     }
 
@@ -543,9 +546,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 TokenType::BlockMappingStart,
                 start_mark,
             );
-        } else {
-            // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+        } else if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            // The parser, upon receiving a `Key`, will prepend a `MappingStart` event.
+            *state = ImplicitMappingState::Explicit;
         }
 
         self.remove_simple_key()?;
@@ -613,8 +618,10 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-        let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
+        let is_implicit_flow_mapping = matches!(
+            self.implicit_flow_mapping_states.last(),
+            Some(ImplicitMappingState::Possible)
+        );
         if is_implicit_flow_mapping {
             *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
         }
-- 
2.43.0


From b6fbb49065be5aa00487651a17ccb2dbce58e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 05/62] fix: restrict the '-' before a flow indicator check to
 the start of a plain scalar

'[a -]' is a sequence of one plain scalar; '[?]' is not a plain scalar.
---
 yam-core/src/parsing/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 3bf955a..72ec800 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -977,10 +977,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if self.flow_level > 0
+                && string.is_empty()
+                && matches!(self.src.peekz(0), b'-' | b'?')
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
-                    "plain scalar cannot start with '-' followed by ,[]{}",
+                    "plain scalar cannot start with '-' or '?' followed by ,[]{}",
                 ));
             }
 
-- 
2.43.0


From d0ae4bf37a2e359e3a00bda54e22ae670765bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 06/62] fix: allow a tab between ':' and a value that is not a
 compact collection

'key:<TAB>value' was rejected whenever the value started with a letter or '-'.
---
 yam-core/src/parsing/scanner.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 72ec800..7884be5 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -628,17 +628,10 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
+        let tab_separated = self.src.peekz(0) == b'\t'
             && !self
                 .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
-        }
+                .has_valid_yaml_ws();
 
         if sk.possible {
             // insert simple key
@@ -699,7 +692,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0;
+            // A tab cannot indent a compact collection, only separate a scalar or flow node.
+            self.simple_key_allowed = self.flow_level == 0 && !tab_separated;
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
-- 
2.43.0


From cb770c6cfa45e157524960cf6a5ddfd48b2afedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 07/62] fix: treat tabs consistently around block indicators

A tab may separate an indicator ('-', '?', ':') from a scalar or flow node but
cannot indent a block collection: '?<TAB>a' was rejected while '<TAB>- a' and
'-<TAB>a: b' were accepted.
---
 yam-core/src/parsing/scanner.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 7884be5..587f0fe 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -505,13 +505,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         // generate BLOCK-SEQUENCE-START if indented
         self.roll_indent(mark.col, None, TokenType::BlockSequenceStart, mark);
         let res = self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        if res.found_tabs() && (b'-' == self.src.peekz(0)) && is_blank_or_break(self.src.peekz(1)) {
-            return Err(YamlError::new_str(
-                self.mark,
-                "'-' must be followed by a valid YAML whitespace",
-            ));
-        }
-
         self.skip_ws_to_eol(SkipTabs::No, res.has_valid_yaml_ws())?;
 
         if is_break(self.src.peekz(0)) || is_flow(self.src.peekz(0)) {
@@ -519,7 +512,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.remove_simple_key()?;
-        self.simple_key_allowed = true;
+        // A tab cannot indent a compact collection, only separate a scalar or flow node.
+        self.simple_key_allowed = !res.found_tabs();
 
         let span = self.get_span(mark);
         self.tokens.push_back(Token {
@@ -558,13 +552,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
+        self.roll_one_col_indent();
         self.skip_yaml_whitespace()?;
-        if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
-        }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
             span,
@@ -604,6 +593,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.mark.col += comment_length as u32;
                     }
                 }
+                b'\t' => {
+                    // A tab may separate the indicator from its content. Whether that content may
+                    // be a compact collection is decided in `skip_to_next_token`.
+                    need_whitespace = false;
+                    break;
+                }
                 _ => break,
             }
         }
@@ -882,7 +877,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 }
-                b'\t' | b' ' => self.skip_blank(),
+                b'\t' => {
+                    // Tabs are not indentation: no block collection can start behind one.
+                    if self.flow_level == 0 {
+                        self.simple_key_allowed = false;
+                    }
+                    self.skip_blank();
+                }
+                b' ' => self.skip_blank(),
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
-- 
2.43.0


From e8d70aba9f31ada91071985e8bb68f5ff3bf49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 08/62] fix: StrSource::peek_char must not read past the end of
 the input

---
 yam-core/src/parsing/source.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..c4b48b0 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,14 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
+        let rest = self.input.get(self.pos..).unwrap_or_default();
+        let rest = &rest[..rest.len().min(4)];
+        // A character is at most 4 bytes long; ignore whatever follows the first one.
+        let valid = match str::from_utf8(rest) {
+            Ok(valid) => valid,
+            Err(err) => str::from_utf8(&rest[..err.valid_up_to()]).unwrap_or_default(),
         };
-        bytes.next().unwrap_or('\u{FFFD}')
+        valid.chars().next().unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 74900b885328063a6d5990a99aeb7a4a261796c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 09/62] fix: a lone carriage return is a line break

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 587f0fe..f5273a9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -823,7 +823,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\r' | b'\n', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 1d35e968dc3ef7479d1f474ff0f6aac62b31b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 10/62] fix: a NUL character in a quoted scalar must not loop
 forever

---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f5273a9..8c5a5fb 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1155,6 +1155,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             match self.src.peekz(0) {
                 b'\'' if single => break,
                 b'"' if !single => break,
+                // A NUL character is not printable, and would never be consumed.
+                b'\0' if !self.src.buf_is_empty() => {
+                    return Err(YamlError::new_str(
+                        self.mark,
+                        "while scanning a quoted scalar, found a NUL character",
+                    ));
+                }
                 _ => {}
             }
 
-- 
2.43.0


From 4469a532169854d245c00c81e5d9f923ee07bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 11/62] fix: a large number in a %YAML directive must not
 overflow

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8c5a5fb..108c74d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2161,7 +2161,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            // The version is informative only, do not fail on numbers that don't fit.
+            val = u8::saturating_add(u8::saturating_mul(val, 10), digit);
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 60be32402a9b63bf185708cf4e779f2dbd67268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 12/62] fix: decode multi-byte %-escapes in tags as UTF-8

---
 yam-core/src/parsing/scanner.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 108c74d..384c423 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2006,9 +2006,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::with_capacity(4);
         loop {
             // self.src.lookahead(3);
 
@@ -2022,7 +2023,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            let byte = (as_hex(c) << 4) + as_hex(nc);
+            let byte = ((as_hex(c) << 4) + as_hex(nc)) as u8;
             if width == 0 {
                 width = match byte {
                     _ if byte & 0x80 == 0x00 => 1,
@@ -2036,16 +2037,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
-            } else {
-                if byte & 0xc0 != 0x80 {
-                    return Err(YamlError::new_str(
-                        *mark,
-                        "while parsing a tag, found an incorrect trailing UTF-8 byte",
-                    ));
-                }
-                code = (code << 8) + byte;
+            } else if byte & 0xc0 != 0x80 {
+                return Err(YamlError::new_str(
+                    *mark,
+                    "while parsing a tag, found an incorrect trailing UTF-8 byte",
+                ));
             }
+            bytes.push(byte);
 
             self.skip_n_non_blank(3);
 
@@ -2055,12 +2053,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        if str::from_utf8(&bytes).is_ok() {
+            Ok(bytes)
+        } else {
+            Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
-            )),
+            ))
         }
     }
 
-- 
2.43.0


From 53c275f39bb1aeed20326c16ff33547f731da73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 13/62] fix: ignore reserved directives whatever their name

---
 yam-core/src/parsing/mod.rs     |  2 ++
 yam-core/src/parsing/parser.rs  | 11 ++++++++++-
 yam-core/src/parsing/scanner.rs | 26 +++++++-------------------
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 97f9483..8db08f4 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -60,6 +60,8 @@ pub enum TokenType<'input> {
         handle: Cow<'input, str>,
         prefix: Cow<'input, str>,
     },
+    /// A directive other than `%YAML` and `%TAG`, which has to be ignored.
+    ReservedDirective,
     Tag {
         handle: Cow<'input, str>,
         suffix: Cow<'input, str>,
diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 2bc8255..3d549d3 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -838,6 +838,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 token_type:
                     TokenType::VersionDirective { .. }
                     | TokenType::TagDirective { .. }
+                    | TokenType::ReservedDirective
                     | TokenType::DocumentStart,
                 ..
             } => {
@@ -907,6 +908,10 @@ impl<'input, T: Source> Parser<'input, T> {
                     }
                     tags.insert(handle.to_string(), prefix.to_string());
                 }
+                Token {
+                    token_type: TokenType::ReservedDirective,
+                    ..
+                } => {}
                 _ => break,
             }
             self.tags = tags;
@@ -947,6 +952,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 token_type:
                     TokenType::VersionDirective { .. }
                     | TokenType::TagDirective { .. }
+                    | TokenType::ReservedDirective
                     | TokenType::DocumentStart
                     | TokenType::DocumentEnd
                     | TokenType::StreamEnd,
@@ -984,7 +990,10 @@ impl<'input, T: Source> Parser<'input, T> {
         } else {
             if let Token {
                 span,
-                token_type: TokenType::VersionDirective { .. } | TokenType::TagDirective { .. },
+                token_type:
+                    TokenType::VersionDirective { .. }
+                    | TokenType::TagDirective { .. }
+                    | TokenType::ReservedDirective,
             } = *self.peek_token()?
             {
                 return Err(YamlError::new_str(
diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 384c423..5f13981 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -912,22 +912,16 @@ impl<'input, S: Source> Scanner<'input, S> {
         let tok = match &name[..] {
             b"YAML" => self.scan_version_directive_value(&start_mark)?,
             b"TAG" => self.scan_tag_directive_value(&start_mark)?,
-            // XXX This should be a warning instead of an error
+            // Reserved directives are ignored, at most they deserve a warning.
             _ => {
                 // skip current line
                 let line_len = self.src.skip_while_non_breakz();
                 self.mark.pos += line_len;
                 self.mark.col += line_len as u32;
-                // XXX return an empty TagDirective token
                 Token {
                     span: Span::new(start_mark, self.mark),
-                    token_type: TokenType::TagDirective {
-                        handle: Cow::default(),
-                        prefix: Cow::default(),
-                    },
+                    token_type: TokenType::ReservedDirective,
                 }
-                // return Err(ScanError::new_str(start_mark,
-                //     "while scanning a directive, found unknown directive name"))
             }
         };
 
@@ -2063,14 +2057,15 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn scan_directive_name(&mut self) -> Result<Vec<u8>, YamlError> {
         let start_mark = self.mark;
         let mut string = Vec::new();
 
-        let n_chars = self.src.fetch_while_is_alpha(&mut string);
-        self.mark.pos += n_chars;
-        self.mark.col += n_chars as u32;
+        // A directive name may be made of any non-space characters.
+        while !is_blank_or_breakz(self.src.peekz(0)) {
+            string.push(self.src.peekz(0));
+            self.skip_non_blank();
+        }
 
         if string.is_empty() {
             return Err(YamlError::new_str(
@@ -2079,13 +2074,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
-        if !is_blank_or_break(self.src.peekz(0)) {
-            return Err(YamlError::new_str(
-                start_mark,
-                "while scanning a directive, found unexpected non-alphabetical character",
-            ));
-        }
-
         Ok(string)
     }
 
-- 
2.43.0


From 875fb42ba690ab787958b2a651e021aa279b214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 14/62] fix: apply every %TAG directive of a document

---
 yam-core/src/parsing/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 3d549d3..3cc20bd 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -876,8 +876,9 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        // Directives of this document.
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -914,9 +915,13 @@ impl<'input, T: Source> Parser<'input, T> {
                 } => {}
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        if self.keep_tags {
+            self.tags.extend(tags);
+        } else {
+            self.tags = tags;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 9595ba34e96730770d09eb57da350b104df08ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 15/62] fix: anchors are local to their document in the pull
 parser too

---
 yam-core/src/parsing/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 3cc20bd..61855ac 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -648,8 +648,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 recv.on_event(ev, span);
                 return Ok(());
             }
-            // clear anchors before a new document
-            self.anchors.clear();
             self.load_document(ev, span, recv)?;
             if !multi {
                 break;
@@ -819,6 +817,8 @@ impl<'input, T: Source> Parser<'input, T> {
         while let TokenType::DocumentEnd = self.peek_token()?.token_type {
             self.skip();
         }
+        // Anchors don't outlive their document.
+        self.anchors.clear();
 
         match *self.peek_token()? {
             Token {
-- 
2.43.0


From f54bcc9cc89502da736ae308c3ec3bea38e125c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 16/62] fix: top-level block scalar indentation indicators are
 relative to the first column

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5f13981..c7ee4a1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1345,7 +1345,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             indent = if self.indent >= 1 {
                 self.indent + increment as u32
             } else {
-                increment as u32
+                // Columns start at 1.
+                increment as u32 + 1
             }
         }
 
-- 
2.43.0


From 2e9f17509879e1a2e53ba14e3ba1e02a80df57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 17/62] fix: empty and tab-led block scalars at the top level

---
 yam-core/src/parsing/scanner.rs | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index c7ee4a1..50185cc 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1269,7 +1269,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut string = Vec::<u8>::new();
         let mut leading_break = Vec::<u8>::new();
         let mut trailing_breaks = Vec::<u8>::new();
-        let mut chomping_break = Vec::<u8>::new();
 
         // skip '|' or '>'
         self.skip_non_blank();
@@ -1331,10 +1330,11 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_break(self.src.peekz(0)) {
             // self.src.lookahead(2);
-            self.read_break(&mut chomping_break);
+            self.skip_linebreak();
         }
 
-        if self.src.peekz(0) == b'\t' {
+        // At the top level the first column is as good as any other to hold content.
+        if self.src.peekz(0) == b'\t' && (self.indent > 0 || increment > 0) {
             return Err(YamlError::new_str(
                 start_mark,
                 "a block scalar content cannot start with a tab",
@@ -1363,18 +1363,16 @@ impl<'input, S: Source> Scanner<'input, S> {
         // ```
         if self.src.peek_checked(0).is_none() {
             let contents = match chomping {
-                // We strip trailing linebreaks. Nothing remain.
-                ChompIndicator::Strip => Vec::new(),
-                // There was no newline after the chomping indicator.
-                _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-                // Otherwise, the newline after chomping is ignored.
-                ChompIndicator::Keep => trailing_breaks,
+                // We strip or clip trailing linebreaks. Nothing remain.
+                ChompIndicator::Strip | ChompIndicator::Clip => Vec::new(),
+                // We keep lines, except for the one of the header.
+                ChompIndicator::Keep => {
+                    if self.mark.line > start_mark.line && self.mark.col > 1 {
+                        // The last line lacks its line break.
+                        trailing_breaks.push(b'\n');
+                    }
+                    trailing_breaks
+                }
             };
             self.tokens.push_back(Token {
                 span: self.get_span(start_mark),
@@ -1386,7 +1384,11 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        // With an explicit indentation, a comment or document marker can come right after the header.
+        let ends_explicit = increment > 0
+            && (self.src.peekz(0) == b'#'
+                || (self.mark.col == 1 && self.src.next_is_document_indicator()));
+        if self.mark.col < indent && self.mark.col > self.indent && !ends_explicit {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 2051781090f53e6b1deb79b46a49394fce711ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 18/62] fix: '---' ends a top-level block scalar whose content
 is not indented

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 50185cc..6e964c3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1400,7 +1400,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.src.next_is_document_indicator() {
                     break;
                 }
             }
-- 
2.43.0


From 96a968b7fece3fc1a03d8f75c8f6b7ccf658d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 19/62] fix: document markers after the blank lines of an empty
 block scalar

---
 yam-core/src/parsing/scanner.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6e964c3..a77f4bc 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1365,10 +1365,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             let contents = match chomping {
                 // We strip or clip trailing linebreaks. Nothing remain.
                 ChompIndicator::Strip | ChompIndicator::Clip => Vec::new(),
-                // We keep lines, except for the one of the header.
+                // We keep lines, except for the one of the header. The only other line may lack its
+                // line break.
                 ChompIndicator::Keep => {
-                    if self.mark.line > start_mark.line && self.mark.col > 1 {
-                        // The last line lacks its line break.
+                    if trailing_breaks.is_empty()
+                        && self.mark.line > start_mark.line
+                        && self.mark.col > 1
+                    {
                         trailing_breaks.push(b'\n');
                     }
                     trailing_breaks
@@ -1384,11 +1387,11 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        // With an explicit indentation, a comment or document marker can come right after the header.
-        let ends_explicit = increment > 0
-            && (self.src.peekz(0) == b'#'
-                || (self.mark.col == 1 && self.src.next_is_document_indicator()));
-        if self.mark.col < indent && self.mark.col > self.indent && !ends_explicit {
+        // A document marker is never content, nor is a less indented comment if we know the
+        // indentation beforehand.
+        let has_ended = (increment > 0 && self.src.peekz(0) == b'#')
+            || (self.mark.col == 1 && self.src.next_is_document_indicator());
+        if self.mark.col < indent && self.mark.col > self.indent && !has_ended {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From dbf778341cc4cde8a9b1990223c0adac0d657862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 20/62] fix: blanks after a tab following ':' don't allow a
 compact collection

---
 yam-core/src/parsing/scanner.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index a77f4bc..5477d04 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -624,9 +624,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         // Skip over ':'.
         self.skip_non_blank();
         let tab_separated = self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws();
+            && self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
 
         if sk.possible {
             // insert simple key
-- 
2.43.0


From ba7cb8c4e45b120474c27773c031b592fe510654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 21/62] fix: skip the byte order mark at the start of the
 stream

---
 yam-core/src/parsing/scanner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5477d04..5173e34 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -322,6 +322,11 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn fetch_stream_start(&mut self) {
+        // Byte order mark
+        if [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == [0xEF, 0xBB, 0xBF] {
+            self.src.skip(3);
+            self.mark.pos += 3;
+        }
         let mark = self.mark;
         self.indent = 0;
         self.stream_start_produced = true;
-- 
2.43.0


From 2843bbbc67631bfefdf41d6322898dfcd3ed4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 22/62] fix: a ':' on a line after a flow collection key may be
 adjacent to its value

---
 yam-core/src/parsing/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5173e34..5c5e66d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -419,6 +419,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
         if self.flow_level > 0 {
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-- 
2.43.0


From 346a0c8bbf0d57472071401a60bc26bb31a15022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 23/62] fix: a plain scalar cannot start with '|' or '>' in a
 flow collection

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c5e66d..1e4a013 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -368,7 +368,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
-            [b'%' | b'@' | b'`', _] => {
+            [b'%' | b'@' | b'`' | b'|' | b'>', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
                     self.mark,
-- 
2.43.0


From 33beb410a967bce2f9e9b0bd43ce018a95232fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 24/62] fix: a verbatim tag may be followed by ':'

---
 yam-core/src/parsing/scanner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1e4a013..3b6160d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1538,8 +1538,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut suffix;
 
         // Check if the tag is in the canonical form (verbatim).
-
-        if self.src.next_next_byte_is(b'<') {
+        let is_verbatim = self.src.next_next_byte_is(b'<');
+        if is_verbatim {
             suffix = self.scan_verbatim_tag(&start_mark)?;
         } else {
             // The tag has either the '!suffix' or the '!handle!suffix'
@@ -1569,6 +1569,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_blank_or_breakz(self.src.peekz(0))
             || (self.flow_level > 0 && is_flow(self.src.peekz(0)))
+            // A verbatim tag on an empty key, no other tag can end before a ':'.
+            || (is_verbatim && !self.src.next_can_be_plain_scalar(self.flow_level > 0))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From f2097283c0db9128d60a0c3a235e39f60cc3205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 25/62] fix: a comment behind a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 3b6160d..ff75b02 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1049,9 +1049,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty or a comment, which ends the scalar.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From ebcbfbc842d3adbea95e01010e324b362ce8a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 26/62] fix: a comment must be separated from the ':' of an
 adjacent value

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ff75b02..19c6398 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -629,6 +629,12 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
+        if self.src.peekz(0) == b'#' {
+            return Err(YamlError::new_str(
+                self.mark,
+                "comments must be separated from other tokens by whitespace",
+            ));
+        }
         let tab_separated = self.src.peekz(0) == b'\t'
             && self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
 
-- 
2.43.0


From 592de43bffec139c5d41c4e4806a29eb7b98aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 27/62] fix: the handle and prefix of a %TAG directive must be
 separated

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 19c6398..90e34ee 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2135,6 +2135,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             .into();
 
         let n_blanks = self.src.skip_while_blank();
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace",
+            ));
+        }
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
 
-- 
2.43.0


From 6e2955f5de8f39678925a8019ca11f1c996638e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 28/62] fix: a verbatim tag cannot be empty

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 90e34ee..b605b4e 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1604,7 +1604,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.uri_scans_or_non_blank(&mut string, start_mark)?;
         }
 
-        if self.src.peekz(0) != b'>' {
+        if string.is_empty() || self.src.peekz(0) != b'>' {
             return Err(YamlError::new_str(
                 *start_mark,
                 "while scanning a verbatim tag, did not find the expected '>'",
-- 
2.43.0


From 6922a57687317fc7b327ce89af9347f36380db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 29/62] fix: push events with a loop, not by recursion on the
 nesting

Deep nesting overflowed the stack, peeking before loading made loading fail,
and comment events hit assertions.
---
 yam-core/src/parsing/parser.rs | 118 ++-------------------------------
 1 file changed, 7 insertions(+), 111 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 61855ac..cb30e9c 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -626,125 +626,21 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
-            let (ev, span) = self.next_event_impl()?;
-            if ev != Event::StreamStart {
-                return Err(YamlError::new_str(
-                    span.start,
-                    "did not find expected <stream-start>",
-                ));
-            }
-            recv.on_event(ev, span);
-        }
-
-        if self.scanner.stream_end_produced {
-            // XXX has parsed?
-            recv.on_event(Event::StreamEnd, Span::empty(self.scanner.mark));
-            return Ok(());
-        }
         loop {
             let (ev, span) = self.next_event_impl()?;
-            if ev == Event::StreamEnd {
-                recv.on_event(ev, span);
+            let is_stream_end = ev == Event::StreamEnd;
+            let is_document_end = ev == Event::DocumentEnd;
+            recv.on_event(ev, span);
+            if is_stream_end {
+                self.stream_end_emitted = true;
                 return Ok(());
             }
-            self.load_document(ev, span, recv)?;
-            if !multi {
-                break;
-            }
-        }
-        Ok(())
-    }
-
-    fn load_document<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        first_ev: Event<'input>,
-        span: Span,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        if !matches!(first_ev, Event::DocumentStart(_)) {
-            return Err(YamlError::new_str(
-                span.start,
-                "did not find expected <document-start>",
-            ));
-        }
-        recv.on_event(first_ev, span);
-
-        let (ev, span) = self.next_event_impl()?;
-        self.load_node(ev, span, recv)?;
-
-        // DOCUMENT-END is expected.
-        let (ev, mark) = self.next_event_impl()?;
-        assert_eq!(ev, Event::DocumentEnd);
-        recv.on_event(ev, mark);
-
-        Ok(())
-    }
-
-    fn load_node<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        first_ev: Event<'input>,
-        span: Span,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        match first_ev {
-            Event::Alias(..) | Event::Scalar(..) => {
-                recv.on_event(first_ev, span);
-                Ok(())
-            }
-            Event::SequenceStart(..) => {
-                recv.on_event(first_ev, span);
-                self.load_sequence(recv)
-            }
-            Event::MappingStart(..) => {
-                recv.on_event(first_ev, span);
-                self.load_mapping(recv)
-            }
-            _ => {
-                unreachable!();
+            if is_document_end && !multi {
+                return Ok(());
             }
         }
     }
 
-    fn load_mapping<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        let (mut key_ev, mut key_mark) = self.next_event_impl()?;
-        while key_ev != Event::MappingEnd {
-            // key
-            self.load_node(key_ev, key_mark, recv)?;
-
-            // value
-            let (ev, mark) = self.next_event_impl()?;
-            self.load_node(ev, mark, recv)?;
-
-            // next event
-            let (ev, mark) = self.next_event_impl()?;
-            key_ev = ev;
-            key_mark = mark;
-        }
-        recv.on_event(key_ev, key_mark);
-        Ok(())
-    }
-
-    fn load_sequence<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        let (mut ev, mut mark) = self.next_event_impl()?;
-        while ev != Event::SequenceEnd {
-            self.load_node(ev, mark, recv)?;
-
-            // next event
-            let (next_ev, next_mark) = self.next_event_impl()?;
-            ev = next_ev;
-            mark = next_mark;
-        }
-        recv.on_event(ev, mark);
-        Ok(())
-    }
-
     fn state_machine<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
-- 
2.43.0


From de8e85addac1ce12d1a92b3b3629929ec74aec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 30/62] fix: deeply indented block scalars must not loop
 forever

---
 yam-core/src/parsing/scanner.rs | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b605b4e..a9ed9c4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1726,28 +1726,8 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn skip_block_scalar_indent(&mut self, indent: u32, breaks: &mut Vec<u8>) {
         loop {
             // Consume all spaces. Tabs cannot be used as indentation.
-            if (indent as usize) < self.src.buf_max_len() - 2 {
-                // ? self.src.lookahead(self.input.bufmaxlen());
-                while self.mark.col < indent && self.src.peekz(0) == b' ' {
-                    self.skip_blank();
-                }
-            } else {
-                loop {
-                    while !self.src.buf_is_empty()
-                        && self.mark.col < indent
-                        && self.src.peekz(0) == b' '
-                    {
-                        self.skip_blank();
-                    }
-                    // If we reached our indent, we can break. We must also break if we have
-                    // reached content or EOF; that is, the buffer is not empty and the next
-                    // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
-                    {
-                        break;
-                    }
-                }
+            while self.mark.col < indent && self.src.peekz(0) == b' ' {
+                self.skip_blank();
             }
 
             // If our current line is empty, skip over the break and continue looping.
-- 
2.43.0


From ff07a1d197c93ce3f74b2176a72cbbb5730438ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 31/62] fix: the length of implicit keys is limited in
 characters, not in bytes

---
 yam-core/src/parsing/scanner.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index a9ed9c4..7963cd5 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -47,12 +47,17 @@ pub struct Token<'input> {
     pub token_type: TokenType<'input>,
 }
 
+/// An implicit key spans at most this number of characters.
+const MAX_SIMPLE_KEY_LEN: usize = 1024;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 struct SimpleKey {
     possible: bool,
     required: bool,
     token_number: usize,
     mark: Marker,
+    /// Number of characters before the key.
+    chars: usize,
 }
 
 impl SimpleKey {
@@ -62,6 +67,7 @@ impl SimpleKey {
             required: false,
             token_number: 0,
             mark,
+            chars: 0,
         }
     }
 }
@@ -107,6 +113,8 @@ pub struct Scanner<'input, S> {
     leading_whitespace: bool,
 
     adjacent_value_allowed_at: usize,
+    /// Number of UTF-8 continuation bytes in the content read so far.
+    continuation_bytes: usize,
     tokens_parsed: usize,
     flow_level: u32,
     indent: u32,
@@ -139,6 +147,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
+            continuation_bytes: 0,
             flow_level: 0,
             indent: 0,
             tokens_parsed: 0,
@@ -852,6 +861,9 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn skip_non_blank(&mut self) {
+        if self.src.peekz(0) & 0xC0 == 0x80 {
+            self.continuation_bytes += 1;
+        }
         self.src.skip(1);
 
         self.mark.pos += 1;
@@ -1956,12 +1968,18 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    /// Number of characters (not bytes) of content read so far.
+    fn chars(&self) -> usize {
+        self.mark.pos - self.continuation_bytes
+    }
+
     fn stale_simple_keys(&mut self) -> ScanResult {
+        let chars = self.chars();
         for sk in &mut self.simple_keys {
             if sk.possible
                 // If not in a flow construct, simple keys cannot span multiple lines.
                 && self.flow_level == 0
-                    && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
+                    && (sk.mark.line < self.mark.line || sk.chars + MAX_SIMPLE_KEY_LEN < chars)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
@@ -1990,6 +2008,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
             let sk = SimpleKey {
                 mark: self.mark,
+                chars: self.chars(),
                 required,
                 possible: true,
                 token_number: self.tokens_parsed + self.tokens.len(),
-- 
2.43.0


From 9d820a4a90a15380b4531beed31dc9a6bee40c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 32/62] fix: limit the length of the implicit key of a flow
 pair

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 7963cd5..973d7e1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -628,6 +628,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
+        let key_end = self.chars();
         let is_implicit_flow_mapping = matches!(
             self.implicit_flow_mapping_states.last(),
             Some(ImplicitMappingState::Possible)
@@ -655,7 +656,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             };
             self.insert_token(sk.token_number - self.tokens_parsed, tok);
             if is_implicit_flow_mapping {
-                if sk.mark.line < start_mark.line {
+                if sk.mark.line < start_mark.line || sk.chars + MAX_SIMPLE_KEY_LEN < key_end {
                     return Err(YamlError::new_str(
                         start_mark,
                         "illegal placement of ':' indicator",
-- 
2.43.0


From a3e4729471dbec0e100ce6dfa59f30773ab5b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 33/62] fix: nothing is delivered after an error

---
 yam-core/src/parsing/parser.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index cb30e9c..a40b86f 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -277,11 +277,13 @@ pub struct Parser<'input, T: Source> {
     ///
     /// Key is the handle, and value is the prefix.
     tags: BTreeMap<String, String>,
-    /// Whether we have emitted [`Event::StreamEnd`].
+    /// Whether we have emitted [`Event::StreamEnd`] or an error.
     ///
     /// Emitted means that it has been returned from [`Self::next`]. If it is stored in
     /// [`Self::token`], this is set to `false`.
     stream_end_emitted: bool,
+    /// The error that ended the stream, if any.
+    error: Option<YamlError>,
     /// Make tags global across all documents.
     keep_tags: bool,
 }
@@ -420,6 +422,7 @@ impl<'input, T: Source> Parser<'input, T> {
             anchor_id_count: 1,
             tags: BTreeMap::new(),
             stream_end_emitted: false,
+            error: None,
             keep_tags: false,
         }
     }
@@ -484,7 +487,7 @@ impl<'input, T: Source> Parser<'input, T> {
         }
 
         let tok = self.next_event_impl();
-        if matches!(tok, Ok((Event::StreamEnd, _))) {
+        if matches!(tok, Ok((Event::StreamEnd, _)) | Err(_)) {
             self.stream_end_emitted = true;
         }
         Some(tok)
@@ -520,8 +523,17 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         'input: 'a,
     {
+        if let Some(e) = &self.error {
+            return Err(e.clone());
+        }
         match self.current.take() {
-            None => self.parse(),
+            None => {
+                let res = self.parse();
+                if let Err(e) = &res {
+                    self.error = Some(e.clone());
+                }
+                res
+            }
             Some(v) => Ok(v),
         }
     }
-- 
2.43.0


From 1a71562128b9076f8be0572cd81db95929c7c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 34/62] fix: skip a byte order mark before every document

---
 yam-core/src/parsing/scanner.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 973d7e1..e8baa07 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -111,6 +111,8 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
+    /// Whether no part of the next document has been read yet, so a byte order mark may follow.
+    document_prefix: bool,
 
     adjacent_value_allowed_at: usize,
     /// Number of UTF-8 continuation bytes in the content read so far.
@@ -144,6 +146,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
+            document_prefix: true,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -264,6 +267,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_to_next_token()?;
+        self.document_prefix = false;
         self.stale_simple_keys()?;
 
         let mark = self.mark;
@@ -331,11 +335,6 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn fetch_stream_start(&mut self) {
-        // Byte order mark
-        if [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == [0xEF, 0xBB, 0xBF] {
-            self.src.skip(3);
-            self.mark.pos += 3;
-        }
         let mark = self.mark;
         self.indent = 0;
         self.stream_start_produced = true;
@@ -801,6 +800,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.fetch_document_indicator(TokenType::DocumentEnd)?;
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
         if is_breakz(self.src.peekz(0)) || self.src.peekz(0) == b'#' {
+            self.document_prefix = true;
             Ok(())
         } else {
             Err(YamlError::new_str(
@@ -920,6 +920,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                     self.mark.pos += comment_length;
                     self.mark.col += comment_length as u32;
                 }
+                0xEF if self.document_prefix
+                    && self.mark.col == 1
+                    && [self.src.peekz(1), self.src.peekz(2)] == [0xBB, 0xBF] =>
+                {
+                    // Byte order mark
+                    self.src.skip(3);
+                    self.mark.pos += 3;
+                }
                 _ => break,
             }
         }
-- 
2.43.0


From 010da3a55c0850e93d2c3be1f09600cdee0f24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 35/62] fix: keys that are tagged or unresolvable keep their
 values when loading

---
 yam-core/src/prelude/loader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..ad16519 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,8 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    /// Key read so far in each open mapping, waiting for its value.
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +142,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +427,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From db5695ed7786e4e017c65548813a43292e4f262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 36/62] fix: loading deeply nested collections is an error
 instead of a stack overflow

---
 yam-core/src/prelude/loader.rs | 96 ++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 17 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index ad16519..623f43b 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -3,7 +3,7 @@ use crate::parsing;
 use crate::parsing::Tag;
 use crate::parsing::{Event, ScalarValue, SpannedEventReceiver};
 use crate::prelude::{
-    IsEmpty, Source, Span, StrSource, YamlDocAccess, YamlEntry, YamlError, YamlScalar,
+    IsEmpty, Marker, Source, Span, StrSource, YamlDocAccess, YamlEntry, YamlError, YamlScalar,
 };
 use alloc::borrow::Cow;
 use alloc::collections::BTreeMap;
@@ -18,6 +18,9 @@ use core::marker::PhantomData;
 /// - `Node`: A type that implements the `LoadableYamlNode` trait and represents
 ///   a YAML node during the loading process.
 ///
+/// # Limits
+/// Collections nested deeper than 1024 levels, counting those an alias stands for, are reported as
+/// an error.
 ///
 /// # Usage
 /// This struct is intended to be used as an entry point for converting input into
@@ -36,10 +39,37 @@ where
     Node: YamlDocAccess<'input>,
 {
     docs: Vec<Node>,
-    doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
+    doc_stack: Vec<OpenNode<'input, Node>>,
     /// Key read so far in each open mapping, waiting for its value.
     key_stack: Vec<Option<Node>>,
-    anchor_map: BTreeMap<usize, Node>,
+    /// Nodes that have an anchor, with their depth.
+    anchor_map: BTreeMap<usize, (Node, usize)>,
+    /// Where the nesting exceeded [`MAX_DEPTH`].
+    too_deep: Option<Marker>,
+}
+
+/// Deepest nesting of collections in a loaded tree. Dropping, cloning or comparing a tree recurses
+/// on its depth, so an unlimited one would overflow the stack.
+const MAX_DEPTH: usize = 1024;
+
+/// A node being loaded: a collection not closed yet, or the root of a document.
+struct OpenNode<'input, Node> {
+    node: Node,
+    anchor_id: usize,
+    tag: Option<Cow<'input, Tag>>,
+    /// Depth of its content so far.
+    depth: usize,
+}
+
+impl<'input, Node> OpenNode<'input, Node> {
+    fn new(node: Node, anchor_id: usize, tag: Option<Cow<'input, Tag>>, depth: usize) -> Self {
+        OpenNode {
+            node,
+            anchor_id,
+            tag,
+            depth,
+        }
+    }
 }
 
 impl<'i, Node> Default for YamlLoader<'i, Node>
@@ -52,6 +82,7 @@ where
             doc_stack: Vec::new(),
             key_stack: Vec::new(),
             anchor_map: BTreeMap::new(),
+            too_deep: None,
         }
     }
 }
@@ -120,16 +151,26 @@ where
         self.docs
     }
 
+    fn check_depth(&self) -> Result<(), YamlError> {
+        match self.too_deep {
+            Some(mark) => Err(YamlError::new_str(mark, "recursion limit exceeded")),
+            None => Ok(()),
+        }
+    }
+
     pub(crate) fn insert_new_node(
         &mut self,
         mut node: Node,
         anchor_id: usize,
         tag: Option<Cow<'input, Tag>>,
+        depth: usize,
     ) {
         if anchor_id > 0 {
-            self.anchor_map.insert(anchor_id, node.clone());
+            self.anchor_map.insert(anchor_id, (node.clone(), depth));
         }
-        if let Some((parent_node, _, _)) = self.doc_stack.last_mut() {
+        if let Some(parent) = self.doc_stack.last_mut() {
+            let parent_node = &mut parent.node;
+            parent.depth = parent.depth.max(depth);
             if let Some(tag) = tag
                 && node.is_collection()
                 && !tag.is_yaml_core_schema()
@@ -148,7 +189,8 @@ where
                 }
             }
         } else {
-            self.doc_stack.push((node, anchor_id, tag));
+            self.doc_stack
+                .push(OpenNode::new(node, anchor_id, tag, depth));
         }
     }
 
@@ -188,6 +230,7 @@ where
     ) -> Result<Vec<Node>, YamlError> {
         let mut loader = YamlLoader::default();
         parser.load(&mut loader, true)?;
+        loader.check_depth()?;
         Ok(loader.into_documents())
     }
 
@@ -235,6 +278,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(StrSource::new(input.as_ref()));
         parser.load(&mut event_listener, true)?;
+        event_listener.check_depth()?;
         Ok(event_listener.docs)
     }
 
@@ -284,6 +328,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(StrSource::new(input.as_ref()));
         parser.load(&mut event_listener, false)?;
+        event_listener.check_depth()?;
         event_listener
             .docs
             .first()
@@ -334,6 +379,7 @@ where
     ) -> Result<Node, YamlError> {
         let mut event_listener = YamlLoader::default();
         parser.load(&mut event_listener, false)?;
+        event_listener.check_depth()?;
         event_listener
             .docs
             .first()
@@ -385,6 +431,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(input);
         parser.load(&mut event_listener, false)?;
+        event_listener.check_depth()?;
         event_listener
             .docs
             .first()
@@ -403,6 +450,15 @@ where
 {
     fn on_event(&mut self, ev: Event<'input>, span: Span) {
         let mark = span.start;
+        if self.too_deep.is_some() {
+            return;
+        }
+        if matches!(ev, Event::SequenceStart(..) | Event::MappingStart(..))
+            && self.doc_stack.len() >= MAX_DEPTH
+        {
+            self.too_deep = Some(mark);
+            return;
+        }
         match ev {
             Event::DocumentStart(_)
             | Event::Nothing
@@ -415,18 +471,20 @@ where
                 match self.doc_stack.len() {
                     // empty document
                     0 => self.docs.push(YamlData::BadValue.into()),
-                    1 => self.docs.push(self.doc_stack.pop().unwrap().0),
+                    1 => self.docs.push(self.doc_stack.pop().unwrap().node),
                     _ => unreachable!(),
                 }
             }
             Event::SequenceStart(aid, tag) => {
                 let node: Node = YamlData::Sequence(Vec::new()).into();
 
-                self.doc_stack.push((node.with_start(mark), aid, tag));
+                self.doc_stack
+                    .push(OpenNode::new(node.with_start(mark), aid, tag, 0));
             }
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
-                self.doc_stack.push((node.with_start(mark), aid, tag));
+                self.doc_stack
+                    .push(OpenNode::new(node.with_start(mark), aid, tag, 0));
                 self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
@@ -434,14 +492,14 @@ where
                     self.key_stack.pop().unwrap();
                 }
 
-                let (mut node, anchor_id, tag) = self.doc_stack.pop().unwrap();
-                node = node.with_end(mark);
-                if let Some(tag) = tag
+                let open = self.doc_stack.pop().unwrap();
+                let mut node = open.node.with_end(mark);
+                if let Some(tag) = open.tag
                     && !tag.is_yaml_core_schema()
                 {
                     node = node.into_tagged(tag);
                 }
-                self.insert_new_node(node, anchor_id, None);
+                self.insert_new_node(node, open.anchor_id, None, open.depth + 1);
             }
             Event::Scalar(ScalarValue {
                 value,
@@ -451,14 +509,18 @@ where
             }) => {
                 let node =
                     YamlData::value_from_cow_and_metadata(value, scalar_type, tag.as_ref()).into();
-                self.insert_new_node(node, anchor_id, tag);
+                self.insert_new_node(node, anchor_id, tag, 0);
             }
             Event::Alias(id) => {
-                let n = match self.anchor_map.get(&id) {
+                let (n, depth) = match self.anchor_map.get(&id) {
+                    Some((_, depth)) if self.doc_stack.len() + depth > MAX_DEPTH => {
+                        self.too_deep = Some(mark);
+                        return;
+                    }
                     Some(v) => v.clone(),
-                    None => YamlData::BadValue.into(),
+                    None => (YamlData::BadValue.into(), 0),
                 };
-                self.insert_new_node(n.with_span(span), 0, None);
+                self.insert_new_node(n.with_span(span), 0, None, depth);
             }
         }
     }
-- 
2.43.0


From bfafc8a9506dd1117145fc1b0331d8ff06daad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 37/62] fix: scalars resolve to null, booleans and integers as
 the core schema says

---
 yam-core/src/node/scalar.rs    | 79 ++++++++++++++++++----------------
 yam-core/src/parsing/parser.rs | 17 +++-----
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..453529c 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,11 +90,11 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    "bool" => parse_core_schema_bool(&v).map(|x| Self::Bool(x)),
+                    "int" => parse_core_schema_int(&v).map(|x| Self::Integer(x.into())),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
                     "null" => {
-                        if ScalarValue::is_null_tagged(&v, &tag) {
+                        if is_core_schema_null(&v) {
                             Some(Self::Null(PhantomData))
                         } else {
                             None
@@ -125,46 +125,16 @@ where
     #[must_use]
     pub fn parse_from_cow(v: Cow<'a, str>) -> Self {
         let s = &*v;
-        let bytes = s.as_bytes();
 
-        if bytes.len() >= 2 {
-            match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                (b'0', b'o') => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
-                _ => {}
-            }
+        if is_core_schema_null(s) {
+            return Self::Null(PhantomData);
         }
 
-        match bytes.len() {
-            1 if bytes[0] == b'~' => return Self::Null(PhantomData),
-            4 => {
-                let f = bytes[0] & 0xDF;
-                if f == b'N' && matches!(s, "null" | "Null" | "NULL") {
-                    return Self::Null(PhantomData);
-                } else if f == b'T' && matches!(s, "true" | "True" | "TRUE") {
-                    return Self::Bool(true);
-                }
-            }
-            5 if matches!(s, "false" | "False" | "FALSE") => {
-                return Self::Bool(false);
-            }
-            _ => {}
+        if let Some(bool) = parse_core_schema_bool(s) {
+            return Self::Bool(bool);
         }
 
-        if let Ok(integer) = parse_i64_from_cow(s) {
+        if let Some(integer) = parse_core_schema_int(s) {
             return Self::Integer(integer.into());
         }
 
@@ -176,6 +146,39 @@ where
     }
 }
 
+/// Whether the given string is a null according to the core schema.
+///
+/// See [10.3.2](https://yaml.org/spec/1.2.2/#1032-tag-resolution): the empty string is one.
+pub(crate) fn is_core_schema_null(v: &str) -> bool {
+    matches!(v, "" | "~" | "null" | "Null" | "NULL")
+}
+
+/// Parse the given string as a boolean according to the core schema.
+fn parse_core_schema_bool(v: &str) -> Option<bool> {
+    match v {
+        "true" | "True" | "TRUE" => Some(true),
+        "false" | "False" | "FALSE" => Some(false),
+        _ => None,
+    }
+}
+
+/// Parse the given string as an integer according to the core schema: decimal digits with an
+/// optional sign, or octal or hexadecimal digits without one.
+///
+/// # Return
+/// Returns `None` if the string is not an integer, or one that 64 bits cannot hold.
+fn parse_core_schema_int(v: &str) -> Option<i64> {
+    let (digits, radix) = match (v.strip_prefix("0x"), v.strip_prefix("0o")) {
+        (Some(digits), _) => (digits, 16),
+        (_, Some(digits)) => (digits, 8),
+        _ => return parse_i64_from_cow(v).ok(),
+    };
+    if digits.starts_with(['+', '-']) {
+        return None;
+    }
+    i64::from_str_radix(digits, radix).ok()
+}
+
 /// Parse the given string as a floating point according to the core schema.
 ///
 /// See [10.2.1.4](https://yaml.org/spec/1.2.2/#10214-floating-point) for the floating point
diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index a40b86f..054b318 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -4,6 +4,7 @@
 //! compliance, and emits a stream of YAML events. This stream can for instance be used to create
 //! YAML objects.
 
+use crate::node::scalar::is_core_schema_null;
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
@@ -79,21 +80,17 @@ impl<'input> ScalarValue<'input> {
     #[doc(hidden)]
     #[must_use]
     pub fn is_null(&self) -> bool {
-        let dummy = Cow::Owned(Tag::empty());
-        let x = self.tag.as_ref().unwrap_or(&dummy);
-        Self::is_null_tagged(&self.value, x)
+        self.scalar_type == ScalarType::Plain
+            && match &self.tag {
+                Some(tag) => Self::is_null_tagged(&self.value, tag),
+                None => is_core_schema_null(&self.value),
+            }
     }
 
     #[doc(hidden)]
     #[must_use]
     pub fn is_null_tagged(v: &str, tag: &Tag) -> bool {
-        if v.is_empty() || v == "null" {
-            return true;
-        }
-        if tag.is_yaml_core_schema() {
-            return v == "~" || v == "null";
-        }
-        false
+        is_core_schema_null(v) && (!tag.is_yaml_core_schema() || tag.suffix == "null")
     }
 }
 
-- 
2.43.0


From 68be213222530480eb32ead880f0781f0d209eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 38/62] fix: core schema tags written verbatim or with another
 handle are core schema tags

---
 yam-core/src/node/scalar.rs    |  4 ++--
 yam-core/src/parsing/mod.rs    | 19 ++++++++++++++++---
 yam-core/src/parsing/parser.rs |  5 ++++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 453529c..8aaad5e 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -88,8 +88,8 @@ where
             // Any quoted scalar is a string.
             Some(Self::String(v.into()))
         } else if let Some(tag) = tag {
-            if tag.is_yaml_core_schema() {
-                match tag.suffix.as_ref() {
+            if let Some(suffix) = tag.core_schema_suffix() {
+                match suffix.as_ref() {
                     "bool" => parse_core_schema_bool(&v).map(|x| Self::Bool(x)),
                     "int" => parse_core_schema_int(&v).map(|x| Self::Integer(x.into())),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 8db08f4..9551450 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -229,13 +229,26 @@ impl Tag {
     ///
     /// The YAML specification specifies [a list of
     /// tags](https://yaml.org/spec/1.2.2/#103-core-schema) for the Core Schema. This function
-    /// checks whether _the handle_ (but not the suffix) is the handle for the YAML Core Schema.
+    /// checks whether the tag starts with the prefix of the YAML Core Schema, whichever part of it
+    /// was written as the handle (a verbatim tag has no handle).
     ///
     /// # Return
-    /// Returns `true` if the handle is `tag:yaml.org,2002`, `false` otherwise.
+    /// Returns `true` if the tag starts with `tag:yaml.org,2002:`, `false` otherwise.
     #[must_use]
     pub fn is_yaml_core_schema(&self) -> bool {
-        self.handle == "tag:yaml.org,2002:"
+        self.core_schema_suffix().is_some()
+    }
+
+    /// What follows the prefix of the YAML Core Schema in a tag from that schema: `str` in `!!str`.
+    pub(crate) fn core_schema_suffix(&self) -> Option<Cow<'_, str>> {
+        const PREFIX: &str = "tag:yaml.org,2002:";
+        match PREFIX.strip_prefix(self.handle.as_str()) {
+            Some(rest) => self.suffix.strip_prefix(rest).map(Cow::Borrowed),
+            None => {
+                let start = self.handle.strip_prefix(PREFIX)?;
+                Some(Cow::Owned([start, self.suffix.as_str()].concat()))
+            }
+        }
     }
 }
 
diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 054b318..e610ca0 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -90,7 +90,10 @@ impl<'input> ScalarValue<'input> {
     #[doc(hidden)]
     #[must_use]
     pub fn is_null_tagged(v: &str, tag: &Tag) -> bool {
-        is_core_schema_null(v) && (!tag.is_yaml_core_schema() || tag.suffix == "null")
+        is_core_schema_null(v)
+            && tag
+                .core_schema_suffix()
+                .is_none_or(|suffix| suffix == "null")
     }
 }
 
-- 
2.43.0


From fdb436314c53f954fc8be967b7b93b5f060aeba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 39/62] fix: indexing a mapping mutably by position key gives
 the value, not the key

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From 1d0e09af2d287c2ba7039d7c85cb7c6eac433126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 40/62] fix: the event iterator delivers aliases and tells what
 ended it

---
 yam-core/src/parsing/parser_iter.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..4387c92 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -38,7 +38,7 @@ impl YamEvent<'_> {
         match self {
             YamEvent::DocStart => "DocStart",
             YamEvent::DocEnd => "DocEnd",
-            YamEvent::StreamEnd => "StreamStart",
+            YamEvent::StreamEnd => "StreamEnd",
             YamEvent::Alias(_) => "Alias",
             YamEvent::Scalar(_) => "Scalar",
             YamEvent::SeqStart(_, _) => "SeqStart",
@@ -72,6 +72,12 @@ where
             error: None,
         }
     }
+
+    /// The error that ended the iteration, if it did not end with the first document: the text is
+    /// malformed, holds no document or holds more than one.
+    pub fn error(&self) -> Option<&YamlError> {
+        self.error.as_ref()
+    }
 }
 
 impl<'de, R> Iterator for ParserIter<'de, R>
@@ -81,6 +87,9 @@ where
     type Item = YamEvent<'de>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.error.is_some() {
+            return None;
+        }
         let res = loop {
             match self.state {
                 State::StreamStart => break self.process_start(),
@@ -130,7 +139,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +159,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
@@ -163,11 +173,11 @@ impl<'de, R: Source> ParserIter<'de, R> {
     }
 
     pub(crate) fn finish_document(&mut self) -> Result<YamEvent<'de>, YamlError> {
-        // Expect a <stream-start>
+        // Expect a <stream-end>
         let ev = self.parser.next_event_impl()?.0;
         if ev != Event::StreamEnd {
             return Err(YamlError::UnExpectedEvent {
-                expected: "StreamStart",
+                expected: "StreamEnd",
                 found: ev.as_simple_str(),
             });
         }
-- 
2.43.0


From f9ada16a27d1058b623c99829048e2219d384d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 41/62] fix: the stream ends where its text ends, not on the
 line after it

---
 yam-core/src/parsing/scanner.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index e8baa07..ec5601c 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -292,12 +292,6 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn fetch_stream_end(&mut self) -> ScanResult {
-        // force new line
-        if self.mark.col != 0 {
-            self.mark.col = 1;
-            self.mark.line += 1;
-        }
-
         // If the stream ended, we won't have more context. We can stall all the simple keys we
         // had. If one was required, however, that was an error and we must propagate it.
         for sk in &mut self.simple_keys {
-- 
2.43.0


From 5f9eab6926df16cd6e2266877bb1e071144e8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 42/62] fix: spans of quoted scalars, block scalars and flow
 indicators exclude what follows them

---
 yam-core/src/parsing/scanner.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ec5601c..8b39d75 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -391,6 +391,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         let start_mark = self.mark;
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
 
         self.implicit_flow_mapping_states
             .push(if token_type == TokenType::FlowMappingStart {
@@ -401,7 +402,6 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token { span, token_type });
 
         Ok(())
@@ -418,6 +418,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         let start_mark = self.mark;
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
         if self.flow_level > 0 {
@@ -425,7 +426,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
@@ -465,9 +465,9 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         let start_mark = self.mark;
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
             token_type: TokenType::FlowEntry,
             span,
@@ -1239,6 +1239,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Eat the right quote.
         self.skip_non_blank();
+        let span = self.get_span(start_mark);
         // Ensure there is no invalid trailing content.
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -1271,7 +1272,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             ScalarType::DoubleQuote
         };
         Ok(Token {
-            span: Span::new(start_mark, self.mark),
+            span,
             token_type: TokenType::Scalar {
                 scalar_type: style,
                 value: unsafe { Cow::Owned(String::from_utf8_unchecked(string)) },
@@ -1355,6 +1356,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
+        // Without content the scalar is its header.
+        let mut span = self.get_span(start_mark);
         if is_break(self.src.peekz(0)) {
             // self.src.lookahead(2);
             self.skip_linebreak();
@@ -1405,7 +1408,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 }
             };
             self.tokens.push_back(Token {
-                span: self.get_span(start_mark),
+                span,
                 token_type: TokenType::Scalar {
                     scalar_type,
                     value: unsafe { Cow::Owned(String::from_utf8_unchecked(contents)) },
@@ -1426,7 +1429,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         let mut line_buffer = Vec::with_capacity(100);
-        let start_mark = self.mark;
+        let content_mark = self.mark;
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
@@ -1453,6 +1456,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             leading_blank = is_blank(self.src.peekz(0));
 
             self.scan_block_scalar_content_line(&mut string, &mut line_buffer);
+            span = self.get_span(content_mark);
 
             // break on EOF
 
@@ -1461,6 +1465,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
 
             self.read_break(&mut leading_break);
+            span = self.get_span(content_mark);
 
             // Eat the following indentation spaces and line breaks.
             self.skip_block_scalar_indent(indent, &mut trailing_breaks);
@@ -1482,7 +1487,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             string.extend_from_slice(&trailing_breaks);
         }
         self.tokens.push_back(Token {
-            span: Span::new(start_mark, self.mark),
+            span,
             token_type: TokenType::Scalar {
                 scalar_type,
                 value: Cow::Owned(unsafe { String::from_utf8_unchecked(string) }),
-- 
2.43.0


From 44b6b9cdac09418f3e5734ef8e6c992a81b1ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 43/62] fix: the end of a flow mapping and of a flow pair is
 where it ends

---
 yam-core/src/parsing/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index e610ca0..9b4ec46 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -8,7 +8,7 @@ use crate::node::scalar::is_core_schema_null;
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError};
+use crate::prelude::{ScalarType, Span, YamlError};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -116,7 +116,7 @@ enum State {
     FlowSequenceEntry,
     FlowSequenceEntryMappingKey,
     FlowSequenceEntryMappingValue,
-    FlowSequenceEntryMappingEnd(Marker),
+    FlowSequenceEntryMappingEnd,
     FlowMappingFirstKey,
     FlowMappingKey,
     FlowMappingValue,
@@ -690,7 +690,7 @@ impl<'input, T: Source> Parser<'input, T> {
 
             State::FlowSequenceEntryMappingKey => self.flow_sequence_entry_mapping_key(),
             State::FlowSequenceEntryMappingValue => self.flow_sequence_entry_mapping_value(),
-            State::FlowSequenceEntryMappingEnd(mark) => self.flow_sequence_entry_mapping_end(mark),
+            State::FlowSequenceEntryMappingEnd => self.flow_sequence_entry_mapping_end(),
             State::FlowMappingEmptyValue => self.flow_mapping_value(true),
 
             /* impossible */
@@ -1206,7 +1206,7 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::FlowMappingEnd,
                 } => span,
-                Token { span, .. } => {
+                _ => {
                     if key_flow.is_non_first() {
                         match *self.peek_token()? {
                             Token {
@@ -1257,16 +1257,15 @@ impl<'input, T: Source> Parser<'input, T> {
                         self.state = State::FlowMappingValue;
                         return Ok((Event::empty_scalar(), span));
                     } else if let Token {
+                        span,
                         token_type: TokenType::FlowMappingEnd,
-                        ..
                     } = *self.peek_token()?
                     {
+                        span
                     } else {
                         self.push_state(State::FlowMappingEmptyValue);
                         return self.parse_node(false, false);
                     }
-
-                    span
                 }
             }
         };
@@ -1487,25 +1486,26 @@ impl<'input, T: Source> Parser<'input, T> {
                     token_type,
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
-                    self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                    self.state = State::FlowSequenceEntryMappingEnd;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    self.push_state(State::FlowSequenceEntryMappingEnd(span.end));
+                    self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
                 }
             }
             Token { span, .. } => {
-                self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                self.state = State::FlowSequenceEntryMappingEnd;
                 Ok((Event::empty_scalar(), span))
             }
         }
     }
 
-    #[allow(clippy::unnecessary_wraps)]
-    fn flow_sequence_entry_mapping_end<'a>(&mut self, mark: Marker) -> ParseResult<'a>
+    fn flow_sequence_entry_mapping_end<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        // The pair extends up to the ',' or ']' behind it.
+        let mark = self.peek_token()?.span.start;
         self.state = State::FlowSequenceEntry;
         Ok((Event::MappingEnd, Span::empty(mark)))
     }
-- 
2.43.0


From b345f19358ac41dad6e07e9c29e9d5d5ad9f828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 44/62] fix: a tagged node is not a bad value

---
 yam-core/src/node/yaml_data.rs | 3 ++-
 yam-core/src/prelude/mod.rs    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml_data.rs b/yam-core/src/node/yaml_data.rs
index a347bec..c1c9548 100644
--- a/yam-core/src/node/yaml_data.rs
+++ b/yam-core/src/node/yaml_data.rs
@@ -80,7 +80,8 @@ where
             YamlData::Scalar(YamlScalar::String(_)) => NodeType::String,
             YamlData::Alias(_) => NodeType::Alias,
             YamlData::Scalar(YamlScalar::Null(_)) => NodeType::Null,
-            _ => NodeType::Bad,
+            YamlData::Tagged(_, _) => NodeType::Tagged,
+            YamlData::BadValue => NodeType::Bad,
         }
     }
 }
diff --git a/yam-core/src/prelude/mod.rs b/yam-core/src/prelude/mod.rs
index 92c7372..01921b0 100644
--- a/yam-core/src/prelude/mod.rs
+++ b/yam-core/src/prelude/mod.rs
@@ -210,6 +210,8 @@ pub enum NodeType {
     Mapping,
     /// Represents a node that contains a sequence (ordered list of elements), similar to an array or list.
     Sequence,
+    /// Represents a node with a tag outside the core schema around it.
+    Tagged,
 }
 
 #[derive(Copy, Clone, PartialEq, Debug)]
-- 
2.43.0


From 2d16939e61686df2e7719b4bc270d57b651ec1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 45/62] fix: a position no integer can hold is not a key of any
 mapping

---
 yam-core/src/node/yaml.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 89e95ea..fa3d0a6 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -350,6 +350,18 @@ impl<'a> Yaml<'a> {
     }
 }
 
+impl<FP, INT> Yaml<'_, FP, INT>
+where
+    FP: Copy + ToMut<f64>,
+    INT: Copy + From<i64> + ToMut<i64>,
+{
+    /// The key a position stands for in a mapping, if there is an integer of that value.
+    fn position_key(index: usize) -> Option<Self> {
+        i64::try_from(index).ok()?;
+        Some(Self::key_from_usize(index))
+    }
+}
+
 impl<FP, INT> Index<usize> for Yaml<'_, FP, INT>
 where
     FP: Copy + ToMut<f64> + PartialEq,
@@ -359,9 +371,12 @@ where
 
     fn index(&self, index: usize) -> &Self::Output {
         let typ = self.0.get_type();
-        let ind = Yaml::key_from_usize(index);
         match typ {
-            NodeType::Mapping => &self.mapping().iter().find(|x| x.key == ind).unwrap().value,
+            NodeType::Mapping => {
+                let ind = Self::position_key(index);
+                let mut entries = self.mapping().iter();
+                &entries.find(|x| Some(&x.key) == ind.as_ref()).unwrap().value
+            }
             NodeType::Sequence => self.sequence().index(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
         }
@@ -375,13 +390,13 @@ where
 {
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
         let typ = self.get_type();
-        let ind = Yaml::key_from_usize(index);
         match typ {
             NodeType::Mapping => {
+                let ind = Self::position_key(index);
                 &mut self
                     .mapping_mut()
                     .iter_mut()
-                    .find(|x| x.key == ind)
+                    .find(|x| Some(&x.key) == ind.as_ref())
                     .unwrap()
                     .value
             }
-- 
2.43.0


From 7d40344e8d8880bd3118153456d29e80fa30c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 46/62] hook: name what a source reports about white space,
 behind cfg(yam_mc)

---
 yam-core/src/parsing/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 9551450..8b1e785 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -1,5 +1,6 @@
 //! Module dealing with parsing YAML documents into a series of events.
 //!
+#![allow(unexpected_cfgs)]
 mod buffered_source;
 mod char_utils;
 mod parser;
@@ -17,6 +18,9 @@ pub use parser::EventReceiver;
 pub use parser::SpannedEventReceiver;
 pub use parser::{Event, Parser, ScalarValue};
 pub use parser_iter::ParserIter;
+// What `Source::skip_ws_to_eol` reports, for sources written outside of this crate.
+#[cfg(yam_mc)]
+pub use scanner::SkipTabs;
 pub use source::Source;
 pub use source::StrSource;
 
-- 
2.43.0


From 66af6addf29a6d2e7ff410726d3f389de51e7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 47/62] fix: pushing what is left of a line works on the last
 line and at the end

---
 yam-core/src/parsing/source.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index c4b48b0..3c5df55 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -287,11 +287,12 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
-        let len = self.input[self.pos..]
+        let rest = self.input.get(self.pos..).unwrap_or_default();
+        let len = rest
             .iter()
             .position(|&c| is_break(c))
-            .unwrap_or(0);
-        let slice = &self.input[self.pos..self.pos + len];
+            .unwrap_or(rest.len());
+        let slice = &rest[..len];
         self.skip(len);
         vec.extend_from_slice(slice);
     }
-- 
2.43.0


From b184374aec9df6af0bbfe47865bef29ff566b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 48/62] fix: deserializing looks ahead by one event and
 consumes exactly one node

---
 yam-serde/src/de.rs | 187 +++++++++++++++++++-------------------------
 1 file changed, 81 insertions(+), 106 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..e7557bd 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -15,16 +15,15 @@ where
     R: Source,
 {
     yaml_iter: ParserIter<'de, R>,
-    last_event: YamEvent<'de>,
-    has_peeked: bool,
+    /// The next event, if it was looked at.
+    peeked: Option<YamEvent<'de>>,
 }
 
 impl<'a> YamIterDeserializer<'a, StrSource<'a>> {
     pub fn new(source: &'a str) -> Self {
         YamIterDeserializer {
             yaml_iter: ParserIter::new(StrSource::new(source)),
-            last_event: YamEvent::DocStart,
-            has_peeked: false,
+            peeked: None,
         }
     }
 }
@@ -33,23 +32,51 @@ impl<'a, R> YamIterDeserializer<'a, R>
 where
     R: Source,
 {
+    /// The next event, which stays the next one.
+    fn peek_el(&mut self) -> Option<&YamEvent<'a>> {
+        if self.peeked.is_none() {
+            self.peeked = self.yaml_iter.next();
+        }
+        self.peeked.as_ref()
+    }
+
     fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+        match self.peeked.take() {
+            None => self.yaml_iter.next(),
+            event => event,
         }
+    }
 
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
-        Some(self.last_event.clone())
+    /// The event that starts the next node.
+    fn peek_node(&mut self) -> Option<&YamEvent<'a>> {
+        if matches!(self.peek_el(), Some(YamEvent::DocStart)) {
+            self.peeked = None;
+        }
+        self.peek_el()
     }
 
-    fn skip(&mut self) {
-        self.has_peeked = false;
+    /// The scalar that is the next node, if it is one.
+    fn next_scalar(&mut self) -> Option<ScalarValue<'a>> {
+        match self.peek_node() {
+            Some(YamEvent::Scalar(scalar)) => {
+                let scalar = scalar.clone();
+                self.peeked = None;
+                Some(scalar)
+            }
+            _ => None,
+        }
+    }
+
+    /// Consumes the next event, which has to be this one.
+    fn expect(&mut self, event: &YamEvent<'a>) -> Result<(), DeYamlError> {
+        match self.next_el() {
+            Some(found) if found == *event => Ok(()),
+            found => Err(unexpected(event.as_simple_str(), found.as_ref())),
+        }
     }
 
     fn peek_null(&mut self) -> bool {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
+        if let Some(YamEvent::Scalar(scalar)) = self.peek_node() {
             scalar.is_null()
         } else {
             false
@@ -72,6 +99,13 @@ where
     }
 }
 
+fn unexpected(expected: &'static str, found: Option<&YamEvent>) -> DeYamlError {
+    DeYamlError::ParserError(YamlError::UnExpectedEvent {
+        expected,
+        found: found.map_or("StreamEnd", YamEvent::as_simple_str),
+    })
+}
+
 macro_rules! parse_from_cow {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {
         match $e.parse::<$t>() {
@@ -94,13 +128,12 @@ where
     where
         V: de::Visitor<'de>,
     {
-        match self.skip_doc() {
+        if let Some(scalar) = self.next_scalar() {
+            return YamIterDeserializer::<R>::resolve_scalar(scalar, visitor);
+        }
+        match self.peek_node() {
             Some(YamEvent::MapStart(_, _)) => self.deserialize_map(visitor),
             Some(YamEvent::SeqStart(_, _)) => self.deserialize_seq(visitor),
-            Some(YamEvent::Scalar(scalar_value)) => {
-                self.skip();
-                YamIterDeserializer::<R>::resolve_scalar(scalar_value, visitor)
-            }
             e => Err(DeYamlError::Custom(format!(
                 "Unexpected event (can only process DocStart): {e:?}"
             ))),
@@ -111,8 +144,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
         } else {
             Err(DeYamlError::Custom(
@@ -125,8 +157,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
         } else {
             Err(DeYamlError::Custom(
@@ -139,8 +170,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.skip();
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_i32, i32)
         } else {
             Err(DeYamlError::Custom(
@@ -153,8 +183,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.skip();
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_i64, i64)
         } else {
             Err(DeYamlError::Custom(
@@ -167,8 +196,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
         } else {
             Err(DeYamlError::Custom(
@@ -181,8 +209,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
         } else {
             Err(DeYamlError::Custom(
@@ -195,8 +222,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.skip();
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_u32, u32)
         } else {
             Err(DeYamlError::Custom(
@@ -209,8 +235,7 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.skip();
+        if let Some(scalar) = self.next_scalar() {
             parse_from_cow!(&scalar.value, visitor, visit_u64, u64)
         } else {
             Err(DeYamlError::Custom(
@@ -224,7 +249,7 @@ where
         V: de::Visitor<'de>,
     {
         if self.peek_null() {
-            self.skip();
+            self.peeked = None;
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -236,7 +261,7 @@ where
         V: de::Visitor<'de>,
     {
         if self.peek_null() {
-            self.skip();
+            self.peeked = None;
             visitor.visit_unit()
         } else {
             Err(DeYamlError::ExpectedNull)
@@ -253,23 +278,12 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if !matches!(self.skip_doc(), Some(YamEvent::SeqStart(_, _))) {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "SeqStart",
-                found: self.last_event.as_simple_str(),
-            }));
+        if !matches!(self.peek_node(), Some(YamEvent::SeqStart(_, _))) {
+            return Err(unexpected("SeqStart", self.peek_el()));
         }
-        self.skip();
+        self.peeked = None;
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "SeqEnd",
-                found: self.last_event.as_simple_str(),
-            }));
-        }
-        self.skip();
+        self.expect(&YamEvent::SeqEnd)?;
         Ok(val)
     }
 
@@ -277,23 +291,12 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if !matches!(self.skip_doc(), Some(YamEvent::MapStart(_, _))) {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "MapStart",
-                found: self.last_event.as_simple_str(),
-            }));
+        if !matches!(self.peek_node(), Some(YamEvent::MapStart(_, _))) {
+            return Err(unexpected("MapStart", self.peek_el()));
         }
-        self.skip();
+        self.peeked = None;
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "MapEnd",
-                found: self.last_event.as_simple_str(),
-            }));
-        }
-        self.skip();
+        self.expect(&YamEvent::MapEnd)?;
         Ok(val)
     }
 
@@ -306,21 +309,14 @@ where
     where
         V: de::Visitor<'de>,
     {
-        match self.skip_doc() {
-            Some(YamEvent::Scalar(ScalarValue { value, .. })) => {
-                self.skip();
-                visitor.visit_enum(value.into_deserializer())
-            }
+        if let Some(ScalarValue { value, .. }) = self.next_scalar() {
+            return visitor.visit_enum(value.into_deserializer());
+        }
+        match self.peek_node() {
             Some(YamEvent::MapStart(_, _)) => {
-                self.skip();
+                self.peeked = None;
                 let value = visitor.visit_enum(Enum::new(self))?;
-
-                if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
-                    return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                        found: self.last_event.as_simple_str(),
-                        expected: "MapEnd",
-                    }));
-                }
+                self.expect(&YamEvent::MapEnd)?;
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
@@ -335,21 +331,6 @@ where
     }
 }
 
-impl<'de, R> YamIterDeserializer<'de, R>
-where
-    R: Source,
-{
-    fn skip_doc<'a>(&'a mut self) -> Option<YamEvent<'de>> {
-        match self.next_el() {
-            Some(YamEvent::DocStart) => {
-                self.skip();
-                self.next_el()
-            }
-            ev => ev,
-        }
-    }
-}
-
 #[derive(Debug)]
 pub enum DeYamlError {
     ParserError(YamlError),
@@ -413,13 +394,10 @@ where
     where
         T: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::SeqEnd) => Ok(None),
-            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
-                Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                    expected: "SeqEnd",
-                    found: self.iter.last_event.as_simple_str(),
-                }))
+            found @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
+                Err(unexpected("SeqEnd", found))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
@@ -436,13 +414,10 @@ where
     where
         K: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::MapEnd) => Ok(None),
-            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
-                Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                    expected: "MapEnd",
-                    found: self.iter.last_event.as_simple_str(),
-                }))
+            found @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
+                Err(unexpected("MapEnd", found))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
-- 
2.43.0


From 17cb07b3aeddfa32ad7de4cda1194dfc9b19bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 49/62] fix: a unit variant written as a mapping has no value

---
 yam-serde/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index e7557bd..78db8af 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -475,7 +475,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From 42fd76bbc0e7846aa96ae1f7d550e1534bab9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 50/62] fix: numbers are deserialized by the core schema,
 quoted ones are not numbers

---
 yam-serde/src/de.rs | 122 ++++----------------------------------------
 1 file changed, 11 insertions(+), 111 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 78db8af..af45543 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -8,7 +8,7 @@ use serde_core::{de, forward_to_deserialize_any};
 use yam_core::node::YamlScalar;
 use yam_core::parsing::parser_iter::YamEvent;
 use yam_core::parsing::{ParserIter, ScalarValue, Source, StrSource};
-use yam_core::prelude::YamlError;
+use yam_core::prelude::{ScalarType, YamlError};
 
 pub(crate) struct YamIterDeserializer<'de, R>
 where
@@ -106,18 +106,6 @@ fn unexpected(expected: &'static str, found: Option<&YamEvent>) -> DeYamlError {
     })
 }
 
-macro_rules! parse_from_cow {
-    ($e:expr, $v:expr, $method:ident, $t:ty) => {
-        match $e.parse::<$t>() {
-            Ok(i) => $v.$method(i),
-            Err(_) => Err(DeYamlError::Custom(format!(
-                "Failed to parse {:?} from scalar value",
-                stringify!($t)
-            ))),
-        }
-    };
-}
-
 impl<'de, R> de::Deserializer<'de> for &mut YamIterDeserializer<'de, R>
 where
     R: Source,
@@ -140,108 +128,20 @@ where
         }
     }
 
-    fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for i32 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for i16 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_i32, i32)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for i32 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_i64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_i64, i64)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for i64 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for i8 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for u16 deserialization".to_string(),
-            ))
-        }
-    }
-
-    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::Visitor<'de>,
-    {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_u32, u32)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for u32 deserialization".to_string(),
-            ))
-        }
-    }
-
     fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        if let Some(scalar) = self.next_scalar() {
-            parse_from_cow!(&scalar.value, visitor, visit_u64, u64)
-        } else {
-            Err(DeYamlError::Custom(
-                "Expected scalar event for u64 deserialization".to_string(),
-            ))
+        // Integers that fit but are beyond what `YamlScalar` holds.
+        if let Some(YamEvent::Scalar(scalar)) = self.peek_node()
+            && scalar.scalar_type == ScalarType::Plain
+            && scalar.tag.is_none()
+            && let Ok(x) = scalar.value.parse::<u64>()
+        {
+            self.peeked = None;
+            return visitor.visit_u64(x);
         }
+        self.deserialize_any(visitor)
     }
 
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -269,7 +169,7 @@ where
     }
 
     forward_to_deserialize_any! {
-        bool i128 u128 f32 f64 char str string
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f32 f64 char str string
         bytes byte_buf unit_struct newtype_struct tuple
         tuple_struct struct ignored_any
     }
-- 
2.43.0


From 875d00852ae0899dc4a22000088d067801cf2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 51/62] fix: a newtype structure is written as the value it
 holds

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index af45543..31f1f52 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -170,10 +170,21 @@ where
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
-- 
2.43.0


From 03059651cef9902999e8d9c87a5054fdfad898eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 52/62] fix: malformed text and further documents are errors
 when deserializing

---
 yam-serde/src/de.rs  | 58 ++++++++++++++++++++++++++++++--------------
 yam-serde/src/lib.rs |  3 ++-
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 31f1f52..2a4f21e 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -47,6 +47,27 @@ where
         }
     }
 
+    /// Consumes the end of the document, which has to be the only one of a well-formed text.
+    pub(crate) fn end(&mut self) -> Result<(), DeYamlError> {
+        self.expect(&YamEvent::DocEnd)?;
+        self.yaml_iter.next();
+        match self.yaml_iter.error() {
+            Some(err) => Err(DeYamlError::ParserError(err.clone())),
+            None => Ok(()),
+        }
+    }
+
+    /// What is wrong when this event comes where another is expected.
+    fn unexpected(&self, expected: &'static str, found: Option<&YamEvent>) -> DeYamlError {
+        match (found, self.yaml_iter.error()) {
+            (None, Some(err)) => DeYamlError::ParserError(err.clone()),
+            _ => DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected,
+                found: found.map_or("StreamEnd", YamEvent::as_simple_str),
+            }),
+        }
+    }
+
     /// The event that starts the next node.
     fn peek_node(&mut self) -> Option<&YamEvent<'a>> {
         if matches!(self.peek_el(), Some(YamEvent::DocStart)) {
@@ -71,7 +92,7 @@ where
     fn expect(&mut self, event: &YamEvent<'a>) -> Result<(), DeYamlError> {
         match self.next_el() {
             Some(found) if found == *event => Ok(()),
-            found => Err(unexpected(event.as_simple_str(), found.as_ref())),
+            found => Err(self.unexpected(event.as_simple_str(), found.as_ref())),
         }
     }
 
@@ -99,13 +120,6 @@ where
     }
 }
 
-fn unexpected(expected: &'static str, found: Option<&YamEvent>) -> DeYamlError {
-    DeYamlError::ParserError(YamlError::UnExpectedEvent {
-        expected,
-        found: found.map_or("StreamEnd", YamEvent::as_simple_str),
-    })
-}
-
 impl<'de, R> de::Deserializer<'de> for &mut YamIterDeserializer<'de, R>
 where
     R: Source,
@@ -122,9 +136,10 @@ where
         match self.peek_node() {
             Some(YamEvent::MapStart(_, _)) => self.deserialize_map(visitor),
             Some(YamEvent::SeqStart(_, _)) => self.deserialize_seq(visitor),
-            e => Err(DeYamlError::Custom(format!(
-                "Unexpected event (can only process DocStart): {e:?}"
-            ))),
+            _ => {
+                let found = self.next_el();
+                Err(self.unexpected("Scalar, SeqStart or MapStart", found.as_ref()))
+            }
         }
     }
 
@@ -190,7 +205,8 @@ where
         V: de::Visitor<'de>,
     {
         if !matches!(self.peek_node(), Some(YamEvent::SeqStart(_, _))) {
-            return Err(unexpected("SeqStart", self.peek_el()));
+            let found = self.next_el();
+            return Err(self.unexpected("SeqStart", found.as_ref()));
         }
         self.peeked = None;
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
@@ -203,7 +219,8 @@ where
         V: de::Visitor<'de>,
     {
         if !matches!(self.peek_node(), Some(YamEvent::MapStart(_, _))) {
-            return Err(unexpected("MapStart", self.peek_el()));
+            let found = self.next_el();
+            return Err(self.unexpected("MapStart", found.as_ref()));
         }
         self.peeked = None;
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
@@ -230,7 +247,10 @@ where
                 self.expect(&YamEvent::MapEnd)?;
                 Ok(value)
             }
-            _ => Err(DeYamlError::Custom("Expected enum".to_string())),
+            _ => {
+                let found = self.next_el();
+                Err(self.unexpected("Scalar or MapStart", found.as_ref()))
+            }
         }
     }
 
@@ -307,8 +327,9 @@ where
     {
         match self.iter.peek_el() {
             Some(YamEvent::SeqEnd) => Ok(None),
-            found @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
-                Err(unexpected("SeqEnd", found))
+            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
+                let found = self.iter.next_el();
+                Err(self.iter.unexpected("SeqEnd", found.as_ref()))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
@@ -327,8 +348,9 @@ where
     {
         match self.iter.peek_el() {
             Some(YamEvent::MapEnd) => Ok(None),
-            found @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
-                Err(unexpected("MapEnd", found))
+            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
+                let found = self.iter.next_el();
+                Err(self.iter.unexpected("MapEnd", found.as_ref()))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a63847d..ccb149a 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -35,7 +35,7 @@ use core::fmt::Error;
 /// # Errors
 ///
 /// This function returns a `DeYamlError` if any errors occur during the deserialization process,
-/// such as invalid YAML syntax or mismatched data types.
+/// such as invalid YAML syntax or mismatched data types, or if there is more than one document.
 ///
 /// # Examples
 ///
@@ -67,6 +67,7 @@ where
 {
     let mut de = crate::de::YamIterDeserializer::new(input);
     let value = T::deserialize(&mut de)?;
+    de.end()?;
 
     Ok(value)
 }
-- 
2.43.0


From 41d657ba85301e3663c91aa3d63c1c032bd8e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 53/62] fix: deserializing deeply nested collections is an
 error instead of a stack overflow

---
 yam-serde/src/de.rs  | 38 ++++++++++++++++++++++++++++++++------
 yam-serde/src/lib.rs |  3 ++-
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 2a4f21e..bcaa386 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -17,13 +17,20 @@ where
     yaml_iter: ParserIter<'de, R>,
     /// The next event, if it was looked at.
     peeked: Option<YamEvent<'de>>,
+    /// How many more collections may be entered.
+    remaining_depth: usize,
 }
 
+/// Deepest nesting of collections in a deserialized document. Deserializing recurses on it, so an
+/// unlimited one would overflow the stack.
+const MAX_DEPTH: usize = 128;
+
 impl<'a> YamIterDeserializer<'a, StrSource<'a>> {
     pub fn new(source: &'a str) -> Self {
         YamIterDeserializer {
             yaml_iter: ParserIter::new(StrSource::new(source)),
             peeked: None,
+            remaining_depth: MAX_DEPTH,
         }
     }
 }
@@ -96,6 +103,25 @@ where
         }
     }
 
+    /// Consumes the start of a collection, which is the next event.
+    fn enter(&mut self) -> Result<(), DeYamlError> {
+        let Some(remaining) = self.remaining_depth.checked_sub(1) else {
+            return Err(DeYamlError::Custom(format!(
+                "collections are nested deeper than {MAX_DEPTH} levels"
+            )));
+        };
+        self.remaining_depth = remaining;
+        self.peeked = None;
+        Ok(())
+    }
+
+    /// Consumes the end of a collection, which has to be the next event.
+    fn leave(&mut self, end: &YamEvent<'a>) -> Result<(), DeYamlError> {
+        self.expect(end)?;
+        self.remaining_depth += 1;
+        Ok(())
+    }
+
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.peek_node() {
             scalar.is_null()
@@ -208,9 +234,9 @@ where
             let found = self.next_el();
             return Err(self.unexpected("SeqStart", found.as_ref()));
         }
-        self.peeked = None;
+        self.enter()?;
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        self.expect(&YamEvent::SeqEnd)?;
+        self.leave(&YamEvent::SeqEnd)?;
         Ok(val)
     }
 
@@ -222,9 +248,9 @@ where
             let found = self.next_el();
             return Err(self.unexpected("MapStart", found.as_ref()));
         }
-        self.peeked = None;
+        self.enter()?;
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        self.expect(&YamEvent::MapEnd)?;
+        self.leave(&YamEvent::MapEnd)?;
         Ok(val)
     }
 
@@ -242,9 +268,9 @@ where
         }
         match self.peek_node() {
             Some(YamEvent::MapStart(_, _)) => {
-                self.peeked = None;
+                self.enter()?;
                 let value = visitor.visit_enum(Enum::new(self))?;
-                self.expect(&YamEvent::MapEnd)?;
+                self.leave(&YamEvent::MapEnd)?;
                 Ok(value)
             }
             _ => {
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index ccb149a..a6201d8 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -35,7 +35,8 @@ use core::fmt::Error;
 /// # Errors
 ///
 /// This function returns a `DeYamlError` if any errors occur during the deserialization process,
-/// such as invalid YAML syntax or mismatched data types, or if there is more than one document.
+/// such as invalid YAML syntax or mismatched data types, if there is more than one document, or if
+/// collections are nested deeper than 128 levels.
 ///
 /// # Examples
 ///
-- 
2.43.0


From 87a5c1ecc7f19e54ac37d4487b2ef982933d16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 54/62] fix: a text without a document is deserialized as null

---
 yam-core/src/parsing/parser_iter.rs | 11 +++++++++++
 yam-serde/src/de.rs                 | 13 +++++++++++++
 yam-serde/src/lib.rs                |  3 ++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index 4387c92..1cc50f8 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -78,6 +78,17 @@ where
     pub fn error(&self) -> Option<&YamlError> {
         self.error.as_ref()
     }
+
+    /// Whether the iteration ended because the text is well-formed and holds no document.
+    pub fn holds_no_document(&self) -> bool {
+        matches!(
+            self.error,
+            Some(YamlError::UnExpectedEvent {
+                expected: "DocStart",
+                found: "StreamEnd",
+            })
+        )
+    }
 }
 
 impl<'de, R> Iterator for ParserIter<'de, R>
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcaa386..0afdcc3 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -17,6 +17,8 @@ where
     yaml_iter: ParserIter<'de, R>,
     /// The next event, if it was looked at.
     peeked: Option<YamEvent<'de>>,
+    /// Whether the text turned out to hold no document.
+    no_document: bool,
     /// How many more collections may be entered.
     remaining_depth: usize,
 }
@@ -30,6 +32,7 @@ impl<'a> YamIterDeserializer<'a, StrSource<'a>> {
         YamIterDeserializer {
             yaml_iter: ParserIter::new(StrSource::new(source)),
             peeked: None,
+            no_document: false,
             remaining_depth: MAX_DEPTH,
         }
     }
@@ -56,6 +59,9 @@ where
 
     /// Consumes the end of the document, which has to be the only one of a well-formed text.
     pub(crate) fn end(&mut self) -> Result<(), DeYamlError> {
+        if self.no_document {
+            return Ok(());
+        }
         self.expect(&YamEvent::DocEnd)?;
         self.yaml_iter.next();
         match self.yaml_iter.error() {
@@ -79,6 +85,13 @@ where
     fn peek_node(&mut self) -> Option<&YamEvent<'a>> {
         if matches!(self.peek_el(), Some(YamEvent::DocStart)) {
             self.peeked = None;
+        } else if self.peeked.is_none()
+            && !self.no_document
+            && self.yaml_iter.holds_no_document()
+        {
+            // What is left out is null.
+            self.no_document = true;
+            self.peeked = Some(YamEvent::Scalar(ScalarValue::default()));
         }
         self.peek_el()
     }
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a6201d8..38ad56c 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -15,7 +15,8 @@ use core::fmt::Error;
 /// Attempts to deserialize a YAML input string into a value of type `T`.
 ///
 /// This function leverages the `Deserialize` trait from the `serde` library
-/// to convert a YAML string slice into the corresponding Rust data structure.
+/// to convert a YAML string slice into the corresponding Rust data structure. A text that holds no
+/// document, only comments for example, is read like a null.
 ///
 /// # Type Parameters
 ///
-- 
2.43.0


From 6949fb2c9efbc0ee19f5d005dea188366d11bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 55/62] fix: strings are escaped and folded so that they read
 back as they are

---
 yam-serde/src/escape_str.rs | 146 +++++++++++-------------------------
 yam-serde/src/ser.rs        |  90 ++++++++--------------
 2 files changed, 76 insertions(+), 160 deletions(-)

diff --git a/yam-serde/src/escape_str.rs b/yam-serde/src/escape_str.rs
index bcc4108..755188a 100644
--- a/yam-serde/src/escape_str.rs
+++ b/yam-serde/src/escape_str.rs
@@ -3,114 +3,56 @@ use core::fmt::{Error, Write};
 pub(crate) fn peekz_byte(array: &[u8], pos: usize) -> u8 {
     if pos < array.len() { array[pos] } else { 0 }
 }
-pub(crate) fn decode_hex<W: Write>(writer: &mut W, digit_slice: &[u8]) -> Result<(), Error> {
-    if !digit_slice.iter().all(u8::is_ascii_hexdigit) {
-        writer.write_char('\u{FFFD}')?;
-        return Ok(());
-    }
+/// Whether a character is written as an escape in double quotes.
+pub(crate) fn needs_escape(c: char) -> bool {
+    matches!(
+        c,
+        '\0'..='\x1F'
+            | '"'
+            | '\\'
+            | '\x7F'..='\u{A0}'
+            | '\u{2028}'
+            | '\u{2029}'
+            | '\u{FEFF}'
+            | '\u{FFFE}'
+            | '\u{FFFF}'
+    )
+}
 
-    let code_point = digit_slice
-        .iter()
-        .map(|x| match *x {
-            n @ b'0'..=b'9' => n - b'0',
-            a @ b'a'..=b'f' => a - b'a' + 10,
-            a @ b'A'..=b'F' => a - b'A' + 10,
-            _ => 0u8,
-        })
-        .fold(0u32, |acc, digit| (acc << 4) + u32::from(digit));
-    match code_point {
-        // YAML has special escape rules for certain values
-        // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
-        0 => writer.write_char('\u{FFFD}')?,
-        0x07 => writer.write_str("\\a")?,
-        0x08 => writer.write_str("\\b")?,
-        0x09 => writer.write_str("\\t")?,
-        0x0A => writer.write_str("\\n")?,
-        0x0B => writer.write_str("\\v")?,
-        0x0C => writer.write_str("\\f")?,
-        0x0D => writer.write_str("\\r")?,
-        0x1B => writer.write_str("\\e")?,
-        0x22 => writer.write_str("\\\"")?,
-        0x2F => writer.write_str("\\/")?,
-        0x5C => writer.write_str("\\\\")?,
-        0x85 => writer.write_str("\\N")?,
-        0xA0 => writer.write_str("\\_")?,
-        0x2028 => writer.write_str("\\L")?,
-        0x2029 => writer.write_str("\\P")?,
-        _ => {
-            let encode_char = char::from_u32(code_point);
-            if let Some(encode_char) = encode_char {
-                return writer.write_char(encode_char);
-            }
+pub(crate) fn escape_double_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
+    let mut rest = value;
+    while let Some(pos) = rest.find(needs_escape) {
+        writer.write_str(&rest[..pos])?;
+        let mut chars = rest[pos..].chars();
+        if let Some(c) = chars.next() {
+            escape_char(writer, c)?;
         }
+        rest = chars.as_str();
     }
-
-    Ok(())
+    writer.write_str(rest)
 }
 
-pub(crate) fn escape_double_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
-    let bytes = value.as_bytes();
-
-    let (mut old_pos, mut pos) = (0, 0);
-    while pos < bytes.len() {
-        let byte_char = bytes[pos];
-        let peek_char = peekz_byte(bytes, pos + 1);
-        match (byte_char, peek_char) {
-            (b'\\', b't' | b'r' | b'n') => {
-                // TODO normalize `\r\n` into `\n`
-                pos += 2;
-            }
-
-            (b'\t', _) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\t")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\r', b'\n') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 2;
-                old_pos = pos;
-            }
-            (b'\n', ..) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\\', b'x') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 4])?;
-                pos += 4;
-                old_pos = pos;
-            }
-            (b'\\', b'u') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 6])?;
-                pos += 6;
-                old_pos = pos;
-            }
-            (b'\\', b'U') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 8])?;
-                pos += 8;
-                old_pos = pos;
-            }
-            _ => {
-                pos += 1;
-            }
-        }
+fn escape_char<W: Write>(writer: &mut W, c: char) -> Result<(), Error> {
+    // YAML has special escape rules for certain values
+    // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
+    match c {
+        '\0' => writer.write_str("\\0"),
+        '\x07' => writer.write_str("\\a"),
+        '\x08' => writer.write_str("\\b"),
+        '\t' => writer.write_str("\\t"),
+        '\n' => writer.write_str("\\n"),
+        '\x0B' => writer.write_str("\\v"),
+        '\x0C' => writer.write_str("\\f"),
+        '\r' => writer.write_str("\\r"),
+        '\x1B' => writer.write_str("\\e"),
+        '"' => writer.write_str("\\\""),
+        '\\' => writer.write_str("\\\\"),
+        '\u{85}' => writer.write_str("\\N"),
+        '\u{A0}' => writer.write_str("\\_"),
+        '\u{2028}' => writer.write_str("\\L"),
+        '\u{2029}' => writer.write_str("\\P"),
+        c => write!(writer, "\\u{:04X}", u32::from(c)),
     }
-    let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-    writer.write_str(prev_str)?;
-    Ok(())
 }
 
 // TODO Enable or delete
diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 55bd3fb..84ac26f 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -8,22 +8,21 @@ use serde_core::ser::SerializeStructVariant;
 use serde_core::{Serialize, ser};
 use unicode_segmentation::UnicodeSegmentation;
 
-trait YamlWhitespace {
-    fn is_splittable_ws(&self) -> bool;
-    fn is_last_char_splittable_ws(&self) -> bool;
-}
-
-impl YamlWhitespace for str {
-    fn is_splittable_ws(&self) -> bool {
-        self.bytes().all(|c| c == b' ' || c == b'\n')
-    }
-
-    fn is_last_char_splittable_ws(&self) -> bool {
-        self.bytes()
-            .last()
-            .map(|c| c == b' ' || c == b'\n')
-            .unwrap_or_default()
+/// Splits a string at the spaces that may be written as a line break inside double quotes, which
+/// reads as one space: those between two characters other than spaces.
+fn foldable_words(str: &str) -> Vec<&str> {
+    let bytes = str.as_bytes();
+    let mut words = Vec::new();
+    let mut start = 0;
+    for (pos, _) in str.match_indices(' ') {
+        let follows = pos > 0 && bytes[pos - 1] != b' ';
+        if follows && !matches!(peekz_byte(bytes, pos + 1), 0 | b' ') {
+            words.push(&str[start..pos]);
+            start = pos + 1;
+        }
     }
+    words.push(&str[start..]);
+    words
 }
 
 #[derive(Debug)]
@@ -100,56 +99,31 @@ where
         Ok(())
     }
 
-    fn line_split_at(&mut self, line_buff: &str, line_split: &str) -> Result<(), Error> {
-        let escaped = if line_split == " " { "\n" } else { "\n\n" };
-        self.writer.write_str(line_buff)?;
-        self.writer.write_str(escaped)?;
-        self.write_indentors(self.current_depth)
-    }
-
     fn write_double_quote_multi(&mut self, str: &str) -> Result<(), Error> {
         self.write_char('"')?;
 
-        let mut line_buff = String::with_capacity(self.formatter.pref_string_length + 20);
-        let mut line_buff_len = 0;
-        let word_bounds = str
-            .split_word_bound_indices()
-            .map(|(_, word)| (word, word.graphemes(true).count()))
-            .collect::<Vec<(&str, usize)>>();
-
-        for (word, grapheme_len) in word_bounds {
-            if self.is_time_to_split(line_buff_len, grapheme_len) {
-                let word_is_splittable = word.is_splittable_ws();
-                let line_buff_is_splittable = line_buff.is_last_char_splittable_ws();
-
-                if line_buff_is_splittable {
-                    // Try to split line on existing buffer
-                    let (line, nl) = line_buff.split_at(line_buff.len() - 1);
-                    self.line_split_at(line, nl)?;
-
-                    // Set current buffer to current word
-                    line_buff.clear();
-                    line_buff.push_str(word);
-                    line_buff_len = grapheme_len;
-                } else if word_is_splittable {
-                    // Try to split line on word
-                    let (front, nl) = word.split_at(0);
-                    self.line_split_at(&line_buff, nl)?;
-
-                    line_buff.clear();
-                    line_buff.push_str(front);
-                    line_buff_len = front.len();
+        let mut escaped = String::new();
+        let mut line_len = 0;
+        for (i, word) in foldable_words(str).into_iter().enumerate() {
+            escaped.clear();
+            escape_str::escape_double_quotes(&mut escaped, word)?;
+            let word_len = escaped.graphemes(true).count();
+
+            // A line that starts like this would end the document.
+            let can_start_line = !word.starts_with("---") && !word.starts_with("...");
+            if i > 0 {
+                if can_start_line && self.is_time_to_split(line_len + 1, word_len) {
+                    self.write_nl()?;
+                    self.write_indentors(self.current_depth)?;
+                    line_len = 0;
                 } else {
-                    // Write the word to buffer
-                    line_buff.push_str(word);
-                    line_buff_len += grapheme_len;
+                    self.write_char(' ')?;
+                    line_len += 1;
                 }
-            } else {
-                line_buff.push_str(word);
-                line_buff_len += grapheme_len;
             }
+            self.write_single_string(&escaped)?;
+            line_len += word_len;
         }
-        self.writer.write_str(&line_buff)?;
         self.write_char('"')?;
         Ok(())
     }
-- 
2.43.0


From 5643ab2bacf7427c19df964c0a05a86f44ed0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 56/62] fix: characters that cannot stand in quotes are escaped

---
 yam-serde/src/ser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 84ac26f..4c55ce2 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -361,11 +361,12 @@ where
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        let string_chr = if v == '\'' { '"' } else { '\'' };
-
-        self.writer.write_char(string_chr)?;
+        if v == '\'' || (v != '"' && v != '\\' && escape_str::needs_escape(v)) {
+            return self.write_double_quote_single(v.encode_utf8(&mut [0; 4]));
+        }
+        self.writer.write_char('\'')?;
         self.writer.write_char(v)?;
-        self.writer.write_char(string_chr)?;
+        self.writer.write_char('\'')?;
         Ok(())
     }
 
-- 
2.43.0


From 246890d41e767293b29ca7b6ff6afa6190585881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 57/62] fix: floats are written so that they read back as
 floats

---
 yam-serde/src/ser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 4c55ce2..437f62f 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -285,6 +285,22 @@ where
         write!(self.writer, "{value}")?;
         Ok(())
     }
+
+    /// The shortest digits that give the value back, always with what tells a float from an integer.
+    fn serialize_float<T>(&mut self, value: T) -> Result<(), Error>
+    where
+        T: Copy + Debug + Into<f64>,
+    {
+        let wide: f64 = value.into();
+        if wide.is_nan() {
+            self.writer.write_str(".nan")
+        } else if wide.is_infinite() {
+            let str = if wide > 0.0 { ".inf" } else { "-.inf" };
+            self.writer.write_str(str)
+        } else {
+            write!(self.writer, "{value:?}")
+        }
+    }
 }
 
 impl<W> ser::Serializer for &mut YamSerializer<W>
@@ -341,23 +357,11 @@ where
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(v)
     }
 
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(v)
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From d7b9b23cd9fe5103b869d0f65392382bfc3c510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 58/62] fix: 32-bit floats are rounded once when deserializing

---
 yam-serde/src/de.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 0afdcc3..271f7bb 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -198,6 +198,22 @@ where
         self.deserialize_any(visitor)
     }
 
+    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        // What `YamlScalar` holds is rounded already and must not be rounded again.
+        if let Some(YamEvent::Scalar(scalar)) = self.peek_node()
+            && let Some(YamlScalar::FloatingPoint(_)) =
+                YamlScalar::parse_from_scalar(scalar.clone())
+            && let Ok(x) = scalar.value.parse::<f32>()
+        {
+            self.peeked = None;
+            return visitor.visit_f32(x);
+        }
+        self.deserialize_any(visitor)
+    }
+
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
@@ -223,7 +239,7 @@ where
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f32 f64 char str string
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f64 char str string
         bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
-- 
2.43.0


From 9dc11e35ce30744ed23790b28c5f490aa61aaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 59/62] fix: comment reporting adds comments and changes
 nothing else

With the comment feature, comments were tokens that the parser met in
places it did not expect: texts were rejected or read differently, and
most comments were not reported. They are now kept aside by the scanner
and reported by the parser in front of the event that follows them.
---
 yam-core/src/parsing/parser.rs      | 107 +++++++++-------------------
 yam-core/src/parsing/parser_iter.rs |  15 +++-
 yam-core/src/parsing/scanner.rs     |  83 +++++++++++----------
 3 files changed, 93 insertions(+), 112 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 9b4ec46..d115d9b 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -266,6 +266,9 @@ pub struct Parser<'input, T: Source> {
     token: Option<Token<'input>>,
     /// The next YAML event to emit.
     current: Option<(Event<'input>, Span)>,
+    /// What follows the comments that are yet to be emitted.
+    #[cfg(feature = "comment")]
+    after_comments: Option<ParseResult<'input>>,
     /// Anchors that have been encountered in the YAML document.
     anchors: BTreeMap<Cow<'input, str>, usize>,
     /// Next ID available for an anchor.
@@ -416,6 +419,8 @@ impl<'input, T: Source> Parser<'input, T> {
             state: State::StreamStart,
             token: None,
             current: None,
+            #[cfg(feature = "comment")]
+            after_comments: None,
 
             anchors: BTreeMap::new(),
             // valid anchor_id starts from 1
@@ -528,7 +533,10 @@ impl<'input, T: Source> Parser<'input, T> {
         }
         match self.current.take() {
             None => {
+                #[cfg(not(feature = "comment"))]
                 let res = self.parse();
+                #[cfg(feature = "comment")]
+                let res = self.parse_or_comment();
                 if let Err(e) = &res {
                     self.error = Some(e.clone());
                 }
@@ -611,6 +619,32 @@ impl<'input, T: Source> Parser<'input, T> {
         self.states.push(state);
     }
 
+    /// Parse the next event, or take the next comment if it stands before that event.
+    #[cfg(feature = "comment")]
+    fn parse_or_comment<'a>(&mut self) -> ParseResult<'a>
+    where
+        'input: 'a,
+    {
+        let next = match self.after_comments.take() {
+            Some(next) => next,
+            None => self.parse(),
+        };
+        let pos = match &next {
+            Ok((_, span)) => span.start.pos,
+            Err(_) => usize::MAX,
+        };
+        match self.scanner.take_comment_before(pos) {
+            Some(Token {
+                span,
+                token_type: TokenType::Comment(comment),
+            }) => {
+                self.after_comments = Some(next);
+                Ok((Event::Comment(comment), span))
+            }
+            _ => next,
+        }
+    }
+
     fn parse<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
@@ -737,11 +771,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::StreamEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type:
                     TokenType::VersionDirective { .. }
@@ -766,22 +795,6 @@ impl<'input, T: Source> Parser<'input, T> {
         }
     }
 
-    #[cfg(feature = "comment")]
-    fn extract_comment<'a>(&mut self) -> ParseResult<'a>
-    where
-        'input: 'a,
-    {
-        if let Token {
-            span,
-            token_type: TokenType::Comment(comment),
-        } = self.fetch_token()
-        {
-            Ok((Event::Comment(comment), span))
-        } else {
-            unreachable!()
-        }
-    }
-
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
         // Directives of this document.
@@ -1012,11 +1025,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.state = State::IndentlessSequenceEntry;
                 Ok((Event::SequenceStart(anchor_id, tag), span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(_),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type: TokenType::Scalar { .. },
                 ..
@@ -1092,17 +1100,6 @@ impl<'input, T: Source> Parser<'input, T> {
             let _ = self.peek_token()?;
 
             self.skip();
-
-            #[cfg(feature = "comment")]
-            if let Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } = self.peek_token()?
-            {
-                // Ensure we don't skip next entry on repeat entry
-                self.state = State::BlockMappingKey;
-                return self.extract_comment();
-            }
         }
         match *self.peek_token()? {
             Token {
@@ -1139,11 +1136,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::MappingEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token { span, .. } => Err(YamlError::new_str(
                 span.start,
                 "while parsing a block mapping, did not find expected key",
@@ -1171,16 +1163,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 // empty scalar
                 Ok((Event::empty_scalar(), span))
             } else {
-                #[cfg(feature = "comment")]
-                if let Token {
-                    token_type: TokenType::Comment(_),
-                    ..
-                } = *self.peek_token()?
-                {
-                    self.state = State::BlockMappingValueCont;
-                    return self.extract_comment();
-                }
-
                 self.push_state(State::BlockMappingKey);
                 self.parse_node(true, true)
             }
@@ -1237,16 +1219,6 @@ impl<'input, T: Source> Parser<'input, T> {
                             self.state = State::FlowMappingValue;
                             return Ok((Event::empty_scalar(), span));
                         }
-                        #[cfg(feature = "comment")]
-                        if let Token {
-                            token_type: TokenType::Comment(_),
-                            ..
-                        } = *self.peek_token()?
-                        {
-                            self.state = State::FlowMappingFirstKeyCont;
-                            return self.extract_comment();
-                        }
-
                         self.push_state(State::FlowMappingValue);
                         return self.parse_node(false, false);
                     } else if let Token {
@@ -1428,17 +1400,6 @@ impl<'input, T: Source> Parser<'input, T> {
                     self.state = State::BlockSequenceEntry;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    #[cfg(feature = "comment")]
-                    if let Token {
-                        token_type: TokenType::Comment(..),
-                        ..
-                    } = self.peek_token()?
-                    {
-                        self.push_state(State::BlockSequenceEntry);
-                        self.state = State::BlockNode;
-                        return self.extract_comment();
-                    }
-
                     self.push_state(State::BlockSequenceEntry);
                     self.parse_node(true, false)
                 }
diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index 1cc50f8..3941eef 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -122,9 +122,18 @@ where
     }
 }
 impl<'de, R: Source> ParserIter<'de, R> {
+    fn next_but_comments(&mut self) -> Result<Event<'de>, YamlError> {
+        loop {
+            let ev = self.parser.next_event_impl()?.0;
+            if !matches!(ev, Event::Comment(_)) {
+                return Ok(ev);
+            }
+        }
+    }
+
     pub(crate) fn process_start(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_but_comments()?;
         if ev != Event::StreamStart {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -132,7 +141,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
             });
         }
         // Expect a <doc-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_but_comments()?;
         if !ev.is_doc_start() {
             return Err(YamlError::UnExpectedEvent {
                 expected: "DocStart",
@@ -185,7 +194,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
 
     pub(crate) fn finish_document(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-end>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_but_comments()?;
         if ev != Event::StreamEnd {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamEnd",
diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8b39d75..f72c104 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -100,6 +100,9 @@ pub struct Scanner<'input, S> {
     src: S,
     pub(crate) mark: Marker,
     tokens: VecDeque<Token<'input>>,
+    /// Comments read so far that have not been taken yet.
+    #[cfg(feature = "comment")]
+    comments: VecDeque<Token<'input>>,
     pub(crate) error: Option<YamlError>,
 
     simple_keys: Vec<SimpleKey>,
@@ -136,6 +139,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 line: 1,
             },
             tokens: VecDeque::new(),
+            #[cfg(feature = "comment")]
+            comments: VecDeque::new(),
             implicit_flow_mapping_states: Vec::new(),
             error: None,
             simple_keys: Vec::new(),
@@ -570,7 +575,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn skip_yaml_whitespace(&mut self) -> ScanResult {
         let mut need_whitespace = true;
         loop {
@@ -588,19 +592,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                     }
                     need_whitespace = false;
                 }
-                b'#' => {
-                    #[cfg(feature = "comment")]
-                    {
-                        let token = self.scan_comment();
-                        self.tokens.push_back(token);
-                    }
-                    #[cfg(not(feature = "comment"))]
-                    {
-                        let comment_length = self.src.skip_while_non_breakz();
-                        self.mark.pos += comment_length;
-                        self.mark.col += comment_length as u32;
-                    }
-                }
+                b'#' => self.skip_comment(),
                 b'\t' => {
                     // A tab may separate the indicator from its content. Whether that content may
                     // be a compact collection is decided in `skip_to_next_token`.
@@ -822,9 +814,39 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.mark.col += n_bytes;
         self.mark.pos += n_bytes as usize;
+        #[cfg(feature = "comment")]
+        if result.is_ok() && self.src.peekz(0) == b'#' {
+            self.skip_comment();
+        }
         result.map_err(|message| YamlError::new_str(self.mark, message))
     }
 
+    /// Skip the comment that starts here, up to the end of the line.
+    #[cfg(not(feature = "comment"))]
+    #[allow(clippy::cast_possible_truncation)]
+    fn skip_comment(&mut self) {
+        let comment_length = self.src.skip_while_non_breakz();
+        self.mark.pos += comment_length;
+        self.mark.col += comment_length as u32;
+    }
+
+    /// Skip the comment that starts here, up to the end of the line, and keep it to be reported.
+    #[cfg(feature = "comment")]
+    fn skip_comment(&mut self) {
+        let comment = self.scan_comment();
+        self.comments.push_back(comment);
+    }
+
+    /// Take the next comment, if it starts before the given position.
+    #[cfg(feature = "comment")]
+    pub(crate) fn take_comment_before(&mut self, pos: usize) -> Option<Token<'input>> {
+        if self.comments.front()?.span.start.pos < pos {
+            self.comments.pop_front()
+        } else {
+            None
+        }
+    }
+
     #[inline]
     fn skip_linebreak(&mut self) {
         let c = self.src.peekz(0);
@@ -870,7 +892,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         !self.indents.is_empty()
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn skip_to_next_token(&mut self) -> ScanResult {
         loop {
             match self.src.peekz(0) {
@@ -909,11 +930,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.simple_key_allowed = true;
                     }
                 }
-                b'#' => {
-                    let comment_length = self.src.skip_while_non_breakz();
-                    self.mark.pos += comment_length;
-                    self.mark.col += comment_length as u32;
-                }
+                b'#' => self.skip_comment(),
                 0xEF if self.document_prefix
                     && self.mark.col == 1
                     && [self.src.peekz(1), self.src.peekz(2)] == [0xBB, 0xBF] =>
@@ -928,7 +945,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
     fn scan_directive(&mut self) -> YamlResult<Token<'input>> {
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -939,10 +955,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             b"TAG" => self.scan_tag_directive_value(&start_mark)?,
             // Reserved directives are ignored, at most they deserve a warning.
             _ => {
-                // skip current line
-                let line_len = self.src.skip_while_non_breakz();
-                self.mark.pos += line_len;
-                self.mark.col += line_len as u32;
+                // skip the parameters, up to a comment
+                while !is_breakz(self.src.peekz(0))
+                    && !(is_blank(self.src.peekz(0)) && self.src.next_next_byte_is(b'#'))
+                {
+                    self.skip_blank();
+                }
                 Token {
                     span: Span::new(start_mark, self.mark),
                     token_type: TokenType::ReservedDirective,
@@ -1253,11 +1271,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             b':' if self.flow_level == 0 && start_mark.line == self.mark.line => {}
             // Inside a flow context, this is allowed.
             b':' if self.flow_level > 0 => {}
-            #[cfg(feature = "comment")]
-            b'#' => {
-                let comment = self.scan_comment();
-                self.tokens.push_back(comment);
-            }
             _ => {
                 return Err(YamlError::new_str(
                     self.mark,
@@ -1342,11 +1355,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        #[cfg(feature = "comment")]
-        if self.src.peekz(0) == b'#' {
-            let comment = self.scan_comment();
-            self.tokens.push_back(comment);
-        }
 
         // Check if we are at the end of the line.
         if !is_breakz(self.src.peekz(0)) {
@@ -2245,7 +2253,10 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn scan_comment(&mut self) -> Token<'input> {
         let start = self.mark;
         let mut string = Vec::with_capacity(100);
-        self.src.skip_and_accumulate_to_eol(&mut string);
+        while !is_breakz(self.src.peekz(0)) {
+            string.push(self.src.peekz(0));
+            self.src.skip(1);
+        }
         self.mark.pos += string.len();
         self.mark.col += string.len() as u32;
 
-- 
2.43.0


From 299ae67f2293951a6b747b8185c4a07a25be7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 60/62] fix: limit the number of nodes that anchors and aliases
 repeat in a loaded tree

Copies of copies grow exponentially with the text, so a text of a few lines
exhausted the memory.
---
 yam-core/src/prelude/loader.rs | 129 ++++++++++++++++++++++++---------
 1 file changed, 93 insertions(+), 36 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 623f43b..e6102f7 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -20,7 +20,9 @@ use core::marker::PhantomData;
 ///
 /// # Limits
 /// Collections nested deeper than 1024 levels, counting those an alias stands for, are reported as
-/// an error.
+/// an error, and so are texts of which more nodes would be repeated, because of anchors and aliases,
+/// than 1 000 000 and another 10 for each byte read. Each 64 bytes of a scalar or of a tag count as
+/// another node.
 ///
 /// # Usage
 /// This struct is intended to be used as an entry point for converting input into
@@ -42,32 +44,63 @@ where
     doc_stack: Vec<OpenNode<'input, Node>>,
     /// Key read so far in each open mapping, waiting for its value.
     key_stack: Vec<Option<Node>>,
-    /// Nodes that have an anchor, with their depth.
-    anchor_map: BTreeMap<usize, (Node, usize)>,
-    /// Where the nesting exceeded [`MAX_DEPTH`].
-    too_deep: Option<Marker>,
+    /// Nodes that have an anchor, with their extent.
+    anchor_map: BTreeMap<usize, (Node, Extent)>,
+    /// Number of nodes copied for anchors and aliases.
+    copied: usize,
+    /// The limit that was exceeded.
+    exceeded: Option<YamlError>,
 }
 
 /// Deepest nesting of collections in a loaded tree. Dropping, cloning or comparing a tree recurses
 /// on its depth, so an unlimited one would overflow the stack.
 const MAX_DEPTH: usize = 1024;
 
+/// Most nodes copied for anchors and aliases, whatever the size of the text. Copies of copies grow
+/// exponentially with the text, so an unlimited number would exhaust the memory.
+const MAX_COPIED: usize = 1_000_000;
+
+/// Most nodes copied for anchors and aliases for each byte of the text, on top of [`MAX_COPIED`].
+const MAX_COPIED_PER_BYTE: usize = 10;
+
+/// The extent of a node: its depth and the number of nodes it consists of.
+#[derive(Clone, Copy)]
+struct Extent {
+    depth: usize,
+    nodes: usize,
+}
+
+impl Extent {
+    /// A node without content. Long texts count as several nodes, as they are copied as well.
+    fn of(text: &str, tag: Option<&Cow<'_, Tag>>) -> Self {
+        let tag = tag.map_or(0, |tag| tag.handle.len() + tag.suffix.len());
+        Extent {
+            depth: 0,
+            nodes: 1 + (text.len() + tag) / 64,
+        }
+    }
+}
+
 /// A node being loaded: a collection not closed yet, or the root of a document.
 struct OpenNode<'input, Node> {
     node: Node,
     anchor_id: usize,
     tag: Option<Cow<'input, Tag>>,
-    /// Depth of its content so far.
-    depth: usize,
+    /// Its extent so far.
+    extent: Extent,
 }
 
 impl<'input, Node> OpenNode<'input, Node> {
-    fn new(node: Node, anchor_id: usize, tag: Option<Cow<'input, Tag>>, depth: usize) -> Self {
+    fn new(node: Node, anchor_id: usize, tag: Option<Cow<'input, Tag>>) -> Self {
+        let extent = Extent {
+            depth: 1,
+            ..Extent::of("", tag.as_ref())
+        };
         OpenNode {
             node,
             anchor_id,
             tag,
-            depth,
+            extent,
         }
     }
 }
@@ -82,7 +115,8 @@ where
             doc_stack: Vec::new(),
             key_stack: Vec::new(),
             anchor_map: BTreeMap::new(),
-            too_deep: None,
+            copied: 0,
+            exceeded: None,
         }
     }
 }
@@ -151,26 +185,42 @@ where
         self.docs
     }
 
-    fn check_depth(&self) -> Result<(), YamlError> {
-        match self.too_deep {
-            Some(mark) => Err(YamlError::new_str(mark, "recursion limit exceeded")),
+    fn check_limits(&mut self) -> Result<(), YamlError> {
+        match self.exceeded.take() {
+            Some(err) => Err(err),
             None => Ok(()),
         }
     }
 
-    pub(crate) fn insert_new_node(
+    /// Whether a node that is read at the given place may be copied.
+    fn may_copy(&mut self, extent: Extent, mark: Marker) -> bool {
+        self.copied = self.copied.saturating_add(extent.nodes);
+        let ok =
+            self.copied <= MAX_COPIED.saturating_add(MAX_COPIED_PER_BYTE.saturating_mul(mark.pos));
+        if !ok {
+            self.exceeded = Some(YamlError::new_str(mark, "repetition limit exceeded"));
+        }
+        ok
+    }
+
+    fn insert_new_node(
         &mut self,
         mut node: Node,
         anchor_id: usize,
         tag: Option<Cow<'input, Tag>>,
-        depth: usize,
+        extent: Extent,
+        mark: Marker,
     ) {
         if anchor_id > 0 {
-            self.anchor_map.insert(anchor_id, (node.clone(), depth));
+            if !self.may_copy(extent, mark) {
+                return;
+            }
+            self.anchor_map.insert(anchor_id, (node.clone(), extent));
         }
         if let Some(parent) = self.doc_stack.last_mut() {
             let parent_node = &mut parent.node;
-            parent.depth = parent.depth.max(depth);
+            parent.extent.depth = parent.extent.depth.max(extent.depth + 1);
+            parent.extent.nodes += extent.nodes;
             if let Some(tag) = tag
                 && node.is_collection()
                 && !tag.is_yaml_core_schema()
@@ -189,8 +239,7 @@ where
                 }
             }
         } else {
-            self.doc_stack
-                .push(OpenNode::new(node, anchor_id, tag, depth));
+            self.doc_stack.push(OpenNode::new(node, anchor_id, tag));
         }
     }
 
@@ -230,7 +279,7 @@ where
     ) -> Result<Vec<Node>, YamlError> {
         let mut loader = YamlLoader::default();
         parser.load(&mut loader, true)?;
-        loader.check_depth()?;
+        loader.check_limits()?;
         Ok(loader.into_documents())
     }
 
@@ -278,7 +327,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(StrSource::new(input.as_ref()));
         parser.load(&mut event_listener, true)?;
-        event_listener.check_depth()?;
+        event_listener.check_limits()?;
         Ok(event_listener.docs)
     }
 
@@ -328,7 +377,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(StrSource::new(input.as_ref()));
         parser.load(&mut event_listener, false)?;
-        event_listener.check_depth()?;
+        event_listener.check_limits()?;
         event_listener
             .docs
             .first()
@@ -379,7 +428,7 @@ where
     ) -> Result<Node, YamlError> {
         let mut event_listener = YamlLoader::default();
         parser.load(&mut event_listener, false)?;
-        event_listener.check_depth()?;
+        event_listener.check_limits()?;
         event_listener
             .docs
             .first()
@@ -431,7 +480,7 @@ where
         let mut event_listener = YamlLoader::default();
         let mut parser = parsing::Parser::new(input);
         parser.load(&mut event_listener, false)?;
-        event_listener.check_depth()?;
+        event_listener.check_limits()?;
         event_listener
             .docs
             .first()
@@ -450,13 +499,13 @@ where
 {
     fn on_event(&mut self, ev: Event<'input>, span: Span) {
         let mark = span.start;
-        if self.too_deep.is_some() {
+        if self.exceeded.is_some() {
             return;
         }
         if matches!(ev, Event::SequenceStart(..) | Event::MappingStart(..))
             && self.doc_stack.len() >= MAX_DEPTH
         {
-            self.too_deep = Some(mark);
+            self.exceeded = Some(YamlError::new_str(mark, "recursion limit exceeded"));
             return;
         }
         match ev {
@@ -479,12 +528,12 @@ where
                 let node: Node = YamlData::Sequence(Vec::new()).into();
 
                 self.doc_stack
-                    .push(OpenNode::new(node.with_start(mark), aid, tag, 0));
+                    .push(OpenNode::new(node.with_start(mark), aid, tag));
             }
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack
-                    .push(OpenNode::new(node.with_start(mark), aid, tag, 0));
+                    .push(OpenNode::new(node.with_start(mark), aid, tag));
                 self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
@@ -499,7 +548,7 @@ where
                 {
                     node = node.into_tagged(tag);
                 }
-                self.insert_new_node(node, open.anchor_id, None, open.depth + 1);
+                self.insert_new_node(node, open.anchor_id, None, open.extent, mark);
             }
             Event::Scalar(ScalarValue {
                 value,
@@ -507,20 +556,28 @@ where
                 anchor_id,
                 tag,
             }) => {
+                let extent = Extent::of(&value, tag.as_ref());
                 let node =
                     YamlData::value_from_cow_and_metadata(value, scalar_type, tag.as_ref()).into();
-                self.insert_new_node(node, anchor_id, tag, 0);
+                self.insert_new_node(node, anchor_id, tag, extent, mark);
             }
             Event::Alias(id) => {
-                let (n, depth) = match self.anchor_map.get(&id) {
-                    Some((_, depth)) if self.doc_stack.len() + depth > MAX_DEPTH => {
-                        self.too_deep = Some(mark);
+                let extent = match self.anchor_map.get(&id) {
+                    Some((_, extent)) if self.doc_stack.len() + extent.depth > MAX_DEPTH => {
+                        self.exceeded = Some(YamlError::new_str(mark, "recursion limit exceeded"));
                         return;
                     }
-                    Some(v) => v.clone(),
-                    None => (YamlData::BadValue.into(), 0),
+                    Some((_, extent)) => *extent,
+                    None => Extent::of("", None),
+                };
+                if !self.may_copy(extent, mark) {
+                    return;
+                }
+                let n = match self.anchor_map.get(&id) {
+                    Some((node, _)) => node.clone(),
+                    None => YamlData::BadValue.into(),
                 };
-                self.insert_new_node(n.with_span(span), 0, None, depth);
+                self.insert_new_node(n.with_span(span), 0, None, extent, mark);
             }
         }
     }
-- 
2.43.0


From f70d2238c55d9807d1a4e2557ac18d499c395c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 61/62] fix: reading nested flow collections took time
 quadratic in their depth

Every token looked through the simple keys of all open flow collections,
so that a hundred kilobytes of brackets took a quarter of a minute. Keys do
not become stale within flow collections, and they are in the order of their
tokens.
---
 yam-core/src/parsing/scanner.rs | 37 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f72c104..050be1d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -220,14 +220,15 @@ impl<'input, S: Source> Scanner<'input, S> {
             if self.tokens.is_empty() {
                 need_more = true;
             } else {
-                need_more = false;
                 self.stale_simple_keys()?;
-                for sk in &self.simple_keys {
-                    if sk.possible && sk.token_number == self.tokens_parsed {
-                        need_more = true;
-                        break;
-                    }
-                }
+                // The keys are in the order of their tokens: look only at those of the next token.
+                let first = self
+                    .simple_keys
+                    .partition_point(|sk| sk.token_number < self.tokens_parsed);
+                need_more = self.simple_keys[first..]
+                    .iter()
+                    .take_while(|sk| sk.token_number == self.tokens_parsed)
+                    .any(|sk| sk.possible);
             }
 
             if !need_more {
@@ -1965,11 +1966,14 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn increase_flow_level(&mut self) -> ScanResult {
-        self.simple_keys.push(SimpleKey::new(Marker {
-            pos: 0,
-            col: 0,
-            line: 0,
-        }));
+        self.simple_keys.push(SimpleKey {
+            token_number: self.tokens_parsed + self.tokens.len(),
+            ..SimpleKey::new(Marker {
+                pos: 0,
+                col: 0,
+                line: 0,
+            })
+        });
         self.flow_level = self
             .flow_level
             .checked_add(1)
@@ -1990,12 +1994,15 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn stale_simple_keys(&mut self) -> ScanResult {
+        // In a flow construct, simple keys do not become stale.
+        if self.flow_level > 0 {
+            return Ok(());
+        }
         let chars = self.chars();
         for sk in &mut self.simple_keys {
+            // If not in a flow construct, simple keys cannot span multiple lines.
             if sk.possible
-                // If not in a flow construct, simple keys cannot span multiple lines.
-                && self.flow_level == 0
-                    && (sk.mark.line < self.mark.line || sk.chars + MAX_SIMPLE_KEY_LEN < chars)
+                && (sk.mark.line < self.mark.line || sk.chars + MAX_SIMPLE_KEY_LEN < chars)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
-- 
2.43.0


From 12678490550ea19da5408b537cf63f19dab24964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 62/62] fix: scalars of a loaded tree are given their positions

---
 yam-core/src/prelude/loader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index e6102f7..f3b21be 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -557,9 +557,9 @@ where
                 tag,
             }) => {
                 let extent = Extent::of(&value, tag.as_ref());
-                let node =
+                let node: Node =
                     YamlData::value_from_cow_and_metadata(value, scalar_type, tag.as_ref()).into();
-                self.insert_new_node(node, anchor_id, tag, extent, mark);
+                self.insert_new_node(node.with_span(span), anchor_id, tag, extent, mark);
             }
             Event::Alias(id) => {
                 let extent = match self.anchor_map.get(&id) {
-- 
2.43.0

