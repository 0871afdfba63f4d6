From 6310d5db311ffd6e67b56ead098dc177166f8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 01/15] fix: reject an empty fragment in absolute-URI and
 absolute-IRI

`http://a/#` was accepted as `absolute-IRI`, though the rule has no
fragment part; the query accessor of such a value then panicked (debug)
or returned a wrong string.
---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..1b16d01 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((maybe_query, maybe_fragment)) => (maybe_query, Some(maybe_fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // Even an empty fragment is a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(maybe_fragment) => validate_fragment::<S>(maybe_fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 6248833b62246b5df54b42a6cafc82fc53082531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 02/15] fix: keep stray percent characters when
 percent-decoding bytes

---
 src/percent_encode/decode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..a0848c6 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,8 +92,10 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            // `rest` does not necessarily start at the beginning of the entire
+            // input, since stray percent characters can be skipped.
+            let len_before_pct = self.not_yet_decoded.len() - rest.len() + pct_pos;
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
@@ -167,7 +168,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // Leave the stray percent character as is.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From b6413e4deb6b58273d18ed42c2a587c21ecd546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 03/15] fix: handle non-ASCII characters and split triplets in
 partially percent-encoded strings

---
 src/parser/str/maybe_pct_encoded.rs | 157 +++++++++++++++-------------
 1 file changed, 85 insertions(+), 72 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..478fc3c 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -100,6 +100,24 @@ where
         Ok(())
     }
 
+    /// Calls the output functions with the result of the decoder.
+    fn output_push_result(&mut self, result: PushResult) -> fmt::Result {
+        match result {
+            PushResult::Decoded(len_written, c) => {
+                let len_written = usize::from(len_written.get());
+                let frag = core::str::from_utf8(&self.buf[..len_written])
+                    .expect("`DecoderBuffer` writes a valid ASCII string");
+                self.result = (self.f)(PctEncodedFragments::Char(frag, c));
+                self.result_continue_or_err()
+            }
+            PushResult::Undecodable(0) | PushResult::NeedMoreBytes => {
+                // Nothing to write at this time.
+                Ok(())
+            }
+            PushResult::Undecodable(len_written) => self.output_as_undecodable(len_written),
+        }
+    }
+
     /// Calls the output functions with the undecodable fragments.
     fn output_as_undecodable(&mut self, len_undecodable: u8) -> fmt::Result {
         let len_written = usize::from(len_undecodable);
@@ -142,43 +160,26 @@ where
         let mut rest = s;
         while !rest.is_empty() {
             let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
+            rest = &rest[len_consumed..];
 
-                // Write plain string prefix (if found).
-                let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
-                debug_assert!(
-                    !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
-                );
-                self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
-                self.result_continue_or_err()?;
-                rest = suffix;
-                continue;
+            // Process decoding result.
+            self.output_push_result(result)?;
+            if !matches!(result, PushResult::NeedMoreBytes) {
+                // Popping some bytes can leave another complete triplet.
+                while let Some(result) = self.decoder.decode_buffered(self.buf) {
+                    self.output_push_result(result)?;
+                }
             }
 
-            // Process decoding result.
-            match result {
-                PushResult::Decoded(len_written, c) => {
-                    let len_written = usize::from(len_written.get());
-                    let frag = core::str::from_utf8(&self.buf[..len_written])
-                        .expect("`DecoderBuffer` writes a valid ASCII string");
-                    self.result = (self.f)(PctEncodedFragments::Char(frag, c));
+            // Write plain string prefix (if found).
+            if self.decoder.is_empty() {
+                let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
+                if !plain_prefix.is_empty() {
+                    self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
                     self.result_continue_or_err()?;
                 }
-                PushResult::Undecodable(len_written) => {
-                    self.output_as_undecodable(len_written)?;
-                }
-                PushResult::NeedMoreBytes => {
-                    // Nothing to write at this time.
-                }
+                rest = suffix;
             }
-            rest = &rest[len_consumed..];
         }
         Ok(())
     }
@@ -215,6 +216,13 @@ struct DecoderBuffer {
 }
 
 impl DecoderBuffer {
+    /// Returns true if no bytes are buffered.
+    #[inline]
+    #[must_use]
+    fn is_empty(&self) -> bool {
+        self.len_encoded == 0
+    }
+
     /// Writes the data of the given length to the destination, and remove that part from buffer.
     fn write_and_pop(&mut self, dest: &mut [u8], remove_len: u8) {
         let new_len = self.len_encoded - remove_len;
@@ -275,8 +283,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +297,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
@@ -305,49 +313,54 @@ impl DecoderBuffer {
                 len_triplet_incomplete = 0;
             }
 
-            // Now a new percent-encoded triplet is read.
             // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            if let Some(result) = self.decode_buffered(buf) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
     }
 
+    /// Attempts to decode the buffered triplets, and pops the processed ones.
+    ///
+    /// Returns `None` if the buffer is empty or incomplete and more bytes are needed.
+    #[must_use]
+    fn decode_buffered(&mut self, buf: &mut [u8]) -> Option<PushResult> {
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        if len_decoded == 0 || self.len_encoded % 3 != 0 {
+            return None;
+        }
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded.
+                let c = decoded_str
+                    .chars()
+                    .next()
+                    .expect("`decoded` buffer is nonempty");
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("`encoded` buffer contains one or more triplets");
+                self.write_and_pop(buf, len_result.get());
+                Some(PushResult::Decoded(len_result, c))
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                // `None` indicates unexpected EOF. Wait for remaining input in that case.
+                let skip_len_decoded = e.error_len()?;
+                let len_result = skip_len_decoded as u8 * 3;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                self.write_and_pop(buf, len_result);
+                Some(PushResult::Undecodable(len_result))
+            }
+        }
+    }
+
     /// Writes the incomplete data completely to the destination, and clears the internal buffer.
     #[must_use]
     pub(crate) fn flush(&mut self, buf: &mut [u8]) -> Option<NonZeroU8> {
-- 
2.43.0


From 05fbc95fcbde4dc9c35d8051594e4eb6d4f2b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 04/15] fix: count characters, not bytes, for the prefix
 modifier of URI templates

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From 69d4331ffea028a17e7009f2fbe70bd4b7f789dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 05/15] fix: reject invalid prefix lengths and dots in variable
 names of URI templates

---
 src/template/parser/validate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..d5b3875 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,7 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
@@ -62,7 +62,8 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
     let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
-    if !is_valid {
+    // A dot should be followed by a `varchar`.
+    if !is_valid || rest.ends_with('.') || rest.contains("..") {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
     Ok(())
-- 
2.43.0


From c97b1e0c84c3cd0e46009836ad2186fbbfe93e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 06/15] fix: do not panic on non-ASCII characters after a
 percent sign in URI templates

---
 src/template/parser/validate.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index d5b3875..63ccb51 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -113,26 +113,26 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
             Some((literal, b'%', xdigits2_and_rest)) => {
                 validate_literal(literal, offset)?;
 
-                if xdigits2_and_rest.len() < 2 {
+                let maybe_xdigits2 = xdigits2_and_rest.as_bytes();
+                if maybe_xdigits2.len() < 2 {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                if !maybe_xdigits2[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !maybe_xdigits2[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From cea599cf7414d8a889811e6f9826db439e189b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 07/15] fix: do not percent-encode variable names again in URI
 template expansion

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..9b75ccf 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -783,11 +783,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -870,11 +868,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From 8d981942555f4f3a129cf116671aa611902602b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 08/15] fix: apply the empty-value rule of URI templates to
 exploded members

---
 src/template/expand.rs | 47 +++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 9b75ccf..5f9bdc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -508,6 +508,27 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Escapes the member value of an exploded variable and writes it after the name.
+///
+/// If the expression is "named" and the value is empty, writes `ifemp` instead
+/// of `=` and the value.
+fn escape_write_exploded_value<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    if !oppr.named {
+        f.write_char('=')?;
+        return escape_write::<S, _, _>(f, v, oppr.allow_reserved);
+    }
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, _, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// A writer that truncates the input to the given length and writes to the backend.
 struct TruncatePercentEncodeWriter<'a, S, W> {
     /// Inner writer.
@@ -774,7 +795,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -786,12 +809,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if is_explode && self.oppr.named {
+            escape_write_exploded_value::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -865,7 +891,6 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -884,20 +909,18 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
                     self.visitor.writer.write_char(',')?;
                 }
-                (false, true) => {
+                (_, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
-                }
-                (true, true) => {
-                    self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if is_explode {
+            escape_write_exploded_value::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From 8ab2197d298f3eb1e81b1bad261833aad89dc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 09/15] fix: validate characters of the path passed to the
 builder

---
 src/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..93f33ca 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1362,6 +1362,7 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
     if !is_path_acceptable {
         return Err(Error::with_kind(ErrorKind::InvalidPath));
     }
+    parser::validate_path::<S>(builder.path)?;
 
     if let Some(query) = builder.query {
         parser::validate_query::<S>(query)?;
-- 
2.43.0


From 67d6be696decb5f1e7f5575983ed8e2494517434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 10/15] fix: do not treat userinfo without a colon as having a
 password

---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..8416123 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // No password is available if the separator colon is missing.
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From b0f0a134cc3e649ddd4b1d7f4c5dcbea805af27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 11/15] fix: treat an IRI with an empty port as not normalized

---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..640375b 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -384,6 +384,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
                 return false;
             }
         }
+
+        // Check `port`. The separator colon should be omitted if the port is empty.
+        if authority_components.port() == Some("") {
+            return false;
+        }
     }
 
     // Check `path`.
-- 
2.43.0


From 802c8cb43547c3b8b593793248bf51dfa6036ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 12/15] fix: do not reject a fragment in the sanity check when
 replacing the host of an IRI

---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From a05b6da51c6b8307be8dc0da42536572384324e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 13/15] fix: regard a path normalized to the root as absolute
 in the builder

---
 src/normalize/path.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..1d6f79d 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,8 +582,16 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
-            // Empty path.
-            Ok(_) => PathCharacteristic::CommonRelative,
+            // The path is completely written but not yet characterized.
+            Ok(_) => {
+                if writer.is_absolute == Some(true) {
+                    // Root path (`/`).
+                    PathCharacteristic::CommonAbsolute
+                } else {
+                    // Empty path, or a single segment without colons.
+                    PathCharacteristic::CommonRelative
+                }
+            }
             Err(_) => writer
                 .result
                 .expect("the formatting quits early by `Err` when the check is done"),
-- 
2.43.0


From d9d8cf4ad1c56bac7a65fbf51cdb36ed73c2c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 14/15] fix: validate the path before its normalization in the
 builder

---
 src/build.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 93f33ca..ab0eea2 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,10 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    // The characters should be validated before the normalization, since the
+    // normalization assumes the percent-encoded triplets are well-formed.
+    parser::validate_path::<S>(builder.path)?;
+
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
@@ -1362,7 +1366,6 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
     if !is_path_acceptable {
         return Err(Error::with_kind(ErrorKind::InvalidPath));
     }
-    parser::validate_path::<S>(builder.path)?;
 
     if let Some(query) = builder.query {
         parser::validate_query::<S>(query)?;
-- 
2.43.0


From 53b5ad0bd3468aa2233f6ef9da69f8cef2e0eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 15/15] fix: tell the password from the user in the debug form
 of a builder userinfo

---
 src/build.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index ab0eea2..865347c 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -14,7 +14,7 @@ use crate::format::Censored;
 #[cfg(feature = "alloc")]
 use crate::format::{ToDedicatedString, ToStringFallible};
 use crate::normalize::{self, NormalizationMode, PathCharacteristic, PctCaseNormalized};
-use crate::parser::str::{find_split, prior_byte2};
+use crate::parser::str::{find_split_hole, prior_byte2};
 use crate::parser::trusted as trusted_parser;
 use crate::parser::validate as parser;
 use crate::spec::Spec;
@@ -120,7 +120,7 @@ impl<'a> UserinfoBuilder<'a> {
     fn to_user_password(&self) -> Option<(&'a str, Option<&'a str>)> {
         match &self.0 {
             UserinfoRepr::None => None,
-            UserinfoRepr::Direct(s) => match find_split(s, b':') {
+            UserinfoRepr::Direct(s) => match find_split_hole(*s, b':') {
                 None => Some((s, None)),
                 Some((user, password)) => Some((user, Some(password))),
             },
-- 
2.43.0

