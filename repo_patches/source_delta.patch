From 78b6cbc9b37380a22ee3813c27402bbe13c37e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 01/18] fix: parse nested comments without recursion

A header with many nested comments (a few kilobytes of "(" are enough)
overflowed the stack and aborted the process.
---
 email-parser/src/parsing/whitespaces.rs | 29 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..dbf78ec 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -44,14 +44,29 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
 
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
-
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+    // Comments can be nested without limit, so we count the open ones instead of recursing.
+    let mut depth = 1usize;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
+        if let Ok((new_input, _)) = take_while1(new_input, is_ctext) {
+            input = new_input;
+        } else if let Ok((new_input, _)) = quoted_pair(new_input) {
+            input = new_input;
+        } else if new_input.starts_with(b"(") {
+            input = &new_input[1..];
+            depth += 1;
+        } else {
+            let (new_input, ()) = tag(
+                new_input,
+                b")",
+                "TAG ERROR: A comment must end with a `)`.",
+            )?;
+            input = new_input;
+            depth -= 1;
+        }
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From f5928ea33c1779e7d54237f42287bab354b9acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 02/18] fix: do not overflow on a parameter with 256 sections

When all sections from 0 to 255 are present the section counter overflowed:
a panic in debug builds.
---
 email-parser/src/parsing/mime/percent_encoding.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..7930f57 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -162,7 +162,7 @@ pub fn collect_parameters<'a>(
                 (value, None, None)
             };
 
-            let mut idx = 1;
+            let mut idx = 1u8;
             while let Some((encoded, new_value)) = values.remove(&idx) {
                 if encoded && charset.is_some() {
                     add_string(
@@ -175,7 +175,10 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
+                idx = match idx.checked_add(1) {
+                    Some(idx) => idx,
+                    None => break,
+                };
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From b8501b00a5c87f39974c9652f8de438d213ada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 03/18] fix: decode each percent escape of a parameter only
 once

A decoded byte could complete an escape on its left: "%4%31" (the text
"%41" once decoded) was decoded a second time to "A".
---
 email-parser/src/parsing/mime/percent_encoding.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 7930f57..a24571c 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -40,6 +40,8 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         }
     }
 
+    // Bytes from this index have been produced by the decoding of an escape sequence.
+    let mut last_decoded = input.len();
     for percent in percents.iter().rev() {
         fn from_hex(n: &u8) -> Option<u8> {
             match n {
@@ -50,6 +52,10 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
             }
         }
 
+        if percent + 2 >= last_decoded {
+            continue;
+        }
+
         if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
             if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
                 let n = first * 16 + second;
@@ -63,6 +69,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
                 }
                 input.remove(percent + 2);
                 input.remove(percent + 1);
+                last_decoded = *percent;
             }
         }
     }
-- 
2.43.0


From 04aa307ce17c97b153ed254c6ac3c1f18df6ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 04/18] fix: decode extended parameters that have a single
 section

RFC 2231 values such as title*=us-ascii'en'This%20is%20fun were reported
undecoded with their charset and language.
---
 email-parser/src/parsing/mime/percent_encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index a24571c..0405e9e 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -108,6 +108,8 @@ pub fn collect_parameters<'a>(
     let mut parameters: HashMap<_, _> = HashMap::new();
     let mut complex_parameters: HashMap<_, HashMap<_, _>> = HashMap::new();
     for (name, index, encoded, value) in parameters_vec {
+        // An extended parameter without continuations (`name*=`) is its own first section.
+        let index = if encoded { index.or(Some(0)) } else { index };
         if let Some(index) = index {
             if !complex_parameters.contains_key(&name) {
                 complex_parameters.insert(name.clone(), HashMap::new());
-- 
2.43.0


From e52246dab09f3ff0471860080b76be3e7d3612c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 05/18] fix: do not panic on bytes outside ISO-6937

textcode indexes its table with `byte - 0xA0` and panics on the bytes from
0x80 to 0x9F, which any message can contain.
---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 13 +++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..a415153 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,16 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// The bytes from 0x80 to 0x9F do not belong to ISO-6937 and textcode does not expect them.
+/// They are replaced by another unassigned byte (0xA6), which is decoded to U+FFFD.
+pub(crate) fn decode_iso6937(data: &[u8]) -> String {
+    let data: Vec<u8> = data
+        .iter()
+        .map(|byte| match byte {
+            0x80..=0x9F => 0xA6,
+            byte => *byte,
+        })
+        .collect();
+    textcode::iso6937::decode_to_string(&data)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 0405e9e..b726173 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -94,7 +94,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From 1602e39226c7d2fe04a6eb81ba5abdb3d29756f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 06/18] fix: accept the years between 1900 and 1990

RFC 5322 requires the year to be 1900 or later.
---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..d244628 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must not be before 1900"));
     }
 
     let (input, _) = fws(input)?;
-- 
2.43.0


From 5c29a548fecad4b50d1ed198f33da163e5df701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 07/18] fix: accept whitespace before the end of a structured
 header

"From: a@b.c \r\n" was not recognised: a run of whitespace followed by an
unfolded CRLF is not an fws, so the CRLF was never reached.
---
 email-parser/src/parsing/whitespaces.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index dbf78ec..3fbfcc3 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -73,6 +73,14 @@ pub fn comment(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
+    // Whitespaces before the end of a line that is not folded are not an fws.
+    fn fws_or_wsp(input: &[u8]) -> Res<Cow<str>> {
+        fws(input).or_else(|_| {
+            let (input, wsp) = take_while1(input, is_wsp)?;
+            Ok((input, Cow::Borrowed(wsp)))
+        })
+    }
+
     fn real_cfws(mut input: &[u8]) -> Res<Cow<str>> {
         let mut output = empty_string();
 
@@ -99,7 +107,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
             }
         }
 
-        let (input, fws) = optional(input, fws);
+        let (input, fws) = optional(input, fws_or_wsp);
         if let Some(s) = fws {
             add_string(&mut output, s);
         }
@@ -107,7 +115,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
         Ok((input, output))
     }
 
-    match_parsers(input, &mut [real_cfws, fws][..])
+    match_parsers(input, &mut [real_cfws, fws_or_wsp][..])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2e3a4fa1b08c01177e86558192290e886c2fdf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 08/18] fix: accept any comments and folds at the end of MIME
 headers

Only one comment was accepted there, without any fold:
"Content-Type: text/plain (a) (b)" was not recognised.
---
 email-parser/src/parsing/mime/mime_fields.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..d344268 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -5,13 +5,8 @@ use std::collections::HashMap;
 
 #[inline]
 fn ignore_inline_cfws(input: &[u8]) -> Res<()> {
-    triplet(
-        input,
-        |input| take_while(input, is_wsp),
-        |input| Ok(optional(input, comment)),
-        |input| take_while(input, is_wsp),
-    )
-    .map(|(i, _)| (i, ()))
+    let (input, _cfws) = optional(input, cfws);
+    Ok((input, ()))
 }
 
 #[inline]
-- 
2.43.0


From 43a48b2c724e6c895e90bec9c925fc2d1c27c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 09/18] fix: accept comments around the dot of MIME-Version

"MIME-Version: 1.(produced by MetaSend Vx.x)0" is an example of RFC 2045.
---
 email-parser/src/parsing/mime/mime_fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index d344268..1a5f2b1 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -42,11 +42,13 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     }
 
     let (input, d1) = u8_number(input)?;
+    let (input, _) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b".",
         "TAG ERROR: A MIME version's major version number must be followed by a `.`.",
     )?;
+    let (input, _) = optional(input, cfws);
     let (input, d2) = u8_number(input)?;
 
     let (input, _cwfs) = ignore_inline_cfws(input)?;
-- 
2.43.0


From 2acf265448e1181caf22f7852231fa669459579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 10/18] fix: match MIME types, encodings and dispositions as
 whole tokens

"7bitx", "textual/x" and "inlinefoo" matched by their beginning, so that the
header was then rejected instead of being reported as unknown.
---
 email-parser/src/parsing/mime/mime_fields.rs | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 1a5f2b1..8c2cc3f 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -16,6 +16,21 @@ fn token(input: &[u8]) -> Res<&str> {
     })
 }
 
+/// Matches a whole token, without regard to case.
+#[inline]
+fn keyword<'a>(
+    input: &'a [u8],
+    expected: &'static [u8],
+    expected2: &'static [u8],
+    error_message: &'static str,
+) -> Res<'a, ()> {
+    let (input, ()) = tag_no_case(input, expected, expected2, error_message)?;
+    if token(input).is_ok() {
+        return Err(Error::Unknown("The keyword is followed by other characters"));
+    }
+    Ok((input, ()))
+}
+
 pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     let (input, ()) = tag_no_case(
         input,
@@ -154,7 +169,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
         input,
         &mut [
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"text",
                     b"TEXT",
@@ -163,7 +178,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Text))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"multipart",
                     b"MULTIPART",
@@ -172,11 +187,11 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Multipart))
             },
             |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
+                keyword(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
                     .map(|(i, ())| (i, ContentType::Application))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"image",
                     b"IMAGE",
@@ -185,7 +200,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Image))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"video",
                     b"VIDEO",
@@ -194,7 +209,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Video))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"audio",
                     b"AUDIO",
@@ -203,7 +218,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Audio))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"message",
                     b"MESSAGE",
@@ -256,10 +271,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
+                keyword(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
             },
             |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
+                keyword(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
                     .map(|(i, ())| (i, DispositionType::Attachment))
             },
             |input| {
@@ -368,23 +383,23 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
+                keyword(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::SevenBit))
             },
             |input| {
-                tag_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
+                keyword(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::QuotedPrintable))
             },
             |input| {
-                tag_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
+                keyword(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Base64))
             },
             |input| {
-                tag_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
+                keyword(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::HeightBit))
             },
             |input| {
-                tag_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
+                keyword(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Binary))
             },
             |input| {
-- 
2.43.0


From 4dfab3caadbf2d48d76fd702a55644369d900327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 11/18] fix: recognise the closing boundary wherever it is a
 complete line

It was missed at the very end of the data (no CRLF follows the last line) and
directly after another boundary line, and the whole multipart was rejected.
---
 email-parser/src/parsing/mime/multipart.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..5e50cb7 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -45,13 +45,25 @@ fn before_boundary<'a, 'b>(input: &'a [u8], boundary: &'b [u8]) -> Res<'a, &'a [
 
 fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
     let full_boundary_len = 2 + 2 + boundary.len() + 2 + 2;
+    // The closing boundary is a complete line, possibly the last one of the data.
+    let is_closing_boundary = |idx: usize| {
+        input.get(idx..idx + 2) == Some(b"--")
+            && input.get(idx + 2..idx + 2 + boundary.len()) == Some(boundary)
+            && match input.get(idx + 2 + boundary.len()..) {
+                Some(end) => end == b"--" || end.starts_with(b"--\r\n"),
+                None => false,
+            }
+    };
+
+    // FIXME: ignore whitespaces after the boundary
+    if is_closing_boundary(0) {
+        return Ok((0, std::cmp::min(full_boundary_len - 2, input.len())));
+    }
+
     for idx in 0..input.len() {
         // FIXME: ignore whitespaces after the boundary
-        if input.get(idx..idx + 4) == Some(b"\r\n--")
-            && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"--\r\n")
-        {
-            return Ok((idx, full_boundary_len));
+        if input.get(idx..idx + 2) == Some(b"\r\n") && is_closing_boundary(idx + 2) {
+            return Ok((idx, std::cmp::min(full_boundary_len, input.len() - idx)));
         }
     }
 
-- 
2.43.0


From 455b95abff405c0cc448d8e5f9959988e7afb230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 12/18] fix: ignore the boundary lines of a multipart epilogue

A boundary line after the closing one was taken for the beginning of another
part, which contained the closing line and a part of the epilogue.
---
 email-parser/src/parsing/mime/multipart.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 5e50cb7..b7fe066 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -93,7 +93,14 @@ pub fn parse_multipart<'a>(
     let boundary = parameters
         .get("boundary")
         .ok_or(Error::Unknown("Missing boundary parameter"))?;
-    let (input, mut parts) = many(&input, |i| before_boundary(i, boundary.as_bytes()))?;
+    let (input, mut parts) = many(&input, |i| {
+        let (rest, part) = before_boundary(i, boundary.as_bytes())?;
+        // The boundary lines that follow the closing one belong to the epilogue.
+        match before_closing_boundary_idx(&i[..i.len() - rest.len()], boundary.as_bytes()) {
+            Ok(_) => Err(Error::Unknown("the closing boundary comes first")),
+            Err(_) => Ok((rest, part)),
+        }
+    })?;
     let (_epilogue, last_part) = before_closing_boundary(input, boundary.as_bytes())?;
     parts.push(last_part);
     parts.remove(0); // the prelude
-- 
2.43.0


From dd09ee66a093d33b68f22950c0f2f0a7ebd23665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 13/18] fix: build with every combination of features

`mime` did not build without `content-disposition`, nor `sender` without
`from` (there is then no author to infer the sender from).
---
 email-parser/src/email.rs               | 10 +++-------
 email-parser/src/parsing/mime/entity.rs |  5 +++--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/email-parser/src/email.rs b/email-parser/src/email.rs
index 164e667..7fd37f0 100644
--- a/email-parser/src/email.rs
+++ b/email-parser/src/email.rs
@@ -311,13 +311,9 @@ impl<'a> Email<'a> {
         #[cfg(feature = "sender")]
         let sender = match sender {
             Some(sender) => sender,
-            None => {
-                if from.len() == 1 {
-                    from[0].clone()
-                } else {
-                    return Err(Error::MissingHeader("Sender"));
-                }
-            }
+            #[cfg(feature = "from")]
+            None if from.len() == 1 => from[0].clone(),
+            None => return Err(Error::MissingHeader("Sender")),
         };
 
         #[cfg(feature = "mime")]
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index a2716af..528f4ee 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -13,7 +13,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         additional_headers,
         id,
         description,
-        disposition,
+        _disposition,
     ) = match input {
         Cow::Borrowed(ref mut input) => {
             let (len, r) = header_part(input)?;
@@ -34,7 +34,8 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
-        disposition,
+        #[cfg(feature = "content-disposition")]
+        disposition: _disposition,
         value,
         additional_headers,
     })
-- 
2.43.0


From d4534412425c0dd5c74eb52dcd8dc59d519b5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 14/18] fix: accept an empty Bcc header without whitespace

---
 email-parser/src/parsing/fields.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..d1caaff 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,9 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        let (input, _cfws) = optional(input, cfws);
+        (input, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From 554f968d87c03ade847208b6cedb83cffd48cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 15/18] fix: accept comments and whitespace around encoded
 words in phrases

"=?utf-8?q?a?= , b" was not a valid Keywords value, "=?utf-8?q?a?= :;" not a
valid group, and an encoded word after a comment was not decoded.
---
 email-parser/src/parsing/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index cc2544b..b971f29 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -82,8 +82,10 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             input,
             &mut [
                 (|i| {
-                    let (i, _) = optional(i, fws);
-                    crate::parsing::mime::encoded_headers::encoded_word(i)
+                    let (i, _) = optional(i, cfws);
+                    let (i, word) = crate::parsing::mime::encoded_headers::encoded_word(i)?;
+                    let (i, _) = optional(i, cfws);
+                    Ok((i, word))
                 }),
                 (|i| crate::parsing::common::word(i)),
             ][..],
-- 
2.43.0


From bb7bf30010270f5888e433fc713fcd064e3fa7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 16/18] fix: accept addresses without brackets in Received

Their local part was always taken for a word or a domain, so that the whole
field was rejected.
---
 email-parser/src/parsing/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index d1caaff..52f57f5 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -541,7 +541,9 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
         "TAG NO CASE ERROR: Header name (Received) does not match.",
     )?;
     let (input, received_tokens) = many(input, |input| {
-        if let Ok((word_input, word)) = word(input) {
+        if let Ok((input, addr)) = addr_spec(input) {
+            Ok((input, ReceivedToken::Addr(addr)))
+        } else if let Ok((word_input, word)) = word(input) {
             if let Ok((domain_input, domain)) = domain(input) {
                 if domain.len() > word.len() {
                     return Ok((domain_input, ReceivedToken::Domain(domain)));
@@ -550,8 +552,6 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Ok((word_input, ReceivedToken::Word(word)))
         } else if let Ok((input, addr)) = angle_addr(input) {
             Ok((input, ReceivedToken::Addr(addr)))
-        } else if let Ok((input, addr)) = addr_spec(input) {
-            Ok((input, ReceivedToken::Addr(addr)))
         } else if let Ok((input, domain)) = domain(input) {
             Ok((input, ReceivedToken::Domain(domain)))
         } else {
-- 
2.43.0


From a53b02ab98367e917a051d61f29ed80cc87322d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 17/18] fix: accept a Received header with only a comment
 before the date

---
 email-parser/src/parsing/fields.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 52f57f5..9415ac8 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -558,6 +558,7 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Err(Error::Unknown("match error"))
         }
     })?;
+    let (input, _cfws) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b";",
-- 
2.43.0


From 4ceabeb3ad615c66f51dca0c4fa8dbdfa87c8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 18/18] fix: report the file names written as extended
 parameters

The file name of "attachment; filename*=utf-8''a%20b" was missing.
---
 email-parser/src/parsing/mime/mime_fields.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 8c2cc3f..f14451d 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -359,6 +359,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         }
     }
     disposition.unstructured = super::percent_encoding::collect_parameters(parameters_vec)?;
+    if disposition.filename.is_none() {
+        // It can be written as an extended parameter (`filename*=`, `filename*0=`).
+        disposition.filename = disposition.unstructured.remove("filename");
+    }
 
     let (input, ()) = ignore_inline_cfws(input)?;
     let (input, ()) = tag(
-- 
2.43.0

