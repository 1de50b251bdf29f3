From 7adea12a42628f5b0cf7e1a2d1eaf439812034d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH] fix: utf8: do not take a malformed sequence for a truncated
 one

decode_to_str decided from the lead byte and the number of bytes left alone
whether the rest of the input was just a truncated code point.  For input
such as [0xE3, 0x41] it therefore held back (is_end == false) or reported as
one error (is_end == true) bytes that can never become valid, swallowing the
valid 'A'.  Use Utf8Error::error_len() instead.
---
 src/utf8.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..77aae1a 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -15,10 +15,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 }
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
-    // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
-        Ok(text) => text.len(),
-        Err(e) => e.valid_up_to(),
+    // Find how much of the data is valid utf8, and whether what follows it
+    // is just a truncated (but so far valid) code point.
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+        Ok(text) => (text.len(), false),
+        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
 
     // Copy over what we can.
@@ -27,12 +28,7 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
 
     // Determine if there's an error.
     if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {
-        let trailing_bytes = input.len() - valid_up_to;
-        let byte = input[valid_up_to];
-        // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
-            || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
+        // If we're not truncated, then it's an error.
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0

