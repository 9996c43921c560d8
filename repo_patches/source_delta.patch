From 16c4f2b29e1ecb8c1f68ecbcd62af83c9e6e5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 01/15] fix: convert four octet and negative INTEGERs to i32

VALID_I32_LENGTHS was an exclusive range, so integers of four octets were
reported as too large, and the octets were read as unsigned: 0xFF gave 255
instead of -1.
---
 rx509/src/der/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..1f67e8f 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1usize..=4usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,11 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // two's complement: extend the sign of the first octet
+        let mut acc: i32 = match self.bytes.first() {
+            Some(byte) if byte & 0x80 != 0 => -1,
+            _ => 0,
+        };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From ac2c305672d3946e3cad40ab94f8a78252983529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 02/15] fix: advance over the bits of a key usage

The offset was added to itself, so it stayed at 0 and every bit overwrote
digital_signature while the other flags were never set.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From b7ab82d23b59b4e2e1b99c1021ed14906fd3daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 03/15] fix: reject unused bits in a BIT STRING without octets

Its size was computed as 0 - unused_bits, which panics or wraps around.
---
 rx509/src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..fe62e59 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -155,6 +155,11 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
+    // there is no last octet that could have unused bits
+    if contents.len() == 1 && unused_bits > 0 {
+        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
+    }
+
     Ok(BitString::asn(ASNBitString::new(
         unused_bits,
         &contents[1..],
-- 
2.43.0


From 6f52bc9d85142b486ca4d369c81a8cdfd222c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 04/15] fix: decode the first two arcs of object identifiers
 under arc 2

2.40 was reported as 3.0, and a first subidentifier of several octets (as
in 2.999) as two unrelated arcs.
---
 rx509/src/der/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index fe62e59..6b6fbda 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -195,10 +195,13 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first subidentifier holds two arcs as 40 * X + Y, where only
+    // the arcs 0 and 1 restrict Y to be less than 40
+    let first = parse_one(&mut reader)?;
+    let top = core::cmp::min(first / 40, 2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(top);
+    items.push(first - top * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From 468e922121d49a1be20750902f1f0cc121aa4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 05/15] fix: do not take a truncated element for the end of a
 list

expect_or_end mapped every EndOfStream to the end, so that a truncated
extension, general name, key purpose or relative distinguished name
silently ended its list.
---
 rx509/src/der/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 6b6fbda..0ac8a69 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -440,11 +440,11 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        self.expect::<T>().map(Some)
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From ba70a0fbf32bec9135a946d00dca1a6fbcbb3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 06/15] fix: reject trailing data in extension contents

The subject key identifier, key usage and basic constraints ignored
whatever followed the expected elements.
---
 rx509/src/x509/ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..5ec7795 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -346,6 +344,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
-- 
2.43.0


From c4f28ecc4f899c09e58060997a6de95eddcef23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 07/15] fix: reject trailing data in an AlgorithmIdentifier

---
 rx509/src/x509/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From 68ff1a7cbd4616f7a9bab41e7f54341627995d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 08/15] fix: reject trailing data in an explicit tag

The explicit tag around the version could hold any further elements.
---
 rx509/src/der/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0ac8a69..ea1cb73 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -362,7 +362,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
-- 
2.43.0


From 51d260d96e3b954523c9de1240c6b1ef882e5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 09/15] fix: reject multi octet context-specific tags

The high tag number form was taken for tag 31 and the octets of the tag
number for the length.
---
 rx509/src/der/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index ea1cb73..ddeca06 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -260,6 +260,9 @@ fn parse_one_type<'a>(reader: &mut Reader<'a>) -> ASNResult<'a> {
     }
 }
 
+/// this value announces that the tag number follows in subsequent octets
+const HIGH_TAG_NUMBER: u8 = 0x1F;
+
 fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
     match id {
         Identifier {
@@ -296,7 +299,7 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             class: TagClass::ContextSpecific,
             tag,
             ..
-        } => Some((ASNTypeId::ExplicitTag, *tag)),
+        } if *tag != HIGH_TAG_NUMBER => Some((ASNTypeId::ExplicitTag, *tag)),
 
         _ => None,
     }
-- 
2.43.0


From 000d7ebc5ef7c556dd910bd1d60bb45f1e84ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 10/15] fix: reject trailing characters after a time

---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index ddeca06..d8b9e0f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From 0008b53667795b50b71f1b009adcf9a2944fd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 11/15] fix: decode the unique identifiers as implicitly tagged

issuerUniqueID and subjectUniqueID are [1] and [2] IMPLICIT BIT STRING, so
certificates carrying them were rejected.
---
 rx509/src/x509/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..7c90ea7 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -459,9 +459,12 @@ impl<'a> TBSCertificate<'a> {
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
-                Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
-                }),
+                Some(tag) => {
+                    // RFC 5280: UniqueIdentifier is implicitly tagged
+                    Parser::parse_all(tag.contents, |parser| {
+                        Ok(Some(parser.parse_implicit::<BitString>()?))
+                    })
+                }
                 None => Ok(None),
             }
         }
-- 
2.43.0


From 8f7f705b5a98e296c6b118722f69d9cd9422ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 12/15] fix: walk deeply nested input without exhausting the
 stack

parse_all called itself for every level, so a few hundred kilobytes of
nested sequences aborted the process.
---
 rx509/src/der/parse_all.rs | 42 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..ca1eb82 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,32 +9,32 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // parsers of the open constructed types, the innermost last: the input
+    // controls the nesting depth, so it must not be bounded by the call stack
+    let mut parsers = vec![Parser::new(input)];
+
+    while let Some(parser) = parsers.last_mut() {
+        match parser.next() {
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => wrapper.value,
+                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::Set(wrapper) => wrapper.value,
+                    _ => continue,
+                };
+                handler.begin_constructed();
+                parsers.push(Parser::new(contents));
+            }
+            None => {
+                parsers.pop();
+                if !parsers.is_empty() {
+                    handler.end_constructed();
                 }
             }
         }
-- 
2.43.0


From 8078f95fbcfe0ce5410e2a6a69b4a6c115bae3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 13/15] fix: begin the line of an IP address only once

SubjectAlternativeName begins a line for each name, print_type begun it
again, so it was indented twice.
---
 rx509/src/x509/ext.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 5ec7795..2151757 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -262,7 +262,13 @@ impl<'a> Printable for GeneralName<'a> {
             GeneralName::UniformResourceIdentifier(value) => {
                 printer.println_fmt(&format_args!("Uniform Resource Identifier: {}", value))
             }
-            GeneralName::IpAddress(value) => print_type("IP Address", value, printer),
+            // the line has been begun by the caller, as for the other names
+            GeneralName::IpAddress(value) => {
+                printer.println_str("IP Address:");
+                printer.begin_type();
+                value.print(printer);
+                printer.end_type();
+            }
             GeneralName::RegisteredId(value) => {
                 printer.println_fmt(&format_args!("Registered ID: {}", value))
             }
-- 
2.43.0


From b244bfe7bcdcebe672f563a0b27f481acc784201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 14/15] fix: begin the line that reports undecodable extensions

---
 rx509/src/x509/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 7c90ea7..a99a61a 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -144,6 +144,7 @@ impl<'a> Printable for TBSCertificate<'a> {
                     }
                 }
                 Err(err) => {
+                    printer.begin_line();
                     printer.println_fmt(&format_args!("**Error** parsing extensions: {}", err));
                 }
             }
-- 
2.43.0


From 156ae6eac45d22326a30d5e9467818eb1653b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 15/15] fix: accept file names that are not UTF-8

env::args panics on them.
---
 decoder/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..31b80ce 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,14 +34,14 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
+    match args[1].to_string_lossy().as_ref() {
         "--der" => parse_der(&get_bytes(&args[2])?),
         "--certs" => parse_x509(&get_bytes(&args[2])?),
         unknown => {
-- 
2.43.0

