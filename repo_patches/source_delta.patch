From 975ee1b5f0c9bdf0e1168908b1743f54e77206b4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 01/16] fix: key usage bits after the first were all ignored

The bit offset was doubled instead of incremented, so it stayed 0 and every
bit of the string was assigned to digital_signature.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 4702d28b7b689e1c885b72a302b74320c3901564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 02/16] fix: ASNInteger::as_i32 rejected four-octet values and
 lost the sign

The range of allowed lengths excluded four octets, and values were not sign
extended, so negative integers read (and displayed) as positive ones.
---
 rx509/src/der/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..da177b7 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1usize..=4usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,8 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // sign extend from the top bit of the first octet
+        let mut acc: i32 = if self.bytes[0] & 0x80 != 0 { -1 } else { 0 };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From 791ff82c45f042f768fd6628ebb80548f146fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 03/16] fix: decode first OID sub-identifier of 120 or more

The first octet alone was divided by 40, which yielded a first arc above 2
for values from 120 and wrong arcs for a multi-octet first sub-identifier.
---
 rx509/src/der/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..96126c5 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -190,10 +190,13 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first sub-identifier combines the first two arcs as (first * 40) + second,
+    // where only a first arc of 2 allows a second arc of 40 or more
+    let combined = parse_one(&mut reader)?;
+    let first = (combined / 40).min(2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(first);
+    items.push(combined - (first * 40));
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From 5049d53aa297e2ec697dec352a9602e5843bddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 04/16] fix: reject OID sub-identifiers padded with a leading
 0x80 octet

X.690 8.19.2 requires the fewest octets; padded encodings decoded to the same
arcs as the canonical one.
---
 rx509/src/der/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 96126c5..f46c58f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -172,6 +172,12 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
             };
 
             let next_byte = reader.read_byte()?;
+
+            // a leading octet of 0x80 is padding, which is not allowed
+            if count == 0 && next_byte == 0b1000_0000 {
+                return Err(ASNErrorVariant::BadOidLength);
+            }
+
             let has_next: bool = (next_byte & 0b1000_0000) != 0;
             let value: u32 = (next_byte & 0b0111_1111) as u32;
 
-- 
2.43.0


From 55739e716b7ce78445f5cb22e50f0019d1083c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 05/16] fix: reject empty BIT STRING with a non-zero count of
 unused bits

Such a bit string was accepted, and size() then underflowed (a panic with
overflow checks, else a huge size and an out of bounds index when iterated).
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index f46c58f..bf5223e 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -151,7 +151,8 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
     }
 
     let unused_bits = contents[0];
-    if unused_bits > 7 {
+    // there can't be any unused bits if there are no octets at all
+    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
-- 
2.43.0


From e05d8efd3ab888eb11dce5bea09186fcf2098f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 06/16] fix: a truncated element is an error, not the end of
 the list

expect_or_end treated the EndOfStream error of an element cut short like the
end of the input, so extensions, names and general names with a truncated
last element were silently shortened.
---
 rx509/src/der/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index bf5223e..086146f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -442,11 +442,11 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        Ok(Some(self.expect::<T>()?))
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 87477916d95f4b59c0757f5cee9254f7dc9a83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 07/16] fix: reject times with data after the time zone

---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 086146f..2d72813 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From 8bcca61622faa962d6c782b1171ac4863c271cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 08/16] fix: reject data after the OCTET STRING of a subject
 key identifier

---
 rx509/src/x509/ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..c101f2d 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
-- 
2.43.0


From d279c70758f618f3fd3bc96e96fb793d589cb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 09/16] fix: reject data after the BIT STRING of a key usage

---
 rx509/src/x509/ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index c101f2d..4aafdfa 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -156,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
-- 
2.43.0


From 00cc8804bf1185b90c61ceb1e19c4423472f2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 10/16] fix: reject surplus elements in basic constraints

A path length of the wrong type, or before the CA flag, was silently dropped.
---
 rx509/src/x509/ext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 4aafdfa..3c99d1e 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -337,6 +337,7 @@ impl BasicConstraints {
         let mut parser = Parser::unwrap_outer_sequence(input)?;
         let ca = parser.get_optional_or_default::<Boolean>(false)?;
         let constraint = parser.get_optional::<Integer>()?;
+        parser.expect_end()?;
         let constraint = match constraint {
             Some(value) => match value.as_i32() {
                 Some(value) => Ok(Some(value)),
-- 
2.43.0


From 79c77351df93b8dc33091c5d0b1facac05b0df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 11/16] fix: reject surplus elements in an algorithm identifier

---
 rx509/src/x509/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From 6d551cb42565b0c22123225404de9767c65b6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 12/16] fix: reject surplus elements inside an explicitly
 tagged value

---
 rx509/src/der/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 2d72813..ff65097 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -364,7 +364,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
-- 
2.43.0


From 077035c1d5581bfc1db8199a6eb6de379d24a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 13/16] fix: issuer and subject unique ids are implicitly
 tagged

X.509 defines them as [1] and [2] IMPLICIT BIT STRING; certificates that
carry one were rejected.
---
 rx509/src/x509/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..d48e42c 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -460,7 +460,7 @@ impl<'a> TBSCertificate<'a> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
                 Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
+                    Ok(Some(parser.parse_implicit::<BitString>()?))
                 }),
                 None => Ok(None),
             }
-- 
2.43.0


From 08ac8ac2165a9bcf98555e6f3c857a87e2480889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 14/16] fix: don't take the multi-octet tag form for
 context-specific tag 31

The octets of the tag number were misread as length and contents.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index ff65097..9ef543d 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -294,11 +294,12 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             _ => None,
         },
 
+        // a tag of 0x1F means that the number follows in further octets, which is not supported
         Identifier {
             class: TagClass::ContextSpecific,
             tag,
             ..
-        } => Some((ASNTypeId::ExplicitTag, *tag)),
+        } if *tag != 0x1F => Some((ASNTypeId::ExplicitTag, *tag)),
 
         _ => None,
     }
-- 
2.43.0


From faffded8ee7ca650cc44afe8bd1b4b3c81fc77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 15/16] fix: walk nested containers without recursion

Some 100 kB of nested SEQUENCE headers overflowed the call stack, which
aborts the process.
---
 rx509/src/der/parse_all.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..1b9a407 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,7 +9,22 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
+    // The containers being walked, innermost last. This isn't done recursively since
+    // the input would then determine how much of the call stack is used.
+    let mut parsers = vec![Parser::new(input)];
+
+    while let Some(parser) = parsers.last_mut() {
+        let result = match parser.next() {
+            Some(result) => result,
+            None => {
+                parsers.pop();
+                if !parsers.is_empty() {
+                    handler.end_constructed();
+                }
+                continue;
+            }
+        };
+
         match result {
             Err(err) => {
                 let err = err.into();
@@ -21,18 +36,15 @@ pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASN
                 match asn {
                     ASNType::Sequence(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
+                        parsers.push(Parser::new(wrapper.value));
                     }
                     ASNType::ExplicitTag(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
+                        parsers.push(Parser::new(wrapper.value.contents));
                     }
                     ASNType::Set(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
+                        parsers.push(Parser::new(wrapper.value));
                     }
                     _ => (),
                 }
-- 
2.43.0


From fe8c325e55fc3e4eb35cb60758eca70aab312dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 16/16] fix: take program arguments that are not Unicode

---
 decoder/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..cf86dbe 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,14 +34,15 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    // a file name need not be valid Unicode
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
+    match args[1].to_string_lossy().as_ref() {
         "--der" => parse_der(&get_bytes(&args[2])?),
         "--certs" => parse_x509(&get_bytes(&args[2])?),
         unknown => {
-- 
2.43.0

