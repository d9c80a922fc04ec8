From a7d68537a65a37522627f24606304ff856613de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 01/13] fix: advance the bit offset when decoding the key usage
 bit string

The offset was doubled instead of incremented, so it stayed at zero and every
bit was stored as digital_signature.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 9398c81642e4087193d4efdcb9aa77890c07576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 02/13] fix: decode INTEGER values as two's complement, up to
 four bytes

Negative values were decoded as positive numbers, and four byte values were
rejected although they fit.
---
 rx509/src/der/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..431d0f1 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1usize..=4usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,8 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // two's complement: sign extend from the first byte
+        let mut acc: i32 = if self.bytes[0] & 0x80 != 0 { -1 } else { 0 };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From bd27ba40ae18ffefb28aedc52ef076383ea94c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 03/13] fix: reject a BIT STRING with unused bits but no octets

Its size underflowed, so that decoding a key usage extension panicked.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..4d66247 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -151,7 +151,8 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
     }
 
     let unused_bits = contents[0];
-    if unused_bits > 7 {
+    // there are no bits to leave unused if there are no octets
+    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
-- 
2.43.0


From e7fc499e97eae616971f67524a6ce253748943b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 04/13] fix: decode the first two arcs of an object identifier
 below arc 2

The joint subidentifier may exceed 119 and may span multiple bytes if the first
arc is 2.
---
 rx509/src/der/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 4d66247..a087860 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -191,10 +191,12 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first two arcs share a subidentifier, and only arc 2 allows a second arc above 39
+    let first = parse_one(&mut reader)?;
+    let root = core::cmp::min(first / 40, 2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(root);
+    items.push(first - root * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From e49eb2dc6a979550fce5f65aa13ebb77d3cb1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 05/13] fix: reject padded subidentifiers in object identifiers

DER allows only one encoding for any object identifier.
---
 rx509/src/der/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index a087860..b06244a 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -173,6 +173,10 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
             };
 
             let next_byte = reader.read_byte()?;
+            // the encoding of a subidentifier must not be padded with leading zeros
+            if count == 0 && next_byte == 0b1000_0000 {
+                return Err(ASNErrorVariant::BadOidLength);
+            }
             let has_next: bool = (next_byte & 0b1000_0000) != 0;
             let value: u32 = (next_byte & 0b0111_1111) as u32;
 
-- 
2.43.0


From b8e63d21df55198560997ed8f592091c3589309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 06/13] fix: do not treat a truncated element as the end of a
 list

EndOfStream is also the error of an element that is cut short, so a truncated
extension, name or key usage was silently dropped.
---
 rx509/src/der/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index b06244a..bbe5132 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -439,11 +439,10 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+        Ok(Some(self.expect::<T>()?))
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 84ad663a826ed2d218dd2acc85de5b19adf253ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 07/13] fix: reject trailing data inside extension values,
 algorithm identifiers and explicit tags

Everything else in a certificate already rejects it.
---
 rx509/src/der/parser.rs |  4 +++-
 rx509/src/x509/ext.rs   |  7 +++----
 rx509/src/x509/mod.rs   | 12 ++++++------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index bbe5132..a215b22 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -361,7 +361,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..5ec7795 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -346,6 +344,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From 90c17044fb9086506d2a3b8557efa34e81f1270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 08/13] fix: reject trailing bytes after the time zone of a
 time value

---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index a215b22..e66565a 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From 50c1d2e3fc55f567b91ccdda821386ea13425c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 09/13] fix: reject multi-byte context-specific tags

The bytes of the tag number were decoded as the length of the element.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index e66565a..3d23a8d 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -291,11 +291,12 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             _ => None,
         },
 
+        // 0x1F introduces a multi-byte tag number, which isn't supported
         Identifier {
             class: TagClass::ContextSpecific,
             tag,
             ..
-        } => Some((ASNTypeId::ExplicitTag, *tag)),
+        } if *tag != 0x1F => Some((ASNTypeId::ExplicitTag, *tag)),
 
         _ => None,
     }
-- 
2.43.0


From 2078e0e2f45ac432fc5c1f84e72bfd78a76bad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 10/13] fix: decode the unique identifiers as implicitly tagged
 bit strings

RFC 5280 tags issuerUniqueID and subjectUniqueID implicitly.
---
 rx509/src/x509/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..d48e42c 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -460,7 +460,7 @@ impl<'a> TBSCertificate<'a> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
                 Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
+                    Ok(Some(parser.parse_implicit::<BitString>()?))
                 }),
                 None => Ok(None),
             }
-- 
2.43.0


From e08e289010d5396a21a6428211c1668fd9c18278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 11/13] fix: do not recurse on nested types in parse_all

Deeply nested input overflowed the call stack, which aborts the process.
---
 rx509/src/der/parse_all.rs | 43 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..1285fb8 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,33 +9,32 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // the enclosing types are kept in a vector, since the input could otherwise exhaust the call stack
+    let mut parsers = vec![Parser::new(input)];
+
+    while let Some(parser) = parsers.last_mut() {
+        match parser.next() {
+            None => {
+                parsers.pop();
+                if !parsers.is_empty() {
+                    handler.end_constructed();
+                }
+            }
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
-                }
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => wrapper.value,
+                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::Set(wrapper) => wrapper.value,
+                    _ => continue,
+                };
+                handler.begin_constructed();
+                parsers.push(Parser::new(contents));
             }
         }
     }
-- 
2.43.0


From 8ac980ffe990b23e7e2ee6bff9a6239ea2e8f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 12/13] fix: begin each printed line exactly once

An IP address was indented twice, and an extension error not at all.
---
 rx509/src/x509/ext.rs | 8 +++++++-
 rx509/src/x509/mod.rs | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 5ec7795..610eaaa 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -262,7 +262,13 @@ impl<'a> Printable for GeneralName<'a> {
             GeneralName::UniformResourceIdentifier(value) => {
                 printer.println_fmt(&format_args!("Uniform Resource Identifier: {}", value))
             }
-            GeneralName::IpAddress(value) => print_type("IP Address", value, printer),
+            GeneralName::IpAddress(value) => {
+                // the caller has begun the line
+                printer.println_str("IP Address:");
+                printer.begin_type();
+                value.print(printer);
+                printer.end_type();
+            }
             GeneralName::RegisteredId(value) => {
                 printer.println_fmt(&format_args!("Registered ID: {}", value))
             }
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index d48e42c..adfc8c2 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -144,6 +144,7 @@ impl<'a> Printable for TBSCertificate<'a> {
                     }
                 }
                 Err(err) => {
+                    printer.begin_line();
                     printer.println_fmt(&format_args!("**Error** parsing extensions: {}", err));
                 }
             }
-- 
2.43.0


From 10dcf75c13c7c3200826113ffd84e56f6859f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 13/13] fix: count the key usage bits with a type that any bit
 string fits

The offset was an i32, which a bit string of 256 MB overflows.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 610eaaa..6b0a139 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -169,7 +169,7 @@ impl KeyUsage {
             encipher_only: false,
             decipher_only: false,
         };
-        let mut offset = 0;
+        let mut offset: usize = 0;
         for bit in bit_string.iter() {
             match offset {
                 0 => key_usage.digital_signature = bit,
-- 
2.43.0

