From 6ebc46809c29acb8b8ef6ec918755d8c172a39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 01/26] fix: only the two octets 00 00 end an indefinite-length
 encoding

An empty element with tag number 0 but another class, the constructed bit set, or
a long-form length was taken as end-of-contents, truncating the enclosing object.
---
 src/ber/parser.rs   | 20 +++++++++-----------
 src/ber/wrap_any.rs | 38 ++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..e4ffe16 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -10,22 +10,19 @@ pub const MAX_RECURSION: usize = 50;
 /// Default maximum object size (2^32)
 pub const MAX_OBJECT_SIZE: usize = 4_294_967_295;
 
-/// Skip object content, and return true if object was End-Of-Content
+/// Skip object content
 pub(crate) fn ber_skip_object_content<'a>(
     i: &'a [u8],
     hdr: &Header,
     max_depth: usize,
-) -> BerResult<'a, bool> {
+) -> BerResult<'a, ()> {
     if max_depth == 0 {
         return Err(Err::Error(BerError::BerMaxDepth));
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
-                return Ok((i, true));
-            }
             let (i, _) = take(l)(i)?;
-            Ok((i, false))
+            Ok((i, ()))
         }
         Length::Indefinite => {
             if hdr.is_primitive() {
@@ -35,12 +32,13 @@ pub(crate) fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = ber_read_element_header(i)?;
-                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
-                    // return false, since top object was not EndOfContent
-                    return Ok((i3, false));
+                // only these exact two bytes are End-Of-Content (X.690 8.1.5): an empty object with
+                // tag number 0, but another class or encoding, is a regular element
+                if i.starts_with(&[0, 0]) {
+                    return Ok((&i[2..], ()));
                 }
+                let (i2, header2) = ber_read_element_header(i)?;
+                let (i3, _) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 i = i3;
             }
         }
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 8d8a878..058d54a 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -1,7 +1,7 @@
 use alloc::string::String;
 
 use super::{BerObject, BerObjectContent, BitStringObject};
-use crate::ber::{ber_get_object_content, MAX_OBJECT_SIZE};
+use crate::ber::{ber_get_object_content, ber_read_element_header, MAX_OBJECT_SIZE, MAX_RECURSION};
 use crate::error::{BerError, BerResult};
 use alloc::vec::Vec;
 use asn1_rs::*;
@@ -12,7 +12,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,14 +23,28 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
-    Any::from_ber(i)
+    let (i, header) = ber_read_element_header(i)?;
+    let (rem, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    Ok((rem, Any::new(header, data)))
+}
+
+/// Read all members of a constructed object
+fn try_read_members(data: &[u8], max_depth: usize) -> Result<Vec<BerObject<'_>>> {
+    let mut objects = Vec::new();
+    let mut rem = data;
+    while !rem.is_empty() {
+        let (r, any) = parse_ber_any(rem)?;
+        objects.push(try_berobject_from_any(any, max_depth)?);
+        rem = r;
+    }
+    Ok(objects)
 }
 
 macro_rules! from_obj {
@@ -144,24 +158,12 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::Sequence => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_read_members(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Sequence(objects)))
         }
         Tag::Set => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_read_members(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Set(objects)))
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
-- 
2.43.0


From c0f42ecbae5299cc4ceed8dd90416fe3c77634d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 02/26] fix: enforce MAX_OBJECT_SIZE in the generic BER parsers

---
 src/ber/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index e4ffe16..0368dce 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -21,6 +21,10 @@ pub(crate) fn ber_skip_object_content<'a>(
     }
     match hdr.length() {
         Length::Definite(l) => {
+            // safety check: length cannot be more than 2^32 bytes
+            if l > MAX_OBJECT_SIZE {
+                return Err(Err::Error(BerError::InvalidLength));
+            }
             let (i, _) = take(l)(i)?;
             Ok((i, ()))
         }
-- 
2.43.0


From ef4eba6be3fcb4ff620bb1611c3b35dd6b18df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 03/26] fix: strip leading zeroes of integers without recursion

A long INTEGER made of zeroes overflowed the stack in as_u32/as_u64/as_i32/as_i64.
---
 src/ber/integer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..1ca14a6 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -5,16 +5,16 @@ use crate::error::*;
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    // skip leading 0s (but keep the last byte)
+    // note: this must not be recursive, the number of leading 0s is controlled by the input
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 1cb6469e2f600efba99ecbdd7b447add02592f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 04/26] fix: as_i32/as_i64 must not wrap large positive
 integers to negative values

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..b0ed8eb 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                let value = <u64>::from_be_bytes(decode_array_uint8(bytes)?);
+                <i64>::try_from(value).map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                let value = <u32>::from_be_bytes(decode_array_uint4(bytes)?);
+                <i32>::try_from(value).map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
-- 
2.43.0


From 0c8d44fb1a31529b555576fd28a3964e5ffe9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 05/26] fix: apply DER constraints to the members of SEQUENCE
 and SET

parse_der and friends read the content of constructed types with the BER parser, so
indefinite lengths, non-minimal integers, BER booleans etc. were accepted inside.
---
 src/der/parser.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..de8ecd4 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -485,6 +486,7 @@ pub fn der_read_element_content_as(
     constructed: bool,
     max_depth: usize,
 ) -> BerResult<'_, DerObjectContent<'_>> {
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
     if i.len() < l {
@@ -535,6 +537,19 @@ pub fn der_read_element_content_as(
         | Tag::GeneralString => {
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
         }
+        Tag::Sequence | Tag::Set => {
+            if !constructed {
+                return Err(Err::Error(BerError::ConstructExpected));
+            }
+            // members must also be valid DER objects
+            let (rem, data) = take(l)(i)?;
+            let objects = der_read_members(data, max_depth - 1).map_err(Err::Error)?;
+            let content = match tag {
+                Tag::Sequence => DerObjectContent::Sequence(objects),
+                _ => DerObjectContent::Set(objects),
+            };
+            return Ok((rem, content));
+        }
         Tag::UtcTime | Tag::GeneralizedTime => {
             if l == 0 || i.get(l - 1).cloned() != Some(b'Z') {
                 return Err(Err::Error(BerError::DerConstraintFailed(
@@ -582,6 +597,20 @@ fn der_read_element_content_recursive<'a>(
     }
 }
 
+/// Read all members of a constructed object
+///
+/// `data` is the complete content of the object, so missing bytes are an error
+fn der_read_members(data: &[u8], max_depth: usize) -> Result<Vec<DerObject<'_>>, BerError> {
+    let mut objects = Vec::new();
+    let mut rem = data;
+    while !rem.is_empty() {
+        let (r, obj) = parse_der_recursive(rem, max_depth)?;
+        objects.push(obj);
+        rem = r;
+    }
+    Ok(objects)
+}
+
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
-- 
2.43.0


From 4c930bea86407e51cb0cc783f2d958792401ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 06/26] fix: reject non-minimal negative INTEGER in DER

---
 src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index de8ecd4..ff75c8d 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -520,6 +520,11 @@ pub fn der_read_element_content_as(
                         DerConstraint::IntegerLeadingZeroes,
                     )));
                 }
+                [0xff, byte, ..] if byte >= 0x80 => {
+                    return Err(Err::Error(BerError::DerConstraintFailed(
+                        DerConstraint::IntegerLeadingFF,
+                    )));
+                }
                 _ => (),
             }
         }
-- 
2.43.0


From 02d985b3ce6582aa15111b309159cdc2be281cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 07/26] fix: DER BIT STRING without content or with only unused
 bits

The unused-bits octet was read before checking that the object has one, so 03 00
consumed a byte of the following object (or reported missing data), and 03 01 05
was accepted (X.690 8.6.2.3).
---
 src/der/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index ff75c8d..fb5db98 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -617,6 +617,9 @@ fn der_read_members(data: &[u8], max_depth: usize) -> Result<Vec<DerObject<'_>>,
 }
 
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
+    if len == 0 {
+        return Err(Err::Error(BerError::InvalidLength));
+    }
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
         return Err(Err::Error(BerError::invalid_value(
@@ -624,8 +627,11 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             "More than 7 unused bits".to_owned(),
         )));
     }
-    if len == 0 {
-        return Err(Err::Error(BerError::InvalidLength));
+    if len == 1 && ignored_bits != 0 {
+        return Err(Err::Error(BerError::invalid_value(
+            Tag::BitString,
+            "Unused bits in empty bitstring".to_owned(),
+        )));
     }
     let (i, data) = take(len - 1)(i)?;
     if len > 1 {
-- 
2.43.0


From ab5d83027c6ae12abac88cad527f51964a79aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 08/26] fix: reject constructed OCTET STRING in DER (X.690
 10.2)

---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index fb5db98..ce5adcd 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -528,7 +528,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From 3435f56bc8d7e7d37dfb82ed6206e6000c8ea7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 09/26] fix: encode ENUMERATED 0 with one content octet

---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..8db7264 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -135,6 +135,10 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
+            if v.is_empty() {
+                // the contents octets shall consist of one or more octets (X.690 8.3.1)
+                return be_u8(0)(out);
+            }
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-- 
2.43.0


From e026fe5615b24162f27ef44b2086ef6ceaeb777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 10/26] fix: encoding of end-of-contents and of absent optional
 values

End-of-contents was encoded as 00 01 00 instead of 00 00, and Optional(None) as an
element with tag 0 instead of nothing.
---
 src/ber/serialize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 8db7264..7a9bef1 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -117,7 +117,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
@@ -202,6 +202,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        if let BerObjectContent::Optional(None) = obj.content {
+            // absent value: there is nothing to encode
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From 7081805ff627563c9a4afd29e3782395919abf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 11/26] fix: encode tag numbers above 30 instead of panicking

---
 src/ber/serialize.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 7a9bef1..27a4df5 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,10 +44,19 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
+        let tag = hdr.tag().0;
+        if tag > 30 {
+            // high-tag-number form (X.690 8.1.2.4): base 128, most significant group first
+            let mut v = vec![(tag & 0x7f) as u8];
+            let mut t = tag >> 7;
+            while t > 0 {
+                v.insert(0, 0x80 | (t & 0x7f) as u8);
+                t >>= 7;
+            }
+            let byte_0 = class_u8 | pc_u8 | 0b1_1111;
+            return tuple((be_u8(byte_0), slice(v), encode_length(hdr.length())))(out);
         }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
+        let byte_0 = class_u8 | pc_u8 | (tag as u8);
         // length octets (X.690 8.1.3)
         tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
     }
-- 
2.43.0


From 09f69e1c491acf692236b9f13395c82805305e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:51 +0000
Subject: [PATCH 12/26] fix: encode UTCTime and GeneralizedTime so that they
 parse back to the same value

UTCTime was written with a 4-digit year, milliseconds without leading zeroes, and the
time zone was always replaced by Z.
---
 src/ber/serialize.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 27a4df5..0c13c64 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -9,6 +9,7 @@ use cookie_factory::multi::many_ref;
 use cookie_factory::sequence::tuple;
 use cookie_factory::{GenError, SerializeFn};
 use std::io::Write;
+use std::string::String;
 
 fn encode_length<'a, W: Write + 'a, Len: Into<Length>>(len: Len) -> impl SerializeFn<W> + 'a {
     let l = len.into();
@@ -69,9 +70,38 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_datetime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+    is_utctime: bool,
+) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        let year = if is_utctime {
+            format!("{:02}", time.year % 100)
+        } else {
+            format!("{:04}", time.year)
+        };
+        let fractional = match time.millisecond {
+            None => String::new(),
+            Some(v) => {
+                let s = format!("{:03}", v);
+                // omit trailing zeroes (X.690 11.7.3), but keep at least one digit
+                let len = s.trim_end_matches('0').len().max(1);
+                format!(".{}", &s[..len])
+            }
+        };
+        let tz = match time.tz {
+            // UTCTime always has a time zone
+            ASN1TimeZone::Undefined if !is_utctime => String::new(),
+            ASN1TimeZone::Undefined | ASN1TimeZone::Z => String::from("Z"),
+            ASN1TimeZone::Offset(h, m) => {
+                let sign = if h < 0 || m < 0 { '-' } else { '+' };
+                format!("{}{:02}{:02}", sign, h.unsigned_abs(), m.unsigned_abs())
+            }
+        };
+        let s = format!(
+            "{}{:02}{:02}{:02}{:02}{:02}{}{}",
+            year, time.month, time.day, time.hour, time.minute, time.second, fractional, tz
+        );
         slice(s)(out)
     }
 }
@@ -151,9 +181,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_datetime(time, true)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_datetime(time, false)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From cc19cc7f8415e3510ed7d47319c89a457c130929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 13/26] fix: iterating an empty SEQUENCE or SET by value yields
 nothing

---
 src/ber/ber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index b0ed8eb..e2f65e5 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -788,6 +788,7 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         let res = match self.val.content {
             BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
             BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => None,
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From 5c271b2c56070f5728fd31cf6edc84e19142fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 14/26] fix: convert generic elements of any class and length
 form to objects

TryFrom<Any> failed on indefinite lengths (Any does not contain the end-of-contents
octets), and interpreted elements of a non-universal class as universal types.
---
 src/ber/ber.rs      | 25 +++----------------------
 src/ber/wrap_any.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index e2f65e5..cb522b1 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -1,8 +1,7 @@
 use super::{Class, Header, Length, Tag};
-use crate::ber::ber_read_element_content_as;
+use crate::ber::berobject_from_any;
 use crate::ber::bitstring_to_u64;
 use crate::ber::integer::*;
-use crate::ber::MAX_RECURSION;
 use crate::error::BerError;
 use crate::oid::Oid;
 use alloc::borrow::ToOwned;
@@ -727,16 +726,7 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
     fn try_from(any: Any<'a>) -> Result<Self, Self::Error> {
-        let (header, data) = (any.header, any.data);
-        let (_, content) = ber_read_element_content_as(
-            data,
-            header.tag(),
-            header.length(),
-            header.constructed(),
-            MAX_RECURSION,
-        )?;
-        let obj = BerObject::from_header_and_content(header, content);
-        Ok(obj)
+        berobject_from_any(any)
     }
 }
 
@@ -744,16 +734,7 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
     fn try_from(any: &'b Any<'a>) -> Result<Self, Self::Error> {
-        let (header, data) = (any.header.clone(), any.data);
-        let (_, content) = ber_read_element_content_as(
-            data,
-            header.tag(),
-            header.length(),
-            header.constructed(),
-            MAX_RECURSION,
-        )?;
-        let obj = BerObject::from_header_and_content(header, content);
-        Ok(obj)
+        berobject_from_any(any.clone())
     }
 }
 
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 058d54a..b2417cc 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -89,6 +89,18 @@ pub(crate) fn try_read_berobjectcontent_as(
     Ok((rem, object.content))
 }
 
+/// Convert a raw element (with a content not including the End-Of-Content bytes, if any)
+pub(crate) fn berobject_from_any(any: Any) -> Result<BerObject> {
+    let data = match any.header.length() {
+        Length::Definite(l) => any
+            .data
+            .get(..l)
+            .ok_or_else(|| BerError::Incomplete(Needed::new(l)))?,
+        Length::Indefinite => any.data,
+    };
+    try_berobject_from_any(Any::new(any.header, data), MAX_RECURSION)
+}
+
 // note: we cannot implement TryFrom because of the `max_depth` argument
 fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
     custom_check!(any.data, max_depth == 0, BerError::BerMaxDepth)?;
-- 
2.43.0


From f29b34de8d7c88991106bd99c05226ff6bcebc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 15/26] fix: implicit tagging of elements with an indefinite
 length

---
 src/ber/tagged.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ber/tagged.rs b/src/ber/tagged.rs
index cef5642..3f4add3 100644
--- a/src/ber/tagged.rs
+++ b/src/ber/tagged.rs
@@ -252,6 +252,12 @@ where
     let tag = tag.into();
     parse_ber_container(move |i, hdr| {
         hdr.assert_tag(tag).map_err(|e| Err::Error(e.into()))?;
+        // the End-Of-Content bytes are not part of the content: give its actual length, so content
+        // parsing functions do not look for them
+        let hdr = match hdr.length() {
+            Length::Definite(_) => hdr,
+            Length::Indefinite => hdr.with_length(Length::Definite(i.len())),
+        };
         // XXX MAX_RECURSION should not be used, it resets the depth counter
         f(i, hdr, MAX_RECURSION)
         // trailing bytes are ignored
-- 
2.43.0


From 0c1e2d616f3d5416ce229aeca4538575a7da510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 16/26] fix: SEQUENCE OF / SET OF combinators with item parsers
 not using streaming errors

The item parser was applied once more to the empty input after the last item, so an
item parser returning an error there (as nom 'complete' parsers do) always failed.
---
 src/ber/multi.rs | 7 ++++---
 src/der/multi.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ber/multi.rs b/src/ber/multi.rs
index 0ace52c..79a4678 100644
--- a/src/ber/multi.rs
+++ b/src/ber/multi.rs
@@ -1,9 +1,10 @@
 use crate::ber::*;
 use crate::error::*;
 use nom::bytes::complete::take;
-use nom::combinator::{all_consuming, complete, cut, map};
+use nom::combinator::{all_consuming, complete, cut, eof, map, not};
 use nom::error::ParseError;
 use nom::multi::many0;
+use nom::sequence::preceded;
 use nom::{Err, IResult};
 
 /// Parse a SEQUENCE OF object
@@ -72,7 +73,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_ber_sequence_defined_g(move |data, _| subparser(data))
 }
 
@@ -295,7 +296,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_ber_set_defined_g(move |data, _| subparser(data))
 }
 
diff --git a/src/der/multi.rs b/src/der/multi.rs
index 79f3b91..05047c7 100644
--- a/src/der/multi.rs
+++ b/src/der/multi.rs
@@ -2,9 +2,10 @@ use crate::ber::Length;
 use crate::der::*;
 use crate::error::*;
 use nom::bytes::complete::take;
-use nom::combinator::{all_consuming, complete, cut, map};
+use nom::combinator::{all_consuming, complete, cut, eof, map, not};
 use nom::error::ParseError;
 use nom::multi::many0;
+use nom::sequence::preceded;
 use nom::{Err, IResult};
 
 /// Parse a SEQUENCE OF object
@@ -73,7 +74,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_der_sequence_defined_g(move |data, _| subparser(data))
 }
 
@@ -296,7 +297,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_der_set_defined_g(move |data, _| subparser(data))
 }
 
-- 
2.43.0


From 16ba59f6d8369288e7e506f55af96f4d5c2664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 17/26] fix: report missing data when the input stops inside a
 multi-byte tag

---
 src/ber/parser.rs | 16 +++++++++++++++-
 src/der/parser.rs |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 0368dce..b60ad3b 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -2,7 +2,7 @@ use crate::ber::*;
 use crate::error::*;
 use asn1_rs::FromBer;
 use nom::bytes::streaming::take;
-use nom::{Err, Offset};
+use nom::{Err, Needed, Offset};
 
 /// Default maximum recursion limit
 pub const MAX_RECURSION: usize = 50;
@@ -100,6 +100,19 @@ pub(crate) fn bitstring_to_u64(
     Ok(resulting_integer >> padding_bits)
 }
 
+/// Check the identifier octets of an object
+///
+/// If the input stops inside a multi-byte tag, then more data is needed.
+pub(crate) fn check_identifier(i: &[u8]) -> Result<(), Err<BerError>> {
+    if let [b0, tag_bytes @ ..] = i {
+        // tag is encoded on 5 bytes at most
+        if b0 & 0x1f == 0x1f && tag_bytes.len() < 5 && tag_bytes.iter().all(|b| b & 0x80 != 0) {
+            return Err(Err::Incomplete(Needed::new(1)));
+        }
+    }
+    Ok(())
+}
+
 /// Read an object header
 ///
 /// ### Example
@@ -116,6 +129,7 @@ pub(crate) fn bitstring_to_u64(
 /// ```
 #[inline]
 pub fn ber_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> {
+    check_identifier(i)?;
     Header::from_ber(i)
 }
 
diff --git a/src/der/parser.rs b/src/der/parser.rs
index ce5adcd..fa8bebb 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -669,5 +669,6 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
 /// Read an object header (DER)
 #[inline]
 pub fn der_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> {
+    check_identifier(i)?;
     Header::from_der(i)
 }
-- 
2.43.0


From a21d06a3a7f8e5804d407fb014a629b50f50b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 18/26] fix: reject tag numbers that do not fit in 32 bits

Only the low 32 bits were kept, so 1f 90 80 80 80 02 was read as tag 2 (INTEGER).
---
 src/ber/parser.rs | 13 ++++++++++++-
 src/der/parser.rs |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index b60ad3b..a427419 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -102,13 +102,20 @@ pub(crate) fn bitstring_to_u64(
 
 /// Check the identifier octets of an object
 ///
-/// If the input stops inside a multi-byte tag, then more data is needed.
+/// If the input stops inside a multi-byte tag, then more data is needed. Tag numbers that do not fit
+/// in 32 bits are rejected (they would be truncated).
 pub(crate) fn check_identifier(i: &[u8]) -> Result<(), Err<BerError>> {
     if let [b0, tag_bytes @ ..] = i {
         // tag is encoded on 5 bytes at most
         if b0 & 0x1f == 0x1f && tag_bytes.len() < 5 && tag_bytes.iter().all(|b| b & 0x80 != 0) {
             return Err(Err::Incomplete(Needed::new(1)));
         }
+        if let [b1, b2, b3, b4, _, ..] = tag_bytes {
+            let is_5_bytes = b1 & b2 & b3 & b4 & 0x80 != 0;
+            if b0 & 0x1f == 0x1f && is_5_bytes && b1 & 0x7f > 0x0f {
+                return Err(Err::Error(BerError::InvalidTag));
+            }
+        }
     }
     Ok(())
 }
@@ -576,6 +583,7 @@ where
 /// integer type.
 #[inline]
 pub fn parse_ber_i32(i: &[u8]) -> BerResult<'_, i32> {
+    check_identifier(i)?;
     <i32>::from_ber(i)
 }
 
@@ -585,6 +593,7 @@ pub fn parse_ber_i32(i: &[u8]) -> BerResult<'_, i32> {
 /// integer type.
 #[inline]
 pub fn parse_ber_i64(i: &[u8]) -> BerResult<'_, i64> {
+    check_identifier(i)?;
     <i64>::from_ber(i)
 }
 
@@ -594,6 +603,7 @@ pub fn parse_ber_i64(i: &[u8]) -> BerResult<'_, i64> {
 /// integer type.
 #[inline]
 pub fn parse_ber_u32(i: &[u8]) -> BerResult<'_, u32> {
+    check_identifier(i)?;
     <u32>::from_ber(i)
 }
 
@@ -603,6 +613,7 @@ pub fn parse_ber_u32(i: &[u8]) -> BerResult<'_, u32> {
 /// integer type.
 #[inline]
 pub fn parse_ber_u64(i: &[u8]) -> BerResult<'_, u64> {
+    check_identifier(i)?;
     <u64>::from_ber(i)
 }
 
diff --git a/src/der/parser.rs b/src/der/parser.rs
index fa8bebb..8212faa 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -371,6 +371,7 @@ where
 /// integer type.
 #[inline]
 pub fn parse_der_i32(i: &[u8]) -> BerResult<'_, i32> {
+    check_identifier(i)?;
     <i32>::from_der(i)
 }
 
@@ -380,6 +381,7 @@ pub fn parse_der_i32(i: &[u8]) -> BerResult<'_, i32> {
 /// integer type.
 #[inline]
 pub fn parse_der_i64(i: &[u8]) -> BerResult<'_, i64> {
+    check_identifier(i)?;
     <i64>::from_der(i)
 }
 
@@ -388,6 +390,7 @@ pub fn parse_der_i64(i: &[u8]) -> BerResult<'_, i64> {
 /// Return `IntegerTooLarge` if object is an integer, but can not be represented in the target
 /// integer type.
 pub fn parse_der_u32(i: &[u8]) -> BerResult<'_, u32> {
+    check_identifier(i)?;
     <u32>::from_der(i)
 }
 
@@ -396,6 +399,7 @@ pub fn parse_der_u32(i: &[u8]) -> BerResult<'_, u32> {
 /// Return `IntegerTooLarge` if object is an integer, but can not be represented in the target
 /// integer type.
 pub fn parse_der_u64(i: &[u8]) -> BerResult<'_, u64> {
+    check_identifier(i)?;
     <u64>::from_der(i)
 }
 
-- 
2.43.0


From c4a229c818851842c9d184baf07152e817989d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 19/26] fix: reject GeneralizedTime with 4 fraction digits and
 no time zone

Such times were accepted with a wrong number of milliseconds (up to 9999).
---
 src/ber/wrap_any.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index b2417cc..dd15279 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -145,7 +145,17 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
             Ok(obj_from(header, BerObjectContent::Enum(obj.0 as u64)))
         }
         Tag::GeneralizedTime => {
+            let data = any.data;
             let time = any.generalizedtime()?;
+            // at most 3 digits are allowed for milliseconds, with or without time zone
+            if time.0.millisecond.is_some() && time.0.tz == ASN1TimeZone::Undefined {
+                let is_digit = |b: &&u8| b.is_ascii_digit();
+                custom_check!(
+                    data,
+                    data.iter().rev().take_while(is_digit).count() > 3,
+                    BerError::InvalidDateTime
+                )?;
+            }
             Ok(obj_from(header, BerObjectContent::GeneralizedTime(time.0)))
         }
         Tag::GeneralString => from_obj!(STRING GeneralString, any, header),
-- 
2.43.0


From c55be7a8345f1435c25f23607117e71cfcbe7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:57 +0000
Subject: [PATCH 20/26] fix: keep the sign of time zone offsets between -0059
 and -0001

---
 src/ber/wrap_any.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index dd15279..4c116b1 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -89,6 +89,14 @@ pub(crate) fn try_read_berobjectcontent_as(
     Ok((rem, object.content))
 }
 
+/// Restore the sign of time zone offsets with a zero hour (like `-0030`)
+fn fix_time_offset(mut time: ASN1DateTime, data: &[u8]) -> ASN1DateTime {
+    if let (ASN1TimeZone::Offset(0, min), [.., b'-', _, _, _, _]) = (time.tz, data) {
+        time.tz = ASN1TimeZone::Offset(0, -min);
+    }
+    time
+}
+
 /// Convert a raw element (with a content not including the End-Of-Content bytes, if any)
 pub(crate) fn berobject_from_any(any: Any) -> Result<BerObject> {
     let data = match any.header.length() {
@@ -156,7 +164,8 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
                     BerError::InvalidDateTime
                 )?;
             }
-            Ok(obj_from(header, BerObjectContent::GeneralizedTime(time.0)))
+            let time = fix_time_offset(time.0, data);
+            Ok(obj_from(header, BerObjectContent::GeneralizedTime(time)))
         }
         Tag::GeneralString => from_obj!(STRING GeneralString, any, header),
         Tag::GraphicString => from_obj!(STRING GraphicString, any, header),
@@ -190,8 +199,9 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
         Tag::UtcTime => {
-            let time = any.utctime()?;
-            Ok(obj_from(header, BerObjectContent::UTCTime(time.0)))
+            let data = any.data;
+            let time = fix_time_offset(any.utctime()?.0, data);
+            Ok(obj_from(header, BerObjectContent::UTCTime(time)))
         }
         Tag::UniversalString => {
             custom_check!(any.data, header.constructed(), BerError::Unsupported)?; // XXX valid in BER (8.21)
-- 
2.43.0


From 81773f42e9429e5b14b8c6b3fbc2b170a794b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:05 +0000
Subject: [PATCH 21/26] fix: pretty-print implicitly tagged sequences as
 sequences

The type name was derived from the tag, so [1] IMPLICIT SEQUENCE was shown as a Set.
---
 src/ber/print.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..88f79a3 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -174,7 +174,8 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                let is_sequence = matches!(self.obj.content, BerObjectContent::Sequence(_));
+                let ty = if is_sequence { "Sequence" } else { "Set" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From bb905f93dd4a357677a68be0a8f1d845c834f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:56 +0000
Subject: [PATCH 22/26] fix: enforce MAX_OBJECT_SIZE in the per-type and
 content DER parsers

---
 src/der/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 8212faa..bce1324 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -493,6 +493,8 @@ pub fn der_read_element_content_as(
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
+    // safety check: length cannot be more than 2^32 bytes
+    custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
     if i.len() < l {
         return Err(Err::Incomplete(Needed::new(l)));
     }
-- 
2.43.0


From 760c1c4fa229d8d247a623af3f9d20b2f6c97767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 23/26] fix: refuse indefinite lengths in parse_der_implicit
 and parse_der_explicit_optional

Both delegated to the BER functions and accepted BER-only encodings.
---
 src/der/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index bce1324..798c164 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -314,7 +314,7 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit(tag, f))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -362,7 +362,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From 4b0f082f1e470921c8f477f04224c9f88cd01815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 24/26] fix: accept long relative identifiers in encode_oid

---
 der-oid-macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..693bcc8 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -66,10 +66,10 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let s = input.to_string();
 
-    let (rem, relative) = if s.starts_with("rel ") {
-        (&s[4..], true)
-    } else {
-        (s.as_ref(), false)
+    // long token streams are printed on several lines: any whitespace may follow "rel"
+    let (rem, relative) = match s.strip_prefix("rel") {
+        Some(rem) if rem.starts_with(char::is_whitespace) => (rem, true),
+        _ => (s.as_ref(), false),
     };
 
     let ints: Vec<num_bigint::BigUint> = rem
-- 
2.43.0


From 705435f98a5b482ee96a7dcd08fadfde128c7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 25/26] fix: pretty-print with an indentation above 65535
 without panicking

---
 src/ber/print.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 88f79a3..eb7689c 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -78,6 +78,18 @@ impl<'a> PrettyBer<'a> {
     }
 }
 
+/// Write `indent` spaces (formatting widths are limited to 16 bits)
+fn write_indent(f: &mut fmt::Formatter, indent: usize) -> fmt::Result {
+    const MAX_WIDTH: usize = u16::MAX as usize;
+    let mut rem = indent;
+    while rem > 0 {
+        let width = rem.min(MAX_WIDTH);
+        write!(f, "{:1$}", " ", width)?;
+        rem -= width;
+    }
+    Ok(())
+}
+
 fn dbg_header(header: &Header, f: &mut fmt::Formatter) -> fmt::Result {
     let s_constructed = if header.is_constructed() { "+" } else { "" };
     let l = match header.length() {
@@ -103,7 +115,7 @@ impl fmt::Debug for PrettyBer<'_> {
     #[rustfmt::skip]
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if self.indent > 0 {
-            write!(f, "{:1$}", " ", self.indent)?;
+            write_indent(f, self.indent)?;
         };
         if self.flags.contains(&PrettyPrinterFlag::ShowHeader) {
             dbg_header(&self.obj.header, f)?;
@@ -167,7 +179,7 @@ impl fmt::Debug for PrettyBer<'_> {
                 writeln!(f, "ContextSpecific [{} {}] {{", class, tag.0)?;
                 write!(f, "{:?}", self.next_indent(obj))?;
                 if self.indent > 0 {
-                    write!(f, "{:1$}", " ", self.indent)?;
+                    write_indent(f, self.indent)?;
                 };
                 write!(f, "}}")?;
                 Ok(())
@@ -182,7 +194,7 @@ impl fmt::Debug for PrettyBer<'_> {
                         write!(f, "{:?}", self.next_indent(o))?;
                     };
                     if self.indent > 0 {
-                        write!(f, "{:1$}", " ", self.indent)?;
+                        write_indent(f, self.indent)?;
                     };
                     write!(f, "]")?;
                 } else {
-- 
2.43.0


From 806bc5323e4721bc644ae37941b3feb18bfc1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 26/26] fix: pretty-printing shows the octets of BMP and
 universal strings that do not decode

Octets left over after the last complete character were silently dropped,
and an undecodable BMP string was shown as 'Err(..)' instead of its octets.
---
 src/ber/print.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index eb7689c..e6a5556 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -126,11 +126,10 @@ impl fmt::Debug for PrettyBer<'_> {
                 .chunks_exact(2)
                 .map(|a| u16::from_be_bytes([a[0], a[1]]))
                 .collect();
-            let s = String::from_utf16(&v);
 
-            match s {
-                Ok(s)  => writeln!(f, "{}(\"{}\")", ty, s),
-                Err(_) => writeln!(f, "{}({:?}) <error decoding utf32 string>", ty, s),
+            match String::from_utf16(&v) {
+                Ok(b) if s.len() % 2 == 0 => writeln!(f, "{}(\"{}\")", ty, b),
+                _ => writeln!(f, "{}({:?}) <error decoding utf16 string>", ty, s),
             }
         }
         fn print_utf32_string_with_type(f: &mut fmt::Formatter, s: &[u8], ty: &str) -> fmt::Result {
@@ -140,8 +139,8 @@ impl fmt::Debug for PrettyBer<'_> {
                 .collect();
 
             match chars {
-                Some(b)  => writeln!(f, "{}(\"{}\")", ty, String::from_iter(b)),
-                None => writeln!(f, "{}({:?}) <error decoding utf32 string>", ty, s),
+                Some(b) if s.len() % 4 == 0 => writeln!(f, "{}(\"{}\")", ty, String::from_iter(b)),
+                _ => writeln!(f, "{}({:?}) <error decoding utf32 string>", ty, s),
             }
         }
         match self.obj.content {
-- 
2.43.0

