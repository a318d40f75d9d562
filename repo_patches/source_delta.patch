From b709c8ae29e852fa77cc682bcaff09bfbb2ec2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 01/30] fix: report announced compound sizes smaller than the
 count field instead of underflowing

---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..832989a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From 031407e6e945f3947aa9739a50351b685809db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 02/30] fix: decode timestamps before 1970 to the instant they
 denote

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 832989a..e199db7 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -613,21 +613,9 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .earliest()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From 2389421da792f2e2340faf9ee1577341a34abbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 03/30] fix: accept the zero ulong form for descriptors

---
 codec/src/codec/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index e199db7..a12ce99 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -486,6 +486,7 @@ impl DecodeFormatted for Descriptor {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
             codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
+            codec::FORMATCODE_ULONG_0 => Ok(Descriptor::Ulong(0)),
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From cc0e1281aee48c4252f998956edd910820ae6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 04/30] fix: decode list and array elements only from the bytes
 their header announces

---
 codec/src/codec/decode.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index a12ce99..94d13be 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -263,7 +263,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut array_input = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut array_input)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -273,10 +274,10 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         };
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
         }
-        // todo: ensure header.size bytes were read out from input
+        // todo: ensure header.size bytes were read out from array_input
         Ok(result)
     }
 }
@@ -338,9 +339,11 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
         }
         Ok(List(result))
@@ -350,11 +353,13 @@ impl DecodeFormatted for List {
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
 
         let descr = T::descriptor();
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
-- 
2.43.0


From 8b091474af960d05ffec95167dfd8a9e95145cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 05/30] fix: never allocate for element counts the received
 bytes cannot hold

---
 codec/src/codec/decode.rs | 27 ++++++++++++++++++++-------
 codec/src/types/array.rs  |  3 ++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 94d13be..3a3e0e9 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -247,8 +247,8 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        // peer provided count is not trusted for allocation
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::default();
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
@@ -272,7 +272,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        check_array_count(&array_input, header.count)?;
+        let mut result: Vec<T> = Vec::new();
         for _ in 0..header.count {
             let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
@@ -288,7 +289,7 @@ impl DecodeFormatted for VecSymbolMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::new();
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -305,7 +306,7 @@ impl DecodeFormatted for VecStringMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::new();
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -341,7 +342,7 @@ impl DecodeFormatted for List {
         let header = ListHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut list_input = input.split_to(header.size as usize);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::new();
         for _ in 0..header.count {
             let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
@@ -357,7 +358,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
         let mut list_input = input.split_to(header.size as usize);
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::new();
         for _ in 0..header.count {
             if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
@@ -618,6 +619,18 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     Ok((size, count))
 }
 
+/// Checks announced number of array elements against number of bytes available.
+///
+/// Elements of zero width (nulls, `true`, zero integers) do not occupy any bytes, up to 255 of
+/// them are allowed.
+pub(crate) fn check_array_count(input: &Bytes, count: u32) -> Result<(), AmqpParseError> {
+    if count as usize > std::cmp::max(input.len(), u8::MAX as usize) {
+        Err(AmqpParseError::InvalidSize)
+    } else {
+        Ok(())
+    }
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     Utc.timestamp_millis_opt(millis)
         .earliest()
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..886f508 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -39,7 +39,8 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        codec::decode::check_array_count(&buf, self.count)?;
+        let mut result: Vec<T> = Vec::new();
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
-- 
2.43.0


From 985fc0e6732f8d229c3de17ed5fe7f589532cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 06/30] fix: limit nesting of decoded values instead of
 overflowing the stack

---
 codec/src/codec/decode.rs | 63 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 3a3e0e9..fc0d905 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -339,18 +339,39 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = ListHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut list_input = input.split_to(header.size as usize);
-        let mut result: Vec<Variant> = Vec::new();
-        for _ in 0..header.count {
-            let decoded = Variant::decode(&mut list_input)?;
-            result.push(decoded);
-        }
-        Ok(List(result))
+        decode_list(input, fmt, 0)
     }
 }
 
+fn decode_list(input: &mut Bytes, fmt: u8, depth: usize) -> Result<List, AmqpParseError> {
+    let header = ListHeader::decode_with_format(input, fmt)?;
+    decode_check_len!(input, header.size as usize);
+    let mut list_input = input.split_to(header.size as usize);
+    let mut result: Vec<Variant> = Vec::new();
+    for _ in 0..header.count {
+        let decoded = decode_variant(&mut list_input, depth)?;
+        result.push(decoded);
+    }
+    Ok(List(result))
+}
+
+fn decode_variant_map(
+    input: &mut Bytes,
+    fmt: u8,
+    depth: usize,
+) -> Result<VariantMap, AmqpParseError> {
+    let header = MapHeader::decode_with_format(input, fmt)?;
+    decode_check_len!(input, header.size as usize);
+    let mut map_input = input.split_to(header.size as usize);
+    let mut map = HashMap::default();
+    for _ in 0..header.count / 2 {
+        let key = decode_variant(&mut map_input, depth)?;
+        let value = decode_variant(&mut map_input, depth)?;
+        map.insert(key, value);
+    }
+    Ok(VariantMap::new(map))
+}
+
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
@@ -376,6 +397,23 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
 
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        Variant::decode_nested(input, fmt, 0)
+    }
+}
+
+/// Max nesting of lists, maps and described values
+const MAX_NESTING: usize = 128;
+
+fn decode_variant(input: &mut Bytes, depth: usize) -> Result<Variant, AmqpParseError> {
+    let fmt = codec::decode_format_code(input)?;
+    Variant::decode_nested(input, fmt, depth)
+}
+
+impl Variant {
+    fn decode_nested(input: &mut Bytes, fmt: u8, depth: usize) -> Result<Self, AmqpParseError> {
+        if depth > MAX_NESTING {
+            return Err(AmqpParseError::UnexpectedType("Nesting is too deep"));
+        }
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
@@ -420,14 +458,13 @@ impl DecodeFormatted for Variant {
             }
             codec::FORMATCODE_LIST0 => Ok(Variant::List(List(vec![]))),
             codec::FORMATCODE_LIST8 | codec::FORMATCODE_LIST32 => {
-                List::decode_with_format(input, fmt).map(Variant::List)
+                decode_list(input, fmt, depth + 1).map(Variant::List)
             }
             codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {
                 Array::decode_with_format(input, fmt).map(Variant::Array)
             }
             codec::FORMATCODE_MAP8 | codec::FORMATCODE_MAP32 => {
-                HashMap::<Variant, Variant>::decode_with_format(input, fmt)
-                    .map(|o| Variant::Map(VariantMap::new(o)))
+                decode_variant_map(input, fmt, depth + 1).map(Variant::Map)
             }
             codec::FORMATCODE_DESCRIBED => {
                 let descriptor = Descriptor::decode(input)?;
@@ -466,7 +503,7 @@ impl DecodeFormatted for Variant {
                     }
                     _ => {
                         input.advance(1); // advance past format code
-                        let value = Variant::decode_with_format(input, format_code)?;
+                        let value = Variant::decode_nested(input, format_code, depth + 1)?;
                         Ok(Variant::Described((descriptor, Box::new(value))))
                     }
                 }
-- 
2.43.0


From 2931da158c1ae758be90f9e8cda8a6d7043e4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:07 +0000
Subject: [PATCH 07/30] fix: hash maps used as map keys instead of panicking

---
 codec/src/types/variant.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..121fab5 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,4 +1,4 @@
-use std::hash::{Hash, Hasher};
+use std::hash::{DefaultHasher, Hash, Hasher};
 
 use chrono::{DateTime, Utc};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -253,8 +253,18 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // order of entries is not significant, so hashes of entries are combined
+        // with commutative operation
+        let mut sum = 0u64;
+        for (key, value) in &self.map {
+            let mut hasher = DefaultHasher::new();
+            key.hash(&mut hasher);
+            value.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        state.write_usize(self.map.len());
+        state.write_u64(sum);
     }
 }
 
-- 
2.43.0


From 7e7c61b1a9a99dba3d76501b5dc3757af717af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 08/30] fix: compute the size of a message from its current
 content

---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From 415346f6585b97408c5661756e535a9a1646bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 09/30] fix: encode arrays of more than 255 elements with a 32
 bit count

---
 codec/src/types/array.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 886f508..b84a64a 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -31,6 +31,11 @@ impl Array {
         }
     }
 
+    /// Both size and count have to fit into one byte for array8
+    fn is_array32(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u32::from(u8::MAX)
+    }
+
     pub fn element_constructor(&self) -> &Constructor {
         &self.element_constructor
     }
@@ -61,7 +66,7 @@ where
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_array32(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -72,7 +77,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_array32(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From 1a7d2310e21a8da79325bb957aee50f59aceb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 10/30] fix: process control frames in the order they arrived

---
 src/dispatcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..24e35f2 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,8 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            // keep order of control frames
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 24f48dd68dfbeff7effe8006aabeb34e8ca40b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:06 +0000
Subject: [PATCH 11/30] fix: compute link credit and session window from flow
 frames with serial arithmetic

---
 src/session.rs | 16 ++++++++++++----
 src/sndlink.rs | 15 +++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..e7b7616 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -256,6 +256,11 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
+/// Distance of serial numbers (RFC 1982), `0` if the peer is ahead
+pub(crate) fn serial_distance(diff: u32) -> u32 {
+    if diff > i32::MAX as u32 { 0 } else { diff }
+}
+
 impl SenderLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, SenderLinkState::Opening(_))
@@ -1130,11 +1135,14 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
+        // transfers the remote peer does not know about yet
+        let in_flight = self.next_outgoing_id.wrapping_sub(
+            flow.next_incoming_id()
+                .unwrap_or(INITIAL_NEXT_OUTGOING_ID),
+        );
         self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+            .incoming_window()
+            .saturating_sub(serial_distance(in_flight));
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..6e3998a 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -9,7 +9,7 @@ use ntex_util::channel::{condition, oneshot, pool};
 use ntex_util::future::{Either, Ready};
 
 use crate::delivery::TransferBuilder;
-use crate::session::{Session, SessionInner};
+use crate::session::{Session, SessionInner, serial_distance};
 use crate::{Handle, cell::Cell, error::AmqpProtocolError};
 
 #[derive(Clone)]
@@ -23,6 +23,7 @@ pub(crate) struct SenderLinkInner {
     pub(crate) session: Session,
     remote_handle: Handle,
     delivery_count: SequenceNo,
+    initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
     pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
@@ -189,6 +190,7 @@ impl SenderLinkInner {
             name,
             delivery_count,
             max_message_size,
+            initial_delivery_count: delivery_count,
             session: Session::new(session),
             remote_handle: handle,
             link_credit: 0,
@@ -292,11 +294,12 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // deliveries the receiver does not know about yet
+            let in_flight = self.delivery_count.wrapping_sub(
+                flow.delivery_count()
+                    .unwrap_or(self.initial_delivery_count),
+            );
+            let new_credit = credit.saturating_sub(serial_distance(in_flight));
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From d10bdc08a1ac256149ca79563c93a9e75420a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 12/30] fix: keep waiting transfers in order and fail them when
 the link is detached

---
 src/session.rs | 168 ++++++++++++++++++++++++++++++++++++-------------
 src/sndlink.rs |  73 +++++++--------------
 2 files changed, 146 insertions(+), 95 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e7b7616..33f4d40 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -47,6 +47,7 @@ pub(crate) struct SessionInner {
     closed: condition::Condition,
 
     pending_transfers: VecDeque<PendingTransfer>,
+    next_transfer_slot: usize,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
 
@@ -284,10 +285,80 @@ bitflags::bitflags! {
 
 #[derive(Debug)]
 struct PendingTransfer {
-    tx: pool::Sender<Result<(), AmqpProtocolError>>,
+    id: usize,
+    tx: Option<pool::Sender<Result<(), AmqpProtocolError>>>,
     link_handle: Handle,
 }
 
+/// Place in the queue of transfers, it is released on drop
+pub(crate) struct TransferSlot {
+    id: usize,
+    session: Cell<SessionInner>,
+}
+
+impl TransferSlot {
+    pub(crate) fn new(session: &Cell<SessionInner>, link_handle: Handle) -> Self {
+        let inner = session.get_mut();
+        let id = inner.next_transfer_slot;
+        inner.next_transfer_slot = id.wrapping_add(1);
+        inner.pending_transfers.push_back(PendingTransfer {
+            id,
+            link_handle,
+            tx: None,
+        });
+
+        TransferSlot {
+            id,
+            session: session.clone(),
+        }
+    }
+
+    /// Wait for link credit, remote window and preceding transfers
+    pub(crate) async fn ready(&self) -> Result<(), AmqpProtocolError> {
+        while self.session.get_ref().next_transfer() != Some(self.id) {
+            let rx = {
+                let inner = self.session.get_mut();
+                log::trace!(
+                    "{}: Transfer has to wait, window: {}, queue size: {}",
+                    inner.sink.tag(),
+                    inner.remote_incoming_window,
+                    inner.pending_transfers.len()
+                );
+
+                let (tx, rx) = inner.pool_credit.channel();
+                let Some(item) = inner
+                    .pending_transfers
+                    .iter_mut()
+                    .find(|item| item.id == self.id)
+                else {
+                    // link is detached
+                    return Err(AmqpProtocolError::Disconnected);
+                };
+                item.tx = Some(tx);
+                rx
+            };
+            rx.await
+                .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                .and_then(|v| v)?;
+        }
+        Ok(())
+    }
+}
+
+impl Drop for TransferSlot {
+    fn drop(&mut self) {
+        let inner = self.session.get_mut();
+        if let Some(idx) = inner
+            .pending_transfers
+            .iter()
+            .position(|item| item.id == self.id)
+        {
+            inner.pending_transfers.remove(idx);
+        }
+        inner.wake_next_transfer();
+    }
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -308,6 +379,7 @@ impl SessionInner {
             links_by_name: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
+            next_transfer_slot: 0,
             error: None,
             pool_notify: pool::new(),
             pool_credit: pool::new(),
@@ -347,8 +419,8 @@ impl SessionInner {
         );
 
         // drop pending transfers
-        for tr in self.pending_transfers.drain(..) {
-            let _ = tr.tx.send(Err(err.clone()));
+        for tx in self.pending_transfers.drain(..).filter_map(|tr| tr.tx) {
+            let _ = tx.send(Err(err.clone()));
         }
 
         // drop unsettled deliveries
@@ -525,6 +597,7 @@ impl SessionInner {
                     }));
 
                     *link = SenderLinkState::Closing(Some(tx));
+                    self.drop_pending_transfers(id, &AmqpProtocolError::Disconnected);
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -980,18 +1053,6 @@ impl SessionInner {
                         // remove name
                         self.links_by_name.remove(link.inner.name());
 
-                        // drop pending transfers
-                        let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
-
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
@@ -1001,10 +1062,11 @@ impl SessionInner {
                         }
 
                         // detach snd link
-                        link.inner.get_mut().remote_detached(err);
+                        link.inner.get_mut().remote_detached(err.clone());
                         self.sink
                             .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
                         action = Action::DetachSender(link.clone(), frame);
+                        self.drop_pending_transfers(handle, &err);
                         true
                     }
                     SenderLinkState::OpeningRemote => {
@@ -1136,10 +1198,9 @@ impl SessionInner {
         self.remote_outgoing_window = flow.outgoing_window();
 
         // transfers the remote peer does not know about yet
-        let in_flight = self.next_outgoing_id.wrapping_sub(
-            flow.next_incoming_id()
-                .unwrap_or(INITIAL_NEXT_OUTGOING_ID),
-        );
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
         self.remote_incoming_window = flow
             .incoming_window()
             .saturating_sub(serial_distance(in_flight));
@@ -1152,10 +1213,6 @@ impl SessionInner {
             self.pending_transfers.len(),
         );
 
-        while let Some(tr) = self.pending_transfers.pop_front() {
-            let _ = tr.tx.send(Ok(()));
-        }
-
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
                 next_incoming_id: if self.flags.contains(Flags::LOCAL) {
@@ -1181,6 +1238,45 @@ impl SessionInner {
         if let Some(link) = link {
             link.inner.get_mut().apply_flow(flow);
         }
+
+        self.wake_next_transfer();
+    }
+
+    /// First transfer that can be sent
+    fn next_transfer(&self) -> Option<usize> {
+        if self.remote_incoming_window == 0 {
+            return None;
+        }
+        self.pending_transfers
+            .iter()
+            .find(|tr| {
+                self.get_sender_link_by_local_handle(tr.link_handle)
+                    .is_some_and(|link| link.inner.get_ref().link_credit() > 0)
+            })
+            .map(|tr| tr.id)
+    }
+
+    fn wake_next_transfer(&mut self) {
+        if let Some(id) = self.next_transfer()
+            && let Some(tr) = self.pending_transfers.iter_mut().find(|tr| tr.id == id)
+            && let Some(tx) = tr.tx.take()
+        {
+            let _ = tx.send(Ok(()));
+        }
+    }
+
+    /// Fail transfers that wait on the link
+    fn drop_pending_transfers(&mut self, link_handle: Handle, err: &AmqpProtocolError) {
+        self.pending_transfers.retain_mut(|tr| {
+            if tr.link_handle == link_handle {
+                if let Some(tx) = tr.tx.take() {
+                    let _ = tx.send(Err(err.clone()));
+                }
+                false
+            } else {
+                true
+            }
+        });
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
@@ -1201,32 +1297,14 @@ impl SessionInner {
     }
 
     #[allow(clippy::too_many_lines)]
-    pub(crate) async fn send_transfer(
+    pub(crate) fn send_transfer(
         &mut self,
         link_handle: Handle,
         tag: Bytes,
         body: TransferBody,
         settled: bool,
         format: Option<MessageFormat>,
-    ) -> Result<DeliveryNumber, AmqpProtocolError> {
-        loop {
-            if self.remote_incoming_window == 0 {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
-            }
-            break;
-        }
-
+    ) -> DeliveryNumber {
         self.remote_incoming_window -= 1;
 
         let delivery_id = self.next_outgoing_id;
@@ -1334,7 +1412,7 @@ impl SessionInner {
             self.post_frame(Frame::Transfer(transfer));
         }
 
-        Ok(delivery_id)
+        delivery_id
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 6e3998a..fda53f8 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -1,15 +1,15 @@
-use std::{collections::VecDeque, future::Future};
+use std::future::Future;
 
 use ntex_amqp_codec::protocol::{
     self as codec, Attach, DeliveryNumber, Error, Flow, MessageFormat, ReceiverSettleMode, Role,
     SenderSettleMode, SequenceNo, Target, TerminusDurability, TerminusExpiryPolicy, TransferBody,
 };
 use ntex_bytes::{BufMut, ByteString, Bytes};
-use ntex_util::channel::{condition, oneshot, pool};
+use ntex_util::channel::{condition, oneshot};
 use ntex_util::future::{Either, Ready};
 
 use crate::delivery::TransferBuilder;
-use crate::session::{Session, SessionInner, serial_distance};
+use crate::session::{Session, SessionInner, TransferSlot, serial_distance};
 use crate::{Handle, cell::Cell, error::AmqpProtocolError};
 
 #[derive(Clone)]
@@ -26,7 +26,6 @@ pub(crate) struct SenderLinkInner {
     initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
-    pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
@@ -194,7 +193,6 @@ impl SenderLinkInner {
             session: Session::new(session),
             remote_handle: handle,
             link_credit: 0,
-            pending_transfers: VecDeque::new(),
             error: None,
             closed: false,
             delivery_tag: 0,
@@ -232,14 +230,14 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
 
+    pub(crate) fn link_credit(&self) -> u32 {
+        self.link_credit
+    }
+
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
@@ -252,11 +250,6 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
-
         self.closed = true;
         self.error = Some(err);
         self.on_close.notify_and_lock_readiness();
@@ -295,30 +288,23 @@ impl SenderLinkInner {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
             // deliveries the receiver does not know about yet
-            let in_flight = self.delivery_count.wrapping_sub(
-                flow.delivery_count()
-                    .unwrap_or(self.initial_delivery_count),
-            );
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(self.initial_delivery_count));
             let new_credit = credit.saturating_sub(serial_distance(in_flight));
 
             log::trace!(
-                "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
+                "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, old credit {:?}",
                 self.session.tag(),
                 self.name,
                 new_credit,
                 flow.delivery_count().unwrap_or(0),
                 self.delivery_count,
-                self.pending_transfers.len(),
                 self.link_credit
             );
 
             self.link_credit = new_credit;
 
-            // credit became available => drain pending_transfers
-            while let Some(tx) = self.pending_transfers.pop_front() {
-                let _ = tx.send(Ok(()));
-            }
-
             // notify available credit waiters
             if self.link_credit > 0 {
                 self.on_credit.notify();
@@ -339,36 +325,23 @@ impl SenderLinkInner {
             let body = body.into();
             let tag = self.get_tag(tag);
 
-            loop {
-                if self.link_credit == 0 || !self.pending_transfers.is_empty() {
-                    log::trace!(
-                        "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
-                        self.session.tag(),
-                        self.link_credit,
-                        self.name,
-                        self.id,
-                        self.remote_handle,
-                        self.pending_transfers.len()
-                    );
-                    let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
-                    self.pending_transfers.push_back(tx);
-                    rx.await
-                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                        .and_then(|v| v)?;
-                    continue;
-                }
-                break;
+            // wait for link credit and remote window
+            let slot = TransferSlot::new(&self.session.inner, self.id());
+            if let Err(err) = slot.ready().await {
+                return Err(self.error.clone().unwrap_or(err));
             }
 
             // reduce link credit
             self.link_credit -= 1;
             self.delivery_count = self.delivery_count.wrapping_add(1);
-            let id = self
-                .session
-                .inner
-                .get_mut()
-                .send_transfer(self.id as u32, tag.clone(), body, settled, format)
-                .await?;
+            let id = self.session.inner.get_mut().send_transfer(
+                self.id(),
+                tag.clone(),
+                body,
+                settled,
+                format,
+            );
+            drop(slot);
 
             Ok((id, tag))
         }
-- 
2.43.0


From 50071f629b5616b81fcc4fc71409ed7add5585a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 13/30] fix: count every transfer frame against the session
 window

---
 src/session.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 33f4d40..913f60c 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -32,6 +32,7 @@ pub(crate) struct SessionInner {
     id: usize,
     sink: ConnectionRef,
     next_outgoing_id: TransferNumber,
+    next_delivery_id: DeliveryNumber,
     flags: Flags,
     begin: Begin,
 
@@ -48,6 +49,7 @@ pub(crate) struct SessionInner {
 
     pending_transfers: VecDeque<PendingTransfer>,
     next_transfer_slot: usize,
+    deferred_transfers: VecDeque<Transfer>,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
 
@@ -373,6 +375,7 @@ impl SessionInner {
             remote_outgoing_window: begin.outgoing_window(),
             flags: if local { Flags::LOCAL } else { Flags::empty() },
             next_outgoing_id: INITIAL_NEXT_OUTGOING_ID,
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
             unsettled_snd_deliveries: HashMap::default(),
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
@@ -380,6 +383,7 @@ impl SessionInner {
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             next_transfer_slot: 0,
+            deferred_transfers: VecDeque::new(),
             error: None,
             pool_notify: pool::new(),
             pool_credit: pool::new(),
@@ -419,6 +423,7 @@ impl SessionInner {
         );
 
         // drop pending transfers
+        self.deferred_transfers.clear();
         for tx in self.pending_transfers.drain(..).filter_map(|tr| tr.tx) {
             let _ = tx.send(Err(err.clone()));
         }
@@ -1204,6 +1209,7 @@ impl SessionInner {
         self.remote_incoming_window = flow
             .incoming_window()
             .saturating_sub(serial_distance(in_flight));
+        self.post_deferred_transfers();
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
@@ -1244,7 +1250,7 @@ impl SessionInner {
 
     /// First transfer that can be sent
     fn next_transfer(&self) -> Option<usize> {
-        if self.remote_incoming_window == 0 {
+        if self.remote_incoming_window == 0 || !self.deferred_transfers.is_empty() {
             return None;
         }
         self.pending_transfers
@@ -1267,6 +1273,8 @@ impl SessionInner {
 
     /// Fail transfers that wait on the link
     fn drop_pending_transfers(&mut self, link_handle: Handle, err: &AmqpProtocolError) {
+        self.deferred_transfers
+            .retain(|tr| tr.handle() != link_handle);
         self.pending_transfers.retain_mut(|tr| {
             if tr.link_handle == link_handle {
                 if let Some(tx) = tr.tx.take() {
@@ -1277,6 +1285,7 @@ impl SessionInner {
                 true
             }
         });
+        self.wake_next_transfer();
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
@@ -1305,10 +1314,8 @@ impl SessionInner {
         settled: bool,
         format: Option<MessageFormat>,
     ) -> DeliveryNumber {
-        self.remote_incoming_window -= 1;
-
-        let delivery_id = self.next_outgoing_id;
-        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        let delivery_id = self.next_delivery_id;
+        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
         let tr_settled = if settled {
             Some(DeliveryState::Accepted(Accepted {}))
@@ -1374,7 +1381,7 @@ impl SessionInner {
                 transfer.batchable(),
                 transfer.settled(),
             );
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
 
             loop {
                 // last chunk
@@ -1392,7 +1399,7 @@ impl SessionInner {
                 transfer.0.more = !body.is_empty();
                 transfer.0.batchable = true;
                 transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
+                self.post_transfer(transfer);
             }
         } else {
             let mut transfer = Transfer(Box::default());
@@ -1409,12 +1416,28 @@ impl SessionInner {
                 self.unsettled_snd_deliveries
                     .insert(delivery_id, DeliveryInner::new(link_handle));
             }
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
         }
 
         delivery_id
     }
 
+    /// Post transfer frame, it waits if remote window is closed
+    fn post_transfer(&mut self, transfer: Transfer) {
+        self.deferred_transfers.push_back(transfer);
+        self.post_deferred_transfers();
+    }
+
+    fn post_deferred_transfers(&mut self) {
+        while self.remote_incoming_window > 0
+            && let Some(transfer) = self.deferred_transfers.pop_front()
+        {
+            self.remote_incoming_window -= 1;
+            self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+            self.post_frame(Frame::Transfer(transfer));
+        }
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
-- 
2.43.0


From a885e5d97da920af19a1745cdfafb9fb21972594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 14/30] fix: never exceed the peer's maximum frame size with
 transfer frames

---
 src/session.rs | 135 ++++++++++++++++++++++---------------------------
 src/sndlink.rs |   9 ++--
 2 files changed, 66 insertions(+), 78 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 913f60c..1b25ddb 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -264,6 +264,11 @@ pub(crate) fn serial_distance(diff: u32) -> u32 {
     if diff > i32::MAX as u32 { 0 } else { diff }
 }
 
+/// Size of the frame without payload
+fn transfer_frame_size(transfer: &Transfer) -> usize {
+    AmqpFrame::new(0, Frame::Transfer(transfer.clone())).encoded_size()
+}
+
 impl SenderLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, SenderLinkState::Opening(_))
@@ -1305,7 +1310,6 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
-    #[allow(clippy::too_many_lines)]
     pub(crate) fn send_transfer(
         &mut self,
         link_handle: Handle,
@@ -1313,32 +1317,40 @@ impl SessionInner {
         body: TransferBody,
         settled: bool,
         format: Option<MessageFormat>,
-    ) -> DeliveryNumber {
+    ) -> Result<DeliveryNumber, AmqpProtocolError> {
         let delivery_id = self.next_delivery_id;
-        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
-
-        let tr_settled = if settled {
-            Some(DeliveryState::Accepted(Accepted {}))
-        } else {
-            None
+        let max_frame_size = match self.max_frame_size() {
+            0 => usize::MAX,
+            size => size as usize,
         };
-        let message_format = if format.is_none() {
+
+        let mut transfer = Transfer(Box::default());
+        transfer.0.handle = link_handle;
+        transfer.0.delivery_id = Some(delivery_id);
+        transfer.0.delivery_tag = Some(tag);
+        transfer.0.message_format = if format.is_none() {
             body.message_format()
         } else {
             format
         };
+        if settled {
+            transfer.0.state = Some(DeliveryState::Accepted(Accepted {}));
+            transfer.0.settled = Some(true);
+        }
 
-        let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
-            u32::MAX
+        let mut rest = None;
+        if body.len() <= max_frame_size.saturating_sub(transfer_frame_size(&transfer)) {
+            transfer.0.body = Some(body);
         } else {
-            max_frame_size
-        } as usize;
+            // body is larger than allowed frame size, send body as a set of transfers
+            transfer.0.more = true;
+            transfer.0.batchable = true;
+
+            let chunk_size = max_frame_size.saturating_sub(transfer_frame_size(&transfer));
+            if chunk_size == 0 {
+                return Err(AmqpProtocolError::BodyTooLarge);
+            }
 
-        // body is larger than allowed frame size, send body as a set of transfers
-        if body.len() > max_frame_size {
             let mut body = match body {
                 TransferBody::Data(data) => data,
                 TransferBody::Message(msg) => {
@@ -1351,75 +1363,50 @@ impl SessionInner {
                     buf.freeze()
                 }
             };
+            let chunk = body.split_to(cmp::min(chunk_size, body.len()));
+            transfer.0.body = Some(TransferBody::Data(chunk));
+            rest = Some(body);
+        }
 
-            let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
+        self.next_delivery_id = delivery_id.wrapping_add(1);
+        if !settled {
+            self.unsettled_snd_deliveries
+                .insert(delivery_id, DeliveryInner::new(link_handle));
+        }
+
+        log::trace!(
+            "{}: Sending transfer over handle {link_handle}. window: {} delivery_id: {:?} delivery_tag: {:?}, more: {:?}, batchable: {:?}, settled: {:?}",
+            self.sink.tag(),
+            self.remote_incoming_window,
+            transfer.delivery_id(),
+            transfer.delivery_tag(),
+            transfer.more(),
+            transfer.batchable(),
+            transfer.settled(),
+        );
+        let message_format = transfer.0.message_format;
+        self.post_transfer(transfer);
 
+        while let Some(mut body) = rest.take() {
             let mut transfer = Transfer(Box::default());
             transfer.0.handle = link_handle;
-            transfer.0.body = Some(TransferBody::Data(chunk));
             transfer.0.more = true;
-            transfer.0.state = tr_settled;
             transfer.0.batchable = true;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag.clone());
             transfer.0.message_format = message_format;
 
-            if settled {
-                transfer.0.settled = Some(true);
-            } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
-            }
-
-            log::trace!(
-                "{}: Sending transfer over handle {link_handle}. window: {} delivery_id: {:?} delivery_tag: {:?}, more: {:?}, batchable: {:?}, settled: {:?}",
-                self.sink.tag(),
-                self.remote_incoming_window,
-                transfer.delivery_id(),
-                transfer.delivery_tag(),
-                transfer.more(),
-                transfer.batchable(),
-                transfer.settled(),
-            );
+            let chunk_size = max_frame_size.saturating_sub(transfer_frame_size(&transfer));
+            let chunk = body.split_to(cmp::min(chunk_size, body.len()));
+            transfer.0.more = !body.is_empty();
+            transfer.0.body = Some(TransferBody::Data(chunk));
+            log::trace!("{}: Sending chunk tranfer for {delivery_id}", self.tag());
             self.post_transfer(transfer);
 
-            loop {
-                // last chunk
-                if body.is_empty() {
-                    log::trace!("{}: Last tranfer for {tag:?} is sent", self.tag());
-                    break;
-                }
-
-                let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
-
-                log::trace!("{}: Sending chunk tranfer for {tag:?}", self.tag());
-                let mut transfer = Transfer(Box::default());
-                transfer.0.handle = link_handle;
-                transfer.0.body = Some(TransferBody::Data(chunk));
-                transfer.0.more = !body.is_empty();
-                transfer.0.batchable = true;
-                transfer.0.message_format = message_format;
-                self.post_transfer(transfer);
+            if !body.is_empty() {
+                rest = Some(body);
             }
-        } else {
-            let mut transfer = Transfer(Box::default());
-            transfer.0.handle = link_handle;
-            transfer.0.body = Some(body);
-            transfer.0.state = tr_settled;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag);
-            transfer.0.message_format = message_format;
-
-            if settled {
-                transfer.0.settled = Some(true);
-            } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
-            }
-            self.post_transfer(transfer);
         }
 
-        delivery_id
+        Ok(delivery_id)
     }
 
     /// Post transfer frame, it waits if remote window is closed
diff --git a/src/sndlink.rs b/src/sndlink.rs
index fda53f8..fa885b3 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -331,16 +331,17 @@ impl SenderLinkInner {
                 return Err(self.error.clone().unwrap_or(err));
             }
 
-            // reduce link credit
-            self.link_credit -= 1;
-            self.delivery_count = self.delivery_count.wrapping_add(1);
             let id = self.session.inner.get_mut().send_transfer(
                 self.id(),
                 tag.clone(),
                 body,
                 settled,
                 format,
-            );
+            )?;
+
+            // reduce link credit
+            self.link_credit -= 1;
+            self.delivery_count = self.delivery_count.wrapping_add(1);
             drop(slot);
 
             Ok((id, tag))
-- 
2.43.0


From b234e6536f4cc36350265e67ae2ceccff6c46549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 15/30] fix: announce the total credit and the state the peer's
 attach and transfers define

---
 src/rcvlink.rs | 14 ++++++++++----
 src/session.rs |  5 +++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..6d23129 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -250,6 +250,12 @@ impl ReceiverLinkInner {
         self.reader_task.wake();
     }
 
+    /// Remote peer confirmed the link
+    pub(crate) fn remote_attached(&mut self, attach: &Attach) {
+        self.remote_handle = attach.handle();
+        self.delivery_count = attach.initial_delivery_count().unwrap_or(0);
+    }
+
     pub(crate) fn id(&self) -> Handle {
         self.handle
     }
@@ -290,11 +296,11 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
             .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, credit);
+            .rcv_link_flow(self.handle, self.delivery_count, self.credit);
     }
 
     #[allow(clippy::unnecessary_unwrap)]
@@ -356,7 +362,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -423,7 +429,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
diff --git a/src/session.rs b/src/session.rs
index 1b25ddb..990e0ae 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -898,6 +898,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -931,8 +933,6 @@ impl SessionInner {
                                     )))
                                 }
                                 ReceiverLinkState::Established(link) => {
-                                    // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -1000,6 +1000,7 @@ impl SessionInner {
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
                                 self.remote_handles.insert(attach.handle(), *index);
+                                link.get_mut().remote_attached(attach);
 
                                 *item = ReceiverLinkState::Established(
                                     EstablishedReceiverLink::new(link.clone()),
-- 
2.43.0


From a47ab47a1870c326abc386eb11eefeb0ddf359dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 16/30] fix: apply the announced maximum message size to every
 delivery

---
 src/rcvlink.rs | 42 ++++++++++++++++++++++++++++++++----------
 src/session.rs |  9 +++------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 6d23129..555bd1d 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -246,6 +246,26 @@ impl ReceiverLinkInner {
         }
     }
 
+    /// Use announced message size limit
+    pub(crate) fn local_limits(mut self, frame: &Attach) -> Self {
+        self.max_message_size = frame.max_message_size().unwrap_or(0);
+        self
+    }
+
+    fn exceeds_limit(&self, size: usize) -> bool {
+        self.max_message_size != 0 && size as u64 > self.max_message_size
+    }
+
+    fn detach_on_size_exceeded(&mut self) -> Action {
+        let err = Error(Box::new(codec::ErrorInner {
+            condition: LinkError::MessageSizeExceeded.into(),
+            description: None,
+            info: None,
+        }));
+        let _ = self.close(Some(err));
+        Action::None
+    }
+
     fn wake(&self) {
         self.reader_task.wake();
     }
@@ -324,7 +344,7 @@ impl ReceiverLinkInner {
             }
 
             // handle batched transfer
-            if let Some(ref mut body) = self.partial_body {
+            if let Some(ref body) = self.partial_body {
                 if transfer.0.delivery_id.is_some() {
                     // if delivery_id is set, then it should be equal to first transfer
                     if self
@@ -344,17 +364,14 @@ impl ReceiverLinkInner {
 
                 // merge transfer data and check size
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
+                    let size = body.len() + transfer_body.len();
+                    if self.exceeds_limit(size) {
+                        return self.detach_on_size_exceeded();
                     }
 
-                    transfer_body.encode(body);
+                    if let Some(ref mut body) = self.partial_body {
+                        transfer_body.encode(body);
+                    }
                 }
 
                 if transfer.more() {
@@ -384,6 +401,11 @@ impl ReceiverLinkInner {
                         Action::None
                     }
                 }
+            } else if transfer
+                .body()
+                .is_some_and(|body| self.exceeds_limit(body.len()))
+            {
+                self.detach_on_size_exceeded()
             } else if transfer.more() {
                 // handle first transfer in batch
                 if let Some(id) = transfer.delivery_id() {
diff --git a/src/session.rs b/src/session.rs
index 990e0ae..b689be0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -743,12 +743,9 @@ impl SessionInner {
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
-        let inner = Cell::new(ReceiverLinkInner::new(
-            cell,
-            token as u32,
-            token as u32,
-            &frame,
-        ));
+        let inner = Cell::new(
+            ReceiverLinkInner::new(cell, token as u32, token as u32, &frame).local_limits(&frame),
+        );
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
-- 
2.43.0


From 8c2c6a56d9cb8d596a180acc74551658c8818644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:36 +0000
Subject: [PATCH 17/30] fix: discard aborted deliveries and refuse
 contradicting delivery tags

---
 src/delivery.rs | 10 ++++++++++
 src/rcvlink.rs  | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..bd2a44a 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -90,6 +90,16 @@ impl Delivery {
         self.is_set(Flags::REMOTE_SETTLED)
     }
 
+    /// Delivery is settled by the sender's transfer
+    pub(crate) fn remote_settled(&self) {
+        self.set_flag(Flags::LOCAL_SETTLED);
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_rcv_deliveries
+            .remove(&self.id);
+    }
+
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
         if self.is_set(Flags::REMOTE_SETTLED) {
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 555bd1d..07f5c25 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -339,7 +339,7 @@ impl ReceiverLinkInner {
             let _ = self.close(Some(err));
             Action::None
         } else {
-            if !transfer.0.more {
+            if !transfer.0.more || transfer.0.aborted {
                 self.credit -= 1;
             }
 
@@ -362,6 +362,39 @@ impl ReceiverLinkInner {
                     }
                 }
 
+                // delivery_tag can not change as well
+                if transfer.delivery_tag().is_some()
+                    && self.queue.back().is_some_and(|back| {
+                        back.1.delivery_tag().is_some()
+                            && back.1.delivery_tag() != transfer.delivery_tag()
+                    })
+                {
+                    let err = Error(Box::new(codec::ErrorInner {
+                        condition: LinkError::DetachForced.into(),
+                        description: Some(ByteString::from_static("delivery_tag is wrong")),
+                        info: None,
+                    }));
+                    let _ = self.close(Some(err));
+                    return Action::None;
+                }
+
+                // aborted delivery is settled, payload must be ignored
+                if transfer.aborted() {
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
+                    self.partial_body = None;
+                    if let Some((delivery, _)) = self.queue.pop_back() {
+                        delivery.remote_settled();
+                    }
+                    return Action::None;
+                }
+
+                if transfer.settled().unwrap_or_default()
+                    && let Some(back) = self.queue.back_mut()
+                {
+                    back.0.remote_settled();
+                    back.1.0.settled = Some(true);
+                }
+
                 // merge transfer data and check size
                 if let Some(transfer_body) = transfer.0.body.take() {
                     let size = body.len() + transfer_body.len();
@@ -401,6 +434,9 @@ impl ReceiverLinkInner {
                         Action::None
                     }
                 }
+            } else if transfer.aborted() {
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+                Action::None
             } else if transfer
                 .body()
                 .is_some_and(|body| self.exceeds_limit(body.len()))
-- 
2.43.0


From 25e3f8eabf6c16441b1bfbe1f11224a98364b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:21 +0000
Subject: [PATCH 18/30] fix: settle a range of deliveries in time bounded by
 their number, with serial numbers

---
 src/session.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index b689be0..1dfef5e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1184,19 +1184,26 @@ impl SessionInner {
             &mut self.unsettled_rcv_deliveries
         };
 
-        if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
+        // delivery numbers are serial numbers, range could wrap
+        let len = to.unwrap_or(from).wrapping_sub(from);
+        if len > i32::MAX as u32 {
+            log::trace!(
+                "{}: Range of deliveries is invalid: {disp:?}",
+                self.sink.tag()
+            );
+            return;
+        }
+
+        if len == 0 {
+            if let Some(delivery) = deliveries.get_mut(&from) {
+                delivery.handle_disposition(disp);
+            }
+        } else {
+            for (no, delivery) in deliveries.iter_mut() {
+                if no.wrapping_sub(from) <= len {
                     delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
                 }
             }
-        } else if let Some(delivery) = deliveries.get_mut(&from) {
-            delivery.handle_disposition(disp);
         }
     }
 
-- 
2.43.0


From 0e216c4a60261bcb05fb90eca2086cbdadc48ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:22 +0000
Subject: [PATCH 19/30] fix: take the peer's settlement of a delivery into
 account without waiting for it

---
 src/delivery.rs | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index bd2a44a..179cbcd 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    waiters: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -88,6 +88,13 @@ impl Delivery {
 
     pub fn is_remote_settled(&self) -> bool {
         self.is_set(Flags::REMOTE_SETTLED)
+            || self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
     }
 
     /// Delivery is settled by the sender's transfer
@@ -102,7 +109,7 @@ impl Delivery {
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -127,7 +134,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -169,12 +176,15 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
+            if inner.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
             }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
+            inner.waiters.push(tx);
             rx
         } else {
             // session ended
@@ -215,6 +225,9 @@ impl Delivery {
                 // return clone of terminal state
                 Some(Ok(Some(st.clone())))
             }
+        } else if inner.settled {
+            // settled without state
+            Some(Ok(None))
         } else {
             inner.error.as_ref().map(|err| Err(err.clone()))
         }
@@ -226,10 +239,11 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
-
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+        if let Some(item) = deliveries.remove(&self.id) {
+            if !item.settled
+                && !self.is_set(Flags::REMOTE_SETTLED)
+                && !self.is_set(Flags::LOCAL_SETTLED)
+            {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
@@ -258,7 +272,7 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
+            waiters: Vec::new(),
             state: None,
             error: None,
             settled: false,
@@ -271,29 +285,32 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
+        self.wake();
+    }
+
+    fn wake(&mut self) {
+        for tx in self.waiters.drain(..) {
             let _ = tx.send(());
         }
     }
 
     pub(crate) fn handle_disposition(&mut self, disp: &Disposition) {
+        if self.settled {
+            return;
+        }
         if disp.settled() {
             self.settled = true;
         }
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.wake();
     }
 }
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.wake();
     }
 }
 
-- 
2.43.0


From 76aaaa16aa12d5592a2a15a000cb864610fd653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 20/30] fix: end sessions by their own channel and fail
 everything that waits on them

---
 src/connection.rs | 13 +++++++++++--
 src/session.rs    | 43 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..e7a9c74 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -220,8 +220,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
@@ -373,6 +373,15 @@ impl ConnectionInner {
                 }
             }
             Frame::Begin(begin) => {
+                if self.error.is_some() {
+                    log::error!(
+                        "{}: Connection closed but new session is received: {:?}",
+                        self.io.tag(),
+                        begin
+                    );
+                    return Ok(Action::None);
+                }
+
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
diff --git a/src/session.rs b/src/session.rs
index 1dfef5e..ffec732 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -108,14 +108,17 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                let links = inner.get_all_links();
+
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
+                inner.drop_state(&AmqpProtocolError::SessionEnded(None));
                 inner
                     .sink
                     .get_control_queue()
                     .enqueue_frame(ControlFrame::new_kind(
-                        crate::ControlFrameKind::LocalSessionEnded(inner.get_all_links()),
+                        crate::ControlFrameKind::LocalSessionEnded(links),
                     ));
             }
             let inner = self.inner.clone();
@@ -427,6 +430,14 @@ impl SessionInner {
             self.tag()
         );
 
+        self.drop_state(&err);
+        self.error = Some(err);
+        self.flags.insert(Flags::ENDED);
+        self.closed.notify_and_lock_readiness();
+    }
+
+    /// Fail all operations
+    fn drop_state(&mut self, err: &AmqpProtocolError) {
         // drop pending transfers
         self.deferred_transfers.clear();
         for tx in self.pending_transfers.drain(..).filter_map(|tr| tr.tx) {
@@ -460,10 +471,7 @@ impl SessionInner {
             }
         }
         self.links.clear();
-
-        self.error = Some(err);
-        self.flags.insert(Flags::ENDED);
-        self.closed.notify_and_lock_readiness();
+        self.remote_handles.clear();
     }
 
     /// End session.
@@ -527,6 +535,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if self.is_ended() {
+            let _ = tx.send(Err(self.ended_error()));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -739,6 +751,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if self.is_ended() {
+            let _ = tx.send(Err(self.ended_error()));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -1430,7 +1446,22 @@ impl SessionInner {
         }
     }
 
+    fn ended_error(&self) -> AmqpProtocolError {
+        self.error
+            .clone()
+            .unwrap_or(AmqpProtocolError::SessionEnded(None))
+    }
+
+    /// Session is ended, no frames could be sent
+    fn is_ended(&self) -> bool {
+        self.flags.intersects(Flags::ENDED | Flags::ENDING)
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        if self.is_ended() {
+            log::trace!("{}: Session is ended, drop frame: {frame:?}", self.tag());
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 17881e4e0dfa2006dd5298de433f5b02ac9eee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 21/30] fix: free link names and handles when the link is
 detached

---
 src/connection.rs |   9 +++
 src/session.rs    | 178 +++++++++++++++++++++++++---------------------
 src/sndlink.rs    |   4 --
 3 files changed, 105 insertions(+), 86 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index e7a9c74..a3c2f0d 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -426,6 +426,15 @@ impl ConnectionInner {
                     }
                     SessionState::Established(session) => match frame {
                         Frame::Attach(attach) => {
+                            if session.is_remote_handle_used(attach.handle()) {
+                                log::error!(
+                                    "{}: Link handle is in use: {:?}",
+                                    self.io.tag(),
+                                    attach
+                                );
+                                return Err(AmqpProtocolError::Unexpected(Frame::Attach(attach)));
+                            }
+
                             let cell = session.clone();
                             if session.get_mut().handle_attach(&attach, cell) {
                                 Ok(Action::None)
diff --git a/src/session.rs b/src/session.rs
index ffec732..b0d6ca0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -43,6 +43,8 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    opening_senders: HashMap<ByteString, usize>,
+    opening_receivers: HashMap<ByteString, usize>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -278,12 +280,6 @@ impl SenderLinkState {
     }
 }
 
-impl ReceiverLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, ReceiverLinkState::OpeningLocal(_))
-    }
-}
-
 bitflags::bitflags! {
     #[derive(Copy, Clone, Debug)]
     struct Flags: u8 {
@@ -388,6 +384,8 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            opening_senders: HashMap::default(),
+            opening_receivers: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             next_transfer_slot: 0,
@@ -454,6 +452,8 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.opening_senders.clear();
+        self.opening_receivers.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -539,6 +539,10 @@ impl SessionInner {
             let _ = tx.send(Err(self.ended_error()));
             return rx;
         }
+        if self.opening_senders.contains_key(frame.name()) {
+            let _ = tx.send(Err(AmqpProtocolError::Unexpected(frame.into())));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -551,7 +555,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_senders.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -755,6 +759,10 @@ impl SessionInner {
             let _ = tx.send(Err(self.ended_error()));
             return rx;
         }
+        if self.opening_receivers.contains_key(frame.name()) {
+            let _ = tx.send(Err(AmqpProtocolError::Unexpected(frame.into())));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -768,7 +776,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_receivers.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -803,7 +811,11 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    if let Some((inner, source)) = inner.take() {
+                    // keep handle until remote peer confirms detach
+                    let inner = inner.take();
+                    *link = ReceiverLinkState::Closing(None);
+
+                    if let Some((inner, source)) = inner {
                         let attach = Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
@@ -829,9 +841,6 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -850,9 +859,6 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
@@ -970,72 +976,89 @@ impl SessionInner {
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
 
-        if let Some(index) = self.links_by_name.get(name) {
-            match self.links.get_mut(*index) {
-                Some(Either::Left(item)) => {
-                    if item.is_opening() {
-                        log::trace!(
-                            "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
-                            self.sink.tag(),
-                            attach.handle(),
-                            self.remote_handles.contains_key(&attach.handle())
-                        );
+        // response to local attach
+        let index = match attach.role() {
+            Role::Receiver => self.opening_senders.remove(name),
+            Role::Sender => self.opening_receivers.remove(name),
+        };
+        let Some(index) = index else {
+            // cannot handle remote attach
+            return false;
+        };
 
-                        self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
-                        let link = Cell::new(SenderLinkInner::new(
-                            *index,
-                            name.clone(),
-                            attach.handle(),
-                            delivery_count,
-                            cell,
-                            attach
-                                .max_message_size()
-                                .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
-                        ));
-                        let local_sender = mem::replace(
-                            item,
-                            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-                        );
+        self.remote_handles.insert(attach.handle(), index);
+        match self.links.get_mut(index) {
+            Some(Either::Left(item)) => {
+                if item.is_opening() {
+                    log::trace!(
+                        "{}: Local sender link attached: {name:?} {index} -> {}",
+                        self.sink.tag(),
+                        attach.handle(),
+                    );
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
-                            let _ = tx.send(Ok(link));
-                        }
+                    let delivery_count = attach.initial_delivery_count().unwrap_or(0);
+                    let link = Cell::new(SenderLinkInner::new(
+                        index,
+                        name.clone(),
+                        attach.handle(),
+                        delivery_count,
+                        cell,
+                        attach
+                            .max_message_size()
+                            .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
+                    ));
+                    let local_sender = mem::replace(
+                        item,
+                        SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
+                    );
+                    self.links_by_name.insert(name.clone(), index);
+
+                    if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        let _ = tx.send(Ok(link));
                     }
                 }
-                Some(Either::Right(item)) => {
-                    if item.is_opening() {
-                        log::trace!(
-                            "{}: Local receiver link attached: {name:?} {index} -> {}",
-                            self.sink.tag(),
-                            attach.handle()
-                        );
-                        if let ReceiverLinkState::OpeningLocal(opt_item) = item {
-                            if let Some((link, tx)) = opt_item.take() {
-                                self.remote_handles.insert(attach.handle(), *index);
-                                link.get_mut().remote_attached(attach);
+            }
+            Some(Either::Right(item)) => {
+                if let ReceiverLinkState::OpeningLocal(opt_item) = item {
+                    log::trace!(
+                        "{}: Local receiver link attached: {name:?} {index} -> {}",
+                        self.sink.tag(),
+                        attach.handle()
+                    );
+                    if let Some((link, tx)) = opt_item.take() {
+                        link.get_mut().remote_attached(attach);
 
-                                *item = ReceiverLinkState::Established(
-                                    EstablishedReceiverLink::new(link.clone()),
-                                );
-                                let _ = tx.send(Ok(ReceiverLink::new(link)));
-                            } else {
-                                // TODO: close session
-                                log::error!("{}: Inconsistent session state, bug", self.tag());
-                            }
-                        }
+                        *item = ReceiverLinkState::Established(EstablishedReceiverLink::new(
+                            link.clone(),
+                        ));
+                        let _ = tx.send(Ok(ReceiverLink::new(link)));
+                    } else {
+                        // TODO: close session
+                        log::error!("{}: Inconsistent session state, bug", self.tag());
                     }
                 }
-                _ => {
-                    // TODO: error in proto, have to close connection
-                    log::trace!("Protocol error");
-                }
             }
-            true
-        } else {
-            // cannot handle remote attach
-            false
+            None => {
+                log::error!("{}: Inconsistent session state, bug", self.tag());
+            }
+        }
+        true
+    }
+
+    /// Remote handle is attached to a link
+    pub(crate) fn is_remote_handle_used(&self, handle: Handle) -> bool {
+        self.remote_handles.contains_key(&handle)
+    }
+
+    /// Remove link, its name and handles can be used again
+    fn remove_link(&mut self, id: usize) {
+        if self.links.contains(id) {
+            self.links.remove(id);
         }
+        self.links_by_name.retain(|_, idx| *idx != id);
+        self.opening_senders.retain(|_, idx| *idx != id);
+        self.opening_receivers.retain(|_, idx| *idx != id);
+        self.remote_handles.retain(|_, idx| *idx != id);
     }
 
     #[allow(clippy::too_many_lines)]
@@ -1044,15 +1067,12 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
-            frame.handle() as usize
         } else {
             // should not happen, error
             log::info!("{}: Detaching unknown link: {frame:?}", self.tag());
             return Action::None;
         };
 
-        let handle = frame.handle();
         let mut action = Action::None;
 
         let remove = if let Some(link) = self.links.get_mut(idx) {
@@ -1074,9 +1094,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
@@ -1171,10 +1188,7 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
-            self.remote_handles.remove(&handle);
+            self.remove_link(idx);
         }
         action
     }
diff --git a/src/sndlink.rs b/src/sndlink.rs
index fa885b3..b0b1dc5 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -230,10 +230,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn link_credit(&self) -> u32 {
         self.link_credit
     }
-- 
2.43.0


From 0bbc8b51322ce31f44d480eee023cfa1f3844978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:56 +0000
Subject: [PATCH 22/30] fix: handle frames for links that are not confirmed yet

---
 src/connection.rs |   9 +--
 src/rcvlink.rs    |  14 ++--
 src/session.rs    | 195 ++++++++++++++++++++++++++++++++++------------
 3 files changed, 158 insertions(+), 60 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index a3c2f0d..14babe7 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -442,11 +441,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(&attach, session.clone());
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 07f5c25..b833e94 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -87,11 +87,12 @@ impl ReceiverLink {
         let inner = self.inner.get_mut();
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
-        inner
-            .session
-            .inner
-            .get_mut()
-            .confirm_receiver_link(inner.handle, response, size);
+        inner.session.inner.get_mut().confirm_receiver_link(
+            inner.handle,
+            &self.inner,
+            response,
+            size,
+        );
     }
 
     pub fn set_link_credit(&self, credit: u32) {
@@ -316,6 +317,9 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
+        if self.closed {
+            return;
+        }
         self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
diff --git a/src/session.rs b/src/session.rs
index b0d6ca0..456d4d6 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -246,7 +246,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(SenderLink, ByteString),
     Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
@@ -504,10 +504,19 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        attach: &Attach,
+        cell: Cell<SessionInner>,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = SenderLink::new(Cell::new(SenderLinkInner::with(id, attach, cell)));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(
+            link.clone(),
+            attach.name().clone(),
+        )));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -526,7 +535,7 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (link, attach)
     }
 
     /// Open sender link
@@ -574,13 +583,21 @@ impl SessionInner {
         );
         let token = link.id;
 
+        if !self.is_opening_remote(&link) {
+            log::trace!(
+                "{}: Link is detached already: {:?}",
+                self.tag(),
+                attach.name()
+            );
+            return SenderLink::new(link);
+        }
+
         if let Some(source) = attach.source()
             && let Some(ref addr) = source.address
         {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
         *self
             .links
             .get_mut(token)
@@ -592,6 +609,7 @@ impl SessionInner {
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.post_frame(response.into());
+        self.wake_next_transfer();
         SenderLink::new(link)
     }
 
@@ -631,12 +649,11 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
-                    let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
+                SenderLinkState::OpeningRemote(_, name) => {
+                    let name = name.clone();
+                    *link = SenderLinkState::Closing(Some(tx));
+                    self.drop_pending_transfers(id, &AmqpProtocolError::Disconnected);
+                    self.post_refused_sender(name, id, closed, error);
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -662,19 +679,49 @@ impl SessionInner {
         link: &Cell<SenderLinkInner>,
         error: Option<Error>,
     ) {
-        let token = link.id;
+        if self.is_opening_remote(link) {
+            let id = link.get_ref().id();
+            let err = AmqpProtocolError::LinkDetached(error.clone());
+
+            // keep handle until remote peer confirms detach
+            if let Some(item) = self.links.get_mut(id as usize) {
+                *item = Either::Left(SenderLinkState::Closing(None));
+            }
+            link.get_mut().remote_detached(err.clone());
+            self.drop_pending_transfers(id, &err);
+            self.post_refused_sender(attach.name().clone(), id, true, error);
+        }
+    }
+
+    fn is_opening_remote(&self, link: &Cell<SenderLinkInner>) -> bool {
+        if let Some(Either::Left(SenderLinkState::OpeningRemote(item, _))) =
+            self.links.get(link.get_ref().id() as usize)
+        {
+            std::ptr::eq(item.inner.get_ref(), link.get_ref())
+        } else {
+            false
+        }
+    }
 
+    /// Attach and detach link that is not confirmed
+    fn post_refused_sender(
+        &mut self,
+        name: ByteString,
+        handle: Handle,
+        closed: bool,
+        error: Option<Error>,
+    ) {
         let attach = Attach(Box::new(codec::AttachInner {
-            name: attach.0.name.clone(),
-            handle: token as Handle,
-            role: attach.0.role,
+            name,
+            handle,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
             target: None,
             unsettled: None,
             incomplete_unsettled: false,
-            initial_delivery_count: None,
+            initial_delivery_count: Some(0),
             max_message_size: None,
             offered_capabilities: None,
             desired_capabilities: None,
@@ -683,15 +730,11 @@ impl SessionInner {
         self.post_frame(attach.into());
 
         let detach = Detach(Box::new(codec::DetachInner {
-            handle: token as Handle,
-            closed: true,
+            handle,
+            closed,
             error,
         }));
         self.post_frame(detach.into());
-
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -784,11 +827,15 @@ impl SessionInner {
     pub(crate) fn confirm_receiver_link(
         &mut self,
         token: Handle,
+        inner: &Cell<ReceiverLinkInner>,
         mut response: Attach,
         max_message_size: Option<u64>,
     ) {
         if let Some(Either::Right(link)) = self.links.get_mut(token as usize)
             && let ReceiverLinkState::Opening(l) = link
+            && l.as_ref()
+                .as_ref()
+                .is_some_and(|(l, _)| std::ptr::eq(l.get_ref(), inner.get_ref()))
             && let Some((l, _)) = l.take()
         {
             *response.max_message_size_mut() = max_message_size;
@@ -796,8 +843,7 @@ impl SessionInner {
             self.post_frame(response.into());
             return;
         }
-        // TODO: close session
-        log::error!("{}: Unexpected receiver link state", self.tag());
+        log::trace!("{}: Receiver link is detached already", self.tag());
     }
 
     /// Detach receiver link
@@ -816,23 +862,7 @@ impl SessionInner {
                     *link = ReceiverLinkState::Closing(None);
 
                     if let Some((inner, source)) = inner {
-                        let attach = Attach(Box::new(codec::AttachInner {
-                            source,
-                            max_message_size: None,
-                            name: inner.name().clone(),
-                            handle: id,
-                            role: Role::Receiver,
-                            snd_settle_mode: SenderSettleMode::Mixed,
-                            rcv_settle_mode: ReceiverSettleMode::First,
-                            target: None,
-                            unsettled: None,
-                            incomplete_unsettled: false,
-                            initial_delivery_count: Some(0),
-                            offered_capabilities: None,
-                            desired_capabilities: None,
-                            properties: None,
-                        }));
-                        self.post_frame(attach.into());
+                        self.post_refused_receiver(inner.name().clone(), source, id);
                     }
                     let detach = Detach(Box::new(codec::DetachInner {
                         closed,
@@ -864,7 +894,19 @@ impl SessionInner {
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(inner) => {
+                    // attach operation fails
+                    if let Some((inner, _)) = inner.take() {
+                        inner.get_mut().detached();
+                    }
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -875,6 +917,26 @@ impl SessionInner {
         }
     }
 
+    fn post_refused_receiver(&mut self, name: ByteString, source: Option<Source>, handle: Handle) {
+        let attach = Attach(Box::new(codec::AttachInner {
+            name,
+            handle,
+            source,
+            max_message_size: None,
+            role: Role::Receiver,
+            snd_settle_mode: SenderSettleMode::Mixed,
+            rcv_settle_mode: ReceiverSettleMode::First,
+            target: None,
+            unsettled: None,
+            incomplete_unsettled: false,
+            initial_delivery_count: Some(0),
+            offered_capabilities: None,
+            desired_capabilities: None,
+            properties: None,
+        }));
+        self.post_frame(attach.into());
+    }
+
     pub(crate) fn get_receiver_link_by_local_handle(&self, hnd: Handle) -> Option<&ReceiverLink> {
         if let Some(Either::Right(ReceiverLinkState::Established(link))) =
             self.links.get(hnd as usize)
@@ -904,8 +966,14 @@ impl SessionInner {
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(link, _) => {
+                                return Ok(Action::Flow(link.clone(), flow));
+                            }
+                            _ => (),
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
@@ -1110,11 +1178,18 @@ impl SessionInner {
                         self.drop_pending_transfers(handle, &err);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
+                    SenderLinkState::OpeningRemote(link, name) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
+                        let (link, name) = (link.clone(), name.clone());
+                        let id = link.inner.get_ref().id();
+                        let err = AmqpProtocolError::LinkDetached(frame.error().cloned());
+                        link.inner.get_mut().remote_detached(err.clone());
+                        self.drop_pending_transfers(id, &err);
+                        self.post_refused_sender(name, id, true, None);
+                        action = Action::DetachSender(link, frame);
                         true
                     }
                     SenderLinkState::Closing(tx) => {
@@ -1129,7 +1204,24 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        if let Some((inner, source)) = item.take() {
+                            let id = inner.get_ref().id();
+                            let link = ReceiverLink::new(inner);
+                            link.remote_detached(frame.0.error.take());
+                            self.post_refused_receiver(link.name().clone(), source, id);
+                            self.post_frame(
+                                Detach(Box::new(codec::DetachInner {
+                                    handle: id,
+                                    closed: true,
+                                    error: None,
+                                }))
+                                .into(),
+                            );
+                            action = Action::DetachReceiver(link, frame);
+                        }
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
@@ -1329,6 +1421,11 @@ impl SessionInner {
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
+        // credit is announced after attach
+        if self.get_receiver_link_by_local_handle(handle).is_none() {
+            return;
+        }
+
         let flow = Flow(Box::new(codec::FlowInner {
             next_incoming_id: Some(self.next_incoming_id),
             incoming_window: u32::MAX,
-- 
2.43.0


From 0876fe35d4aaad5d5419c28652a88ead27bed8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:05 +0000
Subject: [PATCH 23/30] fix: respect the channel limits of both peers and never
 replace a session

---
 src/connection.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 14babe7..411912b 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -28,7 +28,10 @@ pub(crate) struct ConnectionInner {
     pub(crate) sessions_map: HashMap<u16, usize>,
     pub(crate) on_close: Condition,
     pub(crate) error: Option<AmqpProtocolError>,
+    /// highest channel number remote peer may use
     channel_max: u16,
+    /// highest channel number that is usable for local endpoints
+    local_channel_max: u16,
     pub(crate) max_frame_size: u32,
 }
 
@@ -69,6 +72,7 @@ impl Connection {
             error: None,
             on_close: Condition::new(),
             channel_max: local_config.channel_max,
+            local_channel_max: local_config.channel_max.min(remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -243,6 +247,19 @@ impl ConnectionInner {
         }
     }
 
+    /// Check if remote channel is allowed and is not in use
+    fn check_remote_channel(&self, channel: u16, begin: &Begin) -> Result<(), AmqpProtocolError> {
+        if channel > self.channel_max {
+            log::error!("{}: Remote channel is too large: {channel}", self.io.tag());
+            Err(AmqpProtocolError::TooManyChannels)
+        } else if self.sessions_map.contains_key(&channel) {
+            log::error!("{}: Remote channel is in use: {channel}", self.io.tag());
+            Err(AmqpProtocolError::Unexpected(begin.clone().into()))
+        } else {
+            Ok(())
+        }
+    }
+
     pub(crate) fn register_remote_session(
         &mut self,
         remote_channel_id: u16,
@@ -255,8 +272,14 @@ impl ConnectionInner {
             remote_channel_id
         );
 
+        self.check_remote_channel(remote_channel_id, &begin)?;
+
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.local_channel_max as usize {
+            log::error!("{}: Too many channels: {:?}", self.io.tag(), local_token);
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -293,7 +316,7 @@ impl ConnectionInner {
         local_channel_id: u16,
         remote_channel_id: u16,
         begin: Begin,
-    ) {
+    ) -> Result<(), AmqpProtocolError> {
         log::trace!(
             "{}: Begin response received: local {:?} remote {:?}",
             self.io.tag(),
@@ -301,6 +324,8 @@ impl ConnectionInner {
             remote_channel_id,
         );
 
+        self.check_remote_channel(remote_channel_id, &begin)?;
+
         let local_token = local_channel_id as usize;
 
         if let Some(channel) = self.sessions.get_mut(local_token) {
@@ -345,6 +370,7 @@ impl ConnectionInner {
                 remote_channel_id
             );
         }
+        Ok(())
     }
 
     fn handle_frame(
@@ -385,7 +411,7 @@ impl ConnectionInner {
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
                 if let Some(local_channel_id) = begin.remote_channel() {
-                    self.complete_session_creation(local_channel_id, channel_id, begin);
+                    self.complete_session_creation(local_channel_id, channel_id, begin)?;
                 } else {
                     self.register_remote_session(channel_id, begin, inner)?;
                 }
@@ -602,7 +628,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.local_channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 7da758fba54a666d3228d16c0a70708ac476e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:10 +0000
Subject: [PATCH 24/30] fix: fail waits of unsettled deliveries when a locally
 detached link is confirmed

---
 src/session.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 456d4d6..7642b0f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1142,6 +1142,7 @@ impl SessionInner {
         };
 
         let mut action = Action::None;
+        let error = AmqpProtocolError::LinkDetached(frame.error().cloned());
 
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
@@ -1162,15 +1163,8 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // drop unsettled transfers
-                        let handle = link.inner.get_ref().id() as Handle;
-                        for delivery in self.unsettled_snd_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
-
                         // detach snd link
+                        let handle = link.inner.get_ref().id() as Handle;
                         link.inner.get_mut().remote_detached(err.clone());
                         self.sink
                             .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
@@ -1239,15 +1233,6 @@ impl SessionInner {
                     ReceiverLinkState::Established(link) => {
                         let error = frame.0.error.take();
 
-                        // drop unsettled transfers
-                        let err = AmqpProtocolError::LinkDetached(error.clone());
-                        let handle = link.inner.get_ref().id();
-                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
-
                         // detach from remote endpoint
                         let detach = Detach(Box::new(codec::DetachInner {
                             handle: link.handle(),
@@ -1280,6 +1265,16 @@ impl SessionInner {
         };
 
         if remove {
+            // fail unsettled transfers
+            let handle = idx as Handle;
+            for delivery in self
+                .unsettled_snd_deliveries
+                .values_mut()
+                .chain(self.unsettled_rcv_deliveries.values_mut())
+                .filter(|delivery| delivery.handle() == handle)
+            {
+                delivery.set_error(error.clone());
+            }
             self.remove_link(idx);
         }
         action
-- 
2.43.0


From 789b6a167d70f85fc556d4fb5115b250fdd19d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 25/30] fix: send keep-alive frames in time for short idle
 time-outs

---
 src/client/connection.rs |  4 ++--
 src/dispatcher.rs        |  8 ++++++--
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 24e35f2..6206156 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -1,5 +1,5 @@
 use std::task::{Context, Poll, ready};
-use std::{cell, cmp, future::Future, future::poll_fn, marker, pin::Pin};
+use std::{cell, future::Future, future::poll_fn, marker, pin::Pin};
 
 use ntex_dispatcher::{DispatchItem, Reason};
 use ntex_rt::spawn;
@@ -35,7 +35,11 @@ where
         ctl_service: Pipeline<Ctl>,
         idle_timeout: Millis,
     ) -> Self {
-        let idle_timeout = Millis(cmp::min(idle_timeout.0 >> 1, 1000));
+        let idle_timeout = if idle_timeout.is_zero() {
+            idle_timeout
+        } else {
+            Millis((idle_timeout.0 >> 1).clamp(1, 1000))
+        };
         Dispatcher {
             sink,
             idle_timeout,
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..78dd9af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Interval that is safe to use for keep-alive, `0` if it is disabled
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - self.idle_time_out / 4)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 5103eb562c588c7026e011dacd060d5d1264ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 26/30] fix: keep sending keep-alive frames after the first one

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 6206156..85fb62b 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -145,7 +145,7 @@ where
         }
 
         // handle idle timeout
-        if self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
+        while self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
             log::trace!(
                 "{}: Send keep-alive ping, timeout: {:?} secs",
                 self.sink.tag(),
-- 
2.43.0


From a61ea155f2e97c0632bde61720ea8f872b085684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 27/30] fix: do not wait for a sasl frame after the outcome

---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From 418f29fcb37e9167ddd8109cb1efddb78aa7bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:21 +0000
Subject: [PATCH 28/30] fix: only an authenticated sasl client can open a
 connection

---
 src/server/sasl.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 7478882..5fd9790 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -148,6 +148,8 @@ impl SaslInit {
     }
 
     /// Sasl challenge outcome
+    ///
+    /// Returns `HandshakeError::Sasl` if code is not `SaslCode::Ok`.
     pub async fn outcome(self, code: SaslCode) -> Result<SaslSuccess, HandshakeError> {
         let state = self.state;
         let codec = self.codec;
@@ -163,6 +165,11 @@ impl SaslInit {
             .await
             .map_err(HandshakeError::from)?;
 
+        // only authenticated client can open connection
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
+
         Ok(SaslSuccess {
             state,
             local_config,
@@ -197,6 +204,8 @@ impl SaslResponse {
     }
 
     /// Sasl challenge outcome
+    ///
+    /// Returns `HandshakeError::Sasl` if code is not `SaslCode::Ok`.
     pub async fn outcome(self, code: SaslCode) -> Result<SaslSuccess, HandshakeError> {
         let state = self.state;
         let codec = self.codec;
@@ -212,6 +221,11 @@ impl SaslResponse {
             .await
             .map_err(HandshakeError::from)?;
 
+        // only authenticated client can open connection
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
+
         Ok(SaslSuccess {
             state,
             local_config,
-- 
2.43.0


From e32b992b295ab6a2e5a539641679bb506229b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:25 +0000
Subject: [PATCH 29/30] fix: a sasl client expects mechanisms before it sends
 credentials

---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..80228ee 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0


From b0d91dc0534893d1b941ec2c4323c71a3147f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 30/30] fix: keep the handler service alive while it works on a
 delivery

---
 src/router.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..60c2f50 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -199,7 +199,10 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // link can be detached while handler is running, service must stay alive
+    let srv = inner.handlers.get(&link).cloned().flatten();
+
+    if let Some(srv) = srv {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0

