From 9687d6d43601dc26617f729d9c3401e6c549260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 01/33] fix: roll back extensions by extension index when
 adding files fails

The list of extensions of each message was filtered by comparing extension
indices to the number of messages, leaving dangling indices (or dropping
valid ones) after a failed add.
---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From 3c28efc1b0cb63a8c1d4694c24dcfe8df60e580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 02/33] fix: follow chains of public imports

The visited check was inverted, so only one level of public imports was
followed, and cyclic or diamond public imports recursed without bound.
---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From f7c196397a5c075963e8780a3b5a4ecedaeccb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 03/33] fix: return an error instead of panicking for an
 unknown syntax

The error label was built before the file it refers to was added to the pool.
---
 prost-reflect/src/descriptor/build/names.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..4ddb1a2 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,10 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
-        let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+        let (syntax, unknown_syntax) = match file.syntax.as_deref() {
+            None | Some("proto2") => (Syntax::Proto2, None),
+            Some("proto3") => (Syntax::Proto3, None),
+            Some(syntax) => (Syntax::Proto2, Some(syntax)),
         };
 
         if self
@@ -86,6 +75,19 @@ impl Visitor for NameVisitor<'_> {
             transitive_dependencies: HashSet::default(),
         });
 
+        // Reported only after the file has been added, since the error label (and any later names in the file) refer to it.
+        if let Some(syntax) = unknown_syntax {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: syntax.to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From 5a120f931e808e36ede27b42522c33de1cfdf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 04/33] fix: pack repeated proto3 fields which have options
 other than packed

An options message without an explicit packed option turned off the proto3
default.
---
 prost-reflect/src/descriptor/build/resolve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..dd4dd58 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -123,7 +123,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (field
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -394,7 +395,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (extension
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
-- 
2.43.0


From 4ac3a3bc67aa515a18e52688cc6374b72b50effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 05/33] fix: reject bad escapes in bytes default values instead
 of panicking

An octal escape above \377 overflowed, and a hex escape followed by a
multi-byte character was sliced inside that character.
---
 prost-reflect/src/descriptor/build/resolve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index dd4dd58..462c390 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -857,23 +857,26 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u16;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal * 8 + u16::from(src[p] - b'0');
                             p += 1;
                         } else {
                             break;
                         }
                     }
-                    dst.push(octal);
+                    match u8::try_from(octal) {
+                        Ok(b) => dst.push(b),
+                        Err(_) => return Err("octal escape must be at most \\377"),
+                    }
                 }
                 b'x' | b'X' => {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
+                        Some(Ok(b)) => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From 596e80da67fbac2f9546bf68f6c9aefcbf9b6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 06/33] fix: honor a packed option which is not interpreted yet

FieldDescriptor::is_packed ignored a packed option given as an uninterpreted
option, so it disagreed with the resolved options of the same field.
---
 prost-reflect/src/descriptor/build/resolve.rs | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 462c390..72b8440 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -120,11 +122,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .and_then(|o| o.value.packed)
-                .unwrap_or(syntax == Syntax::Proto3));
+            && packed_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -392,11 +390,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .and_then(|o| o.value.packed)
-                .unwrap_or(syntax == Syntax::Proto3));
+            && packed_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -768,6 +762,20 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// The explicit value of the `packed` option, which may not have been interpreted yet.
+fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .find(|u| {
+                u.name.len() == 1 && u.name[0].name_part == "packed" && !u.name[0].is_extension
+            })
+            .and_then(|u| option_to_bool(u).ok())
+    })
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
-- 
2.43.0


From 72bac61e506ab77d7a04b04cac9c2cf4be35d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 07/33] fix: reject singular values for repeated and map fields

Value::is_valid_for_field and is_valid_for_extension fell back to checking only
the kind, so a scalar could be set for a list field and a message for a map
field, which later operations on the field do not expect.
---
 prost-reflect/src/dynamic/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..247c92a 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -648,7 +648,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => !field_desc.is_list() && !field_desc.is_map() && value.is_valid(&kind),
         }
     }
 
@@ -667,7 +667,9 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => {
+                !extension_desc.is_list() && !extension_desc.is_map() && value.is_valid(&kind)
+            }
         }
     }
 
-- 
2.43.0


From ef8ac1a0f1d9683242ff692e4eee64fac4893b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 08/33] fix: serialize non-finite wrapper values as JSON
 strings

google.protobuf.FloatValue and DoubleValue fields holding NaN or an infinity
were written as null, which reads back as an unset field.
---
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 29 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..730b910 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -11,10 +11,10 @@ use crate::{
         },
         DynamicMessage,
     },
-    ReflectMessage,
+    Kind, ReflectMessage, Value,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, SerializeWrapper, ValueAndKind};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -124,27 +124,44 @@ where
 fn serialize_float<S>(
     msg: &DynamicMessage,
     serializer: S,
-    _options: &SerializeOptions,
+    options: &SerializeOptions,
 ) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    serialize_scalar(&Value::F32(raw), &Kind::Float, serializer, options)
 }
 
 fn serialize_double<S>(
     msg: &DynamicMessage,
     serializer: S,
-    _options: &SerializeOptions,
+    options: &SerializeOptions,
 ) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    serialize_scalar(&Value::F64(raw), &Kind::Double, serializer, options)
+}
+
+/// Serializes the value of a wrapper type in the same way as a field of that type.
+fn serialize_scalar<S>(
+    value: &Value,
+    kind: &Kind,
+    serializer: S,
+    options: &SerializeOptions,
+) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    SerializeWrapper {
+        value: &ValueAndKind { value, kind },
+        options,
+    }
+    .serialize(serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From 692d1452d338705b3c758ab45fb122debf0ca662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 09/33] fix: reject 2^63 and 2^64 for 64-bit integers in JSON

The limits are rounded up when converted to a float, so these out of range
values were accepted and changed to the maximum value.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..2e703ad 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -399,7 +399,8 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        // The maximum is not representable as a float, and is rounded up when converted.
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -446,7 +447,8 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        // The maximum is not representable as a float, and is rounded up when converted.
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From e54baf0c7d9662e7bb35c88451f0b6593696fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 10/33] fix: reject field mask paths with a trailing underscore
 in JSON

The underscore was dropped, so the path did not roundtrip.
---
 prost-reflect/src/dynamic/serde/case.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From db83f42269b0ccfe3d6e6a125ff24a24fbccfc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 11/33] fix: do not serialize durations with mixed signs to
 JSON

A duration of 1 second and -1 nanosecond was written with the wrong sign.
---
 prost-reflect/src/dynamic/serde/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..ffdefb7 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -290,6 +290,10 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
     {
         Err("duration out of range")
+    } else if (duration.seconds < 0 && duration.nanos > 0)
+        || (duration.seconds > 0 && duration.nanos < 0)
+    {
+        Err("duration has seconds and nanos of different signs")
     } else {
         Ok(())
     }
-- 
2.43.0


From aa3e303a2a459c390d40a1187bf9dd3dee55b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 12/33] fix: only expand Any messages in text format if the
 result can be parsed

The expanded form [domain/name] requires the domain to be an identifier, so a
message with a type URL such as "/name" could not be parsed back.
---
 prost-reflect/src/dynamic/text_format/format.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..f2d0d92 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // The expanded form can only be parsed if the part before the message name is also an identifier.
+    let domain = any.type_url.strip_suffix(message_name)?.strip_suffix('/')?;
+    if !is_full_ident(domain) {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +318,16 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_full_ident(name: &str) -> bool {
+    name.split('.').all(|part| {
+        !part.starts_with(|ch: char| ch.is_ascii_digit())
+            && !part.is_empty()
+            && part
+                .bytes()
+                .all(|byte| byte.is_ascii_alphanumeric() || byte == b'_')
+    })
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From 664f20ad1dbca974e4f4b569c8dbfc15172083fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 13/33] fix: reject decimal strings out of range for a float in
 JSON

A number out of range is an error, but the same number in a string was read as
infinity.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 2e703ad..6f77ef9 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -184,6 +184,9 @@ impl Visitor<'_> for DoubleVisitor {
         E: Error,
     {
         match f64::from_str(v) {
+            Ok(value) if value.is_infinite() && v.contains(|ch: char| ch.is_ascii_digit()) => {
+                Err(Error::custom("float value out of range"))
+            }
             Ok(value) => Ok(value),
             Err(_) if v == "Infinity" => Ok(f64::INFINITY),
             Err(_) if v == "-Infinity" => Ok(f64::NEG_INFINITY),
@@ -241,6 +244,9 @@ impl Visitor<'_> for FloatVisitor {
         E: Error,
     {
         match f32::from_str(v) {
+            Ok(value) if value.is_infinite() && v.contains(|ch: char| ch.is_ascii_digit()) => {
+                Err(Error::custom("float value out of range"))
+            }
             Ok(value) => Ok(value),
             Err(_) if v == "Infinity" => Ok(f32::INFINITY),
             Err(_) if v == "-Infinity" => Ok(f32::NEG_INFINITY),
-- 
2.43.0


From bc64752abb1f7e5f3f89ecb0e0212efe1ac2b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 14/33] fix: ignore scopes which are not imported when
 resolving relative names

A package or message defined only in a file which is not imported could shadow
the outer scope of a qualified name, so whether a file was accepted depended on
which unrelated files had been added to the pool before it.
---
 prost-reflect/src/descriptor/build/mod.rs     | 30 +++++++++++++++++--
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..a7e6b5c 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -316,6 +316,7 @@ fn to_json_name(name: &str) -> String {
 }
 
 fn resolve_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -325,11 +326,12 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(files, dependencies, names, scope, name, filter),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -364,7 +366,12 @@ fn resolve_relative_name<'a, 'b>(
 
                     let res =
                         ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
-                    if matches!(res, ResolveNameResult::NotFound) {
+                    if !is_scope_visible(files, dependencies, &candidate, def) {
+                        // The scope is only defined in files which are not imported.
+                        if matches!(err, ResolveNameResult::NotFound) {
+                            err = res;
+                        }
+                    } else if matches!(res, ResolveNameResult::NotFound) {
                         return ResolveNameResult::Shadowed {
                             name: Cow::Borrowed(relative_name),
                             shadowed_name: candidate_full,
@@ -381,6 +388,25 @@ fn resolve_relative_name<'a, 'b>(
     err.into_owned()
 }
 
+fn is_scope_visible(
+    files: &[FileDescriptorInner],
+    dependencies: &HashSet<FileIndex>,
+    name: &str,
+    def: &Definition,
+) -> bool {
+    match def.kind {
+        // The definition only refers to the first file which declares the package.
+        DefinitionKind::Package => dependencies.iter().any(|&file| {
+            files[file as usize]
+                .raw
+                .package()
+                .strip_prefix(name)
+                .is_some_and(|rest| rest.is_empty() || rest.starts_with('.'))
+        }),
+        _ => dependencies.contains(&def.file),
+    }
+}
+
 fn resolve_relative_candidate_parents(scope: &str) -> impl Iterator<Item = &str> {
     iter::once(scope)
         .chain(scope.rmatch_indices('.').map(move |(i, _)| &scope[..i]))
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..1084a49 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -521,6 +521,7 @@ impl OptionsVisitor<'_> {
         extendee: &MessageDescriptor,
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
+            &self.pool.inner.files,
             &self.pool.inner.files[file as usize].transitive_dependencies,
             &self.pool.inner.names,
             scope,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 72b8440..d48f050 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -719,6 +719,7 @@ impl ResolveVisitor<'_> {
         filter: ResolveNameFilter,
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
+            &self.pool.files,
             &self.pool.files[file as usize].transitive_dependencies,
             &self.pool.names,
             scope,
-- 
2.43.0


From 13e89d139c03ab99b16dbb3ebeeb0e72984f397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 15/33] fix: limit the depth of nested messages when parsing
 text format

A deeply nested input overflowed the stack, which aborts the process. The limit
is the same as for the binary format.
---
 prost-reflect/src/dynamic/text_format/parse/error.rs |  7 +++++++
 prost-reflect/src/dynamic/text_format/parse/mod.rs   | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/error.rs b/prost-reflect/src/dynamic/text_format/parse/error.rs
index dfc909c..02e2308 100644
--- a/prost-reflect/src/dynamic/text_format/parse/error.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/error.rs
@@ -112,6 +112,10 @@ pub(crate) enum ParseErrorKind {
         span: Span,
     },
     InvalidMapKey,
+    RecursionLimitReached {
+        #[cfg_attr(feature = "miette", label("found here"))]
+        span: Span,
+    },
 }
 
 impl Display for ParseErrorKind {
@@ -179,6 +183,9 @@ impl Display for ParseErrorKind {
                 "the field type must be 'google.protobuf.Any' to use Any expansion syntax"
             ),
             ParseErrorKind::InvalidMapKey => write!(f, "invalid value type for map key"),
+            ParseErrorKind::RecursionLimitReached { .. } => {
+                write!(f, "recursion limit reached")
+            }
         }
     }
 }
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..d189388 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -21,8 +21,12 @@ use crate::{
 pub(in crate::dynamic::text_format) struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ParseErrorKind>>,
+    depth: u32,
 }
 
+/// The maximum depth of nested messages, which matches the limit for the binary format.
+const RECURSION_LIMIT: u32 = 100;
+
 enum FieldName {
     Ident(String),
     Extension(String),
@@ -34,6 +38,7 @@ impl<'a> Parser<'a> {
         Parser {
             lexer: Token::lexer(input),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -54,10 +59,16 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        self.depth += 1;
+        if self.depth > RECURSION_LIMIT {
+            return Err(ParseErrorKind::RecursionLimitReached { span: start });
+        }
+
         loop {
             match self.peek()? {
                 Some((Token::Ident(_) | Token::LeftBracket, _)) => self.parse_field(message)?,
                 Some((tok, _)) if tok == terminator => {
+                    self.depth -= 1;
                     let end = self.bump();
                     return Ok(join_span(start, end));
                 }
-- 
2.43.0


From 1dcaced1db65d3b23843abd6c35e248c3f41503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 16/33] fix: limit the depth of unknown fields printed as
 nested messages

Length delimited unknown fields are decoded speculatively when printed, with no
limit on the depth, so a small nested input overflowed the stack.
---
 prost-reflect/src/dynamic/text_format/format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index f2d0d92..ad28b98 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -16,8 +16,12 @@ pub(in crate::dynamic) struct Writer<'a, W> {
     options: FormatOptions,
     f: &'a mut W,
     indent_level: u32,
+    unknown_depth: u32,
 }
 
+/// The maximum depth at which length delimited unknown fields are printed as messages.
+const UNKNOWN_RECURSION_LIMIT: u32 = 100;
+
 impl<'a, W> Writer<'a, W>
 where
     W: Write,
@@ -27,6 +31,7 @@ where
             options,
             f,
             indent_level: 0,
+            unknown_depth: 0,
         }
     }
 
@@ -203,10 +208,13 @@ where
                 write!(self.f, "0x{:016x}", u64::from_le_bytes(*bytes))
             }
             UnknownFieldValue::LengthDelimited(bytes) => {
-                if !bytes.is_empty() {
+                if !bytes.is_empty() && self.unknown_depth < UNKNOWN_RECURSION_LIMIT {
                     if let Ok(set) = UnknownFieldSet::decode(bytes.clone()) {
                         self.fmt_padding()?;
-                        return self.fmt_unknown_field_set(&set);
+                        self.unknown_depth += 1;
+                        self.fmt_unknown_field_set(&set)?;
+                        self.unknown_depth -= 1;
+                        return Ok(());
                     }
                 }
 
-- 
2.43.0


From ff9fdc7218818a1bfe19e8a209837932d42ed4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 17/33] fix: check the wire type of map fields when decoding

---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..6c9897b 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -354,6 +354,8 @@ impl Value {
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let mut key = MapKey::default_value(&key_desc.kind());
                 let mut value = Value::default_value_for_field(&value_desc);
                 prost::encoding::merge_loop(
-- 
2.43.0


From 6a1409f6dbef40e4d3388d47eed09a2b660041c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 18/33] fix: do not recurse forever when formatting recursive
 message types with Debug

---
 prost-reflect/src/descriptor/api.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index bb82718..f8a0495 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -1156,7 +1156,7 @@ impl fmt::Debug for FieldDescriptor {
                 "containing_oneof",
                 &self.containing_oneof().map(|o| o.name().to_owned()),
             )
-            .field("default_value", &self.default_value())
+            .field("default_value", &debug_fmt_default_value(self.default_value()))
             .field("is_group", &self.is_group())
             .field("is_list", &self.is_list())
             .field("is_map", &self.is_map())
@@ -1369,7 +1369,7 @@ impl fmt::Debug for ExtensionDescriptor {
                 "containing_message",
                 &self.containing_message().name().to_owned(),
             )
-            .field("default_value", &self.default_value())
+            .field("default_value", &debug_fmt_default_value(self.default_value()))
             .field("is_group", &self.is_group())
             .field("is_list", &self.is_list())
             .field("is_map", &self.is_map())
@@ -1917,6 +1917,22 @@ impl fmt::Debug for MethodDescriptor {
     }
 }
 
+/// Formats the default value of a field. Messages are not expanded, since their type may be recursive.
+fn debug_fmt_default_value(value: Value) -> impl fmt::Debug {
+    struct Wrapper(Value);
+
+    impl fmt::Debug for Wrapper {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            match &self.0 {
+                Value::Message(_) => f.write_str("Message(..)"),
+                value => value.fmt(f),
+            }
+        }
+    }
+
+    Wrapper(value)
+}
+
 fn debug_fmt_iter<I>(i: I) -> impl fmt::Debug
 where
     I: Iterator,
-- 
2.43.0


From 33e7732457b19e716adabc6c97791ee8b88f8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 19/33] fix: accept the shortest text of f32::MAX in JSON

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 6f77ef9..2c44ee2 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -216,10 +216,13 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        // The shortest text of `f32::MAX` is a slightly larger value than `f32::MAX`, so the
+        // comparison is made after rounding.
+        let value = v as f32;
+        if value.is_infinite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(value)
         }
     }
 
-- 
2.43.0


From a22cdef5a180f547e4f4b52281e32732e50d482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 20/33] fix: do not panic on null for repeated Value and
 NullValue fields in JSON

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..5611f7e 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -169,6 +169,11 @@ where
     where
         E: Error,
     {
+        // For repeated and map fields null always means that the field is not set.
+        if self.0.is_list() || self.0.is_map() {
+            return Ok(None);
+        }
+
         match self.0.kind() {
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
-- 
2.43.0


From c652f268a9513aaf92ceaa496cde0319af2089d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 21/33] fix: refuse a second expanded Any value in text format
 instead of dropping the first

---
 prost-reflect/src/dynamic/text_format/parse/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index d189388..62f8754 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -122,6 +122,15 @@ impl<'a> Parser<'a> {
                     None => return Err(ParseErrorKind::MessageNotFound { message_name, span }),
                 };
 
+                if message.desc.full_name() == "google.protobuf.Any"
+                    && (message.has_field_by_number(1) || message.has_field_by_number(2))
+                {
+                    return Err(ParseErrorKind::FieldAlreadySet {
+                        field_name: format!("[{domain}/{message_name}]"),
+                        span,
+                    });
+                }
+
                 let mut value = DynamicMessage::new(value_message);
                 self.parse_message_value(&mut value)?;
 
-- 
2.43.0


From 7f4be2e009f9ee18d76251d8e096efee3b8f6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 22/33] fix: refuse 08 and 09 as integers in text format

---
 prost-reflect/src/dynamic/text_format/parse/lex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index 91d2b45..51ae739 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -100,6 +100,10 @@ impl fmt::Display for Token<'_> {
 
 fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Result<Int<'a>, ()> {
     debug_assert!(lex.slice().len() > prefix_len);
+    if radix == 10 && lex.slice().len() > 1 && lex.slice().starts_with('0') {
+        // Only octal and hexadecimal integers may start with a zero.
+        return Err(());
+    }
     let span = lex.span().start + prefix_len..lex.span().end;
 
     if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
-- 
2.43.0


From 580bc519e97ab01e79ef97bccbec0ea9a89affcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 23/33] fix: do not expand an Any whose message name starts
 with a dot in text format

---
 prost-reflect/src/dynamic/text_format/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index ad28b98..235512b 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -312,9 +312,9 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
-    // The expanded form can only be parsed if the part before the message name is also an identifier.
+    // The expanded form can only be parsed if both parts of the type URL are identifiers.
     let domain = any.type_url.strip_suffix(message_name)?.strip_suffix('/')?;
-    if !is_full_ident(domain) {
+    if !is_full_ident(domain) || !is_full_ident(message_name) {
         return None;
     }
 
-- 
2.43.0


From b88e44bb8cebbcf28a1981b489b290fc7be1810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 24/33] fix: point errors about reserved enum numbers to the
 number, not the options, of the value

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index d48f050..b494040 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -541,7 +541,7 @@ impl ResolveVisitor<'_> {
                             &self.pool.files,
                             "defined here",
                             file,
-                            join_path(path, &[tag::field::NUMBER]),
+                            join_path(path, &[tag::enum_value::NUMBER]),
                         ),
                     });
             }
-- 
2.43.0


From 5838059a07f43aa6fa84a9446b846f862da867dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 25/33] fix: ignore negative source spans, which made showing
 an error overflow

---
 prost-reflect/src/descriptor/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..ef89465 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -793,7 +793,8 @@ impl Label {
                     Some([start_line, start_col, end_line, end_col])
                 }
                 _ => None,
-            });
+            })
+            .filter(|span| span.iter().all(|&n| n >= 0));
 
         Label {
             file: file.name().to_owned(),
-- 
2.43.0


From 8d801bda751717e0654224c29093b38701de3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 26/33] fix: limit the depth at which Any payloads are printed

The depth of a decoded message is limited, but the payload of an Any is only decoded
when it is printed, so a chain of Any messages overflowed the stack of the JSON
serializer and of the text format.
---
 prost-reflect/src/dynamic/serde/mod.rs          | 11 +++++++++++
 prost-reflect/src/dynamic/serde/ser/mod.rs      |  4 +++-
 prost-reflect/src/dynamic/serde/ser/wkt.rs      |  9 +++++++++
 prost-reflect/src/dynamic/text_format/format.rs | 15 ++++++++++++---
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index ffdefb7..0f719b7 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -19,6 +19,8 @@ pub struct SerializeOptions {
     use_enum_numbers: bool,
     use_proto_field_name: bool,
     skip_default_fields: bool,
+    /// The number of messages around the one being serialized.
+    depth: u32,
 }
 
 /// Options to control deserialization of messages.
@@ -204,6 +206,7 @@ impl SerializeOptions {
             use_enum_numbers: false,
             use_proto_field_name: false,
             skip_default_fields: true,
+            depth: 0,
         }
     }
 
@@ -248,6 +251,14 @@ impl SerializeOptions {
         self.skip_default_fields = yes;
         self
     }
+
+    /// The options for a message inside of the one being serialized.
+    fn nested(&self) -> Self {
+        SerializeOptions {
+            depth: self.depth + 1,
+            ..self.clone()
+        }
+    }
 }
 
 impl Default for SerializeOptions {
diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..fffcb50 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -164,7 +164,9 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_i32(*number)
                 }
             }
-            Value::Message(message) => message.serialize_with_options(serializer, self.options),
+            Value::Message(message) => {
+                message.serialize_with_options(serializer, &self.options.nested())
+            }
             Value::List(values) => {
                 let mut list = serializer.serialize_seq(Some(values.len()))?;
                 for value in values {
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 730b910..aa1c8cc 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -49,6 +49,10 @@ where
     }
 }
 
+/// The maximum depth at which the payload of an `Any` is serialized. The depth of a decoded
+/// message is limited, but each payload is decoded on its own.
+const ANY_RECURSION_LIMIT: u32 = 100;
+
 fn serialize_any<S>(
     msg: &DynamicMessage,
     serializer: S,
@@ -57,6 +61,11 @@ fn serialize_any<S>(
 where
     S: Serializer,
 {
+    if options.depth >= ANY_RECURSION_LIMIT {
+        return Err(Error::custom("recursion limit reached"));
+    }
+    let options = &options.nested();
+
     let raw: prost_types::Any = msg.transcode_to().map_err(decode_to_ser_err)?;
 
     let message_name = get_type_url_message_name(&raw.type_url).map_err(Error::custom)?;
diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 235512b..11b515a 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -16,9 +16,13 @@ pub(in crate::dynamic) struct Writer<'a, W> {
     options: FormatOptions,
     f: &'a mut W,
     indent_level: u32,
+    depth: u32,
     unknown_depth: u32,
 }
 
+/// The maximum depth at which the payload of an `Any` is expanded.
+const ANY_RECURSION_LIMIT: u32 = 100;
+
 /// The maximum depth at which length delimited unknown fields are printed as messages.
 const UNKNOWN_RECURSION_LIMIT: u32 = 100;
 
@@ -31,17 +35,20 @@ where
             options,
             f,
             indent_level: 0,
+            depth: 0,
             unknown_depth: 0,
         }
     }
 
     pub fn fmt_message(&mut self, message: &DynamicMessage) -> fmt::Result {
-        if self.options.expand_any {
+        self.depth += 1;
+        if self.options.expand_any && self.depth <= ANY_RECURSION_LIMIT {
             if let Some((type_url, body)) = as_any(message) {
                 self.f.write_char('[')?;
                 self.f.write_str(&type_url)?;
                 self.f.write_str("]")?;
                 self.fmt_field_value(&Value::Message(body), None)?;
+                self.depth -= 1;
                 return Ok(());
             }
         }
@@ -56,10 +63,12 @@ where
             self.fmt_delimited(
                 fields.filter(|f| !matches!(f, ValueAndDescriptor::Unknown(..))),
                 Writer::fmt_message_field,
-            )
+            )?;
         } else {
-            self.fmt_delimited(fields, Writer::fmt_message_field)
+            self.fmt_delimited(fields, Writer::fmt_message_field)?;
         }
+        self.depth -= 1;
+        Ok(())
     }
 
     pub fn fmt_value(&mut self, value: &Value, kind: Option<&Kind>) -> fmt::Result {
-- 
2.43.0


From 1a84bdf7df302e1dbe973ec8824c9f9eac963029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 27/33] fix: follow chains of public imports without recursion

A long chain overflowed the stack.
---
 prost-reflect/src/descriptor/build/resolve.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index b494040..a9f119e 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -412,14 +412,18 @@ impl Visitor for ResolveVisitor<'_> {
 
 impl ResolveVisitor<'_> {
     fn resolve_public_dependencies(&self, dependencies: &mut HashSet<FileIndex>, index: FileIndex) {
-        let file = &self.pool.files[index as usize];
-
-        for (i, dependency) in file.raw.dependency.iter().enumerate() {
-            if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
-                if file.raw.public_dependency.contains(&(i as i32))
-                    && dependencies.insert(dependency_index)
-                {
-                    self.resolve_public_dependencies(dependencies, dependency_index);
+        let mut pending = vec![index];
+        while let Some(index) = pending.pop() {
+            let file = &self.pool.files[index as usize].raw;
+            for &i in &file.public_dependency {
+                let dependency_index = usize::try_from(i)
+                    .ok()
+                    .and_then(|i| file.dependency.get(i))
+                    .and_then(|name| self.pool.file_names.get(name.as_str()));
+                if let Some(&dependency_index) = dependency_index {
+                    if dependencies.insert(dependency_index) {
+                        pending.push(dependency_index);
+                    }
                 }
             }
         }
-- 
2.43.0


From 1e9801f457252bc81f3775be2aca5aafe40556e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 28/33] fix: reject two extensions of a message with the same
 number

---
 prost-reflect/src/descriptor/build/resolve.rs | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index a9f119e..702d13f 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -365,6 +365,7 @@ impl Visitor for ResolveVisitor<'_> {
             tag::field::EXTENDEE,
         );
         if let Some(extendee) = extendee {
+            self.check_extension_number(extendee, extension, file, path);
             self.pool.messages[extendee as usize].extensions.push(index);
 
             self.check_field_number(extendee, extension, file, path);
@@ -429,6 +430,38 @@ impl ResolveVisitor<'_> {
         }
     }
 
+    fn check_extension_number(
+        &mut self,
+        extendee: MessageIndex,
+        extension: &FieldDescriptorProto,
+        file: FileIndex,
+        path: &[i32],
+    ) {
+        let number = extension.number() as u32;
+        let existing = self.pool.messages[extendee as usize]
+            .extensions
+            .iter()
+            .map(|&existing| &self.pool.extensions[existing as usize])
+            .find(|existing| existing.number == number);
+        if let Some(existing) = existing {
+            self.errors.push(DescriptorErrorKind::DuplicateFieldNumber {
+                number,
+                first: Label::new(
+                    &self.pool.files,
+                    "first defined here",
+                    existing.id.file,
+                    join_path(&existing.id.path, &[tag::field::NUMBER]),
+                ),
+                second: Label::new(
+                    &self.pool.files,
+                    "defined again here",
+                    file,
+                    join_path(path, &[tag::field::NUMBER]),
+                ),
+            });
+        }
+    }
+
     fn check_field_number(
         &mut self,
         message: MessageIndex,
-- 
2.43.0


From eb01b0ff85fdb0fdd773eae518fa508e457b450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 29/33] fix: reject map fields whose entry has no usable key
 and value fields

---
 prost-reflect/src/descriptor/build/mod.rs | 78 ++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index a7e6b5c..1b93076 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -14,12 +14,13 @@ use std::{
 use crate::{
     descriptor::{
         error::{DescriptorErrorKind, Label},
-        to_index,
+        tag, to_index,
         types::FileDescriptorProto,
         Definition, DefinitionKind, DescriptorPoolInner, EnumIndex, ExtensionIndex,
-        FileDescriptorInner, FileIndex, MessageIndex, ServiceIndex,
+        FileDescriptorInner, FileIndex, Identity, MessageIndex, ServiceIndex, MAP_ENTRY_KEY_NUMBER,
+        MAP_ENTRY_VALUE_NUMBER,
     },
-    DescriptorError, DescriptorPool,
+    Cardinality, DescriptorError, DescriptorPool, Kind, MessageDescriptor,
 };
 
 #[derive(Clone, Copy)]
@@ -138,7 +139,10 @@ impl DescriptorPool {
 
         inner.resolve_names(offsets, deduped_files)?;
 
+        // The `map_entry` option may be set by the options which are yet to be resolved.
+        self.check_map_fields(offsets)?;
         self.resolve_options(offsets, deduped_files)?;
+        self.check_map_fields(offsets)?;
 
         debug_assert_eq!(Arc::strong_count(&self.inner), 1);
         let inner = Arc::get_mut(&mut self.inner).unwrap();
@@ -148,6 +152,74 @@ impl DescriptorPool {
 
         Ok(())
     }
+
+    /// Checks that the map entries used by fields have a key and a value.
+    fn check_map_fields(&self, offsets: DescriptorPoolOffsets) -> Result<(), DescriptorError> {
+        let mut errors = Vec::new();
+
+        for message in self.all_messages().skip(offsets.message as usize) {
+            let inner = &self.inner.messages[message.index as usize];
+            for (field, field_inner) in message.fields_in_index_order().zip(&inner.fields) {
+                if field.is_map() {
+                    self.check_map_entry(&field.kind(), &field_inner.id, &mut errors);
+                }
+            }
+        }
+
+        for extension in self.all_extensions().skip(offsets.extension as usize) {
+            if extension.is_map() {
+                let inner = &self.inner.extensions[extension.index as usize];
+                self.check_map_entry(&extension.kind(), &inner.id, &mut errors);
+            }
+        }
+
+        if errors.is_empty() {
+            Ok(())
+        } else {
+            Err(DescriptorError::new(errors))
+        }
+    }
+
+    fn check_map_entry(&self, kind: &Kind, id: &Identity, errors: &mut Vec<DescriptorErrorKind>) {
+        if let Kind::Message(entry) = kind {
+            if !is_valid_map_entry(entry) {
+                let defined = &self.inner.messages[entry.index as usize].id;
+                errors.push(DescriptorErrorKind::InvalidType {
+                    name: entry.full_name().to_owned(),
+                    expected: "a valid map entry".to_owned(),
+                    found: Label::new(
+                        &self.inner.files,
+                        "found here",
+                        id.file,
+                        join_path(&id.path, &[tag::field::TYPE_NAME]),
+                    ),
+                    defined: Label::new(
+                        &self.inner.files,
+                        "defined here",
+                        defined.file,
+                        defined.path.clone(),
+                    ),
+                });
+            }
+        }
+    }
+}
+
+fn is_valid_map_entry(message: &MessageDescriptor) -> bool {
+    let field_kind = |number| {
+        message
+            .get_field(number)
+            .filter(|field| field.cardinality() != Cardinality::Repeated)
+            .map(|field| field.kind())
+    };
+
+    let is_valid_key = field_kind(MAP_ENTRY_KEY_NUMBER).is_some_and(|kind| {
+        !matches!(
+            kind,
+            Kind::Double | Kind::Float | Kind::Bytes | Kind::Message(_) | Kind::Enum(_)
+        )
+    });
+    is_valid_key && field_kind(MAP_ENTRY_VALUE_NUMBER).is_some()
 }
 
 impl ResolveNameFilter {
-- 
2.43.0


From c54a05e7476d2acc5a36165e2c9e58b2265e3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 30/33] fix: do not panic when options do not match an
 extension added later

---
 prost-reflect/src/descriptor/api.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index f8a0495..42286c7 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -1978,7 +1978,11 @@ fn decode_options<T>(
         .as_ref()
         .map(|o| o.encoded.as_slice())
         .unwrap_or_default();
-    DynamicMessage::decode(message_desc, bytes).unwrap()
+    let mut message = DynamicMessage::new(message_desc);
+    // The options are known to be well-formed, but they may not match an extension which was
+    // added to the pool after them. In this case we keep the options before the mismatch.
+    let _ = message.merge(bytes);
+    message
 }
 
 fn find_message_proto_prost<'a>(
-- 
2.43.0


From 04f703ff30ac984e3eeb26f7ae5b007e9e6f6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 31/33] fix: refuse options nested too deeply to be decoded
 again

---
 prost-reflect/src/descriptor/build/options.rs | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 1084a49..5dfbab6 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -25,6 +25,9 @@ use crate::{
     ExtensionDescriptor, MapKey, MessageDescriptor, ReflectMessage, Value,
 };
 
+/// The depth of nested messages which can be decoded again.
+const MAX_OPTION_DEPTH: usize = 100;
+
 impl DescriptorPool {
     pub(super) fn resolve_options(
         &mut self,
@@ -312,7 +315,7 @@ impl OptionsVisitor<'_> {
                 .unwrap()
         });
 
-        let mut message = match DynamicMessage::decode(desc, options.encoded.as_slice()) {
+        let mut message = match DynamicMessage::decode(desc.clone(), options.encoded.as_slice()) {
             Ok(message) => message,
             Err(err) => {
                 self.errors
@@ -335,7 +338,14 @@ impl OptionsVisitor<'_> {
 
         message.clear_field_by_number(tag::UNINTERPRETED_OPTION as u32);
 
-        message.encode_to_vec()
+        let encoded = message.encode_to_vec();
+        if !uninterpreted.is_empty() {
+            if let Err(err) = DynamicMessage::decode(desc, encoded.as_slice()) {
+                self.errors
+                    .push(DescriptorErrorKind::DecodeFileDescriptorSet { err });
+            }
+        }
+        encoded
     }
 
     #[allow(clippy::result_large_err)]
@@ -352,6 +362,12 @@ impl OptionsVisitor<'_> {
 
         for (i, part) in option.name.iter().enumerate() {
             let is_last = i == option.name.len() - 1;
+            if i > MAX_OPTION_DEPTH {
+                return Err(DescriptorErrorKind::OptionNotFound {
+                    name: fmt_option_name(&option.name[..i + 1]),
+                    found: Label::new(&self.pool.inner.files, "found here", file, path),
+                });
+            }
 
             let desc = message.descriptor();
             if part.is_extension {
-- 
2.43.0


From 9dcf1982e874972f079bedd9d830348224abb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 32/33] fix: derive ReflectMessage once where a message's name
 ends with another's

---
 prost-reflect-build/src/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/prost-reflect-build/src/lib.rs b/prost-reflect-build/src/lib.rs
index 0ef95f1..e4601c5 100644
--- a/prost-reflect-build/src/lib.rs
+++ b/prost-reflect-build/src/lib.rs
@@ -163,15 +163,27 @@ impl Builder {
             ));
         };
 
-        for message in descriptor.all_messages() {
+        // The attributes for a path apply to every type whose name ends with that path. Adding the
+        // longest names last means the name of a message itself is the one which takes effect.
+        let mut messages: Vec<_> = descriptor.all_messages().collect();
+        messages.sort_by_key(|message| message.full_name().len());
+
+        for message in messages {
             let full_name = message.full_name();
-            config
-                .type_attribute(full_name, "#[derive(::prost_reflect::ReflectMessage)]")
-                .type_attribute(
-                    full_name,
-                    format!(r#"#[prost_reflect(message_name = "{full_name}")]"#),
-                )
-                .type_attribute(full_name, &pool_attribute);
+            let has_attributes = full_name
+                .match_indices('.')
+                .any(|(i, _)| descriptor.get_message_by_name(&full_name[i + 1..]).is_some());
+
+            if !has_attributes {
+                config.type_attribute(full_name, "#[derive(::prost_reflect::ReflectMessage)]");
+            }
+            config.type_attribute(
+                full_name,
+                format!(r#"#[prost_reflect(message_name = "{full_name}")]"#),
+            );
+            if !has_attributes {
+                config.type_attribute(full_name, &pool_attribute);
+            }
         }
 
         Ok(())
-- 
2.43.0


From a31c1e1210993735c9e47c6111a1b05ae3dee309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 33/33] fix: accept a list of messages without a colon in text
 format

---
 .../src/dynamic/text_format/parse/mod.rs         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 62f8754..823736a 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -85,6 +85,7 @@ impl<'a> Parser<'a> {
                 self.bump();
             }
             Some((Token::LeftBrace | Token::LeftAngleBracket, _)) => (),
+            Some((Token::LeftBracket, _)) if is_repeated_message(&message.desc, &name) => (),
             _ => self.unexpected_token("':' or a message value")?,
         };
 
@@ -657,6 +658,21 @@ fn find_field(desc: &MessageDescriptor, name: &str) -> Option<FieldDescriptor> {
     None
 }
 
+/// The colon may be left out before a list of messages.
+fn is_repeated_message(desc: &MessageDescriptor, name: &FieldName) -> bool {
+    fn check(field: &impl FieldDescriptorLike) -> bool {
+        (field.is_list() || field.is_map()) && field.kind().as_message().is_some()
+    }
+
+    match name {
+        FieldName::Ident(name) => find_field(desc, name).is_some_and(|field| check(&field)),
+        FieldName::Extension(name) => desc
+            .get_extension_by_full_name(name)
+            .is_some_and(|extension| check(&extension)),
+        FieldName::Any(..) => false,
+    }
+}
+
 fn fmt_expected<'a>(ts: impl Iterator<Item = Token<'a>>) -> String {
     use std::fmt::Write;
 
-- 
2.43.0

