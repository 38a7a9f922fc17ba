From a8fbfb139f88fe04722717fb1dda5614e0d82c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 01/44] fix: zero-pad percent-encoded bytes below 0x10 in $ref
 names

A control character in a schema name was written as e.g. "% A", which is not
a valid percent escape, so the reference did not lead to the definition.
---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From 48ca41ff8f690cb9567e45ee152464ebdfeac89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 02/44] fix: do not percent-decode escapes containing a sign

`u8::from_str_radix` accepts a leading `+`, so "%+1" was decoded although
it is not a `%` followed by two hex digits.
---
 schemars/src/encoding.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..ac5bac6 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,7 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From b921774e6ce1d4976dbaafcbd3c1c238a50a4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 03/44] fix: keep schema names when cloning a SchemaGenerator

The clone kept the definitions but forgot which schema each name belongs to,
so a different type with the same name was given a reference to the wrong
definition.
---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From b2075f80a8395b0d5d5fa855b8bb5e8119438fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 04/44] fix: percent-encode definitions_path in $ref

A definitions path is a JSON pointer; characters in it that are not allowed in
a URI fragment must be percent-encoded when it becomes part of a reference.
---
 schemars/src/encoding.rs               | 50 +++++++++++++++++++-------
 schemars/src/generate.rs               | 12 +++++--
 schemars/src/json_schema_impls/maps.rs |  2 +-
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index ac5bac6..e526711 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -2,22 +2,22 @@ use crate::_alloc_prelude::*;
 use alloc::borrow::Cow;
 use core::fmt::Write as _;
 
+fn needs_encoding(byte: u8) -> bool {
+    match byte {
+        // `~` and `/` need encoding for JSON Pointer
+        // See https://datatracker.ietf.org/doc/html/rfc6901#section-3
+        b'~' | b'/' => true,
+        // These chars (and `~`) are valid in URL fragment
+        // See https://datatracker.ietf.org/doc/html/rfc3986/#section-3.5
+        b'!' | b'$' | b'&'..=b';' | b'=' | b'?'..=b'Z' | b'_' | b'a'..=b'z' => false,
+        // Everything else needs percent-encoding
+        _ => true,
+    }
+}
+
 /// Encodes a string for insertion into a JSON Pointer in URI fragment representation.
 #[must_use]
 pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
-    fn needs_encoding(byte: u8) -> bool {
-        match byte {
-            // `~` and `/` need encoding for JSON Pointer
-            // See https://datatracker.ietf.org/doc/html/rfc6901#section-3
-            b'~' | b'/' => true,
-            // These chars (and `~`) are valid in URL fragment
-            // See https://datatracker.ietf.org/doc/html/rfc3986/#section-3.5
-            b'!' | b'$' | b'&'..=b';' | b'=' | b'?'..=b'Z' | b'_' | b'a'..=b'z' => false,
-            // Everything else needs percent-encoding
-            _ => true,
-        }
-    }
-
     if name.bytes().any(needs_encoding) {
         let mut buf = String::new();
 
@@ -39,6 +39,30 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
     }
 }
 
+/// Encodes a JSON Pointer as a URI fragment (without the leading `#`).
+#[must_use]
+pub fn encode_pointer(pointer: &str) -> Cow<'_, str> {
+    fn needs_percent_encoding(byte: u8) -> bool {
+        needs_encoding(byte) && byte != b'~' && byte != b'/'
+    }
+
+    if pointer.bytes().any(needs_percent_encoding) {
+        let mut buf = String::new();
+
+        for byte in pointer.bytes() {
+            if needs_percent_encoding(byte) {
+                write!(buf, "%{byte:02X}").unwrap();
+            } else {
+                buf.push(byte as char);
+            }
+        }
+
+        Cow::Owned(buf)
+    } else {
+        Cow::Borrowed(pointer)
+    }
+}
+
 /// Percent-decodes the given string, returning `None` if it results in invalid UTF-8.
 /// A `%` that is not followed by two hex digits is treated as a literal `%`.
 #[must_use]
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..5f10968 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -354,8 +354,8 @@ impl SchemaGenerator {
             });
 
             let reference = format!(
-                "#{}/{}",
-                this.definitions_path_stripped(),
+                "{}{}",
+                this.definitions_ref_prefix(),
                 crate::encoding::encode_ref_name(&name)
             );
 
@@ -609,6 +609,14 @@ impl SchemaGenerator {
         }
     }
 
+    /// Returns the part of a `$ref` to a definition that precedes the definition's name
+    pub(crate) fn definitions_ref_prefix(&self) -> String {
+        format!(
+            "#{}/",
+            crate::encoding::encode_pointer(self.definitions_path_stripped())
+        )
+    }
+
     /// Returns `self.settings.definitions_path` as a plain JSON pointer to the definitions object,
     /// i.e. without a leading '#' or trailing '/'
     pub(crate) fn definitions_path_stripped(&self) -> &str {
diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..f06221c 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -55,7 +55,7 @@ where
         };
 
         // Handle refs
-        let prefix = format!("#{}/", generator.definitions_path_stripped());
+        let prefix = generator.definitions_ref_prefix();
         for option in &mut options {
             if let Some(d) = option
                 .get("$ref")
-- 
2.43.0


From cf558263cd4ca0b7ac5b7bc96f4a0f3a33a0bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 05/44] fix: do not lose definitions when definitions_path is
 the whole document

The trailing slash of "/" is ignored, which left the empty JSON pointer; that
was not recognised, so definitions were dropped and references dangled.
---
 schemars/src/generate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 5f10968..be4f0b2 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -637,11 +637,12 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
 
+    let pointer = pointer.strip_prefix('/')?;
+
     for mut segment in pointer.split('/') {
         let replaced: String;
         if segment.contains('~') {
-- 
2.43.0


From 4dab0e13114c7ff57464bbc7a191e5c92ad02def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 06/44] fix: find referenced map key schemas whose names need
 encoding

The name in a $ref is encoded, so it was not found among the definitions and
the map's keys were left unconstrained.
---
 schemars/src/json_schema_impls/maps.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index f06221c..85285c1 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -1,4 +1,5 @@
 use crate::_alloc_prelude::*;
+use crate::encoding::encode_ref_name;
 use crate::{json_schema, JsonSchema, Schema, SchemaGenerator};
 use alloc::borrow::Cow;
 use alloc::collections::{BTreeMap, BTreeSet};
@@ -61,8 +62,12 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
-                .and_then(Value::as_object)
+                .and_then(|r| {
+                    // `r` is the encoded form of the definition's name
+                    let definitions = &mut generator.definitions().iter();
+                    definitions.find(|(name, _)| encode_ref_name(name) == r)
+                })
+                .and_then(|(_, definition)| definition.as_object())
             {
                 *option = d;
             }
-- 
2.43.0


From 7fa9df8972249447f99c41be4cb4f57b5edbc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 07/44] fix: do not reuse definitions that refer to another
 root schema as '#'

A definition generated by `root_schema_for::<T>()` may refer to T as `#`. The
generator kept it, so a later root schema (or subschema) for another type was
given that definition, where `#` no longer meant T.
---
 schemars/src/generate.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index be4f0b2..4ea6e4b 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -451,6 +451,8 @@ impl SchemaGenerator {
         let schema_uid = self.schema_uid::<T>();
         self.root_schema_id_stack.push(schema_uid.clone());
 
+        let existing_names: BTreeSet<String> = self.definitions.keys().cloned().collect();
+
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
         let object = schema.ensure_object();
@@ -468,6 +470,13 @@ impl SchemaGenerator {
 
         self.root_schema_id_stack.pop();
 
+        // A definition that refers to `T` as `#` is only valid within `T`'s root schema, so it
+        // (and any other new definition, which may depend on it) must not be reused elsewhere.
+        let is_new = |name: &String| !existing_names.contains(name);
+        if (self.definitions.iter()).any(|(name, value)| is_new(name) && contains_root_ref(value)) {
+            self.definitions.retain(|name, _| !is_new(name));
+        }
+
         schema
     }
 
@@ -630,6 +639,17 @@ impl SchemaGenerator {
     }
 }
 
+fn contains_root_ref(value: &Value) -> bool {
+    match value {
+        Value::Array(array) => array.iter().any(contains_root_ref),
+        Value::Object(object) => {
+            object.get("$ref").and_then(Value::as_str) == Some("#")
+                || object.values().any(contains_root_ref)
+        }
+        _ => false,
+    }
+}
+
 fn json_pointer_mut<'a>(
     mut object: &'a mut JsonMap<String, Value>,
     pointer: &str,
-- 
2.43.0


From 3651b98377e65027f5c91177660dde1a51e6db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 08/44] fix: apply transforms to unevaluated*, dependent and
 content subschemas

---
 schemars/src/transform.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..ef2d9d1 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedItems"
+            | "unevaluatedProperties"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            // Support `dependencies` even though it was replaced with `dependentSchemas` in draft
+            // 2019-09 (any of its values that are arrays are not schemas, so are left unchanged)
+            "properties" | "patternProperties" | "dependentSchemas" | "dependencies" | "$defs"
+            | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From 1208fb5da204c15d0b7f0c353f864ff4c9380c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 09/44] fix: do not restrict formats when the meta-schema is
 missing

---
 schemars/src/transform.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index ef2d9d1..17fa8af 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -694,13 +694,17 @@ impl Transform for RestrictFormatsImpl<'_> {
             };
         }
 
-        if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
-                && !self
-                    .inferred_formats
-                    .is_some_and(|formats| formats.contains(&format))
-            {
-                obj.remove("format");
+        let is_meta_schema_unknown = self.infer_from_meta_schema && self.inferred_formats.is_none();
+
+        if !is_meta_schema_unknown {
+            if let Some(format) = obj.get("format").and_then(Value::as_str) {
+                if !self.allowed_formats.contains(format)
+                    && !self
+                        .inferred_formats
+                        .is_some_and(|formats| formats.contains(&format))
+                {
+                    obj.remove("format");
+                }
             }
         }
 
-- 
2.43.0


From 4db0c218a03069858fcd68223e84eedd75aa586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 10/44] fix: keep const null and handle not in schemas of
 optional types

---
 schemars/src/_private/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..307b477 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -461,7 +461,7 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 return;
             }
 
-            if contains_immediate_subschema(obj) {
+            if contains_immediate_subschema(obj) || obj.contains_key("not") {
                 *schema = json_schema!({
                     "anyOf": [
                         obj,
@@ -491,7 +491,9 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
             }
 
             if let Some(c) = obj.remove("const") {
-                if !c.is_null() {
+                if c.is_null() {
+                    obj.insert("const".to_string(), c);
+                } else {
                     obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
                 }
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
-- 
2.43.0


From 8a2189a74985e2ee0814b22e1d1c81a53ddab8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 11/44] fix: unescape map keys when inferring a schema from a
 value

---
 schemars/src/ser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..5ee8b8e 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -388,11 +388,11 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        self.current_key = Some(match serde_json::from_str(&json) {
+            Ok(Value::String(key)) => key,
+            // Other types of key (e.g. integers) are serialized in the same way as outside of a map
+            _ => json,
+        });
 
         Ok(())
     }
-- 
2.43.0


From 36ad6be81255655ce3c3ebaf0be6a754a4cd47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 12/44] fix: make optional types accept null when an anyOf
 member only mentions it

---
 schemars/src/_private/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 307b477..28959aa 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -447,7 +447,15 @@ fn contains_immediate_subschema(schema_obj: &Map<String, Value>) -> bool {
 
 pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
     fn is_null_schema(value: &Value) -> bool {
-        <&Schema>::try_from(value).is_ok_and(|s| s.has_type("null"))
+        <&Schema>::try_from(value).is_ok_and(|s| {
+            s.has_type("null")
+                && s.as_object().is_some_and(|o| {
+                    !contains_immediate_subschema(o)
+                        && !["const", "enum", "not"]
+                            .into_iter()
+                            .any(|k| o.contains_key(k))
+                })
+        })
     }
 
     match schema.try_as_object_mut() {
-- 
2.43.0


From 0d347022e5c2824c6e896b34cef28c2e603e363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 13/44] fix: keep both const and enum constraints in schemas of
 optional types

---
 schemars/src/_private/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 28959aa..cb69ce6 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -469,7 +469,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 return;
             }
 
-            if contains_immediate_subschema(obj) || obj.contains_key("not") {
+            if contains_immediate_subschema(obj)
+                || obj.contains_key("not")
+                || (obj.contains_key("const") && obj.contains_key("enum"))
+            {
                 *schema = json_schema!({
                     "anyOf": [
                         obj,
-- 
2.43.0


From 0436cb4b18c1664629324bdea6d8e2ed146bc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 14/44] fix: replace bool schemas below additionalProperties
 schemas

---
 schemars/src/transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 17fa8af..39495eb 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -296,7 +296,11 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            if self.skip_additional_properties
+                && obj
+                    .get("additionalProperties")
+                    .is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From c9867048c8ec0b94109d33086f29f7aab4120252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 15/44] fix: do not reject evaluated properties when replacing
 unevaluatedProperties

---
 schemars/src/transform.rs | 79 ++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 39495eb..018325a 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -494,44 +494,73 @@ impl Transform for ReplaceUnevaluatedProperties {
             return;
         };
 
-        schema.insert("additionalProperties".to_owned(), up);
+        if schema.get("additionalProperties").is_some() {
+            // Any property not matched by `properties`/`patternProperties` is already evaluated by
+            // `additionalProperties`, so `unevaluatedProperties` had no effect.
+            return;
+        }
 
-        let mut gather_property_names = GatherPropertyNames::default();
-        gather_property_names.transform(schema);
-        let property_names = gather_property_names.0;
+        let mut evaluated = GatherEvaluatedProperties::default();
+        evaluated.transform(schema);
 
-        if property_names.is_empty() {
+        if evaluated.any_other {
+            // A subschema may evaluate properties that we don't know the names of, so the closest
+            // equivalent that doesn't reject any valid values is to allow any additional properties.
             return;
         }
 
-        if let Some(properties) = schema
-            .ensure_object()
-            .entry("properties")
-            .or_insert(Map::new().into())
-            .as_object_mut()
-        {
-            for name in property_names {
-                properties.entry(name).or_insert(true.into());
+        schema.insert("additionalProperties".to_owned(), up);
+
+        for (key, names) in [
+            ("properties", evaluated.names),
+            ("patternProperties", evaluated.patterns),
+        ] {
+            if names.is_empty() {
+                continue;
+            }
+
+            if let Some(properties) = schema
+                .ensure_object()
+                .entry(key)
+                .or_insert(Map::new().into())
+                .as_object_mut()
+            {
+                for name in names {
+                    properties.entry(name).or_insert(true.into());
+                }
             }
         }
     }
 }
 
-// Helper for getting property names for all *immediate* subschemas
+// Helper for getting the properties evaluated by all *immediate* subschemas
 #[derive(Default)]
-struct GatherPropertyNames(BTreeSet<String>);
+struct GatherEvaluatedProperties {
+    names: BTreeSet<String>,
+    patterns: BTreeSet<String>,
+    // `true` if there may be other evaluated properties, which aren't in either of the above sets
+    any_other: bool,
+}
 
-impl Transform for GatherPropertyNames {
+impl Transform for GatherEvaluatedProperties {
     fn transform(&mut self, schema: &mut Schema) {
-        self.0.extend(
-            schema
-                .as_object()
-                .iter()
-                .filter_map(|o| o.get("properties"))
-                .filter_map(Value::as_object)
-                .flat_map(Map::keys)
-                .cloned(),
-        );
+        if let Some(obj) = schema.as_object() {
+            let keys = |key| {
+                obj.get(key)
+                    .and_then(Value::as_object)
+                    .into_iter()
+                    .flat_map(Map::keys)
+                    .cloned()
+            };
+
+            self.names.extend(keys("properties"));
+            self.patterns.extend(keys("patternProperties"));
+            self.any_other |= obj.contains_key("$ref")
+                || obj.contains_key("dependentSchemas")
+                || obj
+                    .get("additionalProperties")
+                    .is_some_and(|ap| ap != &Value::Bool(false));
+        }
 
         transform_immediate_subschemas(self, schema);
     }
-- 
2.43.0


From 331c1b6816c16c495cd8ca5589136884986cf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 16/44] fix: keep existing enum constraint when replacing const

---
 schemars/src/transform.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 018325a..a43ab53 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -383,7 +383,14 @@ impl Transform for ReplaceConstValue {
         transform_subschemas(self, schema);
 
         if let Some(value) = schema.remove("const") {
-            schema.insert("enum".into(), Value::Array(vec![value]));
+            let mut values = vec![value];
+
+            // If there's already an `enum` then the value must satisfy both keywords
+            if let Some(Value::Array(existing_values)) = schema.get("enum") {
+                values.retain(|v| existing_values.contains(v));
+            }
+
+            schema.insert("enum".into(), Value::Array(values));
         }
     }
 }
-- 
2.43.0


From 819fb237e830ff3d2bbb7dba60463994e869154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 17/44] fix: do not reorder keys inside const, enum and other
 plain values

---
 schemars/src/schema.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/schemars/src/schema.rs b/schemars/src/schema.rs
index c42d422..d8f625f 100644
--- a/schemars/src/schema.rs
+++ b/schemars/src/schema.rs
@@ -537,8 +537,12 @@ mod ser {
             where
                 S: serde::Serializer,
             {
-                if matches!(key, "examples" | "default") || key.starts_with("x-") {
-                    // Value(s) of `examples`/`default` are plain values, not schemas.
+                if matches!(
+                    key,
+                    "examples" | "example" | "default" | "const" | "enum" | "dependentRequired"
+                ) || key.starts_with("x-")
+                {
+                    // Value(s) of `examples`/`default`/etc. are plain values, not schemas.
                     // Also don't reorder values of custom properties.
                     map.serialize_entry(key, value)
                 } else {
@@ -547,6 +551,7 @@ mod ser {
                         "properties"
                             | "patternProperties"
                             | "dependentSchemas"
+                            | "dependencies"
                             | "$defs"
                             | "definitions"
                     );
-- 
2.43.0


From 8183288c6346858264fbfc3de6c830916c9c0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 18/44] fix: allow null in schemas inferred from non-finite
 floats

---
 schemars/src/ser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 5ee8b8e..30c4a91 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -67,14 +67,27 @@ impl<'a> serde::Serializer for Serializer<'a> {
     return_instance_type!(serialize_u32, u32, "integer");
     return_instance_type!(serialize_u64, u64, "integer");
     return_instance_type!(serialize_u128, u128, "integer");
-    return_instance_type!(serialize_f32, f32, "number");
-    return_instance_type!(serialize_f64, f64, "number");
 
     forward_to_subschema_for!(serialize_bool, bool);
     forward_to_subschema_for!(serialize_char, char);
     forward_to_subschema_for!(serialize_str, &str);
     forward_to_subschema_for!(serialize_bytes, &[u8]);
 
+    fn serialize_f32(self, value: f32) -> Result<Self::Ok, Self::Error> {
+        self.serialize_f64(value.into())
+    }
+
+    fn serialize_f64(self, value: f64) -> Result<Self::Ok, Self::Error> {
+        if value.is_finite() {
+            Ok(json_schema!({
+                "type": "number"
+            }))
+        } else {
+            // NaN and infinite values are serialized to JSON as `null`
+            self.serialize_none()
+        }
+    }
+
     fn collect_str<T>(self, _value: &T) -> Result<Self::Ok, Self::Error>
     where
         T: Display + ?Sized,
-- 
2.43.0


From e710e44dcb98450513d7d6e74481616fbc96e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 19/44] fix: flatten documented and untagged-mixed unit
 variants as objects

---
 schemars/src/_private/mod.rs | 136 ++++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 49 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index cb69ce6..7af471b 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -53,33 +53,7 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
 ) -> Schema {
     /// Non-generic inner function to reduce monomorphization overhead
     fn inner(mut schema: Schema, is_optional: bool) -> Schema {
-        // Special handling for externally-tagged enums with unit variants.
-        // Unit variants are normally serialized as strings, but when flattened, are serialized
-        // as objects like `{ "VariantName": null }`
-        if let Some(unit_variants) = remove_unit_variants(&mut schema) {
-            if let Value::Array(one_of) = schema
-                .ensure_object()
-                .entry("oneOf")
-                .or_insert(Value::Array(Vec::new()))
-            {
-                one_of.extend(
-                    unit_variants
-                        .iter()
-                        .filter_map(Value::as_str)
-                        .map(|variant| {
-                            json!({
-                                "type": "object",
-                                "properties": {
-                                    variant: {
-                                        "type": "null"
-                                    }
-                                },
-                                "required": [variant],
-                            })
-                        }),
-                );
-            }
-        }
+        unit_variants_to_objects(&mut schema);
 
         if is_optional {
             schema.remove("required");
@@ -115,34 +89,98 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         schema
     }
 
-    fn remove_unit_variants(schema: &mut Schema) -> Option<Vec<Value>> {
-        // For enums that only have unit variants, all variants are in `enum`
-        if schema.get("type").and_then(Value::as_str) == Some("string") {
-            // Remove both `"enum": [...]`...
-            if let Some(Value::Array(a)) = schema.remove("enum") {
-                // ...and `"type": "string"`, since the variants are not serialized as strings
-                schema.remove("type");
-                return Some(a);
-            }
+    inner(
+        T::_schemars_private_non_optional_json_schema(generator),
+        T::_schemars_private_is_option() && !required,
+    )
+}
+
+/// Special handling for externally-tagged enums with unit variants.
+/// Unit variants are normally serialized as strings, but when flattened (or when contained in a
+/// newtype variant of an internally-tagged enum), are serialized as objects like
+/// `{ "VariantName": null }`.
+///
+/// Returns true if the schema was modified.
+fn unit_variants_to_objects(schema: &mut Schema) -> bool {
+    fn unit_variant_object(variant: &str) -> Value {
+        json!({
+            "type": "object",
+            "properties": {
+                variant: {
+                    "type": "null"
+                }
+            },
+            "required": [variant],
+        })
+    }
+
+    fn is_string(schema: &Map<String, Value>) -> bool {
+        schema.get("type").and_then(Value::as_str) == Some("string")
+    }
+
+    let Some(obj) = schema.as_object_mut() else {
+        return false;
+    };
+
+    let mut did_modify = false;
+    let mut unit_variants = Vec::new();
+
+    // For enums that only have unit variants, all variants are in `enum`
+    if is_string(obj) {
+        // Remove both `"enum": [...]`...
+        if let Some(Value::Array(a)) = obj.remove("enum") {
+            // ...and `"type": "string"`, since the variants are not serialized as strings
+            obj.remove("type");
+            did_modify = true;
+            unit_variants.extend(a);
         }
+    }
 
-        // For enums that have unit and other variants, unit variants are in the first `oneOf` item
-        let one_of = schema.get_mut("oneOf")?.as_array_mut()?;
-        let first = <&mut Schema>::try_from(one_of.get_mut(0)?).ok()?;
-        if first.get("type").and_then(Value::as_str) == Some("string") {
-            if let Some(Value::Array(a)) = first.remove("enum") {
-                one_of.remove(0);
-                return Some(a);
+    // For enums that have unit and other variants, unit variants without any attributes/docs are in
+    // the first subschema, and each of the others has its own subschema with a `const`.
+    let variants_key = if obj.contains_key("anyOf") {
+        "anyOf"
+    } else {
+        "oneOf"
+    };
+    if let Some(Value::Array(subschemas)) = obj.get_mut(variants_key) {
+        subschemas.retain_mut(|subschema| {
+            let Some(subschema) = subschema.as_object_mut().filter(|s| is_string(s)) else {
+                return true;
+            };
+
+            if let Some(Value::Array(a)) = subschema.remove("enum") {
+                did_modify = true;
+                unit_variants.extend(a);
+                return false;
             }
-        }
 
-        None
+            if let Some(Value::String(variant)) = subschema.remove("const") {
+                did_modify = true;
+                if let Value::Object(variant_object) = unit_variant_object(&variant) {
+                    subschema.extend(variant_object);
+                }
+            }
+
+            true
+        });
     }
 
-    inner(
-        T::_schemars_private_non_optional_json_schema(generator),
-        T::_schemars_private_is_option() && !required,
-    )
+    if !unit_variants.is_empty() {
+        if let Value::Array(subschemas) = obj
+            .entry(variants_key)
+            .or_insert(Value::Array(Vec::new()))
+        {
+            subschemas.extend(
+                unit_variants
+                    .iter()
+                    .filter_map(Value::as_str)
+                    .map(unit_variant_object),
+            );
+        }
+    }
+
+    did_modify
 }
 
 #[derive(Default)]
-- 
2.43.0


From 3da908724c8ae7873429c7b687618add975d4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 20/44] fix: allow unit variants inside internally tagged
 newtype variants

---
 schemars/src/_private/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 7af471b..2ce5156 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -23,16 +23,21 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     // - The generator settings specify that all schemas should be inlined
     // - The inner type is a unit struct, which would cause an unsatisfiable schema due to mismatched `type`.
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
+    // - The inner type is an externally-tagged enum with unit variants, which are serialized as objects
+    //    rather than strings in order to include the tag.
     // - The inner schema specified `"additionalProperties": false` or `"unevaluatedProperties": false`,
     //    since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
     //    nested e.g. in an `allOf`, then it must be removed, which is why we run `AllowUnknownProperties`
     //    but only on immediate subschemas.
 
+    let has_unit_variants = unit_variants_to_objects(&mut schema);
+
     let mut transform = AllowUnknownProperties::default();
     transform_immediate_subschemas(&mut transform, &mut schema);
 
     if T::inline_schema()
+        || has_unit_variants
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
         || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
@@ -167,9 +172,8 @@ fn unit_variants_to_objects(schema: &mut Schema) -> bool {
     }
 
     if !unit_variants.is_empty() {
-        if let Value::Array(subschemas) = obj
-            .entry(variants_key)
-            .or_insert(Value::Array(Vec::new()))
+        if let Value::Array(subschemas) =
+            obj.entry(variants_key).or_insert(Value::Array(Vec::new()))
         {
             subschemas.extend(
                 unit_variants
-- 
2.43.0


From 9c55bd12a0dced435fd672906113aad27f635f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 21/44] fix: treat newtype variants with a skipped field as
 unit variants

---
 schemars_derive/src/ast/mod.rs      | 24 ++++++++
 schemars_derive/src/schema_exprs.rs | 86 ++++++++++++++++++-----------
 2 files changed, 79 insertions(+), 31 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index bf41572..dfa97d4 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -89,6 +89,30 @@ impl Variant<'_> {
         matches!(self.style, serde_ast::Style::Unit)
     }
 
+    /// Serde treats a newtype variant with a skipped field as a unit variant. Given the expressions
+    /// to use for a newtype variant and for a unit variant, returns the expression to use for this
+    /// variant, which may depend on the contract if the field is only skipped in one direction.
+    pub fn newtype_or_unit(&self, newtype: TokenStream, unit: &TokenStream) -> TokenStream {
+        if !matches!(self.style, serde_ast::Style::Newtype) || self.attrs.with.is_some() {
+            return newtype;
+        }
+
+        let field_attrs = &self.fields[0].serde_attrs;
+        match (
+            field_attrs.skip_deserializing(),
+            field_attrs.skip_serializing(),
+        ) {
+            (true, true) => quote!(#unit),
+            (true, false) => {
+                quote!(if #GENERATOR.contract().is_deserialize() { #unit } else { #newtype })
+            }
+            (false, true) => {
+                quote!(if #GENERATOR.contract().is_serialize() { #unit } else { #newtype })
+            }
+            (false, false) => newtype,
+        }
+    }
+
     pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
         self.attrs.common.add_mutators(mutators);
     }
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..f7ddc76 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -318,17 +318,21 @@ fn expr_for_external_tagged_enum<'a>(
 
         let name = variant.name();
 
+        let unit_expr = quote! {
+            schemars::_private::new_unit_enum_variant(#name)
+        };
         let mut schema_expr =
             SchemaExpr::from(if variant.is_unit() && variant.attrs.with.is_none() {
-                quote! {
-                    schemars::_private::new_unit_enum_variant(#name)
-                }
+                unit_expr
             } else {
                 let sub_schema =
                     expr_for_untagged_enum_variant(cont, variant, deny_unknown_fields, false);
-                quote! {
-                    schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
-                }
+                variant.newtype_or_unit(
+                    quote! {
+                        schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
+                    },
+                    &unit_expr,
+                )
             });
 
         variant.add_mutators(&mut schema_expr.mutators);
@@ -413,15 +417,6 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 ))
             };
 
-            let (add_content_to_props, add_content_to_required) = content_schema
-                .map(|content_schema| {
-                    (
-                        quote!(#content_name: (#content_schema),),
-                        quote!(#content_name,),
-                    )
-                })
-                .unwrap_or_default();
-
             let name = variant.name();
             let tag_schema = quote! {
                 schemars::json_schema!({
@@ -438,20 +433,36 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 TokenStream::new()
             };
 
-            let mut outer_schema = SchemaExpr::from(quote!(schemars::json_schema!({
-                "type": "object",
-                "properties": {
-                    #tag_name: (#tag_schema),
-                    #add_content_to_props
-                },
-                "required": [
-                    #tag_name,
-                    #add_content_to_required
-                ],
-                // As we're creating a "wrapper" object, we can honor the
-                // disposition of deny_unknown_fields.
-                #set_additional_properties
-            })));
+            let outer_schema_expr = |content_schema: Option<SchemaExpr>| {
+                let (add_content_to_props, add_content_to_required) = content_schema
+                    .map(|content_schema| {
+                        (
+                            quote!(#content_name: (#content_schema),),
+                            quote!(#content_name,),
+                        )
+                    })
+                    .unwrap_or_default();
+
+                quote!(schemars::json_schema!({
+                    "type": "object",
+                    "properties": {
+                        #tag_name: (#tag_schema),
+                        #add_content_to_props
+                    },
+                    "required": [
+                        #tag_name,
+                        #add_content_to_required
+                    ],
+                    // As we're creating a "wrapper" object, we can honor the
+                    // disposition of deny_unknown_fields.
+                    #set_additional_properties
+                }))
+            };
+
+            let mut outer_schema = SchemaExpr::from(variant.newtype_or_unit(
+                outer_schema_expr(content_schema),
+                &outer_schema_expr(None),
+            ));
 
             variant.add_mutators(&mut outer_schema.mutators);
 
@@ -571,7 +582,7 @@ fn expr_for_untagged_enum_variant(
     } else {
         match variant.style {
             Style::Unit => expr_for_unit_struct(),
-            Style::Newtype => expr_for_field(cont, &variant.fields[0], false),
+            Style::Newtype => expr_for_newtype_variant(cont, variant, false),
             Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
             Style::Struct => expr_for_struct(
                 cont,
@@ -616,7 +627,7 @@ fn expr_for_internal_tagged_enum_variant(
 
     match variant.style {
         Style::Unit => expr_for_unit_struct(),
-        Style::Newtype => expr_for_field(cont, &variant.fields[0], true),
+        Style::Newtype => expr_for_newtype_variant(cont, variant, true),
         Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
         Style::Struct => expr_for_struct(
             cont,
@@ -627,6 +638,19 @@ fn expr_for_internal_tagged_enum_variant(
     }
 }
 
+fn expr_for_newtype_variant(
+    cont: &Container,
+    variant: &Variant,
+    is_internal_tagged: bool,
+) -> SchemaExpr {
+    let field_expr = expr_for_field(cont, &variant.fields[0], is_internal_tagged);
+    let unit_expr = expr_for_unit_struct();
+
+    variant
+        .newtype_or_unit(quote!(#field_expr), &quote!(#unit_expr))
+        .into()
+}
+
 fn expr_for_unit_struct() -> SchemaExpr {
     quote! {
         #GENERATOR.subschema_for::<()>()
-- 
2.43.0


From 3e40077aec8fb6147e65c8fd4ea6dd9caaeecb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 22/44] fix: include struct tag in serialize schemas

---
 schemars_derive/src/schema_exprs.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index f7ddc76..be7d37b 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -73,12 +73,27 @@ pub fn expr_for_container(cont: &Container) -> SchemaExpr {
             Data::Struct(Style::Unit, _) => expr_for_unit_struct(),
             Data::Struct(Style::Newtype, fields) => expr_for_newtype_struct(cont, &fields[0]),
             Data::Struct(Style::Tuple, fields) => expr_for_tuple_struct(cont, fields),
-            Data::Struct(Style::Struct, fields) => expr_for_struct(
-                cont,
-                fields,
-                cont.serde_attrs.default(),
-                cont.serde_attrs.deny_unknown_fields(),
-            ),
+            Data::Struct(Style::Struct, fields) => {
+                let mut schema_expr = expr_for_struct(
+                    cont,
+                    fields,
+                    cont.serde_attrs.default(),
+                    cont.serde_attrs.deny_unknown_fields(),
+                );
+
+                // A `#[serde(tag = "...")]` on a struct is written when serializing, but is not
+                // expected when deserializing.
+                if let TagType::Internal { tag } = cont.serde_attrs.tag() {
+                    let name = cont.serde_attrs.name().serialize_name();
+                    schema_expr.mutators.push(quote! {
+                        if #GENERATOR.contract().is_serialize() {
+                            schemars::_private::apply_internal_enum_variant_tag(&mut #SCHEMA, #tag, #name, false);
+                        }
+                    });
+                }
+
+                schema_expr
+            }
             Data::Enum(variants) => expr_for_enum(cont, variants, &cont.serde_attrs),
         };
 
-- 
2.43.0


From da6b6c0de6c8f9e1e21efe66b58dcecd20d17318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 23/44] fix: allow tuple items with defaults to be missing when
 deserializing

---
 schemars_derive/src/schema_exprs.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index be7d37b..4211c68 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -72,7 +72,9 @@ pub fn expr_for_container(cont: &Container) -> SchemaExpr {
         let schema_expr = match &cont.data {
             Data::Struct(Style::Unit, _) => expr_for_unit_struct(),
             Data::Struct(Style::Newtype, fields) => expr_for_newtype_struct(cont, &fields[0]),
-            Data::Struct(Style::Tuple, fields) => expr_for_tuple_struct(cont, fields),
+            Data::Struct(Style::Tuple, fields) => {
+                expr_for_tuple_struct(cont, fields, cont.serde_attrs.default())
+            }
             Data::Struct(Style::Struct, fields) => {
                 let mut schema_expr = expr_for_struct(
                     cont,
@@ -598,7 +600,7 @@ fn expr_for_untagged_enum_variant(
         match variant.style {
             Style::Unit => expr_for_unit_struct(),
             Style::Newtype => expr_for_newtype_variant(cont, variant, false),
-            Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
+            Style::Tuple => expr_for_tuple_struct(cont, &variant.fields, &SerdeDefault::None),
             Style::Struct => expr_for_struct(
                 cont,
                 &variant.fields,
@@ -643,7 +645,7 @@ fn expr_for_internal_tagged_enum_variant(
     match variant.style {
         Style::Unit => expr_for_unit_struct(),
         Style::Newtype => expr_for_newtype_variant(cont, variant, true),
-        Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
+        Style::Tuple => expr_for_tuple_struct(cont, &variant.fields, &SerdeDefault::None),
         Style::Struct => expr_for_struct(
             cont,
             &variant.fields,
@@ -677,13 +679,21 @@ fn expr_for_newtype_struct(cont: &Container, field: &Field) -> SchemaExpr {
     expr_for_field(cont, field, false)
 }
 
-fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
+fn expr_for_tuple_struct(cont: &Container, fields: &[Field], default: &SerdeDefault) -> SchemaExpr {
     let fields: Vec<_> = fields
         .iter()
         .map(|f| {
             let field_expr = expr_for_field(cont, f, false);
+            // Trailing items with a default may be missing when deserializing
+            let has_default = !default.is_none() || !f.serde_attrs.default().is_none();
+            let update_min_len = if has_default {
+                quote!(if #GENERATOR.contract().is_serialize() { min_len = prefix_items.len(); })
+            } else {
+                quote!(min_len = prefix_items.len();)
+            };
             f.with_contract_check(quote! {
                 prefix_items.push((#field_expr).to_value());
+                #update_min_len
             })
         })
         .collect();
@@ -694,6 +704,7 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
     // items have `skip_serializing` or `skip_deserializing` attributes.
     quote!({
         let mut prefix_items = schemars::_private::alloc::vec::Vec::<schemars::_private::serde_json::Value>::with_capacity(#max_len);
+        let mut min_len: usize = 0;
         #(#fields)*
         let len = prefix_items.len();
 
@@ -701,7 +712,9 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
         map.insert("type".into(), "array".into());
         if !prefix_items.is_empty() {
             map.insert("prefixItems".into(), prefix_items.into());
-            map.insert("minItems".into(), len.into());
+        }
+        if min_len > 0 {
+            map.insert("minItems".into(), min_len.into());
         }
         map.insert("maxItems".into(), len.into());
 
-- 
2.43.0


From 79401d85da7deef1758f380af5df96c3b5882ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 24/44] fix: allow missing optional content of adjacently
 tagged variants when deserializing

---
 schemars_derive/src/schema_exprs.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 4211c68..dcf1de6 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -481,6 +481,23 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 &outer_schema_expr(None),
             ));
 
+            // When deserializing, the content of a newtype variant may be missing if it's an `Option`
+            if let (Style::Newtype, None) = (variant.style, &variant.attrs.with) {
+                let field = &variant.fields[0];
+                let ty = field.ty;
+                if field.attrs.with.is_none() && !field.attrs.validation.required {
+                    let is_optional = variant.newtype_or_unit(
+                        quote!(<#ty as schemars::JsonSchema>::_schemars_private_is_option()),
+                        &quote!(false),
+                    );
+                    outer_schema.mutators.push(quote! {
+                        if #GENERATOR.contract().is_deserialize() && #is_optional {
+                            #SCHEMA.insert("required".into(), [#tag_name].as_slice().into());
+                        }
+                    });
+                }
+            }
+
             variant.add_mutators(&mut outer_schema.mutators);
 
             (Some(variant), outer_schema)
-- 
2.43.0


From ef4dfe4cb191ef23c7bbb1f81814c38d3a3d5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 25/44] fix: inline internally tagged newtype variants that
 restrict additional properties

---
 schemars/src/_private/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 2ce5156..3ceba28 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -25,6 +25,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
     // - The inner type is an externally-tagged enum with unit variants, which are serialized as objects
     //    rather than strings in order to include the tag.
+    // - The inner schema specified additional/unevaluatedProperties with a schema (e.g. due to a
+    //    flattened map), which would be applied to the variant tag.
     // - The inner schema specified `"additionalProperties": false` or `"unevaluatedProperties": false`,
     //    since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
@@ -42,6 +44,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
         || schema.get("type").and_then(Value::as_str) == Some("null")
         || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
         || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
+        || schema.get("additionalProperties").is_some_and(Value::is_object)
+        || schema.get("unevaluatedProperties").is_some_and(Value::is_object)
         || transform.did_modify
     {
         return schema;
-- 
2.43.0


From e22dc1b6d326c7ee294a7ec770913e2fd5d6258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:31 +0000
Subject: [PATCH 26/44] fix: allow null in schemas of weak references

A dangling Weak is serialized as null.
---
 schemars/src/json_schema_impls/wrapper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/wrapper.rs b/schemars/src/json_schema_impls/wrapper.rs
index ea09504..1bd6925 100644
--- a/schemars/src/json_schema_impls/wrapper.rs
+++ b/schemars/src/json_schema_impls/wrapper.rs
@@ -11,9 +11,10 @@ wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a T);
 wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a mut T);
 wrapper_impl!(<T: ?Sized> JsonSchema for Box<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Rc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Weak<T>);
+// A dangling `Weak` is serialized as null
+forward_impl!((<T: ?Sized + JsonSchema> JsonSchema for alloc::rc::Weak<T>) => Option<alloc::rc::Rc<T>>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Arc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Weak<T>);
+forward_impl!((<T: ?Sized + JsonSchema> JsonSchema for alloc::sync::Weak<T>) => Option<alloc::sync::Arc<T>>);
 #[cfg(feature = "std")]
 wrapper_impl!(<T: ?Sized> JsonSchema for std::sync::Mutex<T>);
 #[cfg(feature = "std")]
-- 
2.43.0


From 822d7fe612398739f8f07955623b55380decc034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 27/44] fix: allow unsetting `with` and a container's `rename`

`#[schemars(!with)]` and, on a container, `#[schemars(!rename)]` were
rejected as if they were `with`/`rename` items without a value.
---
 schemars_derive/src/attr/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index d570de1..d16e575 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -477,10 +477,14 @@ pub struct AttrCtxt<'a> {
 
 impl<'a> AttrCtxt<'a> {
     pub fn new(inner: &'a Ctxt, attrs: &'a [Attribute], attr_type: &'static str) -> Self {
+        let mut metas = get_meta_items(attrs, attr_type, inner);
+        // "Unset" attributes are handled in schemars_to_serde
+        metas.retain(|m| !matches!(m, CustomMeta::Not(..)));
+
         Self {
             inner,
             attr_type,
-            metas: get_meta_items(attrs, attr_type, inner),
+            metas,
         }
     }
 
-- 
2.43.0


From a03d1ed3bd7a97cebe490525876ffc269afdab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 28/44] fix: base ArrayVec's schema_id on its item type's
 schema_id

---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..a214e78 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0


From 700d84752c0ff8b0ac8ac7344171211cc9bb7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 29/44] fix: include type params used only by attributes in
 schema_id

---
 schemars_derive/src/attr/mod.rs |   9 +++
 schemars_derive/src/bound.rs    | 110 ++++++++++++++++++++++++++++++++
 2 files changed, 119 insertions(+)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index d16e575..46c1886 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -64,6 +64,15 @@ pub enum WithAttr {
     Function(Path),
 }
 
+impl ToTokens for WithAttr {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
+        match self {
+            WithAttr::Type(ty) => ty.to_tokens(tokens),
+            WithAttr::Function(fun) => fun.to_tokens(tokens),
+        }
+    }
+}
+
 impl CommonAttrs {
     fn populate(
         &mut self,
diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..0137267 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -2,6 +2,9 @@ use crate::{
     ast::{Container, Data, Field, Variant},
     attr::WithAttr,
 };
+use proc_macro2::{TokenStream, TokenTree};
+use quote::ToTokens;
+use serde_derive_internals::attr as serde_attr;
 use std::collections::BTreeSet;
 use syn::{punctuated::Punctuated, Ident};
 
@@ -56,6 +59,10 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         }
     }
 
+    if visitor.all_type_params.len() > visitor.relevant_type_params.len() {
+        visitor.visit_attrs(cont);
+    }
+
     cont.relevant_type_params = visitor.relevant_type_params;
 
     let where_clause = cont.generics.make_where_clause();
@@ -116,6 +123,104 @@ struct FindTyParams<'ast> {
 
 #[allow(clippy::single_match)]
 impl FindTyParams<'_> {
+    /// Finds type params that are used by attribute values which contribute to the schema. Those
+    /// may or may not implement `JsonSchema`, so this does not affect `type_params_for_bound`.
+    fn visit_attrs(&mut self, cont: &Container) {
+        let mut tokens = Vec::new();
+
+        cont.add_mutators(&mut tokens);
+        tokens.extend(
+            [
+                cont.attrs.with.as_ref().map(WithAttr::to_token_stream),
+                cont.serde_attrs.type_from().map(ToTokens::to_token_stream),
+                (cont.serde_attrs.type_try_from()).map(ToTokens::to_token_stream),
+                cont.serde_attrs.type_into().map(ToTokens::to_token_stream),
+            ]
+            .into_iter()
+            .flatten(),
+        );
+
+        // The container's default value could be different for any type args
+        if !cont.serde_attrs.default().is_none() {
+            tokens.push(quote!(Self));
+        }
+
+        match &cont.data {
+            Data::Enum(variants) => {
+                for variant in variants {
+                    if variant.serde_attrs.skip_deserializing()
+                        && variant.serde_attrs.skip_serializing()
+                    {
+                        continue;
+                    }
+
+                    variant.add_mutators(&mut tokens);
+                    tokens.extend(variant.attrs.with.as_ref().map(WithAttr::to_token_stream));
+
+                    for field in &variant.fields {
+                        Self::extend_field_attr_tokens(&mut tokens, field, Some(variant));
+                    }
+                }
+            }
+            Data::Struct(_, fields) => {
+                for field in fields {
+                    Self::extend_field_attr_tokens(&mut tokens, field, None);
+                }
+            }
+        }
+
+        for tokens in tokens {
+            self.visit_tokens(tokens);
+        }
+    }
+
+    fn extend_field_attr_tokens(
+        tokens: &mut Vec<TokenStream>,
+        field: &Field,
+        variant: Option<&Variant>,
+    ) {
+        if !needs_jsonschema_bound(field, variant) {
+            return;
+        }
+
+        field.add_mutators(tokens);
+        tokens.extend(field.attrs.with.as_ref().map(WithAttr::to_token_stream));
+
+        if let serde_attr::Default::Path(path) = field.serde_attrs.default() {
+            tokens.push(path.to_token_stream());
+        }
+
+        // The default value depends on the field's actual type
+        let has_default =
+            !field.serde_attrs.default().is_none() || field.serde_attrs.skip_deserializing();
+        if has_default && field.attrs.with.is_some() {
+            tokens.push(field.ty.to_token_stream());
+        }
+
+        tokens.extend((field.serde_attrs.serialize_with()).map(ToTokens::to_token_stream));
+    }
+
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Ident(ident) if ident == "Self" => self.visit_self(),
+                TokenTree::Ident(ident) => {
+                    if let Some(ident) = self.all_type_params.get(&ident) {
+                        self.relevant_type_params.insert(ident);
+                    }
+                }
+                _ => {}
+            }
+        }
+    }
+
+    /// Called when something other than the container itself is accessed through `Self`, which
+    /// could depend on any of the type params.
+    fn visit_self(&mut self) {
+        self.relevant_type_params.extend(&self.all_type_params);
+    }
+
     fn visit_field(&mut self, field: &Field) {
         match &field.attrs.with {
             Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
@@ -172,6 +277,11 @@ impl FindTyParams<'_> {
             syn::Type::Path(ty) => {
                 if let Some(qself) = &ty.qself {
                     self.visit_type(field, &qself.ty);
+                    if matches!(&*qself.ty, syn::Type::Path(p) if p.path.is_ident("Self")) {
+                        self.visit_self();
+                    }
+                } else if ty.path.segments.len() > 1 && ty.path.segments[0].ident == "Self" {
+                    self.visit_self();
                 }
                 self.visit_path(field, &ty.path);
             }
-- 
2.43.0


From 2f09eb94d2b634a5e57789d9419637a9e9bb0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 30/44] fix: distinguish remote definitions of equally named
 types in schema_id

---
 schemars_derive/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..eaeaf4e 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -114,12 +114,19 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     };
 
+    // Multiple types in the same module may be remote definitions for types with the same name, so
+    // the name alone would not be enough to identify them.
+    let id_name = match cont.serde_attrs.remote() {
+        Some(_) => format!("{name}/{type_name}"),
+        None => name.to_string(),
+    };
+
     let schema_id = if const_params.is_empty() && cont.relevant_type_params.is_empty() {
         quote! {
             schemars::_private::alloc::borrow::Cow::Borrowed(::core::concat!(
                 ::core::module_path!(),
                 "::",
-                #name
+                #id_name
             ))
         }
     } else {
@@ -135,7 +142,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                         #(#format_string_braces,)*
                         ">"
                     ),
-                    #name,
+                    #id_name,
                     #(#const_params,)*
                     #(schemars::_schemars_maybe_schema_id!(#relevant_type_params),)*
                 )
-- 
2.43.0


From e95e054e71942b9878ac08b8a7889a026aed8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 31/44] fix: separate generic params in schema_id

---
 schemars_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index eaeaf4e..99f9983 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -131,7 +131,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        let format_string_braces = vec!["{},"; const_params.len() + relevant_type_params.len()];
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
-- 
2.43.0


From c071e99b1d8ececa1595e0b3f58285d68643632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:29 +0000
Subject: [PATCH 32/44] fix: specify the type of a container's default value

---
 schemars_derive/src/schema_exprs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index dcf1de6..3bce089 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -749,7 +749,12 @@ fn expr_for_struct(
     let set_container_default = match default {
         SerdeDefault::None => None,
         SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = Self::default();)),
-        SerdeDefault::Path(path) => Some(quote!(let #STRUCT_DEFAULT = #path();)),
+        SerdeDefault::Path(path) => Some(match cont.serde_attrs.remote() {
+            // the function returns the remote type
+            Some(_) => quote!(let #STRUCT_DEFAULT = #path();),
+            // specify the type, so that any type args can be inferred
+            None => quote!(let #STRUCT_DEFAULT: Self = #path();),
+        }),
     };
 
     // a vec of mutators
-- 
2.43.0


From 8bf49c40c0f4f80a835f8dec5f7fceef5c81dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 33/44] fix: accept integer literals beyond i32 in range and
 length attributes

---
 schemars_derive/src/attr/parse_meta.rs | 34 +++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/schemars_derive/src/attr/parse_meta.rs b/schemars_derive/src/attr/parse_meta.rs
index 4c473d1..ef26204 100644
--- a/schemars_derive/src/attr/parse_meta.rs
+++ b/schemars_derive/src/attr/parse_meta.rs
@@ -2,7 +2,7 @@ use proc_macro2::{TokenStream, TokenTree};
 use syn::{
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
-    Expr, ExprLit, Lit, LitStr, MetaNameValue,
+    Expr, ExprLit, Lit, LitInt, LitStr, MetaNameValue, UnOp,
 };
 
 use super::{path_str, AttrCtxt, CustomMeta};
@@ -114,18 +114,18 @@ pub fn parse_length_or_range(outer_meta: &CustomMeta, cx: &AttrCtxt) -> Result<L
             "min" => match (&result.min, &result.equal) {
                 (Some(_), _) => cx.duplicate_error(&nested_meta),
                 (_, Some(_)) => cx.mutual_exclusive_error(&nested_meta, "equal"),
-                _ => result.min = parse_name_value_expr_handle_lit_str(nested_meta, cx).ok(),
+                _ => result.min = parse_bound(nested_meta, cx).ok(),
             },
             "max" => match (&result.max, &result.equal) {
                 (Some(_), _) => cx.duplicate_error(&nested_meta),
                 (_, Some(_)) => cx.mutual_exclusive_error(&nested_meta, "equal"),
-                _ => result.max = parse_name_value_expr_handle_lit_str(nested_meta, cx).ok(),
+                _ => result.max = parse_bound(nested_meta, cx).ok(),
             },
             "equal" => match (&result.min, &result.max, &result.equal) {
                 (Some(_), _, _) => cx.mutual_exclusive_error(&nested_meta, "min"),
                 (_, Some(_), _) => cx.mutual_exclusive_error(&nested_meta, "max"),
                 (_, _, Some(_)) => cx.duplicate_error(&nested_meta),
-                _ => result.equal = parse_name_value_expr_handle_lit_str(nested_meta, cx).ok(),
+                _ => result.equal = parse_bound(nested_meta, cx).ok(),
             },
             unknown => {
                 if cx.attr_type == "schemars" {
@@ -312,6 +312,32 @@ pub fn parse_name_value_expr_handle_lit_str(meta: CustomMeta, cx: &AttrCtxt) ->
     }
 }
 
+// An unsuffixed integer literal would be inferred to be an `i32`, so give it a type that can hold it.
+fn parse_bound(meta: CustomMeta, cx: &AttrCtxt) -> Result<Expr, ()> {
+    fn fix_literal(expr: &mut Expr, negated: bool) {
+        match expr {
+            Expr::Unary(unary) if matches!(unary.op, UnOp::Neg(_)) => {
+                fix_literal(&mut unary.expr, !negated);
+            }
+            Expr::Lit(ExprLit {
+                lit: Lit::Int(int), ..
+            }) if int.suffix().is_empty() && int.base10_parse::<i32>().is_err() => {
+                let ty = if negated || int.base10_parse::<i64>().is_ok() {
+                    "i64"
+                } else {
+                    "u64"
+                };
+                *int = LitInt::new(&format!("{}{ty}", int.base10_digits()), int.span());
+            }
+            _ => {}
+        }
+    }
+
+    let mut expr = parse_name_value_expr_handle_lit_str(meta, cx)?;
+    fix_literal(&mut expr, false);
+    Ok(expr)
+}
+
 #[derive(Default)]
 pub struct LengthOrRange {
     pub min: Option<Expr>,
-- 
2.43.0


From c072c41bf0fe849548ea903ceb7b894a29e75809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 34/44] fix: allow any expression in contains attribute

---
 schemars_derive/src/attr/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index d836e00..95918d3 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -88,7 +88,7 @@ impl ValidationAttrs {
 
         if let Some(contains) = &self.contains {
             mutators.push(quote! {
-                schemars::_private::must_contain(#mut_ref_schema, &#contains.to_string());
+                schemars::_private::must_contain(#mut_ref_schema, &(#contains).to_string());
             });
         }
 
-- 
2.43.0


From da61280fd8e675a0e5d3648eafe6eb65028ac1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 35/44] fix: do not emit regex escapes that ECMA-262 does not
 allow

---
 schemars/src/_private/regex_syntax.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/regex_syntax.rs b/schemars/src/_private/regex_syntax.rs
index 23b67ca..2c37696 100644
--- a/schemars/src/_private/regex_syntax.rs
+++ b/schemars/src/_private/regex_syntax.rs
@@ -47,8 +47,8 @@ fn escape_into(text: &str, buf: &mut String) {
 
 fn is_meta_character(c: char) -> bool {
     match c {
-        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$'
-        | '#' | '&' | '-' | '~' => true,
+        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^'
+        | '$' => true,
         _ => false,
     }
 }
-- 
2.43.0


From 66fdbdaaa39a67293267e5ed220571cbcb4cde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 36/44] fix: do not overflow the stack on recursive types with
 required fields

---
 schemars/src/generate.rs | 12 ++++++++++++
 schemars/src/lib.rs      |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 4ea6e4b..63cbf58 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -595,6 +595,18 @@ impl SchemaGenerator {
         schema
     }
 
+    /// Generates the schema for `T` without a `$ref` to it, unless `T`'s schema is already being
+    /// generated, in which case inlining it again would never end.
+    pub(crate) fn non_recursive_json_schema<T: ?Sized + JsonSchema>(&mut self) -> Schema {
+        let uid = self.schema_uid::<T>();
+
+        if self.pending_schema_ids.contains(&uid) {
+            self.subschema_for::<T>()
+        } else {
+            self.json_schema_internal::<T>(&uid)
+        }
+    }
+
     fn add_definitions(
         &mut self,
         schema_object: &mut JsonMap<String, Value>,
diff --git a/schemars/src/lib.rs b/schemars/src/lib.rs
index bbacfea..7cd8891 100644
--- a/schemars/src/lib.rs
+++ b/schemars/src/lib.rs
@@ -178,7 +178,7 @@ pub trait JsonSchema {
     // TODO document and bring into public API?
     #[doc(hidden)]
     fn _schemars_private_non_optional_json_schema(generator: &mut SchemaGenerator) -> Schema {
-        Self::json_schema(generator)
+        generator.non_recursive_json_schema::<Self>()
     }
 
     // TODO document and bring into public API?
-- 
2.43.0


From cbc377bdc5aa2b4ad971ea711e86bdfb4521e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 37/44] fix: types that delegate to an optional type are
 optional themselves

---
 schemars_derive/src/lib.rs          | 19 ++++++++++
 schemars_derive/src/schema_exprs.rs | 55 +++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index 99f9983..b6f7a01 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -156,6 +156,23 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         schema_exprs::expr_for_container(&cont)
     };
 
+    let option_impl = if repr {
+        None
+    } else {
+        schema_exprs::non_optional_expr_for_container(&cont)
+    }
+    .map(|(ty, non_optional_schema_expr)| {
+        quote! {
+            fn _schemars_private_non_optional_json_schema(#GENERATOR: &mut schemars::SchemaGenerator) -> schemars::Schema {
+                #non_optional_schema_expr
+            }
+
+            fn _schemars_private_is_option() -> bool {
+                <#ty as schemars::JsonSchema>::_schemars_private_is_option()
+            }
+        }
+    });
+
     let inline = cont.attrs.inline;
 
     Ok(quote! {
@@ -180,6 +197,8 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                 fn inline_schema() -> bool {
                     #inline
                 }
+
+                #option_impl
             };
         };
     })
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 3bce089..2eead2f 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -127,6 +127,61 @@ pub fn expr_for_container(cont: &Container) -> SchemaExpr {
     schema_expr
 }
 
+/// If the container's (deserialize) schema is that of another type, then it's optional when that
+/// type is, i.e. a missing field of the container's type may deserialize successfully. Returns the
+/// other type, along with an expression for the container's non-optional schema.
+pub fn non_optional_expr_for_container(cont: &Container) -> Option<(syn::Type, SchemaExpr)> {
+    let from_type = cont
+        .serde_attrs
+        .type_from()
+        .or(cont.serde_attrs.type_try_from());
+
+    let (ty, mut schema_expr) = match (&cont.attrs.with, cont.transparent_field(), from_type) {
+        (Some(WithAttr::Function(_)), _, _) => return None,
+        (Some(WithAttr::Type(ty)), _, _) => (
+            ty.clone(),
+            quote!(<#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)).into(),
+        ),
+        (None, Some(field), _) => {
+            if field.attrs.validation.required
+                || matches!(field.attrs.with, Some(WithAttr::Function(_)))
+            {
+                return None;
+            }
+
+            let (ty, _) = type_for_field_schema(cont, field);
+            let mut schema_expr = SchemaExpr::from(quote! {
+                <#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
+            });
+            field.add_mutators(&mut schema_expr.mutators);
+            (ty, schema_expr)
+        }
+        (None, None, Some(from)) => {
+            let mut schema_expr = SchemaExpr::from(quote! {
+                <#from as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
+            });
+            cont.add_mutators(&mut schema_expr.mutators);
+
+            return Some((
+                from.clone(),
+                quote! {
+                    if #GENERATOR.contract().is_deserialize() {
+                        #schema_expr
+                    } else {
+                        <Self as schemars::JsonSchema>::json_schema(#GENERATOR)
+                    }
+                }
+                .into(),
+            ));
+        }
+        (None, None, None) => return None,
+    };
+
+    cont.add_mutators(&mut schema_expr.mutators);
+
+    Some((ty, schema_expr))
+}
+
 pub fn expr_for_repr(cont: &Container) -> Result<SchemaExpr, syn::Error> {
     let repr_type = cont.attrs.repr.as_ref().ok_or_else(|| {
         syn::Error::new(
-- 
2.43.0


From 2e965e4b84123b68fb0e194c8bd65d724ad34433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 38/44] fix: let field attributes replace validation keywords
 and defaults

---
 schemars_derive/src/ast/mod.rs      | 4 +++-
 schemars_derive/src/schema_exprs.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index dfa97d4..d1bee31 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -132,7 +132,6 @@ impl Field<'_> {
     }
 
     pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
-        self.attrs.common.add_mutators(mutators);
         self.attrs.validation.add_mutators(mutators);
 
         if self.serde_attrs.skip_deserializing() {
@@ -145,6 +144,9 @@ impl Field<'_> {
                 #SCHEMA.insert("writeOnly".into(), true.into());
             });
         }
+
+        // These go last, because they may replace or transform any of the above
+        self.attrs.common.add_mutators(mutators);
     }
 
     pub fn with_contract_check(&self, action: TokenStream) -> TokenStream {
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 2eead2f..f774378 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -834,7 +834,8 @@ fn expr_for_struct(
                 let mut schema_expr = expr_for_field(cont, field, false);
 
                 if let Some(default) = field_default_expr(field, set_container_default.is_some()) {
-                    schema_expr.mutators.push(quote! {
+                    // This goes first, because attributes may replace or transform it
+                    schema_expr.mutators.insert(0, quote! {
                         #default.and_then(|d| schemars::_schemars_maybe_to_value!(d))
                             .map(|d| #SCHEMA.insert("default".into(), d));
                     });
-- 
2.43.0


From 4b22959fd01aedd80385c5742d059ccdfe86e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:13 +0000
Subject: [PATCH 39/44] fix: report !x::y attribute items instead of ignoring
 them

---
 schemars_derive/src/attr/schemars_to_serde.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/schemars_to_serde.rs b/schemars_derive/src/attr/schemars_to_serde.rs
index 631c462..634a348 100644
--- a/schemars_derive/src/attr/schemars_to_serde.rs
+++ b/schemars_derive/src/attr/schemars_to_serde.rs
@@ -5,7 +5,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use syn::parse::Parser;
 use syn::{Attribute, Data, Field, Variant};
 
-use super::{get_meta_items, CustomMeta};
+use super::{get_meta_items, path_str, CustomMeta};
 
 // List of keywords that can appear in #[serde(...)]/#[schemars(...)] attributes which we want
 // serde_derive_internals to parse for us.
@@ -86,6 +86,12 @@ fn process_attrs(ctxt: &Ctxt, attrs: &mut Vec<Attribute>) {
     // Copy appropriate #[schemars(...)] attributes to #[serde(...)] attributes
     for meta in get_meta_items(attrs, "schemars", ctxt) {
         let Some(keyword) = get_meta_ident(&meta) else {
+            if let CustomMeta::Not(..) = meta {
+                ctxt.error_spanned_by(
+                    meta.path(),
+                    format_args!("unknown schemars attribute `{}`", path_str(meta.path())),
+                );
+            }
             continue;
         };
 
-- 
2.43.0


From ea6b3caf1e7b21e76fa8f3087a1b7850debc71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:42 +0000
Subject: [PATCH 40/44] fix: report items nested in inner(...) that have no
 meaning there

---
 schemars_derive/src/attr/mod.rs        | 25 +++++++++++++++++++++++++
 schemars_derive/src/attr/validation.rs |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 46c1886..bd22d68 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -501,6 +501,31 @@ impl<'a> AttrCtxt<'a> {
         Self { metas, ..*self }
     }
 
+    /// Removes any "unset" attribute items, which have no meaning when nested in another item.
+    pub fn reject_unset_metas(&mut self) {
+        let metas = std::mem::take(&mut self.metas);
+        let (unset, other) = metas
+            .into_iter()
+            .partition(|m| matches!(m, CustomMeta::Not(..)));
+
+        self.metas = unset;
+        self.reject_unhandled_metas();
+        self.metas = other;
+    }
+
+    /// Removes all unhandled attribute items, even those that would be parsed by serde if they
+    /// were not nested in another item.
+    pub fn reject_unhandled_metas(&mut self) {
+        for meta in std::mem::take(&mut self.metas) {
+            if self.attr_type == "schemars" {
+                self.error_spanned_by(
+                    &meta,
+                    format_args!("unknown schemars attribute `{}`", path_str(meta.path())),
+                );
+            }
+        }
+    }
+
     pub fn parse_meta(
         &mut self,
         mut handle: impl FnMut(CustomMeta, &str, &Self) -> Result<(), CustomMeta>,
diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index 95918d3..05988cb 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -212,7 +212,9 @@ impl ValidationAttrs {
                         .inner
                         .get_or_insert_with(|| Box::new(ValidationAttrs::default()));
                     let mut inner_cx = cx.new_nested_meta(nested_meta.into_iter().collect());
+                    inner_cx.reject_unset_metas();
                     inner.process_attr(&mut inner_cx);
+                    inner_cx.reject_unhandled_metas();
                 }
             }
 
-- 
2.43.0


From ed44e1aadfef6b04602e3176af24ff75de275c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 41/44] fix: compile default values with generic types or
 functions, and shadowed names

---
 schemars/src/_private/mod.rs        |  1 +
 schemars_derive/src/schema_exprs.rs | 52 +++++++++++++++++++----------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 3ceba28..f6341c3 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -9,6 +9,7 @@ mod regex_syntax;
 mod rustdoc;
 
 pub extern crate alloc;
+pub extern crate serde;
 pub extern crate serde_json;
 
 pub use rustdoc::get_title_and_description;
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index f774378..4a0bfb9 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -531,10 +531,10 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 }))
             };
 
-            let mut outer_schema = SchemaExpr::from(variant.newtype_or_unit(
-                outer_schema_expr(content_schema),
-                &outer_schema_expr(None),
-            ));
+            let mut outer_schema = SchemaExpr::from(
+                variant
+                    .newtype_or_unit(outer_schema_expr(content_schema), &outer_schema_expr(None)),
+            );
 
             // When deserializing, the content of a newtype variant may be missing if it's an `Option`
             if let (Style::Newtype, None) = (variant.style, &variant.attrs.with) {
@@ -803,7 +803,14 @@ fn expr_for_struct(
 ) -> SchemaExpr {
     let set_container_default = match default {
         SerdeDefault::None => None,
-        SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = Self::default();)),
+        SerdeDefault::Default => {
+            // serde uses the default of the remote type, if there is one
+            let default_type =
+                (cont.serde_attrs.remote()).map_or_else(|| quote!(Self), ToTokens::to_token_stream);
+            Some(
+                quote!(let #STRUCT_DEFAULT = <#default_type as ::core::default::Default>::default();),
+            )
+        }
         SerdeDefault::Path(path) => Some(match cont.serde_attrs.remote() {
             // the function returns the remote type
             Some(_) => quote!(let #STRUCT_DEFAULT = #path();),
@@ -833,7 +840,7 @@ fn expr_for_struct(
             } else {
                 let mut schema_expr = expr_for_field(cont, field, false);
 
-                if let Some(default) = field_default_expr(field, set_container_default.is_some()) {
+                if let Some(default) = field_default_expr(cont, field, set_container_default.is_some()) {
                     // This goes first, because attributes may replace or transform it
                     schema_expr.mutators.insert(0, quote! {
                         #default.and_then(|d| schemars::_schemars_maybe_to_value!(d))
@@ -893,7 +900,11 @@ fn expr_for_struct(
     }
 }
 
-fn field_default_expr(field: &Field, container_has_default: bool) -> Option<TokenStream> {
+fn field_default_expr(
+    cont: &Container,
+    field: &Field,
+    container_has_default: bool,
+) -> Option<TokenStream> {
     let field_default = field.serde_attrs.default();
     if field.serde_attrs.skip_serializing() || (field_default.is_none() && !container_has_default) {
         return None;
@@ -905,8 +916,12 @@ fn field_default_expr(field: &Field, container_has_default: bool) -> Option<Toke
             let member = &field.member;
             quote!(#STRUCT_DEFAULT.#member)
         }
-        SerdeDefault::Default => quote!(<#ty>::default()),
-        SerdeDefault::Path(path) => quote!(#path()),
+        SerdeDefault::Default => quote!(<#ty as ::core::default::Default>::default()),
+        // specify the type, so that any type args can be inferred
+        SerdeDefault::Path(path) => quote!({
+            let default: #ty = #path();
+            default
+        }),
     };
 
     let default_expr = if let Some(skip_if) = field.serde_attrs.skip_serializing_if() {
@@ -914,32 +929,35 @@ fn field_default_expr(field: &Field, container_has_default: bool) -> Option<Toke
             {
                 let default = #default_expr;
                 if #skip_if(&default) {
-                    None
+                    ::core::option::Option::None
                 } else {
-                    Some(default)
+                    ::core::option::Option::Some(default)
                 }
             }
         }
     } else {
-        quote!(Some(#default_expr))
+        quote!(::core::option::Option::Some(#default_expr))
     };
 
     Some(if let Some(ser_with) = field.serde_attrs.serialize_with() {
+        let cont_name = &cont.ident;
+        let (impl_generics, ty_generics, where_clause) = cont.generics.split_for_impl();
+
         quote! {
             {
-                struct _SchemarsDefaultSerialize<T>(T);
+                struct _SchemarsDefaultSerialize<V, T: ?::core::marker::Sized>(V, ::core::marker::PhantomData<T>);
 
-                impl serde::Serialize for _SchemarsDefaultSerialize<#ty>
+                impl #impl_generics schemars::_private::serde::Serialize for _SchemarsDefaultSerialize<#ty, #cont_name #ty_generics> #where_clause
                 {
-                    fn serialize<S>(&self, serializer: S) -> ::core::result::Result<S::Ok, S::Error>
+                    fn serialize<_SchemarsSerializer>(&self, serializer: _SchemarsSerializer) -> ::core::result::Result<_SchemarsSerializer::Ok, _SchemarsSerializer::Error>
                     where
-                        S: serde::Serializer
+                        _SchemarsSerializer: schemars::_private::serde::Serializer
                     {
                         #ser_with(&self.0, serializer)
                     }
                 }
 
-                #default_expr.map(|d| _SchemarsDefaultSerialize(d))
+                #default_expr.map(|d| _SchemarsDefaultSerialize::<_, #cont_name #ty_generics>(d, ::core::marker::PhantomData))
             }
         }
     } else {
-- 
2.43.0


From 008d884e83624c863f02368418485b7d134fd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 42/44] fix: require Default for default values of generic
 types

---
 schemars_derive/src/bound.rs | 87 +++++++++++++++++++++++++++++++++++-
 1 file changed, 86 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 0137267..70b61a8 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use proc_macro2::{TokenStream, TokenTree};
 use quote::ToTokens;
-use serde_derive_internals::attr as serde_attr;
+use serde_derive_internals::{ast::Style, attr as serde_attr};
 use std::collections::BTreeSet;
 use syn::{punctuated::Punctuated, Ident};
 
@@ -63,6 +63,8 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         visitor.visit_attrs(cont);
     }
 
+    let default_bounds = find_default_bounds(&visitor, orig_generics, cont);
+
     cont.relevant_type_params = visitor.relevant_type_params;
 
     let where_clause = cont.generics.make_where_clause();
@@ -99,6 +101,68 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
     where_clause
         .predicates
         .extend(field_explicit_bounds.into_iter().flatten().cloned());
+    where_clause.predicates.extend(default_bounds);
+}
+
+/// Like serde, require `Default` to be implemented wherever it's needed to evaluate a default value
+/// that depends on a type param.
+fn find_default_bounds(
+    visitor: &FindTyParams,
+    orig_generics: &syn::Generics,
+    cont: &Container,
+) -> Vec<syn::WherePredicate> {
+    let mut result = Vec::new();
+
+    let has_from =
+        cont.serde_attrs.type_from().is_some() || cont.serde_attrs.type_try_from().is_some();
+    let is_other_type = cont.attrs.with.is_some()
+        || cont.transparent_field().is_some()
+        || (has_from && cont.serde_attrs.type_into().is_some());
+
+    if is_other_type || cont.serde_attrs.de_bound().is_some() || visitor.all_type_params.is_empty()
+    {
+        return result;
+    }
+
+    let fields: Vec<_> = match &cont.data {
+        Data::Enum(variants) => variants
+            .iter()
+            .filter(|v| v.attrs.with.is_none())
+            .flat_map(|v| {
+                v.fields
+                    .iter()
+                    .filter(|f| needs_jsonschema_bound(f, Some(v)))
+            })
+            .collect(),
+        Data::Struct(style, fields) => {
+            let has_default = matches!(cont.serde_attrs.default(), serde_attr::Default::Default);
+
+            if has_default && matches!(style, Style::Struct) && cont.serde_attrs.remote().is_none()
+            {
+                let (_, ty_generics, _) = orig_generics.split_for_impl();
+                let cont_name = &cont.ident;
+                result.push(parse_quote!(#cont_name #ty_generics: ::core::default::Default));
+            }
+
+            fields.iter().collect()
+        }
+    };
+
+    for field in fields {
+        let ty = field.ty;
+
+        if matches!(field.serde_attrs.default(), serde_attr::Default::Default)
+            && matches!(field.member, syn::Member::Named(_))
+            && !field.serde_attrs.skip_serializing()
+            && !field.serde_attrs.flatten()
+            && field.serde_attrs.de_bound().is_none()
+            && visitor.is_type_param_dependent(ty.to_token_stream())
+        {
+            result.push(parse_quote!(#ty: ::core::default::Default));
+        }
+    }
+
+    result
 }
 
 fn needs_jsonschema_bound(field: &Field, variant: Option<&Variant>) -> bool {
@@ -200,6 +264,27 @@ impl FindTyParams<'_> {
         tokens.extend((field.serde_attrs.serialize_with()).map(ToTokens::to_token_stream));
     }
 
+    /// Whether the type involves any type params, and can be named outside the container.
+    fn is_type_param_dependent(&self, ty: TokenStream) -> bool {
+        fn idents(tokens: TokenStream, result: &mut BTreeSet<Ident>) {
+            for token in tokens {
+                match token {
+                    TokenTree::Group(group) => idents(group.stream(), result),
+                    TokenTree::Ident(ident) => {
+                        result.insert(ident);
+                    }
+                    _ => {}
+                }
+            }
+        }
+
+        let mut ty_idents = BTreeSet::new();
+        idents(ty, &mut ty_idents);
+
+        self.all_type_params.iter().any(|p| ty_idents.contains(p))
+            && !ty_idents.iter().any(|i| i == "Self")
+    }
+
     fn visit_tokens(&mut self, tokens: TokenStream) {
         for token in tokens {
             match token {
-- 
2.43.0


From 4cade6f89f92e657663f4bcb1f2128d3449037c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 43/44] fix: make the order of allOf independent of key order
 when flattening

---
 schemars/src/_private/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index f6341c3..a201bb0 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -466,7 +466,17 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
             normalise_additional_unevaluated_properties(obj1, &obj2);
             normalise_additional_unevaluated_properties(&mut obj2, obj1);
 
-            for (key, value2) in obj2 {
+            // Ensure that the order of any items added to `allOf` doesn't depend on the order of the
+            // keys of `other`, which depends on whether the `preserve_order` feature is enabled.
+            let mut properties2: Vec<_> = obj2.into_iter().collect();
+            properties2.sort_by_key(|(key, _)| match key.as_str() {
+                "allOf" => 1,
+                "anyOf" => 2,
+                "oneOf" => 3,
+                _ => 0,
+            });
+
+            for (key, value2) in properties2 {
                 flatten_property(obj1, key, value2);
             }
         }
-- 
2.43.0


From 876c25a2b7e272c43d9fea4d0dff3e6a28c2b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 44/44] fix: keep the order of properties when replacing
 unevaluatedProperties

---
 schemars/src/transform.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index a43ab53..a3c6da5 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -532,8 +532,8 @@ impl Transform for ReplaceUnevaluatedProperties {
                 .or_insert(Map::new().into())
                 .as_object_mut()
             {
-                for name in names {
-                    properties.entry(name).or_insert(true.into());
+                for (name, subschema) in names {
+                    properties.entry(name).or_insert(subschema);
                 }
             }
         }
@@ -543,9 +543,10 @@ impl Transform for ReplaceUnevaluatedProperties {
 // Helper for getting the properties evaluated by all *immediate* subschemas
 #[derive(Default)]
 struct GatherEvaluatedProperties {
-    names: BTreeSet<String>,
-    patterns: BTreeSet<String>,
-    // `true` if there may be other evaluated properties, which aren't in either of the above sets
+    // These are maps rather than sets so that they preserve order when `preserve_order` is enabled
+    names: Map<String, Value>,
+    patterns: Map<String, Value>,
+    // `true` if there may be other evaluated properties, which aren't in either of the above maps
     any_other: bool,
 }
 
@@ -557,7 +558,7 @@ impl Transform for GatherEvaluatedProperties {
                     .and_then(Value::as_object)
                     .into_iter()
                     .flat_map(Map::keys)
-                    .cloned()
+                    .map(|name| (name.clone(), true.into()))
             };
 
             self.names.extend(keys("properties"));
-- 
2.43.0

