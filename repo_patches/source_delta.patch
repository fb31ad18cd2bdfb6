From 1b331bfed4671461e76254f06cb1f1b394e86332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 01/28] fix: zero-pad percent-encoded bytes in definition
 references

---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From dd02699f5adf75bdee81ebbc31d0c66eed6ee7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 02/28] fix: only percent-decode a percent sign followed by two
 hex digits

---
 schemars/src/encoding.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..ac5bac6 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,7 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From b3b8acb3a1507b68cf4247d9a55bcad200648db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 03/28] fix: keep names of existing definitions when cloning a
 SchemaGenerator

---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 4dbbf00646a763acae6a75778e37eeec16b55afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 04/28] fix: apply transforms to all keywords that contain
 subschemas

---
 schemars/src/transform.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..ae3831a 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedProperties"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,8 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            "properties" | "patternProperties" | "dependentSchemas" | "dependencies" | "$defs"
+            | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From e37b893abe9743f0dc67f2b913ce44040d8295a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 05/28] fix: replace bool schemas nested in
 additionalProperties when it is skipped

---
 schemars/src/transform.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index ae3831a..5f2b07b 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -295,7 +295,13 @@ impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
             if self.skip_additional_properties {
-                if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
+                if let Some((ap_key, mut ap_value)) = obj.remove_entry("additionalProperties") {
+                    if ap_value.is_object() {
+                        if let Ok(subschema) = (&mut ap_value).try_into() {
+                            self.transform(subschema);
+                        }
+                    }
+
                     transform_subschemas(self, schema);
 
                     schema.insert(ap_key, ap_value);
-- 
2.43.0


From 524fc0be291aebacd71ce3dc3af1ebeefa2bd53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 06/28] fix: keep property names of inferred map schemas
 unescaped

---
 schemars/src/ser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..fc327d3 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -388,11 +388,7 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        self.current_key = Some(serde_json::from_str(&json).unwrap_or(json));
 
         Ok(())
     }
-- 
2.43.0


From 1a895346735a4fc8d6df2f65a1e48fea50aa1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 07/28] fix: distinguish ArrayVecs of different types that have
 the same name

---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..a214e78 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0


From 0a8972a551785b9f4bd2e511965a8afdf4c8b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 08/28] fix: return None from pointer lookups on bool schemas
 as documented

---
 schemars/src/schema.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/schema.rs b/schemars/src/schema.rs
index c42d422..0956b96 100644
--- a/schemars/src/schema.rs
+++ b/schemars/src/schema.rs
@@ -308,6 +308,8 @@ impl Schema {
     /// ```
     #[must_use]
     pub fn pointer(&self, pointer: &str) -> Option<&Value> {
+        self.as_object()?;
+
         if let Some(percent_encoded) = pointer.strip_prefix('#') {
             let decoded = crate::encoding::percent_decode(percent_encoded)?;
             self.0.pointer(&decoded)
@@ -346,6 +348,8 @@ impl Schema {
     /// ```
     #[must_use]
     pub fn pointer_mut(&mut self, pointer: &str) -> Option<&mut Value> {
+        self.as_object()?;
+
         if let Some(percent_encoded) = pointer.strip_prefix('#') {
             let decoded = crate::encoding::percent_decode(percent_encoded)?;
             self.0.pointer_mut(&decoded)
-- 
2.43.0


From bce4ded05450bc71aff878f7f6cce5c114d0fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 09/28] fix: keep formats when the meta-schema cannot be
 inferred as documented

---
 schemars/src/transform.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 5f2b07b..ef01d2d 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -699,11 +699,13 @@ impl Transform for RestrictFormatsImpl<'_> {
         }
 
         if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
-                && !self
-                    .inferred_formats
-                    .is_some_and(|formats| formats.contains(&format))
-            {
+            let is_defined = match self.inferred_formats {
+                Some(formats) => formats.contains(&format),
+                // when inferring, a missing meta-schema means we can't tell which are defined
+                None => self.infer_from_meta_schema,
+            };
+
+            if !is_defined && !self.allowed_formats.contains(format) {
                 obj.remove("format");
             }
         }
-- 
2.43.0


From 62f233223c757b6e81b6eddcbfdfff1c7e66e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 10/28] fix: keep const null when making a schema nullable

---
 schemars/src/_private/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..29caf6b 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -490,10 +490,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 }
             }
 
-            if let Some(c) = obj.remove("const") {
-                if !c.is_null() {
-                    obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
-                }
+            if obj.get("const").is_some_and(Value::is_null) {
+                // `const` already only allows null
+            } else if let Some(c) = obj.remove("const") {
+                obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
                 if !e.contains(&Value::Null) {
                     e.push(Value::Null);
-- 
2.43.0


From addd24a1856ff3499a41a33353fca6337077d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 11/28] fix: infer schemas that allow null for non-finite
 floats

---
 schemars/src/ser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index fc327d3..bd040b5 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -67,8 +67,21 @@ impl<'a> serde::Serializer for Serializer<'a> {
     return_instance_type!(serialize_u32, u32, "integer");
     return_instance_type!(serialize_u64, u64, "integer");
     return_instance_type!(serialize_u128, u128, "integer");
-    return_instance_type!(serialize_f32, f32, "number");
-    return_instance_type!(serialize_f64, f64, "number");
+
+    fn serialize_f32(self, value: f32) -> Result<Self::Ok, Self::Error> {
+        self.serialize_f64(value.into())
+    }
+
+    fn serialize_f64(self, value: f64) -> Result<Self::Ok, Self::Error> {
+        if !value.is_finite() {
+            // JSON has no representation of infinity or NaN, so they're serialized as `null`
+            return self.serialize_none();
+        }
+
+        Ok(json_schema!({
+            "type": "number"
+        }))
+    }
 
     forward_to_subschema_for!(serialize_bool, bool);
     forward_to_subschema_for!(serialize_char, char);
-- 
2.43.0


From 6d60ec9d5449ab9557ccf4149ca63cfaa918f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 12/28] fix: keep definitions when definitions_path points at
 the document root

---
 schemars/src/generate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..25e3202 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,11 +629,12 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
 
+    let pointer = pointer.strip_prefix('/')?;
+
     for mut segment in pointer.split('/') {
         let replaced: String;
         if segment.contains('~') {
-- 
2.43.0


From d2aa07250fa38d0d18c798939ce2e11f257c1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 13/28] fix: separate generic arguments in derived schema ids

---
 schemars_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..dba687d 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -124,7 +124,9 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        // Separate the arguments so that e.g. `<1, 23>` and `<12, 3>` have different ids
+        let format_string_braces =
+            vec!["{}"; const_params.len() + relevant_type_params.len()].join(",");
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
@@ -132,7 +134,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                     ::core::concat!(
                         ::core::module_path!(),
                         "::{}<",
-                        #(#format_string_braces,)*
+                        #format_string_braces,
                         ">"
                     ),
                     #name,
-- 
2.43.0


From 2ad2e9a5ae8ffb3d7585a5e9380fd12c55cfa683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 14/28] fix: escape only regex syntax characters in contains
 patterns

---
 schemars/src/_private/regex_syntax.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/regex_syntax.rs b/schemars/src/_private/regex_syntax.rs
index 23b67ca..06368e9 100644
--- a/schemars/src/_private/regex_syntax.rs
+++ b/schemars/src/_private/regex_syntax.rs
@@ -47,8 +47,9 @@ fn escape_into(text: &str, buf: &mut String) {
 
 fn is_meta_character(c: char) -> bool {
     match c {
-        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$'
-        | '#' | '&' | '-' | '~' => true,
+        // Other punctuation must not be escaped: ECMA 262 regular expressions (with the "u" flag, as
+        // recommended by JSON Schema) only allow a backslash before these characters.
+        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => true,
         _ => false,
     }
 }
-- 
2.43.0


From 70a4d5e0dc0e4359409697ab738beef6abadee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 15/28] fix: include type params of schema_with functions in
 derived schema ids

---
 schemars_derive/src/bound.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..bcbf61b 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -119,8 +119,12 @@ impl FindTyParams<'_> {
     fn visit_field(&mut self, field: &Field) {
         match &field.attrs.with {
             Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
-            Some(WithAttr::Function(_)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`
+            Some(WithAttr::Function(path)) => {
+                // `schema_with` function type params may or may not implement `JsonSchema`, so they
+                // don't get a bound, but different type params may still give different schemas
+                let type_params_for_bound = self.type_params_for_bound.clone();
+                self.visit_path(field, path);
+                self.type_params_for_bound = type_params_for_bound;
             }
             None => self.visit_type(field, &field.original.ty),
         }
-- 
2.43.0


From b2ef64e731bbdf4d8104734707979d60597ec0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 16/28] fix: support serialize_with on defaulted fields of
 generic types

---
 schemars_derive/src/schema_exprs.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..b78973b 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -704,7 +704,7 @@ fn expr_for_struct(
             } else {
                 let mut schema_expr = expr_for_field(cont, field, false);
 
-                if let Some(default) = field_default_expr(field, set_container_default.is_some()) {
+                if let Some(default) = field_default_expr(cont, field, set_container_default.is_some()) {
                     schema_expr.mutators.push(quote! {
                         #default.and_then(|d| schemars::_schemars_maybe_to_value!(d))
                             .map(|d| #SCHEMA.insert("default".into(), d));
@@ -763,7 +763,11 @@ fn expr_for_struct(
     }
 }
 
-fn field_default_expr(field: &Field, container_has_default: bool) -> Option<TokenStream> {
+fn field_default_expr(
+    cont: &Container,
+    field: &Field,
+    container_has_default: bool,
+) -> Option<TokenStream> {
     let field_default = field.serde_attrs.default();
     if field.serde_attrs.skip_serializing() || (field_default.is_none() && !container_has_default) {
         return None;
@@ -795,21 +799,25 @@ fn field_default_expr(field: &Field, container_has_default: bool) -> Option<Toke
     };
 
     Some(if let Some(ser_with) = field.serde_attrs.serialize_with() {
+        let cont_name = &cont.ident;
+        let (impl_generics, ty_generics, where_clause) = cont.generics.split_for_impl();
+
         quote! {
             {
-                struct _SchemarsDefaultSerialize<T>(T);
+                // Includes the container type so that all of its generic params are constrained
+                struct _SchemarsDefaultSerialize<T, C: ?::core::marker::Sized>(T, ::core::marker::PhantomData<C>);
 
-                impl serde::Serialize for _SchemarsDefaultSerialize<#ty>
+                impl #impl_generics serde::Serialize for _SchemarsDefaultSerialize<#ty, #cont_name #ty_generics> #where_clause
                 {
-                    fn serialize<S>(&self, serializer: S) -> ::core::result::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> ::core::result::Result<__S::Ok, __S::Error>
                     where
-                        S: serde::Serializer
+                        __S: serde::Serializer
                     {
                         #ser_with(&self.0, serializer)
                     }
                 }
 
-                #default_expr.map(|d| _SchemarsDefaultSerialize(d))
+                #default_expr.map(|d| _SchemarsDefaultSerialize::<_, #cont_name #ty_generics>(d, ::core::marker::PhantomData))
             }
         }
     } else {
-- 
2.43.0


From e23ccebbcf71e9aa62ead2730dfaaaa3e7814b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 17/28] fix: use full paths to Some and None in derived code

---
 schemars_derive/src/schema_exprs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index b78973b..a92036f 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -788,14 +788,14 @@ fn field_default_expr(
             {
                 let default = #default_expr;
                 if #skip_if(&default) {
-                    None
+                    ::core::option::Option::None
                 } else {
-                    Some(default)
+                    ::core::option::Option::Some(default)
                 }
             }
         }
     } else {
-        quote!(Some(#default_expr))
+        quote!(::core::option::Option::Some(#default_expr))
     };
 
     Some(if let Some(ser_with) = field.serde_attrs.serialize_with() {
-- 
2.43.0


From 8e4f31a439b1b305ce3ae722b0adfac75642573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 18/28] fix: take defaults from the Default trait, as serde
 does

---
 schemars_derive/src/schema_exprs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index a92036f..5b3c0f8 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -679,7 +679,7 @@ fn expr_for_struct(
 ) -> SchemaExpr {
     let set_container_default = match default {
         SerdeDefault::None => None,
-        SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = Self::default();)),
+        SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = <Self as ::core::default::Default>::default();)),
         SerdeDefault::Path(path) => Some(quote!(let #STRUCT_DEFAULT = #path();)),
     };
 
@@ -779,7 +779,7 @@ fn field_default_expr(
             let member = &field.member;
             quote!(#STRUCT_DEFAULT.#member)
         }
-        SerdeDefault::Default => quote!(<#ty>::default()),
+        SerdeDefault::Default => quote!(<#ty as ::core::default::Default>::default()),
         SerdeDefault::Path(path) => quote!(#path()),
     };
 
-- 
2.43.0


From dc1b4da88ea6dbf6fbbb9a0c3538acd175dc50b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 19/28] fix: refer to serde through schemars in derived code

---
 schemars/src/_private/mod.rs        | 1 +
 schemars_derive/src/schema_exprs.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 29caf6b..7ec8aff 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -9,6 +9,7 @@ mod regex_syntax;
 mod rustdoc;
 
 pub extern crate alloc;
+pub extern crate serde;
 pub extern crate serde_json;
 
 pub use rustdoc::get_title_and_description;
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 5b3c0f8..dfd9134 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -807,11 +807,11 @@ fn field_default_expr(
                 // Includes the container type so that all of its generic params are constrained
                 struct _SchemarsDefaultSerialize<T, C: ?::core::marker::Sized>(T, ::core::marker::PhantomData<C>);
 
-                impl #impl_generics serde::Serialize for _SchemarsDefaultSerialize<#ty, #cont_name #ty_generics> #where_clause
+                impl #impl_generics schemars::_private::serde::Serialize for _SchemarsDefaultSerialize<#ty, #cont_name #ty_generics> #where_clause
                 {
                     fn serialize<__S>(&self, serializer: __S) -> ::core::result::Result<__S::Ok, __S::Error>
                     where
-                        __S: serde::Serializer
+                        __S: schemars::_private::serde::Serializer
                     {
                         #ser_with(&self.0, serializer)
                     }
-- 
2.43.0


From 0e9c5cd25c5a6b747a428d2094104cb37f653e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 20/28] fix: do not rely on ToString being in scope in derived
 code

---
 schemars_derive/src/attr/validation.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index d836e00..2d51064 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -82,13 +82,22 @@ impl ValidationAttrs {
 
         if let Some(regex) = self.regex.as_ref().or(self.pattern.as_ref()) {
             mutators.push(quote! {
-                schemars::_private::insert_validation_property(#mut_ref_schema, "string", "pattern", (#regex).to_string());
+                schemars::_private::insert_validation_property(#mut_ref_schema, "string", "pattern", {
+                    // `ToString` is not in the prelude of `no_std` crates
+                    #[allow(unused_imports)]
+                    use schemars::_private::alloc::string::ToString as _;
+                    (#regex).to_string()
+                });
             });
         }
 
         if let Some(contains) = &self.contains {
             mutators.push(quote! {
-                schemars::_private::must_contain(#mut_ref_schema, &#contains.to_string());
+                schemars::_private::must_contain(#mut_ref_schema, &{
+                    #[allow(unused_imports)]
+                    use schemars::_private::alloc::string::ToString as _;
+                    (#contains).to_string()
+                });
             });
         }
 
-- 
2.43.0


From b1224f6dac53776010aebf099e102401f3a7af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:48 +0000
Subject: [PATCH 21/28] fix: keep bounds of fields when the rename mentions
 every type parameter

---
 schemars_derive/src/bound.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index bcbf61b..554a1b6 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -28,25 +28,13 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
 
     let mut field_explicit_bounds = Vec::new();
 
-    if visitor.all_type_params.len() > visitor.relevant_type_params.len() {
-        match &cont.data {
-            Data::Enum(variants) => {
-                for variant in variants {
-                    let relevant_fields = variant
-                        .fields
-                        .iter()
-                        .filter(|field| needs_jsonschema_bound(field, Some(variant)));
-
-                    for field in relevant_fields {
-                        field_explicit_bounds.extend(field.serde_attrs.de_bound());
-                        visitor.visit_field(field);
-                    }
-                }
-            }
-            Data::Struct(_, fields) => {
-                let relevant_fields = fields
+    match &cont.data {
+        Data::Enum(variants) => {
+            for variant in variants {
+                let relevant_fields = variant
+                    .fields
                     .iter()
-                    .filter(|field| needs_jsonschema_bound(field, None));
+                    .filter(|field| needs_jsonschema_bound(field, Some(variant)));
 
                 for field in relevant_fields {
                     field_explicit_bounds.extend(field.serde_attrs.de_bound());
@@ -54,6 +42,16 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
                 }
             }
         }
+        Data::Struct(_, fields) => {
+            let relevant_fields = fields
+                .iter()
+                .filter(|field| needs_jsonschema_bound(field, None));
+
+            for field in relevant_fields {
+                field_explicit_bounds.extend(field.serde_attrs.de_bound());
+                visitor.visit_field(field);
+            }
+        }
     }
 
     cont.relevant_type_params = visitor.relevant_type_params;
-- 
2.43.0


From 4f624a97d64d9eb6256884788e9ebdbc16c68127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:25 +0000
Subject: [PATCH 22/28] fix: schema ids depend on type parameters used by
 proxies of containers and variants

---
 schemars_derive/src/bound.rs | 58 +++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 554a1b6..7e30687 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -28,9 +28,20 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
 
     let mut field_explicit_bounds = Vec::new();
 
+    visitor.visit_proxies(
+        cont.attrs.with.as_ref(),
+        [
+            cont.serde_attrs.type_from(),
+            cont.serde_attrs.type_try_from(),
+            cont.serde_attrs.type_into(),
+        ],
+    );
+
     match &cont.data {
         Data::Enum(variants) => {
             for variant in variants {
+                visitor.visit_proxies(variant.attrs.with.as_ref(), []);
+
                 let relevant_fields = variant
                     .fields
                     .iter()
@@ -114,21 +125,34 @@ struct FindTyParams<'ast> {
 
 #[allow(clippy::single_match)]
 impl FindTyParams<'_> {
+    // Type params of the types and functions that a container or variant gets its schema from don't
+    // get a bound, but different type params may still give different schemas
+    fn visit_proxies<'a>(
+        &mut self,
+        with: Option<&WithAttr>,
+        types: impl IntoIterator<Item = Option<&'a syn::Type>>,
+    ) {
+        let type_params_for_bound = self.type_params_for_bound.clone();
+        match with {
+            Some(WithAttr::Type(ty)) => self.visit_type(None, ty),
+            Some(WithAttr::Function(path)) => self.visit_path(None, path),
+            None => {}
+        }
+        for ty in types.into_iter().flatten() {
+            self.visit_type(None, ty);
+        }
+        self.type_params_for_bound = type_params_for_bound;
+    }
+
     fn visit_field(&mut self, field: &Field) {
         match &field.attrs.with {
-            Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
-            Some(WithAttr::Function(path)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`, so they
-                // don't get a bound, but different type params may still give different schemas
-                let type_params_for_bound = self.type_params_for_bound.clone();
-                self.visit_path(field, path);
-                self.type_params_for_bound = type_params_for_bound;
-            }
-            None => self.visit_type(field, &field.original.ty),
+            Some(WithAttr::Type(ty)) => self.visit_type(Some(field), ty),
+            Some(WithAttr::Function(_)) => self.visit_proxies(field.attrs.with.as_ref(), []),
+            None => self.visit_type(Some(field), &field.original.ty),
         }
     }
 
-    fn visit_path(&mut self, field: &Field, path: &syn::Path) {
+    fn visit_path(&mut self, field: Option<&Field>, path: &syn::Path) {
         if let Some(seg) = path.segments.last() {
             if seg.ident == "PhantomData" {
                 // Hardcoded exception, because PhantomData<T> implements
@@ -142,7 +166,7 @@ impl FindTyParams<'_> {
                 let id = &first_segment.ident;
                 if let Some(id) = self.all_type_params.get(id) {
                     self.relevant_type_params.insert(id);
-                    if field.serde_attrs.de_bound().is_none() {
+                    if !field.is_some_and(|f| f.serde_attrs.de_bound().is_some()) {
                         self.type_params_for_bound.insert(id);
                     }
                 }
@@ -154,7 +178,7 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_type(&mut self, field: &Field, ty: &syn::Type) {
+    fn visit_type(&mut self, field: Option<&Field>, ty: &syn::Type) {
         match ty {
             syn::Type::Array(ty) => self.visit_type(field, &ty.elem),
             syn::Type::BareFn(ty) => {
@@ -196,11 +220,11 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_path_segment(&mut self, field: &Field, segment: &syn::PathSegment) {
+    fn visit_path_segment(&mut self, field: Option<&Field>, segment: &syn::PathSegment) {
         self.visit_path_arguments(field, &segment.arguments);
     }
 
-    fn visit_path_arguments(&mut self, field: &Field, arguments: &syn::PathArguments) {
+    fn visit_path_arguments(&mut self, field: Option<&Field>, arguments: &syn::PathArguments) {
         match arguments {
             syn::PathArguments::None => {}
             syn::PathArguments::AngleBracketed(arguments) => {
@@ -221,14 +245,14 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_return_type(&mut self, field: &Field, return_type: &syn::ReturnType) {
+    fn visit_return_type(&mut self, field: Option<&Field>, return_type: &syn::ReturnType) {
         match return_type {
             syn::ReturnType::Default => {}
             syn::ReturnType::Type(_, output) => self.visit_type(field, output),
         }
     }
 
-    fn visit_type_param_bound(&mut self, field: &Field, bound: &syn::TypeParamBound) {
+    fn visit_type_param_bound(&mut self, field: Option<&Field>, bound: &syn::TypeParamBound) {
         match bound {
             syn::TypeParamBound::Trait(bound) => self.visit_path(field, &bound.path),
             _ => {}
@@ -242,7 +266,7 @@ impl FindTyParams<'_> {
     //         marker: PhantomData<T>,
     //     }
     #[allow(clippy::unused_self)]
-    fn visit_macro(&mut self, _field: &Field, _mac: &syn::Macro) {}
+    fn visit_macro(&mut self, _field: Option<&Field>, _mac: &syn::Macro) {}
 }
 
 #[cfg(test)]
-- 
2.43.0


From a496dc75b40cc1fb2620ad19e9e874b72c38dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:01 +0000
Subject: [PATCH 23/28] fix: respect explicit bounds on enum variants

---
 schemars_derive/src/bound.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 7e30687..89d4d2a 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -47,10 +47,18 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
                     .iter()
                     .filter(|field| needs_jsonschema_bound(field, Some(variant)));
 
+                let type_params_for_bound = visitor.type_params_for_bound.clone();
+
                 for field in relevant_fields {
                     field_explicit_bounds.extend(field.serde_attrs.de_bound());
                     visitor.visit_field(field);
                 }
+
+                if let Some(bounds) = variant.serde_attrs.de_bound() {
+                    // The explicit bounds replace those inferred from the variant's fields
+                    field_explicit_bounds.push(bounds);
+                    visitor.type_params_for_bound = type_params_for_bound;
+                }
             }
         }
         Data::Struct(_, fields) => {
-- 
2.43.0


From b0d42d8dba5ec120309b30955917fb11826d6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:26 +0000
Subject: [PATCH 24/28] fix: no empty prefixItems in schemas inferred from
 empty tuples and arrays

---
 schemars/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index bd040b5..e5524bc 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -364,6 +364,11 @@ impl serde::ser::SerializeTuple for SerializeTuple<'_> {
             "minItems": len,
         });
 
+        if len == 0 {
+            // An empty `prefixItems` array is not allowed by JSON Schema
+            schema.remove("prefixItems");
+        }
+
         if !self.title.is_empty() {
             schema
                 .ensure_object()
-- 
2.43.0


From a14d864072a0fc5839607984a3f37c9a2d33a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:26 +0000
Subject: [PATCH 25/28] fix: enums whose variants are all skipped have the
 schema false, not an empty oneOf

---
 schemars_derive/src/schema_exprs.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index dfd9134..41dd10c 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -491,16 +491,21 @@ fn variant_subschemas(
         }
     });
     quote!({
-        let mut map = schemars::_private::serde_json::Map::new();
-        map.insert(
-            #keyword.into(),
-            schemars::_private::serde_json::Value::Array({
-                let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(#add_schemas)*
-                enum_values
-            }),
-        );
-        schemars::Schema::from(map)
+        let mut enum_values = schemars::_private::alloc::vec::Vec::new();
+        #(#add_schemas)*
+
+        if enum_values.is_empty() {
+            // All variants are skipped: there are no valid values, and an empty `oneOf`/`anyOf` array
+            // is not allowed by JSON Schema
+            schemars::Schema::from(false)
+        } else {
+            let mut map = schemars::_private::serde_json::Map::new();
+            map.insert(
+                #keyword.into(),
+                schemars::_private::serde_json::Value::Array(enum_values),
+            );
+            schemars::Schema::from(map)
+        }
     })
     .into()
 }
-- 
2.43.0


From 51d10add211fcc5660d377a87bbf2864228e058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:14 +0000
Subject: [PATCH 26/28] fix: no empty oneOf when flattening an enum without
 variants

---
 schemars/src/_private/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 7ec8aff..263d117 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -79,6 +79,11 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
                             })
                         }),
                 );
+
+                // An empty `oneOf` array is not allowed by JSON Schema
+                if one_of.is_empty() {
+                    one_of.push(false.into());
+                }
             }
         }
 
-- 
2.43.0


From 920a012339f41464652eb022b582e444ab1b9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:14 +0000
Subject: [PATCH 27/28] fix: no panic converting numbers outside the range of
 f64 into a Schema (serde_json arbitrary_precision)

---
 schemars/src/schema.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars/src/schema.rs b/schemars/src/schema.rs
index 0956b96..b23ba3b 100644
--- a/schemars/src/schema.rs
+++ b/schemars/src/schema.rs
@@ -401,7 +401,8 @@ impl Schema {
                 } else if let Some(f) = n.as_f64() {
                     Unexpected::Float(f)
                 } else {
-                    unreachable!()
+                    // Only possible with serde_json's `arbitrary_precision` feature
+                    Unexpected::Other("number")
                 }
             }
             Value::String(s) => Unexpected::Str(s),
-- 
2.43.0


From 2615034ab884d9615526faefde15394eea05e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:48 +0000
Subject: [PATCH 28/28] fix: resolve encoded references to definitions in map
 keys

---
 schemars/src/json_schema_impls/maps.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..f836e80 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -61,7 +61,9 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
+                .and_then(crate::encoding::percent_decode)
+                .map(|r| r.replace("~1", "/").replace("~0", "~"))
+                .and_then(|name| generator.definitions().get(&name))
                 .and_then(Value::as_object)
             {
                 *option = d;
-- 
2.43.0

