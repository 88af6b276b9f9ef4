From 390f563723f1136f858a04befb1461fee52f8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 01/17] fix: anchor the pattern of the asterisk route, so it
 matches only the path `*`

---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From a784f72ba5fc89180d844740c67db2ee6ff6ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 02/17] fix: don't panic when looking for overlap with the
 asterisk route

---
 derive/src/from_request/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..b390f2f 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -505,6 +505,9 @@ impl RoutePath {
             } else {
                 return None;
             }
+        } else if other.segments.is_empty() {
+            // other is "*", which is not matched by any other path
+            return None;
         }
 
         let mut overlap = String::new();
-- 
2.43.0


From 9c5b36cad49bb878d42f5d1806ed0e75f3fcb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 03/17] fix: placeholders don't overlap with empty path
 segments

---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index b390f2f..4822fb1 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -534,6 +534,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // Placeholders don't match empty segments (eg. `/` vs. `/{id}`)
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From 6a026e1a8d22267189a172ce80f57a63392ec7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 04/17] fix: let generated query parameter code work in crates
 that don't depend on serde_urlencoded

---
 derive/src/from_request/mod.rs | 1 +
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..109f3ec 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -413,6 +413,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
             http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
+            serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From c62fb582f58f2bbf863722f30cc1bc92bd1e40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 05/17] fix: support `Option` as the type of `#[query_params]`
 fields, as documented

---
 derive/src/from_request/mod.rs |  3 +-
 src/lib.rs                     |  4 +-
 src/query.rs                   | 94 ++++++++++++++++++++++++++++++++++
 3 files changed, 98 insertions(+), 3 deletions(-)
 create mode 100644 src/query.rs

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 109f3ec..12bd528 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -413,7 +413,6 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
             http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
-            serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
@@ -726,7 +725,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match hyperdrive::query::from_str::<#ty>(raw_query) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index fda9220..2ad1a68 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,6 +153,8 @@ TODO:
 
 pub mod body;
 mod error;
+#[doc(hidden)]
+pub mod query;
 mod readme;
 pub mod service;
 
@@ -165,7 +167,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex, serde_urlencoded};
+pub use {lazy_static::lazy_static, regex};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
diff --git a/src/query.rs b/src/query.rs
new file mode 100644
index 0000000..a985713
--- /dev/null
+++ b/src/query.rs
@@ -0,0 +1,94 @@
+//! Query parameter decoding used by the code generated by the custom derive.
+
+use serde::de::{DeserializeOwned, Deserializer, Visitor};
+use serde::{forward_to_deserialize_any, Deserialize};
+use std::marker::PhantomData;
+
+/// Decodes the raw query string `query` into a `#[query_params]` field.
+///
+/// This works like `serde_urlencoded::from_str`, but also supports `Option`s: They will be `None`
+/// if there are no query parameters, and `Some` otherwise.
+pub fn from_str<T: DeserializeOwned>(query: &str) -> Result<T, serde_urlencoded::de::Error> {
+    if query.split('&').all(str::is_empty) {
+        serde_urlencoded::from_str::<Query<T, Empty>>(query).map(|query| query.value)
+    } else {
+        serde_urlencoded::from_str::<Query<T, NonEmpty>>(query).map(|query| query.value)
+    }
+}
+
+/// Whether the query contains any parameters.
+trait Parameters {
+    const PRESENT: bool;
+}
+
+struct Empty;
+
+impl Parameters for Empty {
+    const PRESENT: bool = false;
+}
+
+struct NonEmpty;
+
+impl Parameters for NonEmpty {
+    const PRESENT: bool = true;
+}
+
+/// Deserializes a `T` using a `QueryDeserializer`.
+struct Query<T, P> {
+    value: T,
+    _p: PhantomData<P>,
+}
+
+impl<'de, T: Deserialize<'de>, P: Parameters> Deserialize<'de> for Query<T, P> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let value = T::deserialize(QueryDeserializer {
+            inner: deserializer,
+            present: P::PRESENT,
+        })?;
+
+        Ok(Query {
+            value,
+            _p: PhantomData,
+        })
+    }
+}
+
+/// Wraps the `serde_urlencoded` deserializer and adds support for a top-level `Option`.
+struct QueryDeserializer<D> {
+    inner: D,
+    present: bool,
+}
+
+impl<'de, D: Deserializer<'de>> Deserializer<'de> for QueryDeserializer<D> {
+    type Error = D::Error;
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        if self.present {
+            visitor.visit_some(self.inner)
+        } else {
+            visitor.visit_none()
+        }
+    }
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.inner.deserialize_any(visitor)
+    }
+
+    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.inner.deserialize_map(visitor)
+    }
+
+    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.inner.deserialize_seq(visitor)
+    }
+
+    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.inner.deserialize_unit(visitor)
+    }
+
+    // The `serde_urlencoded` deserializer treats all of these like `deserialize_any`
+    forward_to_deserialize_any! {
+        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string bytes byte_buf unit_struct
+        newtype_struct tuple_struct struct identifier tuple enum ignored_any
+    }
+}
-- 
2.43.0


From c6b1bec7cdd722f365a77c0794208a6c0fe8380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 06/17] fix: don't choke on attributes of others and on context
 types that aren't plain words

---
 derive/src/from_request/parse.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 4822fb1..fcc388d 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -25,6 +25,23 @@ fn known_attr(name: &Ident) -> bool {
     our_attrs().find(|s| name == s).is_some()
 }
 
+/// Returns the name of `attr` if it is an attribute that might be used by this custom derive.
+///
+/// All of our attributes have a single identifier as their path. Attributes belonging to someone
+/// else can have arbitrary contents, so we must not try to parse them.
+fn attr_name(attr: &Attribute) -> Option<Ident> {
+    if attr.path.leading_colon.is_some() || attr.path.segments.len() != 1 {
+        return None;
+    }
+
+    let name = &attr.path.segments[0].ident;
+    if known_attr(name) || is_method(name) {
+        Some(name.clone())
+    } else {
+        None
+    }
+}
+
 /// Returns whether `name` names an HTTP method attribute (lowercase only).
 fn is_method(name: &Ident) -> bool {
     let name = name.to_string().to_lowercase();
@@ -42,7 +59,11 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
+            let name = match attr_name(attr) {
+                Some(name) => name,
+                None => continue,
+            };
+
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
@@ -105,6 +126,13 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
+            match attr_name(attr) {
+                // This is handled when parsing the attributes on the struct
+                Some(ref name) if is_struct && name == "context" => continue,
+                Some(_) => {}
+                None => continue,
+            }
+
             let meta = attr.parse_meta().unwrap();
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
@@ -184,6 +212,10 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
+                if attr_name(attr).is_none() {
+                    continue;
+                }
+
                 let meta = attr.parse_meta().unwrap();
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
-- 
2.43.0


From 2c6b5c33afc88c21566658578aef4100996be6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 07/17] fix: accept tuple variants that are never constructed

---
 derive/src/from_request/parse.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fcc388d..610a252 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -269,12 +269,11 @@ impl VariantData {
             let field_kind = field_kind.unwrap_or(FieldKind::Guard);
 
             if field_kind == FieldKind::Guard {
-                guard_fields.push(
-                    field
-                        .ident
-                        .clone()
-                        .expect("#[derive(FromRequest)] requires named fields"),
-                );
+                // Unnamed fields are fine as long as we never have to construct the variant (this is
+                // checked later on).
+                if let Some(ident) = &field.ident {
+                    guard_fields.push(ident.clone());
+                }
             }
         }
 
-- 
2.43.0


From 4a0a57877dfe5cd887e4feac8882c1c122e96c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 08/17] fix: don't require the fields of generic request
 contexts to be request contexts too

---
 derive/src/request_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..1823aa7 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,13 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // The generated impls hold for any type arguments. In particular, the fields' types don't have
+    // to implement the traits themselves.
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From 1445713214df5ac6d6de8fa77bfaca86b314936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 09/17] fix: support raw identifiers as field names

---
 derive/src/from_request/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 12bd528..5e528eb 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -642,6 +642,18 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
     bounds
 }
 
+/// Returns the name of the local variable that holds the value of the field `name`.
+fn field_variable<T: ToString>(name: &T) -> Ident {
+    let name = name.to_string();
+    let name = if name.starts_with("r#") {
+        &name[2..]
+    } else {
+        &name[..]
+    };
+
+    Ident::new(&format!("fld_{}", name), Span::call_site())
+}
+
 /// Generates all the code needed to build an enum variant from a matching
 /// request.
 ///
@@ -681,7 +693,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -721,7 +733,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -744,7 +756,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         } else {
             index.to_string()
         };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+        field_variable(&name)
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -753,7 +765,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -764,7 +776,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -781,7 +793,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(&guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
-- 
2.43.0


From e0d58972b3aa51982b69b02cbf44418186746854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 10/17] fix: don't bound the field types of variants that are
 never constructed

---
 derive/src/from_request/mod.rs   | 13 +++++++++++++
 derive/src/from_request/parse.rs |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 5e528eb..71ef669 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -520,6 +520,7 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
 
     let mut bounds: Bounds = variants
         .iter()
+        .filter(|v| v.constructible())
         .flat_map(|v| v.field_uses())
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
@@ -638,6 +639,18 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         })
         .collect();
 
+    // Variants we never construct are still part of the type, which has to be sent to other threads.
+    for field in variants
+        .iter()
+        .filter(|v| !v.constructible())
+        .flat_map(|v| v.all_fields())
+    {
+        let ty = &field.ty;
+        bounds
+            .impl_bounds
+            .push(quote!( #ty: ::std::marker::Send + 'static ));
+    }
+
     bounds.addl_ty_params.extend(ty_params);
     bounds
 }
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 610a252..7ef561a 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -104,6 +104,8 @@ pub struct VariantData {
     query_params_field: Option<Field>,
     guard_fields: Vec<Field>,
     path_segment_fields: Vec<Field>,
+    /// All fields of the variant, regardless of their use.
+    all_fields: Vec<Field>,
 }
 
 /// Describes where a field is decoded from.
@@ -309,6 +311,7 @@ impl VariantData {
             query_params_field: query_params_field.map(fld),
             guard_fields: guard_fields.into_iter().map(fld).collect(),
             path_segment_fields: path_segment_fields.into_iter().map(fld).collect(),
+            all_fields: ast.fields.iter().cloned().collect(),
         }
     }
 
@@ -361,6 +364,11 @@ impl VariantData {
         &self.guard_fields
     }
 
+    /// Returns all fields in this variant/struct.
+    pub fn all_fields(&self) -> &[Field] {
+        &self.all_fields
+    }
+
     /// Returns an iterator over all fields in this variant/struct and their usage.
     pub fn field_uses(&self) -> impl Iterator<Item = (&Field, FieldKind)> {
         self.guard_fields
-- 
2.43.0


From 6d86e4c14eca6fef4e456712ecc4e29b9c1fd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 11/17] fix: reject misplaced and malformed attributes on
 structs instead of ignoring them

---
 derive/src/from_request/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 7ef561a..89d7801 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -143,8 +143,9 @@ impl VariantData {
                         &list.nested.iter().collect::<Vec<_>>(),
                     ));
                 }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
+                _ if known_attr(&meta.name()) => {
+                    let what = if is_struct { "structs" } else { "enum variants" };
+                    panic!("`#[{}]` is not valid on {}", meta.name(), what)
                 }
                 _ => {}
             }
-- 
2.43.0


From e1f2ebf8d4195a89a8ea7f31a323033d4cad5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 12/17] fix: allow using a type for several fields of a generic
 declaration

---
 derive/src/from_request/mod.rs   | 6 ++++++
 derive/src/from_request/parse.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 71ef669..5cac33e 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -71,6 +71,7 @@ mod parse;
 use self::parse::{FieldKind, ItemData, PathMap, VariantData};
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
+use std::collections::HashSet;
 use std::iter::{self, FromIterator};
 use synstructure::{AddBounds, Structure, VariantInfo};
 
@@ -518,10 +519,15 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         ident
     };
 
+    // If a type is used in the same way by several fields, it must only be bounded once. Otherwise
+    // the additional type parameters would be ambiguous.
+    let mut bounded = HashSet::new();
+
     let mut bounds: Bounds = variants
         .iter()
         .filter(|v| v.constructible())
         .flat_map(|v| v.field_uses())
+        .filter(|(field, kind)| bounded.insert((*kind, field.ty.clone().into_token_stream().to_string())))
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 89d7801..e87b097 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -109,7 +109,7 @@ pub struct VariantData {
 }
 
 /// Describes where a field is decoded from.
-#[derive(PartialEq)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
 pub enum FieldKind {
     /// Field is decoded from `{placeholders}` in the URL.
     PathSegment,
-- 
2.43.0


From cbef1020d47927cbc4f92aace5d05fbc7ed8e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 13/17] fix: make CatchUnwind forward the readiness of the
 wrapped service

---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0


From 8b49b6289452e3598cfe2bcd9fde081b85dddaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 14/17] fix: convert contexts with the AsRef trait, even if
 they have an inherent as_ref

---
 derive/src/from_request/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 5cac33e..ac9c1c2 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -786,7 +786,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(body).ty;
         let var = field_variable(body);
         future = quote! {
-            <#ty as FromBody>::from_body(&request, body, context.as_ref())
+            <#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))
                 .into_future()
                 .and_then(move |#var| #future)
         };
@@ -814,7 +814,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(&guard).ty;
         let var = field_variable(&guard);
         future = quote! {
-            <#ty as Guard>::from_request(&request, context.as_ref())
+            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                 .into_future()
                 .and_then(move |#var| #future)
         };
-- 
2.43.0


From 68f8b57d80f16cd22eb5fd0adfe6dd76abec4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 15/17] fix: allow field types called Variant

---
 derive/src/from_request/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index ac9c1c2..4dac108 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -212,7 +212,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 .map(move |(method, variant)| {
                     let variant = &variant.variant_name();
                     quote! {
-                        (Some(#i), &http::Method::#method) => Variant::#variant,
+                        (Some(#i), &http::Method::#method) => __HyperdriveVariant::#variant,
                     }
                 })
                 .chain(iter::once({
@@ -248,7 +248,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                                 let mut methods = Vec::new();
 
                                 #(
-                                    if variant_matches_path(Variant::#variants, regex, path) {
+                                    if variant_matches_path(__HyperdriveVariant::#variants, regex, path) {
                                         methods.push(&http::Method::#methods);
                                     }
                                 )*
@@ -326,7 +326,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         let variant = fallback.variant_name();
         regex_match_arms.push(quote! {
             _ => {
-                Variant::#variant
+                __HyperdriveVariant::#variant
             }
         });
     } else {
@@ -431,9 +431,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 body: hyper::Body,
                 context: Self::Context,
             ) -> Self::Future {
-                // Step 0: `Variant` has all variants of the input enum that have a route attribute
+                // Step 0: `__HyperdriveVariant` has all variants of the input enum that have a route attribute
                 // but without any data.
-                enum Variant {
+                enum __HyperdriveVariant {
                     #(#variants,)*
                 }
 
@@ -444,9 +444,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 //
                 // This is a closure instead of a function to allow use of the `impl`-level generics
                 // (if any).
-                let variant_matches_path = |var: Variant, regex: &Regex, path: &str| -> bool {
+                let variant_matches_path = |var: __HyperdriveVariant, regex: &Regex, path: &str| -> bool {
                     match var {
-                        #( Variant::#variants => { #variant_matches_path } )*
+                        #( __HyperdriveVariant::#variants => { #variant_matches_path } )*
                     }
                 };
 
@@ -463,7 +463,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 };
 
                 match variant {
-                    #( Variant::#variants => #variant_arms, )*
+                    #( __HyperdriveVariant::#variants => #variant_arms, )*
                 }
             }
         }
-- 
2.43.0


From a1004961babc1e600723b901cb96f2287ae1781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 16/17] fix: don't let names imported by generated code shadow
 the caller's types

---
 derive/src/from_request/mod.rs | 135 +++++++++++++++++----------------
 derive/src/request_context.rs  |  12 ++-
 2 files changed, 76 insertions(+), 71 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 4dac108..ce66249 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -88,7 +88,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
     let item_data = ItemData::parse(s.ast().ident.clone(), &s.ast().attrs, is_struct);
 
     let context = item_data.context().cloned().unwrap_or_else(|| {
-        syn::parse_str("NoContext").expect("internal error: couldn't parse type")
+        syn::parse_str("hyperdrive::NoContext").expect("internal error: couldn't parse type")
     });
 
     let variant_data = s
@@ -138,9 +138,14 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
             if regex.captures_len() > 0 {
                 // Captures something, so we need to store it separately
                 let r = regex.as_str();
-                quote!(Some(Regex::new(#r).expect("internal error: generated invalid regex")))
+                quote! {
+                    ::std::option::Option::Some(
+                        hyperdrive::regex::Regex::new(#r)
+                            .expect("internal error: generated invalid regex")
+                    )
+                }
             } else {
-                quote!(None)
+                quote!(::std::option::Option::None)
             }
         })
         .collect::<Vec<_>>();
@@ -179,7 +184,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                             .captures(path)
                             .expect("internal error: regex first matched but now didn't?");
 
-                        #( <#tys as FromStr>::from_str(
+                        #( <#tys as ::std::str::FromStr>::from_str(
                             caps
                                 .get(#indices)
                                 .expect("internal error: capture group did not match anything")
@@ -212,7 +217,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 .map(move |(method, variant)| {
                     let variant = &variant.variant_name();
                     quote! {
-                        (Some(#i), &http::Method::#method) => __HyperdriveVariant::#variant,
+                        (::std::option::Option::Some(#i), &hyperdrive::http::Method::#method) => __HyperdriveVariant::#variant,
                     }
                 })
                 .chain(iter::once({
@@ -231,7 +236,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
                             quote! {
                                 &[
-                                    #( Method::#methods, )*
+                                    #( hyperdrive::http::Method::#methods, )*
                                 ]
                             }
                         } else {
@@ -245,11 +250,11 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                             quote! {{
                                 let path = request.uri().path();
                                 let regex = REGEXES[#i].as_ref().unwrap();
-                                let mut methods = Vec::new();
+                                let mut methods = ::std::vec::Vec::new();
 
                                 #(
                                     if variant_matches_path(__HyperdriveVariant::#variants, regex, path) {
-                                        methods.push(&http::Method::#methods);
+                                        methods.push(&hyperdrive::http::Method::#methods);
                                     }
                                 )*
                                 methods
@@ -272,28 +277,28 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                         let construct = construct_variant(info, fallback);
 
                         quote! {
-                            (Some(#i), _) => {
+                            (::std::option::Option::Some(#i), _) => {
                                 // FIXME `find_accepted_methods` needs access to `request.uri()`
                                 // in the `map_err`. Clean things up so we don't need this.
-                                let mut tmp_request = http::Request::new(());
+                                let mut tmp_request = hyperdrive::http::Request::new(());
                                 *tmp_request.uri_mut() = request.uri().clone();
 
                                 let future = #construct;
-                                let future = future.map_err(move |mut e| {
-                                    use hyperdrive::{Error, http::StatusCode};
-
+                                let future = hyperdrive::futures::Future::map_err(future, move |mut e| {
                                     // If the #[forward]ed impl also failed with "wrong_method", add
                                     // our accepted methods to it.
-                                    if let Some(err) = e.downcast_mut::<Error>() {
-                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
+                                    if let ::std::option::Option::Some(err) = e.downcast_mut::<hyperdrive::Error>() {
+                                        if err.http_status() == hyperdrive::http::StatusCode::METHOD_NOT_ALLOWED {
                                             let request = tmp_request;
-                                            let mut our_methods = Vec::from(#find_accepted_methods);
+                                            let mut our_methods = ::std::vec::Vec::from(#find_accepted_methods);
                                             let inner_methods = err.allowed_methods()
                                                 .expect("`WrongMethod` but no `allowed_methods()`?");
 
                                             our_methods.extend(inner_methods);
 
-                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
+                                            ::std::boxed::Box::new(hyperdrive::Error::wrong_method(
+                                                ::std::vec::Vec::from(our_methods)
+                                            ))
                                         } else {
                                             e
                                         }
@@ -302,7 +307,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                                     }
                                 });
 
-                                return Box::new(future);
+                                return ::std::boxed::Box::new(future);
                             }
                         }
                     } else {
@@ -310,9 +315,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                         // sharing the same path pattern, checking if the FromStr succeeds,
                         // and collecting all accepted methods.
                         quote! {
-                            (Some(#i), _) => {
+                            (::std::option::Option::Some(#i), _) => {
                                 let methods = #find_accepted_methods;
-                                return Error::wrong_method(methods).into_future();
+                                return hyperdrive::Error::wrong_method(methods).into_future();
                             }
                         }
                     }
@@ -333,7 +338,8 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         // No fallback route, add an error arm
         regex_match_arms.push(quote! {
             _ => {
-                return Error::from_status(StatusCode::NOT_FOUND).into_future();
+                return hyperdrive::Error::from_status(hyperdrive::http::StatusCode::NOT_FOUND)
+                    .into_future();
             }
         });
     }
@@ -357,12 +363,12 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         quote! {}
     } else {
         quote! {
-            lazy_static! {
-                static ref ROUTES: RegexSet = RegexSet::new(&[
+            hyperdrive::lazy_static! {
+                static ref ROUTES: hyperdrive::regex::RegexSet = hyperdrive::regex::RegexSet::new(&[
                     #(#all_regexes,)*
                 ][..]).expect("invalid regex from FromRequest derive");
 
-                static ref REGEXES: Vec<Option<Regex>> = vec![
+                static ref REGEXES: ::std::vec::Vec<::std::option::Option<hyperdrive::regex::Regex>> = ::std::vec![
                     #(#capturing_regexes,)*
                 ];
             }
@@ -371,7 +377,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
     // An expression evaluating to the index of the matching regex (or `None`)
     let matching_regex = if all_regexes.is_empty() {
-        quote!(None)
+        quote!(::std::option::Option::None)
     } else {
         quote! {{
             let matches = ROUTES.matches(path);
@@ -411,24 +417,15 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
     s.gen_impl(quote!(
         extern crate hyperdrive;
-        use hyperdrive::{
-            FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
-            futures::{IntoFuture, Future},
-        };
-        // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
-        // Otherwise the calling crate could override this.
-        use core::convert::AsRef;
-        use core::str::FromStr;
-        use std::sync::Arc;
-
-        gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
-            type Future = DefaultFuture<Self, BoxedError>;
+        // Nothing else must be imported here: It would shadow the caller's types.
+
+        gen impl<#(#impl_generics),*> hyperdrive::FromRequest for @Self #where_clause {
+            type Future = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
             type Context = #context;
 
             fn from_request_and_body(
-                request: &Arc<http::Request<()>>,
-                body: hyper::Body,
+                request: &::std::sync::Arc<hyperdrive::http::Request<()>>,
+                body: hyperdrive::hyper::Body,
                 context: Self::Context,
             ) -> Self::Future {
                 // Step 0: `__HyperdriveVariant` has all variants of the input enum that have a route attribute
@@ -444,7 +441,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 //
                 // This is a closure instead of a function to allow use of the `impl`-level generics
                 // (if any).
-                let variant_matches_path = |var: __HyperdriveVariant, regex: &Regex, path: &str| -> bool {
+                let variant_matches_path = |var: __HyperdriveVariant, regex: &hyperdrive::regex::Regex, path: &str| -> bool {
                     match var {
                         #( __HyperdriveVariant::#variants => { #variant_matches_path } )*
                     }
@@ -456,7 +453,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
                 let method = request.method();
                 let path = request.uri().path();
-                let index: Option<usize> = #matching_regex;
+                let index: ::std::option::Option<usize> = #matching_regex;
 
                 let variant = match (index, method) {
                     #(#regex_match_arms)*
@@ -565,7 +562,7 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::std::marker::Send +
                                 'static
                             ),
-                            quote!( #context: AsRef<#frombody_context> ),
+                            quote!( #context: ::std::convert::AsRef<#frombody_context> ),
                             // better implied bounds plz
                             quote!( #frombody_context:
                                 ::hyperdrive::RequestContext
@@ -605,7 +602,7 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::std::marker::Send +
                                 'static
                             ),
-                            quote!( #context: AsRef<#guard_context> ),
+                            quote!( #context: ::std::convert::AsRef<#guard_context> ),
                             // better implied bounds plz
                             quote!( #guard_context:
                                 ::hyperdrive::RequestContext
@@ -720,10 +717,10 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                                 .get(#capture)
                                 .expect("internal error: capture group did not match anything")
                                 .as_str();
-                            let #variable = match <#ty as FromStr>::from_str(#variable) {
-                                Ok(v) => v,
-                                Err(e) => {
-                                    return Error::with_source(StatusCode::NOT_FOUND, e)
+                            let #variable = match <#ty as ::std::str::FromStr>::from_str(#variable) {
+                                ::std::result::Result::Ok(v) => v,
+                                ::std::result::Result::Err(e) => {
+                                    return hyperdrive::Error::with_source(hyperdrive::http::StatusCode::NOT_FOUND, e)
                                         .into_future();
                                 }
                             };
@@ -757,8 +754,11 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
             let #variable = match hyperdrive::query::from_str::<#ty>(raw_query) {
-                Ok(val) => val,
-                Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
+                ::std::result::Result::Ok(val) => val,
+                ::std::result::Result::Err(e) => {
+                    return hyperdrive::Error::with_source(hyperdrive::http::StatusCode::BAD_REQUEST, e)
+                        .into_future();
+                }
             };
         }
     } else {
@@ -778,7 +778,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         field_variable(&name)
     });
     let mut future = quote! {
-        Ok(#construct).into_future()
+        hyperdrive::futures::IntoFuture::into_future(::std::result::Result::Ok(#construct))
     };
 
     // Read the body
@@ -786,9 +786,12 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(body).ty;
         let var = field_variable(body);
         future = quote! {
-            <#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))
-                .into_future()
-                .and_then(move |#var| #future)
+            hyperdrive::futures::Future::and_then(
+                hyperdrive::futures::IntoFuture::into_future(
+                    <#ty as hyperdrive::FromBody>::from_body(&request, body, ::std::convert::AsRef::as_ref(&context))
+                ),
+                move |#var| #future
+            )
         };
     };
 
@@ -797,9 +800,12 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(forward).ty;
         let var = field_variable(forward);
         future = quote! {{
-            <#ty as FromRequest>::from_request_and_body(&request, body, context)
-                .into_future()
-                .and_then(move |#var| #future)
+            hyperdrive::futures::Future::and_then(
+                hyperdrive::futures::IntoFuture::into_future(
+                    <#ty as hyperdrive::FromRequest>::from_request_and_body(&request, body, context)
+                ),
+                move |#var| #future
+            )
         }};
     }
 
@@ -814,23 +820,24 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(&guard).ty;
         let var = field_variable(&guard);
         future = quote! {
-            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
-                .into_future()
-                .and_then(move |#var| #future)
+            hyperdrive::futures::Future::and_then(
+                hyperdrive::futures::IntoFuture::into_future(
+                    <#ty as hyperdrive::Guard>::from_request(&request, ::std::convert::AsRef::as_ref(&context))
+                ),
+                move |#var| #future
+            )
         };
     }
 
     quote! {{
-        use std::str::FromStr;
-
         #placeholders
 
         #query
 
-        let request = Arc::clone(request);
+        let request = ::std::sync::Arc::clone(request);
         let future = #future;
 
-        Box::new(future) as DefaultFuture<Self, BoxedError>
+        ::std::boxed::Box::new(future) as hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>
     }}
 }
 
diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 1823aa7..1278292 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -49,7 +49,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             quote!(#index)
                         };
                         impls.push(s.gen_impl(quote! {
-                            gen impl AsRef<#ty> for @Self {
+                            gen impl ::std::convert::AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
                         }));
@@ -89,22 +89,20 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
 
     let asref_nocontext = s.gen_impl(quote!(
         extern crate hyperdrive;
-        use hyperdrive::NoContext;
 
-        gen impl AsRef<NoContext> for @Self {
-            fn as_ref(&self) -> &NoContext { &NoContext }
+        gen impl ::std::convert::AsRef<hyperdrive::NoContext> for @Self {
+            fn as_ref(&self) -> &hyperdrive::NoContext { &hyperdrive::NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
-        gen impl AsRef<Self> for @Self {
+        gen impl ::std::convert::AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
     ));
     let request_context = s.gen_impl(quote!(
         extern crate hyperdrive;
-        use hyperdrive::RequestContext;
 
-        gen impl RequestContext for @Self {}
+        gen impl hyperdrive::RequestContext for @Self {}
     ));
 
     quote!(
-- 
2.43.0


From c0ab76fbc2223a2f3d06deacb2be56b090e3fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 17/17] fix: bound generic declarations without additional type
 parameters

They were ambiguous if a type was spelled in two ways.
---
 derive/src/from_request/mod.rs | 72 +++++-----------------------------
 1 file changed, 10 insertions(+), 62 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index ce66249..5766893 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -71,7 +71,6 @@ mod parse;
 use self::parse::{FieldKind, ItemData, PathMap, VariantData};
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
-use std::collections::HashSet;
 use std::iter::{self, FromIterator};
 use synstructure::{AddBounds, Structure, VariantInfo};
 
@@ -408,18 +407,11 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         }
     };
 
-    // `add_impl_generic` is ignored when using `gen_impl`, so build the generics ourselves.
-    let impl_generics = if is_type_generic {
-        bounds.addl_ty_params
-    } else {
-        Vec::new()
-    };
-
     s.gen_impl(quote!(
         extern crate hyperdrive;
         // Nothing else must be imported here: It would shadow the caller's types.
 
-        gen impl<#(#impl_generics),*> hyperdrive::FromRequest for @Self #where_clause {
+        gen impl hyperdrive::FromRequest for @Self #where_clause {
             type Future = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
             type Context = #context;
 
@@ -469,11 +461,6 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
 /// Information about trait bounds that need to hold for a `FromRequest` impl to be applicable.
 struct Bounds {
-    /// Additional type parameters to add to the impl.
-    ///
-    /// User-defined type params on the type are always kept.
-    addl_ty_params: Vec<Ident>,
-
     /// `where`-clause trait bounds to add to the generated `FromRequest` impl.
     impl_bounds: Vec<TokenStream>,
 }
@@ -481,17 +468,12 @@ struct Bounds {
 /// This impl enables `collect()`ing an iterator yielding `Bounds` into a single `Bounds` struct.
 impl FromIterator<Bounds> for Bounds {
     fn from_iter<T: IntoIterator<Item = Self>>(iter: T) -> Self {
-        let mut addl_ty_params = Vec::new();
         let mut impl_bounds = Vec::new();
         for bounds in iter {
-            addl_ty_params.extend(bounds.addl_ty_params);
             impl_bounds.extend(bounds.impl_bounds);
         }
 
-        Self {
-            addl_ty_params,
-            impl_bounds,
-        }
+        Self { impl_bounds }
     }
 }
 
@@ -501,35 +483,14 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         .map(|c| c.into_token_stream())
         .unwrap_or_else(|| quote!(::hyperdrive::NoContext));
 
-    let mut ty_param_counter = 0;
-    let mut ty_params = Vec::new();
-
-    // Creates a unique type parameter containing the given name, and adds it to the returned
-    // `Bounds`
-    let mut mkty = |name| -> Ident {
-        let ident = Ident::new(
-            &format!("_hyperdrive_{}_{}", name, ty_param_counter),
-            Span::call_site(),
-        );
-        ty_param_counter += 1;
-        ty_params.push(ident.clone());
-        ident
-    };
-
-    // If a type is used in the same way by several fields, it must only be bounded once. Otherwise
-    // the additional type parameters would be ambiguous.
-    let mut bounded = HashSet::new();
-
     let mut bounds: Bounds = variants
         .iter()
         .filter(|v| v.constructible())
         .flat_map(|v| v.field_uses())
-        .filter(|(field, kind)| bounded.insert((*kind, field.ty.clone().into_token_stream().to_string())))
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
                 FieldKind::PathSegment => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![
                         quote!( #ty:
                             ::std::str::FromStr + ::std::marker::Send + 'static
@@ -540,7 +501,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     ],
                 },
                 FieldKind::QueryParams => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![quote!( #ty:
                         ::hyperdrive::serde::de::DeserializeOwned +
                         ::std::marker::Send +
@@ -548,17 +508,13 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     )],
                 },
                 FieldKind::Body => {
-                    let frombody_context = mkty("FromBody_Context");
-                    let frombody_result = mkty("FromBody_Result");
-                    let frombody_result_future = mkty("FromBody_Result_Future");
+                    let frombody_context = quote!(<#ty as ::hyperdrive::FromBody>::Context);
+                    let frombody_result = quote!(<#ty as ::hyperdrive::FromBody>::Result);
+                    let frombody_result_future = quote!(<#frombody_result as ::hyperdrive::futures::IntoFuture>::Future);
                     Bounds {
-                        addl_ty_params: Vec::new(),
                         impl_bounds: vec![
                             quote!( #ty:
-                                ::hyperdrive::FromBody<
-                                    Context=#frombody_context,
-                                    Result=#frombody_result,
-                                > +
+                                ::hyperdrive::FromBody +
                                 ::std::marker::Send +
                                 'static
                             ),
@@ -571,7 +527,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::hyperdrive::futures::IntoFuture<
                                     Item=#ty,
                                     Error=::hyperdrive::BoxedError,
-                                    Future=#frombody_result_future,
                                 > +
                                 ::std::marker::Send +
                                 'static
@@ -588,17 +543,13 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     }
                 },
                 FieldKind::Guard => {
-                    let guard_context = mkty("Guard_Context");
-                    let guard_result = mkty("Guard_Result");
-                    let guard_result_future = mkty("Guard_Result_Future");
+                    let guard_context = quote!(<#ty as ::hyperdrive::Guard>::Context);
+                    let guard_result = quote!(<#ty as ::hyperdrive::Guard>::Result);
+                    let guard_result_future = quote!(<#guard_result as ::hyperdrive::futures::IntoFuture>::Future);
                     Bounds {
-                        addl_ty_params: Vec::new(),
                         impl_bounds: vec![
                             quote!( #ty:
-                                ::hyperdrive::Guard<
-                                    Context=#guard_context,
-                                    Result=#guard_result,
-                                > +
+                                ::hyperdrive::Guard +
                                 ::std::marker::Send +
                                 'static
                             ),
@@ -611,7 +562,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::hyperdrive::futures::IntoFuture<
                                     Item=#ty,
                                     Error=::hyperdrive::BoxedError,
-                                    Future=#guard_result_future,
                                 > +
                                 ::std::marker::Send +
                                 'static
@@ -628,7 +578,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     }
                 },
                 FieldKind::Forward => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![
                         // FIXME: support `AsRef` conversion here too
                         quote!( #ty:
@@ -654,7 +603,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
             .push(quote!( #ty: ::std::marker::Send + 'static ));
     }
 
-    bounds.addl_ty_params.extend(ty_params);
     bounds
 }
 
-- 
2.43.0

