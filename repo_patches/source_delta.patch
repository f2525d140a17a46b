From 9277bdda0d6f1e2f714d470fb59e06c682b9dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 01/11] fix: decode u256/i256 values which are followed by more
 bytes

decode_32_bytes converted the whole of the remaining input into a 32 byte
array, which only works when the value is the very last thing in it.
---
 scale-decode/src/visitor/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..e5dd805 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -214,8 +214,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         fn decode_32_bytes<'scale>(
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
-            // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
+            // Pull an array from the front of the data if we can, preserving the lifetime.
+            let bytes: &'scale [u8] = data.get(..32).ok_or(DecodeError::NotEnoughInput)?;
+            let arr: &'scale [u8; 32] = match bytes.try_into() {
                 Ok(arr) => arr,
                 Err(_) => return Err(DecodeError::NotEnoughInput),
             };
-- 
2.43.0


From bb5424b2df98feb964d7e6a9d21f9ca573975955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 02/11] fix: Tuple::remaining() counts the items left to decode

It returned the total number of items no matter how many were decoded already.
---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From ddea14b3942be1979a89a602b91ca0bc5276a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 03/11] fix: TupleField::decode_with_visitor respects compact
 encoding

The item of a compact encoded tuple was decoded as if it was not compact
encoded (CompositeField, and TupleField::decode_as_type, get this right).
---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From 7ca2bba78c2aed2e76f08b10ce9f675b2a0876ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 04/11] fix: Composite::as_tuple() contains the remaining
 fields only

The bytes handed to the tuple start at the first undecoded field, but all of
the fields were handed to it, so it misinterpreted the bytes if some fields
had been decoded already.
---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 54400f547a7c2a5394df090e6352f3364416aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 05/11] fix: don't hide visitor errors when a bit sequence
 can't be skipped

---
 scale-decode/src/visitor/decode.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index e5dd805..05755f1 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -353,8 +353,16 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
         // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
+        let skip_res = bitseq.bytes_after();
+        if let Ok(bytes_after) = skip_res {
+            *self.data = bytes_after;
+        }
 
-        res
+        // Prioritize returning visitor errors over errors skipping the bit sequence.
+        match (res, skip_res) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
-- 
2.43.0


From 8602ee503e6d2b6265fb137216a3fe26ab4bf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 06/11] fix: don't hide visitor errors in decode_as_fields

---
 scale-decode-derive/src/lib.rs | 11 ++++++++---
 scale-decode/src/impls/mod.rs  | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..6016036 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,15 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning visitor errors over skip_decoding errors.
+                    let val = val.map_err(#path_to_scale_decode::Error::from)?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..92871c0 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -645,10 +645,15 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning visitor errors over skip_decoding errors.
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From b33613a09addcd4339fd86d0ba7726b2ab4184b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 07/11] fix: decoding an out of range Duration is an error and
 not a panic

---
 scale-decode/src/impls/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 92871c0..0d42fc5 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -223,7 +223,29 @@ impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
 impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
 impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
 impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
+// Durations need a custom implementation, because not every pair of seconds and nanoseconds is a valid one.
+impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
+    type Value<'scale, 'resolver> = Duration;
+    type Error = Error;
+    type TypeResolver = R;
+
+    fn unchecked_decode_as_type<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let inner_res =
+            decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        let res = inner_res.and_then(|(secs, nanos)| {
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos as u64))
+                .ok_or_else(|| Error::custom_str("Duration is out of range"))
+        });
+        DecodeAsTypeResult::Decoded(res)
+    }
+}
+impl_into_visitor!(Duration);
 impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
 impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
 
-- 
2.43.0


From 2721447f18ea038441482c9959a90f2076b37b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 08/11] fix: derive looks up raw identifiers (r#type) by their
 actual name

---
 scale-decode-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 6016036..0bffea1 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -23,7 +23,7 @@ use alloc::string::ToString;
 use darling::FromAttributes;
 use proc_macro2::{Span, TokenStream as TokenStream2};
 use quote::quote;
-use syn::{parse_macro_input, punctuated::Punctuated, DeriveInput};
+use syn::{ext::IdentExt, parse_macro_input, punctuated::Punctuated, DeriveInput};
 
 const ATTR_NAME: &str = "decode_as_type";
 
@@ -63,7 +63,7 @@ fn generate_enum_impl(
 ) -> TokenStream2 {
     let path_to_scale_decode = &attrs.crate_path;
     let path_to_type: syn::Path = input.ident.clone().into();
-    let variant_names = details.variants.iter().map(|v| v.ident.to_string());
+    let variant_names = details.variants.iter().map(|v| v.ident.unraw().to_string());
 
     let generic_types = handle_generics(&attrs, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
@@ -78,7 +78,7 @@ fn generate_enum_impl(
     // that we're trying to generate output for.
     let variant_ifs = details.variants.iter().map(|variant| {
         let variant_ident = &variant.ident;
-        let variant_name = variant_ident.to_string();
+        let variant_name = variant_ident.unraw().to_string();
 
         let visit_one_variant_body = match &variant.fields {
             syn::Fields::Named(fields) => {
@@ -349,7 +349,7 @@ fn named_field_keyvals<'f>(
     let field_keyval_impls = fields.named.iter().map(move |f| {
         let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
         let field_ident = f.ident.as_ref().expect("named field has ident");
-        let field_name = field_ident.to_string();
+        let field_name = field_ident.unraw().to_string();
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
-- 
2.43.0


From 1a26b6f63536b450628e143a237e336f5a8e9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 09/11] fix: derive does not ignore skip when a field has other
 codec attributes

parsing the attributes failed because of the unknown one, eg #[codec(compact)],
and the default (no skip) was used.
---
 scale-decode-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 0bffea1..fbfb687 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -566,7 +566,7 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
-- 
2.43.0


From ac44e91e0e0316662cdca0e8ff879a487fcd63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 10/11] fix: visitors which delegate to another visitor work in
 compact encoded types

Box, Arc, Rc, Cow, Compact, ranges, durations, hashes, one-element tuples and
VisitorWithCrateError implement unchecked_decode_as_type, which was not told
that the bytes are compact encoded. The wrapped visitor thus misread the field
of a compact encoded composite or tuple as a fixed width value. They are now
told via a hidden method which calls unchecked_decode_as_type by default.
---
 scale-decode/src/impls/mod.rs             | 70 ++++++++++++++++++++---
 scale-decode/src/impls/primitive_types.rs | 18 +++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 26 ++++++++-
 4 files changed, 110 insertions(+), 11 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 0d42fc5..25a5471 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,18 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.map($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -235,8 +245,23 @@ impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <(u64, u32)>::into_visitor(),
+            is_compact,
+        );
         let res = inner_res.and_then(|(secs, nanos)| {
             Duration::from_secs(secs)
                 .checked_add(Duration::from_nanos(nanos as u64))
@@ -266,10 +291,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -576,6 +616,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -605,7 +655,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..bd29940 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,25 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> crate::visitor::DecodeAsTypeResult<
+                Self,
+                Result<Self::Value<'scale, 'resolver>, Self::Error>,
+            > {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 05755f1..61a098b 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..4ad3918 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,19 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// As [`Visitor::unchecked_decode_as_type()`], but also given whether the bytes are compact encoded.
+    /// Visitors which delegate to another visitor implement this so that they work in compact encoded types.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +433,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From 1465b352108a02cb17759c11e4132d086e44d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 11/11] fix: derived types note which field is malformed in the
 error

---
 scale-decode-derive/src/lib.rs | 41 ++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index fbfb687..a1fb1c1 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -87,6 +87,7 @@ fn generate_enum_impl(
                     field_composite_keyvals,
                     field_tuple_keyvals
                 ) = named_field_keyvals(path_to_scale_decode, fields);
+                let collect_fields = collect_named_fields(path_to_scale_decode, quote!(fields));
 
                 quote!{
                     let fields = value.fields();
@@ -100,9 +101,7 @@ fn generate_enum_impl(
                         let vals = fields;
                         Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> = fields
-                            .map(|res| res.map(|item| (item.name(), item)))
-                            .collect::<Result<_, _>>()?;
+                        let vals = { #collect_fields };
                         Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
@@ -223,6 +222,7 @@ fn generate_struct_impl(
         syn::Fields::Named(fields) => {
             let (field_count, field_composite_keyvals, field_tuple_keyvals) =
                 named_field_keyvals(path_to_scale_decode, fields);
+            let collect_fields = collect_named_fields(path_to_scale_decode, quote!(value));
 
             (
                 quote! {
@@ -230,8 +230,7 @@ fn generate_struct_impl(
                        return self.visit_tuple(&mut value.as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> =
-                        value.map(|res| res.map(|item| (item.name(), item))).collect::<Result<_, _>>()?;
+                    let vals = { #collect_fields };
 
                     Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
@@ -374,7 +373,9 @@ fn named_field_keyvals<'f>(
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
+                let val = vals.next()
+                    .expect("field count should have been checked already on tuple type; please file a bug report")
+                    .map_err(|e| #path_to_scale_decode::Error::from(e).at_field(#field_name))?;
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
             })
         )
@@ -388,12 +389,32 @@ fn named_field_keyvals<'f>(
     (field_count, field_composite_keyvals, field_tuple_keyvals)
 }
 
+// Given the identifier of some `Composite` value whose fields are all named, generate an expression to collect these
+// fields into a map by name. If a field can't be decoded, we note which one it was in the error that's returned.
+fn collect_named_fields(
+    path_to_scale_decode: &syn::Path,
+    composite: TokenStream2,
+) -> TokenStream2 {
+    quote! {
+        let mut vals = #path_to_scale_decode::BTreeMap::<Option<&str>, _>::new();
+        loop {
+            let name = #composite.peek_name();
+            let Some(res) = #composite.next() else { break };
+            let item = res.map_err(|e| {
+                #path_to_scale_decode::Error::from(e).at_field(name.unwrap_or_default().to_string())
+            })?;
+            vals.insert(item.name(), item);
+        }
+        vals
+    }
+}
+
 // Given some unnamed fields, generate impls like `get_field_value()` for each field. Do this for a tuple style impl.
 fn unnamed_field_vals<'f>(
-    _path_to_scale_decode: &'f syn::Path,
+    path_to_scale_decode: &'f syn::Path,
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
-    let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
+    let field_val_impls = fields.unnamed.iter().enumerate().map(move |(idx, f)| {
         let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
         let skip_field = field_attrs.skip;
 
@@ -407,7 +428,9 @@ fn unnamed_field_vals<'f>(
             true,
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
+                let val = vals.next()
+                    .expect("field count should have been checked already on tuple type; please file a bug report")
+                    .map_err(|e| #path_to_scale_decode::Error::from(e).at_idx(#idx))?;
                 val.decode_as_type().map_err(|e| e.at_idx(#idx))?
             }),
         )
-- 
2.43.0

