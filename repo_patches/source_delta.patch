From 584398547b40e92171d6130dbb085c23ac376338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 01/12] fix: LengthData must ask for more input instead of
 panicking on truncated data

---
 src/helpers.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..ba61caf 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,7 +1,8 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
-use nom::{IResult, ToUsize};
+use nom::{IResult, Parser, ToUsize};
 
 #[derive(Debug, PartialEq)]
 pub struct LengthData<L, D> {
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize()).parse(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize()).parse(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize()).parse(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From d2191bd789f1057e12dda5139e7c5aa33632380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 02/12] fix: Move and MoveAbs must request only the missing
 bytes

---
 nom-derive-impl/src/structs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..243134b 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -306,8 +306,9 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 }
                 pos - offset_u
             } else {
-                if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
+                let available = #orig_input.len() - pos;
+                if offset_u > available {
+                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u - available)));
                 }
                 pos + offset_u
             };
@@ -324,7 +325,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let offset = #offset as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
             &#orig_input[offset..]
         };
-- 
2.43.0


From 865ff94fbbfd86ee3f3968d2f48a45af604d6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 03/12] fix: Move must not overflow on the smallest signed
 offset

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 243134b..2996419 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -299,7 +299,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset = #offset as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-- 
2.43.0


From 7bddb852bcd627667dc8d68983b8bab01c48ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 04/12] fix: an alignment of zero must be an error instead of a
 division by zero

---
 nom-derive-impl/src/structs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 2996419..fac5bfc 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -284,6 +284,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
         let (#input, _) = {
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = #align as usize;
+            if align == 0 {
+                return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
+            }
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
-- 
2.43.0


From 165065d58210583f9f323c3f75969bea536323f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 05/12] fix: local variables of generated Align and Move code
 must not capture field names

---
 nom-derive-impl/src/structs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index fac5bfc..436887d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -282,8 +282,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            // evaluate user expression first: it must not see the local variables
             let align = #align as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             if align == 0 {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
@@ -299,9 +300,10 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            // evaluate user expression first: it must not see the local variables
+            let offset = #offset as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From a9b4eb05304adaf6835057a6801750eb3fde934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 06/12] fix: field-level SetEndian must also affect the
 following fields, as documented

---
 nom-derive-impl/src/structs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 436887d..c32ab1d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -449,6 +449,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -457,6 +458,10 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            // SetEndian affects this field, and all following fields
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -483,6 +488,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = object_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 97710b7907e22734c84bbd1abc5f01c6c2823ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 07/12] fix: moving the default variant last must not reorder
 the other variants

---
 nom-derive-impl/src/gen/enums.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..4c9913d 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -213,8 +213,9 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // the order of other entries matters: patterns can overlap
+                let default_code = variants_code.remove(pos);
+                variants_code.push(default_code);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From ccfdc799b0856cf1e418acf803623c7220d98834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 08/12] fix: objects with the Complete attribute must not
 return Incomplete when skipping, aligning or moving

---
 nom-derive-impl/src/structs.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c32ab1d..f7e17a8 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -277,9 +277,29 @@ fn get_field_parser(field: &Field, meta_list: &[MetaAttr], config: &Config) -> R
     )
 }
 
+// parser to use to skip bytes: if 'Complete' is set for the object, it must not return `Incomplete`
+fn quote_take(config: &Config) -> TokenStream {
+    if config.complete {
+        quote! { nom::bytes::complete::take }
+    } else {
+        quote! { nom::bytes::streaming::take }
+    }
+}
+
+// error to return when moving after the end of input
+fn quote_move_error(needed: TokenStream, config: &Config) -> TokenStream {
+    if config.complete {
+        let input = syn::Ident::new(config.input_name(), Span::call_site());
+        quote! { nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Eof)) }
+    } else {
+        quote! { nom::Err::Incomplete(nom::Needed::new(#needed)) }
+    }
+}
+
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), align.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let take = quote_take(config);
     quote! {
         let (#input, _) = {
             // evaluate user expression first: it must not see the local variables
@@ -289,7 +309,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
             let align = ((align - (offset % align)) % align);
-            nom::bytes::streaming::take(align)(#input)
+            #take(align)(#input)
         }?;
     }
 }
@@ -298,6 +318,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let err = quote_move_error(quote! { offset_u - available }, config);
     quote! {
         let #input = {
             // evaluate user expression first: it must not see the local variables
@@ -313,7 +334,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             } else {
                 let available = #orig_input.len() - pos;
                 if offset_u > available {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u - available)));
+                    return Err(#err);
                 }
                 pos + offset_u
             };
@@ -326,11 +347,12 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let err = quote_move_error(quote! { offset - #orig_input.len() }, config);
     quote! {
         let #input = {
             let offset = #offset as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
+                return Err(#err);
             }
             &#orig_input[offset..]
         };
@@ -339,10 +361,11 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
+    let take = quote_take(config);
     quote! {
         let (#input, _) = {
             let skip = #skip as usize;
-            nom::bytes::streaming::take(skip)(#input)
+            #take(skip)(#input)
         }?;
     }
 }
-- 
2.43.0


From 11845737e4daa2be6cafe0119f4c3942e0a585bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 09/12] fix: Complete must also apply to fieldless enums and to
 parsers of unit variants

---
 nom-derive-impl/src/enums.rs               | 5 ++++-
 nom-derive-impl/src/gen/fieldless_enums.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..1315582 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -36,7 +36,10 @@ pub(crate) fn parse_variant(
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
-        let p = p.unwrap_or(ParserExpr::Nop);
+        let mut p = p.unwrap_or(ParserExpr::Nop);
+        if config.complete {
+            p = p.complete();
+        }
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
         let sp = StructParser::new("_".to_string(), item, pre, post);
         struct_def.parsers.push(sp);
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..40e26f0 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -75,7 +75,7 @@ impl Generator for GenFieldlessEnum {
         let tokens = quote! {
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = nom::Parser::parse(&mut #parser, #input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -130,7 +130,7 @@ impl GenFieldlessEnum {
         let repr_string = repr.to_string();
         let repr_type = syn::parse_str::<Type>(&repr_string).expect("could not parse repr type");
 
-        let repr_parser = match repr_string.as_ref() {
+        let mut repr_parser = match repr_string.as_ref() {
             "u8" | "u16" | "u24" | "u32" | "u64" | "u128" | "i8" | "i16" | "i24" | "i32"
             | "i64" | "i128" => {
                 let endian = get_object_endianness(&config);
@@ -155,6 +155,10 @@ impl GenFieldlessEnum {
             }
         };
 
+        if config.complete {
+            repr_parser = repr_parser.complete();
+        }
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From 235e48c1463a0c3e0cfcbd80346f678b9324bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 10/12] fix: truncated arrays must ask for more input, in all
 build configurations

---
 src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index dc13f4f..f5bd066 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -26,7 +26,7 @@ use nom::error::FromExternalError;
 use nom::multi::fill;
 
 #[cfg(feature = "alloc")]
-use nom::multi::{many0, many_m_n};
+use nom::multi::{count, many0};
 
 pub trait InputSlice: Input<Item = u8> {}
 impl InputSlice for &[u8] {}
@@ -240,16 +240,16 @@ where
     T: Parse<I, E>,
 {
     fn parse(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse)), Self::try_from).parse(i)
+        map_res(count(<T>::parse, N), Self::try_from).parse(i)
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_be)), |v| {
+        map_res(count(<T>::parse_be, N), |v| {
             Self::try_from(v)
         })
         .parse(i)
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_le)), |v| {
+        map_res(count(<T>::parse_le, N), |v| {
             Self::try_from(v)
         })
         .parse(i)
-- 
2.43.0


From d51039ddac8406bfbb3c8182fa8ee43607f7989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:29 +0000
Subject: [PATCH 11/12] fix: keep the start of input out of reach of field
 names

A field named like the generated variable holding the start of input
(`orig_i`, or `orig_` followed by InputName) replaced it: if that field
was a slice, every following AlignBefore, AlignAfter, Move and MoveAbs was
computed from the start of the field and not from the start of input.
---
 nom-derive-impl/src/config.rs              |  8 +++++++-
 nom-derive-impl/src/gen/enums.rs           |  2 ++
 nom-derive-impl/src/gen/fieldless_enums.rs |  2 ++
 nom-derive-impl/src/gen/structs.rs         |  2 ++
 nom-derive-impl/src/structs.rs             | 20 ++++++++++----------
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/nom-derive-impl/src/config.rs b/nom-derive-impl/src/config.rs
index c722844..359bdaf 100644
--- a/nom-derive-impl/src/config.rs
+++ b/nom-derive-impl/src/config.rs
@@ -1,6 +1,6 @@
 use crate::endian::ParserEndianness;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{spanned::Spanned, Error};
 
 #[derive(Debug)]
@@ -116,6 +116,12 @@ impl Config {
         &self.orig_input_name
     }
 
+    // variable pointing to the start of input: fields (or user code) cannot hide it, whatever their names
+    pub fn start_input(&self) -> Ident {
+        let name = "__".to_string() + &self.orig_input_name;
+        Ident::new(&name, Span::mixed_site())
+    }
+
     #[inline]
     pub fn lifetime_name(&self) -> &str {
         &self.lifetime_name
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 4c9913d..10ed374 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -65,6 +65,7 @@ impl Generator for GenEnum {
 
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream> {
         let orig_input = Ident::new(self.config.orig_input_name(), Span::call_site());
+        let start_input = self.config.start_input();
         let input = Ident::new(self.config.input_name(), Span::call_site());
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         // generate body
@@ -75,6 +76,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            let #start_input = #orig_input;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 40e26f0..78c182b 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -67,12 +67,14 @@ impl Generator for GenFieldlessEnum {
 
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream> {
         let orig_input = Ident::new(self.config.orig_input_name(), Span::call_site());
+        let start_input = self.config.start_input();
         let input = Ident::new(self.config.input_name(), Span::call_site());
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         let variants_code = &self.variants_code;
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            let #start_input = #orig_input;
             let #input = #orig_input;
             #tl_pre
             let (#input, selector) = nom::Parser::parse(&mut #parser, #input)?;
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..8da4846 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -68,6 +68,7 @@ impl Generator for GenStruct {
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         let input = syn::Ident::new(self.config.input_name(), Span::call_site());
         let orig_input = syn::Ident::new(self.config.orig_input_name(), Span::call_site());
+        let start_input = self.config.start_input();
 
         // prepare tokens
         let (idents, parser_tokens): (Vec<_>, Vec<_>) = self
@@ -103,6 +104,7 @@ impl Generator for GenStruct {
 
         let fn_body = quote! {
             use nom::Parser;
+            let #start_input = #orig_input;
             let #input = #orig_input;
             #tl_pre
             #(#pre let (#input, #idents) = #parser_tokens (#input) ?; #post)*
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index f7e17a8..3835bac 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -298,13 +298,13 @@ fn quote_move_error(needed: TokenStream, config: &Config) -> TokenStream {
 
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), align.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let start_input = config.start_input();
     let take = quote_take(config);
     quote! {
         let (#input, _) = {
             // evaluate user expression first: it must not see the local variables
             let align = #align as usize;
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            let offset = #input.as_ptr() as usize - #start_input.as_ptr() as usize;
             if align == 0 {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
@@ -317,13 +317,13 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
 // like quote_skip, but offset is an isize
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let start_input = config.start_input();
     let err = quote_move_error(quote! { offset_u - available }, config);
     quote! {
         let #input = {
             // evaluate user expression first: it must not see the local variables
             let offset = #offset as isize;
-            let start = #orig_input.as_ptr() as usize;
+            let start = #start_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
@@ -332,13 +332,13 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 }
                 pos - offset_u
             } else {
-                let available = #orig_input.len() - pos;
+                let available = #start_input.len() - pos;
                 if offset_u > available {
                     return Err(#err);
                 }
                 pos + offset_u
             };
-            &#orig_input[new_offset..]
+            &#start_input[new_offset..]
         };
     }
 }
@@ -346,15 +346,15 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 // like quote_move, with absolute value as offset
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
-    let err = quote_move_error(quote! { offset - #orig_input.len() }, config);
+    let start_input = config.start_input();
+    let err = quote_move_error(quote! { offset - #start_input.len() }, config);
     quote! {
         let #input = {
             let offset = #offset as usize;
-            if offset > #orig_input.len() {
+            if offset > #start_input.len() {
                 return Err(#err);
             }
-            &#orig_input[offset..]
+            &#start_input[offset..]
         };
     }
 }
-- 
2.43.0


From 8513adaf052c5ef5782e60ea4f5faca3e3d8293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:40 +0000
Subject: [PATCH 12/12] fix: Debug in front of Cond, Count, Verify and other
 combinators

Since nom 8, combinators are not functions any more, but dbg_dmp only
accepts functions: a field with Debug and one of Complete, Cond, Count,
Into, LengthCount, Map, Take or Verify did not compile, and neither did a
type with Debug and any such field. The documentation gives
`#[nom(Debug, Count="4")]` as example.
---
 nom-derive-impl/src/parsertree.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..82bb6e2 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,20 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                match **expr {
+                    // dbg_dmp only accepts functions, and these parsers are not
+                    ParserExpr::Complete(_)
+                    | ParserExpr::Cond(..)
+                    | ParserExpr::Count(..)
+                    | ParserExpr::Into(_)
+                    | ParserExpr::LengthCount(..)
+                    | ParserExpr::Map(..)
+                    | ParserExpr::Take(_)
+                    | ParserExpr::Verify(..) => quote! {
+                        nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident)
+                    },
+                    _ => quote! { nom::error::dbg_dmp(#expr, #ident) },
+                }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0

