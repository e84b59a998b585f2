From 377678208e48bc44776ff39614dc3e21a925a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 01/25] fix: report truncated string and opaque padding as an
 error instead of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From 1187a91d5df0edeea9145ec26d644b2ade9dfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 02/25] fix: reject lengths above 2^32-1 when encoding instead
 of truncating them

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From 6d59bd5afdc1c3c874bf191e1f0ad58494f6caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 03/25] fix: reject 8- and 16-bit integers that are out of
 range when decoding

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From b654b782773d1d9365258d6ad85902606b7d831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 04/25] fix: do not allocate opaque data by its unchecked
 length on the wire

---
 serde-xdr/src/opaque.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..0e9cd04 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,16 +69,14 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
             for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
+                if bytes.len() < size {
+                    bytes.push(b);
                 }
             }
         }
-- 
2.43.0


From 4c6b60b013352bfca063e4f9b0989d5be51e0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 05/25] fix: decode derived variants with any number of fields

The derived decoders asked for ten elements, so variants with more fields
than that ran out of elements and panicked.
---
 serde-xdr-derive/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..70c612b 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -10,7 +10,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
+    let mut max_fields = 0usize;
     for variant in ast.variants.iter() {
+        max_fields = max_fields.max(variant.fields.len());
         let variant_ident = &variant.ident;
         match &variant.fields {
             Fields::Named(_) => {
@@ -57,6 +59,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
     }
 
+    // The index and the fields of the largest variant.
+    let de_len = max_fields + 1;
+
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -105,7 +110,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#de_len, XdrIndexerVisitor)
             }
         }
     };
@@ -122,7 +127,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
     let mut value_ty: Option<Type> = None;
+    let mut max_fields = 0usize;
     for variant in ast.variants.iter() {
+        max_fields = max_fields.max(variant.fields.len());
         let variant_ident = &variant.ident;
         match &variant.fields {
             Fields::Named(_) => {
@@ -182,6 +189,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
     }
 
+    // The value is the first field of a variant.
+    let de_len = max_fields.max(1);
+
     let value_ty = value_ty.unwrap();
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
@@ -228,7 +238,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#de_len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From 8718f91ea1a7a6a8de89484f74177fa572e6579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 06/25] fix: report missing elements in derived decoders
 instead of panicking

---
 serde-xdr-derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 70c612b..a785629 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -33,7 +33,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         ser.serialize_element(#arg_ident)?
                     });
                     de_stmts.push(quote! {
-                        let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                        let #ret_ident = seq.next_element::<#ty>()?
+                            .ok_or_else(|| ::serde::de::Error::custom("Not enough fields"))?
                     });
                     de_rets.push(quote! { #ret_ident });
                 }
@@ -100,7 +101,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     where
                         A: ::serde::de::SeqAccess<'de>,
                     {
-                        let index = seq.next_element::<i32>()?.unwrap();
+                        let index = seq.next_element::<i32>()?
+                            .ok_or_else(|| ::serde::de::Error::custom("No discriminant"))?;
                         let variant = Self::Value::name_by_index(index)
                             .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", index)))?;
                         match variant {
@@ -156,7 +158,8 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         de_rets.push(quote! { value });
                     } else {
                         de_stmts.push(quote! {
-                            let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                            let #ret_ident = seq.next_element::<#ty>()?
+                                .ok_or_else(|| ::serde::de::Error::custom("Not enough fields"))?
                         });
                         de_rets.push(quote! { #ret_ident });
                     }
@@ -228,7 +231,8 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     where
                         A: ::serde::de::SeqAccess<'de>,
                     {
-                        let value = seq.next_element::<#value_ty>()?.unwrap();
+                        let value = seq.next_element::<#value_ty>()?
+                            .ok_or_else(|| ::serde::de::Error::custom("No discriminant"))?;
                         let variant = Self::Value::name_by_value(&value)
                             .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &value)))?;
                         match variant {
-- 
2.43.0


From 8f23acb345ced9a350c416d385fd9939a6a072e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 07/25] fix: report unknown variant names in derived decoders
 instead of panicking

---
 serde-xdr-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index a785629..0ca2a64 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -107,7 +107,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                             .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", index)))?;
                         match variant {
                             #(#de_match_arms),*,
-                            _ => unimplemented!(),
+                            _ => Err(::serde::de::Error::custom(format!("Unknown variant {}", variant))),
                         }
                     }
                 }
@@ -237,7 +237,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                             .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &value)))?;
                         match variant {
                             #(#de_match_arms),*,
-                            _ => unimplemented!(),
+                            _ => Err(::serde::de::Error::custom(format!("Unknown variant {}", variant))),
                         }
                     }
                 }
-- 
2.43.0


From 28ffaf22c1792061310ef74e8b5c020bdbc0eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 08/25] fix: do not take the start of a longer word for void or
 case

---
 rpcgen/src/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..6c36a0a 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, peek, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, word("case"), comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
@@ -499,7 +499,7 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(word("void"), |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -775,6 +775,12 @@ fn value(input: &str) -> IResult<&str, Value> {
     .parse(input)
 }
 
+fn word<'a>(
+    word: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
+    terminated(tag(word), not(alt((alphanumeric1, tag("_")))))
+}
+
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
@@ -811,13 +817,13 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     map(
         (
             terminated(
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 multispace1,
             ),
             identifier,
             delimited(
                 (multispace0, tag("("), multispace0),
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 (multispace0, tag(")"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From bea231b2a7c8d000dc8aec51b3305caa11f9257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 09/25] fix: accept type keywords that no white space follows

---
 rpcgen/src/parser.rs | 74 +++++++++++---------------------------------
 1 file changed, 18 insertions(+), 56 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 6c36a0a..e4cd469 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, not, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -667,67 +667,29 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("int"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Int(false),
-        ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(true)
+        map((tag("unsigned"), multispace1, word("int")), |_| {
+            TypeSpecifier::Int(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Hyper(false),
-        ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
-            TypeSpecifier::Hyper(true)
+        map(word("int"), |_| TypeSpecifier::Int(true)),
+        map((tag("unsigned"), multispace1, word("hyper")), |_| {
+            TypeSpecifier::Hyper(false)
         }),
+        map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("char"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Char(false),
-        ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
-            TypeSpecifier::Char(true)
+        map((tag("unsigned"), multispace1, word("char")), |_| {
+            TypeSpecifier::Char(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("short"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Short(false),
-        ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
-            TypeSpecifier::Short(true)
-        }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(false)
+        map(word("char"), |_| TypeSpecifier::Char(true)),
+        map((tag("unsigned"), multispace1, word("short")), |_| {
+            TypeSpecifier::Short(false)
         }),
+        map(word("short"), |_| TypeSpecifier::Short(true)),
+        map(word("unsigned"), |_| TypeSpecifier::Int(false)),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
-            TypeSpecifier::Double
-        }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
-            TypeSpecifier::Quadruple
-        }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(word("float"), |_| TypeSpecifier::Float),
+        map(word("double"), |_| TypeSpecifier::Double),
+        map(word("quadruple"), |_| TypeSpecifier::Quadruple),
+        map(word("bool"), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
-- 
2.43.0


From fd5dd249b679429c15e9c0e41dfffe11c16b8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 10/25] fix: report unsupported definitions instead of
 panicking

---
 rpcgen/src/gen_code.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..a8883f2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -353,7 +353,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         #[repr(i32)]
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -679,7 +679,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
@@ -796,7 +796,7 @@ fn convert_primitive_token(
         } else {
             (quote! { u16 }, OpaqueType::None)
         }),
-        TypeSpecifier::Void => unimplemented!(),
+        TypeSpecifier::Void => Err(Error::NotSupported),
     }
 }
 
-- 
2.43.0


From 4541f520e527f3306f2d243b0a07321b07fb4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 11/25] fix: largest enumerator or case value overflows the
 index

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a8883f2..55c22ec 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -285,7 +285,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -497,7 +497,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From 46dff5c5f71804f63319b7cb34014e283c7225e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 12/25] fix: negative enumerator shifts the complemented
 indexes

---
 rpcgen/src/gen_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 55c22ec..bd1d23c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -255,6 +255,11 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut start: i32 = 0;
     for (end, assign) in indexed {
         if cxt.config.enum_complement_index() {
+            // index でシリアライズするため負の値は表現できない。
+            if end < 0 {
+                return Err(Error::NotSupported);
+            }
+
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
-- 
2.43.0


From 0dc1272037eed88ef700ba84c3ebe57437b33ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 13/25] fix: array length given by a constant is not usize

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index bd1d23c..4698821 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -735,7 +735,7 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            Ok(Some((quote! { [#ty; #len as usize] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-- 
2.43.0


From c2373b9ac6e0280486014c1ed1c97c18dbc92d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 14/25] fix: discriminant value of a union has the wrong
 integer type

---
 rpcgen/src/gen_code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4698821..824e205 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -3,7 +3,7 @@ use crate::keyword;
 use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use quote::{ToTokens, format_ident, quote};
 use std::convert::TryFrom;
 
@@ -497,6 +497,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         }
                     }
                 } else {
+                    // 識別子の型に合わせるためサフィックスを付けない。
+                    let eindex = Literal::u32_unsuffixed(eindex);
                     xdr_union_name_by_value.push(quote! {
                         #eindex => Ok(stringify!(#variant))
                     });
-- 
2.43.0


From 821fe040de9d33e4745014875153106b3e49159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 15/25] fix: numeric case label is not a valid variant name

---
 rpcgen/src/gen_code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 824e205..9fcd4d6 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -822,7 +822,14 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = match value {
+        Value::Constant(c) => {
+            // 数値は識別子として使用できない。
+            let name_ident = format_ident!("Case{}", c.value::<u32>()?);
+            quote! { #name_ident }
+        }
+        _ => convert_value_token::<u32>(value, true)?,
+    };
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 9ae3dd76bc88b3ecdc34ad826866c5c8bc650fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 16/25] fix: default arm of a union ignores opaque data

---
 rpcgen/src/gen_code.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 9fcd4d6..7f7be3c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -588,15 +588,18 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
+            let (derive, v_ty) = convert_payload_token(v_ty, opaque, cxt);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
+                    #derive
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
                 default_value = Some(quote! { Default(Default::default(), Default::default()) });
             } else {
                 specs.push(quote! {
+                    #derive
                     Default(#v_ty)
                 });
 
@@ -843,18 +846,8 @@ fn convert_case_token(
     };
 
     let decl = convert_type_token(declaration, cxt)?;
-    if let Some((mut v_ty, opaque)) = decl {
-        let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
-            // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
-            quote! {}
-        } else {
-            match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
-                OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-                _ => quote! {},
-            }
-        };
+    if let Some((v_ty, opaque)) = decl {
+        let (derive, v_ty) = convert_payload_token(v_ty, opaque, cxt);
 
         let value_token = if cxt.config.union_impl_union {
             quote! {
@@ -892,6 +885,24 @@ fn convert_case_token(
     }
 }
 
+fn convert_payload_token(
+    ty: TokenStream,
+    opaque: OpaqueType,
+    cxt: &Context,
+) -> (TokenStream, TokenStream) {
+    if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
+        // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
+        return (quote! {}, quote! { serde_xdr::opaque::VariableArray });
+    }
+
+    let derive = match opaque {
+        OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+        OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
+        _ => quote! {},
+    };
+    (derive, ty)
+}
+
 fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, OpaqueType), Error> {
     if !cxt.config.remove_typedef {
         let name = upper_camel_case_ident(value);
-- 
2.43.0


From 8f63e632aafc46e4accd0203a9c1b93994e1039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 17/25] fix: escape field names after the conversion to snake
 case

---
 rpcgen/src/gen_code.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 7f7be3c..b074de3 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -389,7 +389,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -406,11 +406,7 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
@@ -942,7 +938,7 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    to_ident(&upper_camel_case(value))
 }
 
 fn capitalize(value: &str) -> String {
@@ -995,7 +991,22 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    let name = snake_case(value);
+    match name.as_str() {
+        // raw identifier として使用できない。
+        "crate" | "self" | "super" => format_ident!("{}_", name),
+        _ if keyword::rust_reserved(&name) => format_ident!("r#{}", name),
+        _ => to_ident(&name),
+    }
+}
+
+fn to_ident(name: &str) -> Ident {
+    // 空文字と数字で始まる名前は識別子として使用できない。
+    if name.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()) {
+        format_ident!("{}", name)
+    } else {
+        format_ident!("_{}", name)
+    }
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From e924f9bb2142d3d84491dd8e1214a94592096925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 18/25] fix: enum behind a typedef is not serialized by its
 value

---
 rpcgen/src/gen_code.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index b074de3..5bf7825 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -43,8 +43,11 @@ impl Context {
 
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
         if let TypeSpecifier::Identifier(name) = ty {
-            return self.typedefs.iter().any(|(_, def)| match def {
+            return self.typedefs.iter().any(|(n, def)| match def {
                 TypeDef::Enum(identifier, _) => &name == identifier,
+                TypeDef::Declaration(Declaration::Variable(ty, _)) => {
+                    n == &name && self.is_enum_type(ty.clone())
+                }
                 _ => false,
             });
         }
-- 
2.43.0


From 8fa86923c4c4fe713b89b9edeab15ecfe3e3ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 19/25] fix: enum in an arm of a union is not serialized by its
 value

---
 rpcgen/src/gen_code.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 5bf7825..6e9f372 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -588,7 +588,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
 
     if let Some(default) = &body.default {
         if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
-            let (derive, v_ty) = convert_payload_token(v_ty, opaque, cxt);
+            let (derive, v_ty) = convert_payload_token(default, v_ty, opaque, cxt);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     #derive
@@ -846,7 +846,7 @@ fn convert_case_token(
 
     let decl = convert_type_token(declaration, cxt)?;
     if let Some((v_ty, opaque)) = decl {
-        let (derive, v_ty) = convert_payload_token(v_ty, opaque, cxt);
+        let (derive, v_ty) = convert_payload_token(declaration, v_ty, opaque, cxt);
 
         let value_token = if cxt.config.union_impl_union {
             quote! {
@@ -885,6 +885,7 @@ fn convert_case_token(
 }
 
 fn convert_payload_token(
+    declaration: &Declaration,
     ty: TokenStream,
     opaque: OpaqueType,
     cxt: &Context,
@@ -897,7 +898,16 @@ fn convert_payload_token(
     let derive = match opaque {
         OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
         OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-        _ => quote! {},
+        OpaqueType::None => match declaration {
+            Declaration::Variable(specifier, _)
+                if cxt.config.enum_impl_std_trait
+                    && cxt.config.union_complement_index()
+                    && cxt.is_enum_type(specifier.clone()) =>
+            {
+                quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
+            }
+            _ => quote! {},
+        },
     };
     (derive, ty)
 }
-- 
2.43.0


From 7ed7b1cbbb818ec027813772800b17ccb4cadd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 20/25] fix: union over a typedef of an enum names the removed
 typedef

---
 rpcgen/src/gen_code.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 6e9f372..85007d5 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -486,14 +486,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 });
 
                 if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
-                        }
+                    if let Value::Identifier(value) = value_token {
+                        let value_ident = upper_camel_case_ident(value);
+                        xdr_union_name_by_value.push(quote! {
+                            #tmp_type::#value_ident => Ok(stringify!(#variant))
+                        });
                     }
                 } else {
                     // 識別子の型に合わせるためサフィックスを付けない。
-- 
2.43.0


From e46e53dcd3c4b9a92aa4d61d00951eaa04470407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 21/25] fix: union over bool with one case generates an
 incomplete match

---
 rpcgen/src/gen_code.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 85007d5..dda4ab3 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -653,13 +653,15 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_union_name_by_value_default_arm =
+            if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+                // false と true を網羅している。
+                quote! {}
+            } else if body.default.is_some() {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
         quote! {
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
-- 
2.43.0


From 637e6caaf21c1954f2fa11e3e679f8e6fd4bce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 22/25] fix: stack overflow on definitions that refer to
 themselves

---
 rpcgen/src/gen_code.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index dda4ab3..b578514 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -180,6 +180,45 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
+    verify_references(cxt)
+}
+
+fn verify_references(cxt: &Context) -> Result<(), Error> {
+    let mut references: Vec<(&String, &String)> = vec![];
+    for (name, value) in &cxt.constants {
+        if let Value::Identifier(identifier) = value {
+            references.push((name, identifier));
+        }
+    }
+    for (name, typedef) in &cxt.typedefs {
+        match typedef {
+            TypeDef::Declaration(
+                Declaration::Variable(TypeSpecifier::Identifier(identifier), _)
+                | Declaration::FixedArray(TypeSpecifier::Identifier(identifier), _, _)
+                | Declaration::VariableArray(TypeSpecifier::Identifier(identifier), _, _)
+                | Declaration::OptionVariable(TypeSpecifier::Identifier(identifier), _),
+            ) => references.push((name, identifier)),
+            TypeDef::Enum(_, assigns) => {
+                for assign in assigns {
+                    if let Value::Identifier(identifier) = &assign.value {
+                        references.push((&assign.identifier, identifier));
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+
+    // 参照先を持たない参照を取り除いて残るものは循環している。
+    while !references.is_empty() {
+        let len = references.len();
+        let names: Vec<&String> = references.iter().map(|(name, _)| *name).collect();
+        references.retain(|(_, identifier)| names.contains(identifier));
+        if references.len() == len {
+            return Err(Error::NotSupported);
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From ebebebf94f92123f4f571b78dee7962d4afc7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 23/25] fix: constants and types whose names are Rust keywords
 or _

---
 rpcgen/src/gen_code.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index b578514..f784ab0 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -226,7 +226,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = to_ident(name);
         let (value_token, ty) = match convert_value_token::<u32>(value, false) {
             Ok(v) => Ok((v, quote! { u32 })),
             Err(_) => match convert_value_token::<u64>(value, false) {
@@ -758,7 +758,7 @@ where
             let v = if cnv {
                 upper_camel_case_ident(i)
             } else {
-                format_ident!("{}", i)
+                to_ident(i)
             };
             Ok(quote! { #v })
         }
@@ -1042,21 +1042,21 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    let name = snake_case(value);
-    match name.as_str() {
-        // raw identifier として使用できない。
-        "crate" | "self" | "super" => format_ident!("{}_", name),
-        _ if keyword::rust_reserved(&name) => format_ident!("r#{}", name),
-        _ => to_ident(&name),
-    }
+    to_ident(&snake_case(value))
 }
 
 fn to_ident(name: &str) -> Ident {
-    // 空文字と数字で始まる名前は識別子として使用できない。
-    if name.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()) {
-        format_ident!("{}", name)
-    } else {
-        format_ident!("_{}", name)
+    match name {
+        // raw identifier として使用できない。
+        "crate" | "self" | "super" | "Self" => format_ident!("{}_", name),
+        _ if keyword::rust_reserved(name) => format_ident!("r#{}", name),
+        // "_" のみの名前は識別子として使用できない。
+        "" | "_" => format_ident!("__"),
+        _ if name.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()) => {
+            format_ident!("{}", name)
+        }
+        // 数字で始まる名前は識別子として使用できない。
+        _ => format_ident!("_{}", name),
     }
 }
 
-- 
2.43.0


From 77e6f6396684ea5c115d9585891e170d25fd1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 24/25] fix: constants named by another are typed and checked
 by their value

---
 rpcgen/src/gen_code.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f784ab0..05c2f77 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -227,13 +227,14 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = to_ident(name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        // 他の定数を参照している場合は参照先の値で型を決定する。
+        let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
+            Ok(v) => (quote! { #v }, quote! { u32 }),
+            Err(_) => {
+                let v = cxt.resolve_value::<u64>(value)?;
+                (quote! { #v }, quote! { u64 })
+            }
+        };
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
-- 
2.43.0


From 85ae1931a4738e7ce3de9635bbd2c65c10079b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 25/25] fix: white space is accepted between the versions of a
 program

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index e4cd469..af8406f 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -749,7 +749,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((tag("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
-                many1(version),
+                many1(terminated(version, multispace0)),
                 (multispace0, tag("}"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0

