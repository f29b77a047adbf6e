From 19f13207a30e5a4dfae970fd106bb373b82bb574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/17] fix: report missing string and bytes padding instead of
 panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From b2f85ee7d510b11b198b24387654facc0592d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/17] fix: do not allocate opaque data by its unverified
 length

---
 serde-xdr/src/opaque.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..00b26c4 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,21 +69,18 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // The size comes from the message: grow as the data arrives.
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
-            for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
-                }
-            }
+            let rest = size - bytes.len();
+            bytes.extend(v.to_be_bytes().into_iter().take(rest));
         }
     }
 
+    bytes.resize(size, 0);
     Ok(bytes)
 }
 
-- 
2.43.0


From 9612fe4505ab498dbb74bb8d425b807865f7e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 03/17] fix: reject integers that do not fit into the requested
 type

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 3bfa310ccaba2684c27043ed36c3ff6acd0c965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 04/17] fix: reject lengths that do not fit into 32 bits

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From 44fd92c0ee2dda23e13a8ee969e5905e7e909e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 05/17] fix: decode derived variants with more than nine fields

---
 serde-xdr-derive/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..5df3012 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -57,6 +57,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
     }
 
+    // The discriminant and the fields of the widest variant.
+    let len = 1 + ast.variants.iter().map(|v| v.fields.len()).max().unwrap_or(0);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -105,7 +107,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#len, XdrIndexerVisitor)
             }
         }
     };
@@ -183,6 +185,8 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     }
 
     let value_ty = value_ty.unwrap();
+    // The fields of the widest variant, the discriminant is its first one.
+    let len = ast.variants.iter().map(|v| v.fields.len()).max().unwrap_or(0);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -228,7 +232,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From 5202e5ab4031a64facfb3366292ef8f7fa76b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 06/17] fix: do not panic on negative or extreme enumerators

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..8f2a160 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -285,7 +285,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1).max(0);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -497,7 +497,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From 7d3e74cb8136b79d23a25ddb9f77979a5d025cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 07/17] fix: report a void structure member instead of
 panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8f2a160..f65f8e1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-- 
2.43.0


From 80ad0b8e0ab4b7b821e62995194a94c6e35ae4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 08/17] fix: report a bool union without usable cases instead
 of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f65f8e1..a47d2cc 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -679,7 +679,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
-- 
2.43.0


From d03e0e336790480cc70e1c8ca50b41837579c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 09/17] fix: do not panic on names of underscores and digits

---
 rpcgen/src/gen_code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a47d2cc..dbb1ee9 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -917,7 +917,14 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    let name = upper_camel_case(value);
+    match name.chars().next() {
+        // アンダースコアのみの名前はそのまま使用する。
+        None => format_ident!("{}", value),
+        // 数字で始まる識別子は使用できない。
+        Some(c) if c.is_ascii_digit() => format_ident!("_{}", name),
+        _ => format_ident!("{}", name),
+    }
 }
 
 fn capitalize(value: &str) -> String {
-- 
2.43.0


From 38ad3a8c58780947c531841f780129608947490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 10/17] fix: do not panic on members named self, super or crate

---
 rpcgen/src/gen_code.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index dbb1ee9..4cfae99 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -402,7 +402,11 @@ fn convert_struct_token(
         };
 
         if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
+            field_name = match field_name.as_str() {
+                // 生識別子として使用できない。
+                "crate" | "self" | "super" | "Self" => format!("{field_name}_"),
+                _ => format!("r#{field_name}"),
+            };
         }
 
         let field_name_ident = snake_case_ident(&field_name);
-- 
2.43.0


From b543022df62b40ff0a965ea1d354dea0b33a0040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 11/17] fix: report constants defined through themselves
 instead of overflowing the stack

---
 rpcgen/src/gen_code.rs | 51 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4cfae99..aa9831c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -53,6 +53,17 @@ impl Context {
     }
 
     pub fn resolve_const_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
+    where
+        T: TryFrom<&'a Constant>,
+    {
+        self.resolve_const_value_once(name, &mut vec![name.to_string()])
+    }
+
+    fn resolve_const_value_once<'a, T>(
+        &'a self,
+        name: &str,
+        resolving: &mut Vec<String>,
+    ) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
     {
@@ -61,13 +72,21 @@ impl Context {
             .iter()
             .find(|(n, _)| n == name)
             .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?;
-        match value {
-            Value::Constant(c) => c.value::<T>(),
-            Value::Identifier(i) => self.resolve_name(i),
-        }
+        self.resolve_value_once(value, resolving)
     }
 
     pub fn resolve_enum_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
+    where
+        T: TryFrom<&'a Constant>,
+    {
+        self.resolve_enum_value_once(name, &mut vec![name.to_string()])
+    }
+
+    fn resolve_enum_value_once<'a, T>(
+        &'a self,
+        name: &str,
+        resolving: &mut Vec<String>,
+    ) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
     {
@@ -75,7 +94,7 @@ impl Context {
             if let TypeDef::Enum(_, assigns) = typedef {
                 let assign = assigns.iter().find(|a| a.identifier == name);
                 if let Some(assign) = assign {
-                    return self.resolve_value::<T>(&assign.value);
+                    return self.resolve_value_once::<T>(&assign.value, resolving);
                 }
             }
         }
@@ -101,6 +120,28 @@ impl Context {
         };
         Ok(value)
     }
+
+    // 循環参照を検出するため各識別子は一度だけ解決する。
+    fn resolve_value_once<'a, T>(
+        &'a self,
+        value: &'a Value,
+        resolving: &mut Vec<String>,
+    ) -> Result<T, Error>
+    where
+        T: TryFrom<&'a Constant>,
+    {
+        match value {
+            Value::Constant(c) => c.value::<T>(),
+            Value::Identifier(i) => {
+                if resolving.contains(i) {
+                    return Err(Error::NotFountIdentifier(i.to_string()));
+                }
+                resolving.push(i.to_string());
+                self.resolve_const_value_once::<T>(i, resolving)
+                    .or_else(|_| self.resolve_enum_value_once::<T>(i, resolving))
+            }
+        }
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 5aeef18f2206bf1b665aef8ba54dceb0b9db81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 12/17] fix: report typedefs defined through themselves instead
 of overflowing the stack

---
 rpcgen/src/gen_code.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index aa9831c..6d14c65 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -218,6 +218,42 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
+    if cxt.config.remove_typedef {
+        verify_typedefs(cxt)?;
+    }
+
+    Ok(())
+}
+
+/// Reject type definitions that refer to themselves, which can not be removed.
+fn verify_typedefs(cxt: &Context) -> Result<(), Error> {
+    // Which walk along the references came across the definition.
+    let mut walks: Vec<Option<usize>> = vec![None; cxt.typedefs.len()];
+
+    for walk in 0..cxt.typedefs.len() {
+        let mut current = Some(walk);
+        while let Some(index) = current {
+            let (name, typedef) = &cxt.typedefs[index];
+            match walks[index] {
+                Some(w) if w == walk => {
+                    return Err(Error::Parse(format!("circular typedef: {name}")));
+                }
+                Some(_) => break,
+                None => walks[index] = Some(walk),
+            }
+
+            current = match typedef {
+                TypeDef::Declaration(
+                    Declaration::Variable(TypeSpecifier::Identifier(i), _)
+                    | Declaration::FixedArray(TypeSpecifier::Identifier(i), _, _)
+                    | Declaration::VariableArray(TypeSpecifier::Identifier(i), _, _)
+                    | Declaration::OptionVariable(TypeSpecifier::Identifier(i), _),
+                ) => cxt.typedefs.iter().position(|(n, _)| n == i),
+                _ => None,
+            };
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 799b58f2e88a694523de4dc3ae4ca92eaf916f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 13/17] fix: parse nested types once instead of once per kind
 of declaration

---
 rpcgen/src/parser.rs | 59 ++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..9eb997e 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -521,33 +521,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(multispace1, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        typed_declaration,
     ))
     .parse(input)
 }
@@ -736,6 +710,37 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     .parse(input)
 }
 
+fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
+    // ネストした型を繰り返し解析しないように型は一度だけ解析する。
+    let (input, ty) = type_specifier(input)?;
+
+    // 優先度順に並べる。
+    alt((
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("["), value, tag("]")),
+            ),
+            |(i, v)| Declaration::fixed_array(ty.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("<"), opt(value), tag(">")),
+            ),
+            |(i, v)| Declaration::variable_array(ty.clone(), i, v),
+        ),
+        map(
+            preceded((multispace0, tag("*"), multispace0), identifier),
+            |i| Declaration::option_variable(ty.clone(), i),
+        ),
+        map(preceded(multispace1, identifier), |i| {
+            Declaration::variable(ty.clone(), i)
+        }),
+    ))
+    .parse(input)
+}
+
 fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
-- 
2.43.0


From ef781f4b834e5440d10b5f966915b4bed58fa639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 14/17] fix: size arrays by constants with the type arrays need

---
 rpcgen/src/gen_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 6d14c65..4233af8 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -811,6 +811,11 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let len = convert_value_token::<usize>(value, false)?;
+            // Constants are generated as u32.
+            let len = match value {
+                Value::Constant(_) => len,
+                Value::Identifier(_) => quote! { #len as usize },
+            };
             Ok(Some((quote! { [#ty; #len] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
-- 
2.43.0


From c0887e3b01fcf95241f5e3567da66ee930491132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 15/17] fix: match unions over int by int values

---
 rpcgen/src/gen_code.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4233af8..b269454 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -572,6 +572,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                             });
                         }
                     }
+                } else if cond_type == &TypeSpecifier::Int(true) {
+                    xdr_union_name_by_value.push(quote! {
+                        #index => Ok(stringify!(#variant))
+                    });
                 } else {
                     xdr_union_name_by_value.push(quote! {
                         #eindex => Ok(stringify!(#variant))
-- 
2.43.0


From 358df2cf6ec5883a0604e98d32293dc7d9143194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 16/17] fix: look through typedefs at enumerations and union
 discriminants

---
 rpcgen/src/gen_code.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index b269454..e69d2bc 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -41,8 +41,25 @@ impl Context {
         }
     }
 
+    /// The type behind typedefs that only give it another name.
+    pub fn resolve_alias(&self, ty: &TypeSpecifier) -> TypeSpecifier {
+        let mut ty = ty;
+        // 循環する typedef でも終了するように回数を制限する。
+        for _ in 0..self.typedefs.len() {
+            let TypeSpecifier::Identifier(name) = ty else {
+                break;
+            };
+            match self.typedefs.iter().find(|(n, _)| n == name) {
+                Some((_, TypeDef::Declaration(Declaration::Variable(alias, _)))) => ty = alias,
+                _ => break,
+            }
+        }
+
+        ty.clone()
+    }
+
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
-        if let TypeSpecifier::Identifier(name) = ty {
+        if let TypeSpecifier::Identifier(name) = self.resolve_alias(&ty) {
             return self.typedefs.iter().any(|(_, def)| match def {
                 TypeDef::Enum(identifier, _) => &name == identifier,
                 _ => false,
@@ -517,8 +534,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut default_value = None;
     let name_ident = upper_camel_case_ident(name);
 
-    let cond_type = match &body.cond {
-        Declaration::Variable(cond_type, _) => Ok(cond_type),
+    let cond_type = &match &body.cond {
+        Declaration::Variable(cond_type, _) => Ok(cxt.resolve_alias(cond_type)),
         _ => Err(Error::NotSupported),
     }?;
 
-- 
2.43.0


From 0255a6d0e098c9f40fb144c8de8e48b48c68cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 17/17] fix: accept type names beginning with void

---
 rpcgen/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 9eb997e..040c34f 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, peek, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -499,7 +499,11 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(
+            // "void" で始まる識別子と区別する。
+            terminated(tag("void"), not(alt((alphanumeric1, tag("_"))))),
+            |_| Declaration::void(),
+        ),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
-- 
2.43.0

