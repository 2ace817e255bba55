From 0ade2ecf21956cf7a5445f2dbe536889d9c34c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 01/15] fix: recognise usize and isize as built-in type names

BuiltinType::from_str did not know the two names BuiltinType::as_str prints,
so a value annotated as (usize) or (isize) was rejected by exactly the types
the annotation names.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From b6787bb9ea8b61962ec19178f715fec75a8f4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 02/15] fix: report the expected kind of numeric scalars
 correctly

Integer and float decoders reported that a string was expected when they met
a literal of another kind.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From e19101aa34312ae91bb8a1fc9d517766c4de9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 03/15] fix: allow exclamation mark inside of identifiers

KDL forbids control characters and space (up to U+0020) in identifiers; the
range used for all but the first character also covered U+0021, so a name
like `a!` was rejected while `!a` was accepted.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 65a37ce6decbaf5d665aa452608c9b58d00cae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 04/15] fix: do not treat U+FEFF as an identifier character

It is one of KDL's whitespace characters and is accepted as whitespace, but
was not excluded from identifiers, so it got glued to an adjacent name.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From c29d4cbee7bc43d6f99d6b87929485e4cead2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 05/15] fix: decode whole values through smart pointers,
 options and spanned

Option<Value>, Box<Value> and the like used the provided decode method
and so called Value::raw_decode, which panics.
---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From c6e953cfe1ff9dc876894184998bda3cd48e8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:34 +0000
Subject: [PATCH 06/15] fix: require a digit in the exponent of a decimal
 number

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..3c2d80e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -337,7 +337,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From 0c932b296623e2dead8888f92c5f6d2ab02fbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 07/15] fix: accept raw strings as node and type names

---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3c2d80e..a9fc894 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -295,8 +295,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // match r"..." so `r` will not be treated as an ident
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From a8c4607643dfe7690ea594b26dbbcc913c0514c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 08/15] fix: accept property names that start with a keyword

---
 src/grammar.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index a9fc894..1327acd 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -321,6 +321,16 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // a keyword can be a prefix of an identifier, i.e. `nullable=1`
+    .then_ignore(id_char().rewind().or_not().try_map(|next, span| match next {
+        Some(c) => Err(Error::Unexpected {
+            label: Some("unexpected character"),
+            span,
+            found: c.into(),
+            expected: expected_kind("keyword"),
+        }),
+        None => Ok(()),
+    }))
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From e9ebaaf738fa25741bc767c03ff7e61c82adafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 09/15] fix: allow optional fields with children(name=..)

---
 derive/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..295f241 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -15,7 +15,11 @@ pub(crate) struct Common<'a> {
 fn child_can_partial(child: &Child) -> bool {
     use ChildMode::*;
 
-    child.option || matches!(child.mode, Bool | Flatten)
+    match child.mode {
+        Normal => child.option,
+        Bool | Flatten => true,
+        Multi => false,
+    }
 }
 
 pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
-- 
2.43.0


From 9384246ce8f0ec6ca82d9fb9fdd9545d4e0390a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 10/15] fix: derive Decode for new types around non-optional
 values

---
 derive/src/node.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 295f241..716e4dc 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -161,6 +161,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote! {
+            ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+        }
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -169,16 +187,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From 15387114ec55be5236a292d02d8240f30ea2db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 11/15] fix: support flatten(child, property) on a single field

---
 derive/src/definition.rs |  7 ++++++-
 derive/src/node.rs       | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..06fb2fc 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -612,7 +612,12 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        // `flatten(child, property)` is a single field
+        res.extend(self.children.iter()
+            .filter(|c| !matches!(c.mode, ChildMode::Flatten)
+                || !self.properties.iter().any(|p| p.flatten
+                    && p.field.tmp_name == c.field.tmp_name))
+            .map(|c| &c.field));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 716e4dc..12135f4 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -778,9 +778,14 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                // `flatten(child, property)` is declared when decoding properties
+                let declared = s.object.properties.iter()
+                    .any(|p| p.flatten && &p.field.tmp_name == fld);
+                if !declared {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From 35cbee8d0420ab16eb3973b5f24341d691862fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:02 +0000
Subject: [PATCH 12/15] fix: honour span_type and generics when deriving Decode
 for new types

---
 derive/src/node.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 12135f4..b7e7299 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -161,6 +161,25 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+
+    let (_, type_gen, _) = s.generics.split_for_impl();
+    let mut common_generics = s.generics.clone();
+    let span_ty;
+    if let Some(ty) = s.trait_props.span_type.as_ref() {
+        span_ty = quote!(#ty);
+    } else {
+        if common_generics.params.is_empty() {
+            common_generics.lt_token = Some(Default::default());
+            common_generics.gt_token = Some(Default::default());
+        }
+        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
+        span_ty = quote!(S);
+        common_generics.make_where_clause().predicates.push(
+            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+    };
+    let trait_gen = quote!(<#span_ty>);
+    let (impl_gen, _, bounds) = common_generics.split_for_impl();
+
     let decode = if s.option {
         quote! {
             if #node.arguments.len() > 0 ||
@@ -180,12 +199,12 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         }
     };
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<S> for #s_name
+        impl #impl_gen ::knuffel::Decode #trait_gen for #s_name #type_gen
+            #bounds
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
-                           #ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
+                           #ctx: &mut ::knuffel::decode::Context<#span_ty>)
+                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0


From b8a1dd213a908cb1ac149030b1f09284ee564d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 13/15] fix: reject type names on enum nodes, flags and
 unwrapped children

---
 derive/src/node.rs     | 7 ++++++-
 derive/src/variants.rs | 9 ++++++++-
 src/decode.rs          | 5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index b7e7299..51f4712 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -184,7 +184,8 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         quote! {
             if #node.arguments.len() > 0 ||
                 #node.properties.len() > 0 ||
-                #node.children.is_some()
+                #node.children.is_some() ||
+                #node.type_name.is_some()
             {
                 ::knuffel::Decode::decode_node(#node, #ctx)
                     .map(Some)
@@ -217,6 +218,7 @@ pub(crate) fn decode_enum_item(s: &Common,
     -> syn::Result<TokenStream>
 {
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(s, node)?;
     let decode_args = decode_args(s, node)?;
     let decode_props = decode_props(s, node)?;
     let decode_children = decode_children(s, &children,
@@ -239,6 +241,7 @@ pub(crate) fn decode_enum_item(s: &Common,
         quote!{ #s_name(#(#assignments),*) }
     };
     Ok(quote! {
+        #decode_specials
         #decode_args
         #decode_props
         let #children = #node.children.as_ref()
@@ -619,6 +622,7 @@ fn unwrap_fn(parent: &Common,
 
     let node = syn::Ident::new("node", Span::mixed_site());
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(&common, &node)?;
     let decode_args = decode_args(&common, &node)?;
     let decode_props = decode_props(&common, &node)?;
     let decode_children = decode_children(&common, &children,
@@ -627,6 +631,7 @@ fn unwrap_fn(parent: &Common,
         let mut #func = |#node: &::knuffel::ast::SpannedNode<#span_ty>,
                          #ctx: &mut ::knuffel::decode::Context<#span_ty>|
         {
+            #decode_specials
             #decode_args
             #decode_props
             let #children = #node.children.as_ref()
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 7b9e3b4..a8b5c20 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -66,6 +66,12 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Unit => {
                 branches.push(quote! {
                     #name => {
+                        if let Some(type_name) = &#node.type_name {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::unexpected(
+                                    type_name, "type name",
+                                    "no type name expected for this node"));
+                        }
                         for arg in &#node.arguments {
                             #ctx.emit_error(
                                 ::knuffel::errors::DecodeError::unexpected(
@@ -104,7 +110,8 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                     #name => {
                         if #node.arguments.len() > 0 ||
                             #node.properties.len() > 0 ||
-                            #node.children.is_some()
+                            #node.children.is_some() ||
+                            #node.type_name.is_some()
                         {
                             ::knuffel::Decode::decode_node(#node, #ctx)
                                 .map(Some)
diff --git a/src/decode.rs b/src/decode.rs
index 72193f1..242191f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -108,6 +108,11 @@ pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> Vec<u8> {
 pub fn check_flag_node<S: ErrorSpan>(
     node: &SpannedNode<S>, ctx: &mut Context<S>)
 {
+    if let Some(type_name) = &node.type_name {
+        ctx.emit_error(DecodeError::unexpected(
+                type_name, "type name",
+                "no type name expected for this node"));
+    }
     for arg in &node.arguments {
         ctx.emit_error(DecodeError::unexpected(
                 &arg.literal, "argument",
-- 
2.43.0


From 5cbb830cb57c1dbd28db37910a9a88ad8c8f3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 14/15] fix: a default on an optional child field compiles

---
 derive/src/node.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 51f4712..4436c6b 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -894,9 +894,16 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    postprocess.push(quote! {
-                        let #fld = #fld.unwrap_or_else(|| #default);
-                    });
+                    if child_def.option {
+                        postprocess.push(quote! {
+                            let #fld = #fld.map(Some)
+                                .unwrap_or_else(|| #default);
+                        });
+                    } else {
+                        postprocess.push(quote! {
+                            let #fld = #fld.unwrap_or_else(|| #default);
+                        });
+                    }
                 } else if !child_def.option {
                     if let Some(span) = &err_span {
                         postprocess.push(quote! {
-- 
2.43.0


From b391be1a9c2422a3b54654e7d5d94fa06c6d847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:38 +0000
Subject: [PATCH 15/15] fix: report `/*` at the very end of the input as an
 unclosed comment

The check for "the opening `/*` was matched" required more than two bytes,
so a comment that is opened as the last thing in the text was reported as an
unexpected end of input instead of an unclosed comment.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 1327acd..bfdeebe 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -135,7 +135,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0

