From 390f366523904c29273fc2dcae1d3a415959d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 01/24] Add in-process entry point to the derive behind
 cfg(thiserror_verif)

---
 impl/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 7f3767e..d6f4848 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -13,7 +13,8 @@
     clippy::single_match_else,
     clippy::struct_field_names,
     clippy::too_many_lines,
-    clippy::wrong_self_convention
+    clippy::wrong_self_convention,
+    unexpected_cfgs
 )]
 
 extern crate proc_macro;
@@ -32,8 +33,18 @@ mod valid;
 use proc_macro::TokenStream;
 use syn::{parse_macro_input, DeriveInput};
 
-#[proc_macro_derive(Error, attributes(backtrace, error, from, source))]
+#[cfg_attr(
+    not(thiserror_verif),
+    proc_macro_derive(Error, attributes(backtrace, error, from, source))
+)]
 pub fn derive_error(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     expand::derive(&input).into()
 }
+
+// Verification hook, not part of the crate: with `--cfg thiserror_verif` this
+// file also builds as an ordinary library whose derive is called in-process.
+#[cfg(thiserror_verif)]
+pub fn verif_derive_error(input: &DeriveInput) -> proc_macro2::TokenStream {
+    expand::derive(input)
+}
-- 
2.43.0


From b19f663193919e00b78910c7d281624fef7c2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 02/24] fix: Recognize format trait in a placeholder with
 trailing whitespace

std::fmt permits whitespace before the closing brace of a placeholder. The
trait was taken to be Display whenever there was any, so that {field:p }
printed the address of the field instead of the pointer it holds, {field:? }
inferred the wrong trait bound for a generic field, and {path } was rejected
for a Path.
---
 impl/src/fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..e573217 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,8 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            // Whitespace is permitted in between the format spec and its `}`.
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From 9ea4b1da06f7e40951b68d07cf72bb9ce0745acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 03/24] fix: Preserve hygiene of raw keyword identifiers

A field whose name is a raw keyword was bound using an identifier with
call-site hygiene but looked up by one having the hygiene of the field, so a
message could not interpolate it if the type definition came from inside a
macro_rules macro.
---
 impl/src/unraw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 73b9970..86d8a4e 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -23,7 +23,7 @@ impl IdentUnraw {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-                return Ident::new_raw(&repr, Span::call_site());
+                return Ident::new_raw(&repr, unraw.span());
             }
         }
         unraw
-- 
2.43.0


From bd0ac3318f0220457a97cce542c4fae45d1e45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 04/24] fix: Merge where clauses in fallback expansion of an
 invalid generic type

If the input had a where clause of its own, the Error impl emitted alongside
the diagnostic had two of them, so the actual mistake was reported together
with a syntax error and no impl at all.
---
 impl/src/fallback.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..ace3fe9 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -1,12 +1,21 @@
 use crate::expand::call_site_ident;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::DeriveInput;
+use syn::{parse_quote, DeriveInput};
 
 pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+    // Work around trivial bounds being unstable.
+    // https://github.com/rust-lang/rust/issues/48214
+    let mut error_generics = input.generics.clone();
+    error_generics
+        .make_where_clause()
+        .predicates
+        .push(parse_quote!(for<'workaround> #ty #ty_generics: ::core::fmt::Debug));
+    let error_where_clause = &error_generics.where_clause;
+
     let error = error.to_compile_error();
 
     quote! {
@@ -14,12 +23,7 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
-        where
-            // Work around trivial bounds being unstable.
-            // https://github.com/rust-lang/rust/issues/48214
-            for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-        {}
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {}
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-- 
2.43.0


From c41270e21dc38bcebacf318e6dfbb7a4fa5c8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 05/24] fix: Support field references after a colon or .. in
 format arguments

Args such as `Limits { lo: .lo, hi: .hi }` and `.lo .. .hi` were emitted
with the leading dot in place, which is a syntax error.
---
 impl/src/attr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..1fe94d0 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -247,6 +247,15 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if input.peek(Token![..]) {
+            // Take both dots together so that the second one of them is not
+            // mistaken for the beginning of a field.
+            tokens.push(input.parse()?);
+            tokens.push(input.parse()?);
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
             || input.peek(Token![continue])
             || input.peek(Token![if])
@@ -260,6 +269,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             || input.peek(Token![!])
             || input.peek(Token![^])
             || input.peek(Token![,])
+            || input.peek(Token![:])
             || input.peek(Token![/])
             || input.peek(Token![=])
             || input.peek(Token![>])
-- 
2.43.0


From 79145d5af6fa1f47d02a105dacef99556f720405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 06/24] fix: Recognize non-ASCII field names in format string

Only ASCII identifiers were recognized, so a placeholder naming any other
field was left for std::fmt to capture: no Path support, no inferred trait
bound, and an unresolvable variable if another field's name is an ASCII prefix
of it.
---
 impl/src/fmt.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index e573217..12e7ecf 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -8,7 +8,7 @@ use std::collections::{BTreeSet, HashMap};
 use std::iter;
 use syn::ext::IdentExt;
 use syn::parse::discouraged::Speculative;
-use syn::parse::{Error, ParseStream, Parser, Result};
+use syn::parse::{Error, Parse, ParseStream, Parser, Result};
 use syn::{Expr, Ident, Index, LitStr, Token};
 
 impl Display<'_> {
@@ -65,7 +65,7 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'.. => {
                     if read.starts_with("r#") {
                         continue;
                     }
@@ -75,7 +75,15 @@ impl Display<'_> {
                         out += repr;
                         continue;
                     }
-                    let ident = IdentUnraw::new(Ident::new(repr, span));
+                    let mut ident = match IdentUnraw::parse.parse_str(repr) {
+                        Ok(ident) => ident,
+                        Err(_) => {
+                            // Not an identifier. Let rustc produce the diagnostic.
+                            out += repr;
+                            continue;
+                        }
+                    };
+                    ident.set_span(span);
                     if user_named_args.contains(&ident) {
                         // Refers to a named argument written by the user, not to field.
                         out += repr;
@@ -288,6 +296,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            '\u{80}'.. if !ch.is_whitespace() => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From 723b451dbca948bcb8d79f32103b962d744bd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 07/24] fix: See through invisible delimiters around field
 types

A field type written as a `$ty:ty` metavariable of macro_rules was never
recognized as Backtrace, Option, or a type parameter: the backtrace was
silently not provided, an optional source did not compile, and no trait bound
was inferred.
---
 impl/src/expand.rs   | 11 ++++++++++-
 impl/src/generics.rs |  3 ++-
 impl/src/prop.rs     |  3 ++-
 impl/src/valid.rs    |  3 ++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..c94e361 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -557,7 +557,7 @@ fn unoptional_type(ty: &Type) -> TokenStream {
 }
 
 fn type_parameter_of_option(ty: &Type) -> Option<&Type> {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return None,
     };
@@ -581,3 +581,12 @@ fn type_parameter_of_option(ty: &Type) -> Option<&Type> {
         _ => None,
     }
 }
+
+// A type which reached the macro input through a `$ty:ty` metavariable of a
+// macro_rules macro is enclosed in invisible delimiters.
+pub(crate) fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..5128c4b 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -1,3 +1,4 @@
+use crate::expand::ungroup;
 use proc_macro2::TokenStream;
 use quote::ToTokens;
 use std::collections::btree_map::Entry;
@@ -24,7 +25,7 @@ impl<'a> ParamsInScope<'a> {
 }
 
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup(ty) {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
diff --git a/impl/src/prop.rs b/impl/src/prop.rs
index 0a101fc..6526d75 100644
--- a/impl/src/prop.rs
+++ b/impl/src/prop.rs
@@ -1,4 +1,5 @@
 use crate::ast::{Enum, Field, Struct, Variant};
+use crate::expand::ungroup;
 use crate::unraw::MemberUnraw;
 use proc_macro2::Span;
 use syn::Type;
@@ -138,7 +139,7 @@ fn distinct_backtrace_field<'a, 'b>(
 }
 
 fn type_is_backtrace(ty: &Type) -> bool {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return false,
     };
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..f9d4665 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -1,5 +1,6 @@
 use crate::ast::{Enum, Field, Input, Struct, Variant};
 use crate::attr::Attrs;
+use crate::expand::ungroup;
 use syn::{Error, GenericArgument, PathArguments, Result, Type};
 
 impl Input<'_> {
@@ -222,7 +223,7 @@ fn check_field_attrs(fields: &[Field]) -> Result<()> {
 }
 
 fn contains_non_static_lifetime(ty: &Type) -> bool {
-    match ty {
+    match ungroup(ty) {
         Type::Path(ty) => {
             let bracketed = match &ty.path.segments.last().unwrap().arguments {
                 PathArguments::AngleBracketed(bracketed) => bracketed,
-- 
2.43.0


From bff2cfcbad3e11d8e44647f5d547cd5e8631d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 08/24] fix: Find the end of a format spec whose fill character
 is a brace

---
 impl/src/fmt.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 12e7ecf..f99a9d4 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -93,8 +93,9 @@ impl Display<'_> {
                 }
                 _ => continue,
             };
-            let end_spec = match read.find('}') {
-                Some(end_spec) => end_spec,
+            let begin_spec = skip_fill(read);
+            let end_spec = match read[begin_spec..].find('}') {
+                Some(end_spec) => begin_spec + end_spec,
                 None => return Ok(()),
             };
             let mut bonus_display = false;
@@ -305,6 +306,15 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+// The fill character of a format spec can be any character, including `}`.
+fn skip_fill(read: &str) -> usize {
+    let mut chars = read.chars();
+    match (chars.next(), chars.next(), chars.next()) {
+        (Some(':'), Some(fill), Some('<' | '^' | '>')) => 1 + fill.len_utf8(),
+        _ => 0,
+    }
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From 1e6939b015249389ea9bc14e29e680cbb210430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 09/24] fix: Support field references after a break label or
 raw const in format arguments

---
 impl/src/attr.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 1fe94d0..f5a3635 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -4,8 +4,8 @@ use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, Lifetime,
+    LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -247,9 +247,10 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
-        if input.peek(Token![..]) {
+        if input.peek(Token![..]) || input.peek(Lifetime) {
             // Take both dots together so that the second one of them is not
-            // mistaken for the beginning of a field.
+            // mistaken for the beginning of a field. Likewise the apostrophe
+            // and identifier of a loop label in `break 'label .field`.
             tokens.push(input.parse()?);
             tokens.push(input.parse()?);
             begin_expr = true;
@@ -257,6 +258,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         }
 
         begin_expr = input.peek(Token![break])
+            || input.peek(Token![const])
             || input.peek(Token![continue])
             || input.peek(Token![if])
             || input.peek(Token![in])
-- 
2.43.0


From bd8a027d491c934938cf0f7281d5a027ca57ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 10/24] fix: Forward to the source from a variant with an
 explicit #[backtrace] field

A struct with a source and a separate field marked #[backtrace] offers the
request to the source first, but an enum variant did so only if its backtrace
field was detected by type.
---
 impl/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c94e361..9a006de 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -273,7 +273,7 @@ fn impl_enum(input: Enum) -> TokenStream {
             let ident = &variant.ident;
             match (variant.backtrace_field(), variant.source_field()) {
                 (Some(backtrace_field), Some(source_field))
-                    if backtrace_field.attrs.backtrace.is_none() =>
+                    if backtrace_field.member != source_field.member =>
                 {
                     let backtrace = &backtrace_field.member;
                     let source = &source_field.member;
-- 
2.43.0


From ee3f051ec1df9222ccd818e18abf34fb1ed25c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 11/24] fix: accept {self} in the message of an enum variant

The lint-triggering `fn _fmt` emitted for a recursive `{self}` is a
statement, which is not valid as the body of a match arm, so the derive
produced unparsable tokens.
---
 impl/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 9a006de..d7ccfbc 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -414,7 +414,7 @@ fn impl_enum(input: Enum) -> TokenStream {
             let ident = &variant.ident;
             let pat = fields_pat(&variant.fields);
             quote! {
-                #ty::#ident #pat => #display
+                #ty::#ident #pat => { #display }
             }
         });
         let arms = arms.collect::<Vec<_>>();
-- 
2.43.0


From 1dc8c3bd2a74cda8327613081b635aa6db760672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 12/24] fix: do not panic on leftover tokens inside a group in
 a format argument

A parser combinator can return Ok and still make parse2 fail, when a
nested group was not consumed in full, such as the tuple type in
`Vec::<(u8 u8)>::new()`.
---
 impl/src/fmt.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index f99a9d4..8f9d463 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -17,7 +17,7 @@ impl Display<'_> {
         let FmtArguments {
             named: user_named_args,
             first_unnamed,
-        } = explicit_named_args.parse2(raw_args).unwrap();
+        } = explicit_named_args(raw_args);
 
         let mut member_index = HashMap::new();
         let mut extra_positional_arguments_allowed = true;
@@ -177,25 +177,21 @@ struct FmtArguments {
     first_unnamed: Option<TokenStream>,
 }
 
-#[allow(clippy::unnecessary_wraps)]
-fn explicit_named_args(input: ParseStream) -> Result<FmtArguments> {
-    let ahead = input.fork();
-    if let Ok(set) = try_explicit_named_args(&ahead) {
-        input.advance_to(&ahead);
-        return Ok(set);
+fn explicit_named_args(raw_args: TokenStream) -> FmtArguments {
+    // Parsing can also fail after having returned Ok, if some nested group was
+    // not consumed in full.
+    if let Ok(args) = try_explicit_named_args.parse2(raw_args.clone()) {
+        return args;
     }
 
-    let ahead = input.fork();
-    if let Ok(set) = fallback_explicit_named_args(&ahead) {
-        input.advance_to(&ahead);
-        return Ok(set);
+    if let Ok(args) = fallback_explicit_named_args.parse2(raw_args) {
+        return args;
     }
 
-    input.parse::<TokenStream>().unwrap();
-    Ok(FmtArguments {
+    FmtArguments {
         named: BTreeSet::new(),
         first_unnamed: None,
-    })
+    }
 }
 
 fn try_explicit_named_args(input: ParseStream) -> Result<FmtArguments> {
-- 
2.43.0


From bee1680dcdf1c8222b4b8ec3fca98f585062b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 13/24] fix: Resolve ::core paths of From and provide impls at
 the derive

Tokens carrying the span of a user's attribute or field also carry its
edition, so that in a 2015 edition crate ::core meant a module of that
crate and deriving any #[from] failed to compile.
---
 impl/src/expand.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index d7ccfbc..f54d1d0 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -76,7 +76,7 @@ fn impl_struct(input: Struct) -> TokenStream {
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
             let source_provide = if type_is_option(source_field.ty) {
-                quote_spanned! {source.span()=>
+                quote_spanned! {source.span().resolved_at(Span::call_site())=>
                     if let ::core::option::Option::Some(source) = &self.#source {
                         source.thiserror_provide(#request);
                     }
@@ -174,9 +174,10 @@ fn impl_struct(input: Struct) -> TokenStream {
                 #ty #body
             }
         };
+        let from_trait = quote!(::core::convert::From<#from>);
         let from_impl = quote_spanned! {span=>
             #[automatically_derived]
-            impl #impl_generics ::core::convert::From<#from> for #ty #ty_generics #where_clause {
+            impl #impl_generics #from_trait for #ty #ty_generics #where_clause {
                 #from_function
             }
         };
@@ -279,7 +280,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                     let source = &source_field.member;
                     let varsource = quote!(source);
                     let source_provide = if type_is_option(source_field.ty) {
-                        quote_spanned! {source.span()=>
+                        quote_spanned! {source.span().resolved_at(Span::call_site())=>
                             if let ::core::option::Option::Some(source) = #varsource {
                                 source.thiserror_provide(#request);
                             }
@@ -318,7 +319,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                     let backtrace = &backtrace_field.member;
                     let varsource = quote!(source);
                     let source_provide = if type_is_option(source_field.ty) {
-                        quote_spanned! {backtrace.span()=>
+                        quote_spanned! {backtrace.span().resolved_at(Span::call_site())=>
                             if let ::core::option::Option::Some(source) = #varsource {
                                 source.thiserror_provide(#request);
                             }
@@ -449,9 +450,10 @@ fn impl_enum(input: Enum) -> TokenStream {
                 #ty::#variant #body
             }
         };
+        let from_trait = quote!(::core::convert::From<#from>);
         let from_impl = quote_spanned! {span=>
             #[automatically_derived]
-            impl #impl_generics ::core::convert::From<#from> for #ty #ty_generics #where_clause {
+            impl #impl_generics #from_trait for #ty #ty_generics #where_clause {
                 #from_function
             }
         };
-- 
2.43.0


From 720f04dfe2b6995bd24fa602286d8219dbb23bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 14/24] fix: Write fields named gen as raw identifiers

Syn does not know the keyword of edition 2024, so a field r#gen became
gen in the generated code, which does not compile in that edition.
---
 impl/src/unraw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 86d8a4e..797bc2f 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -19,7 +19,8 @@ impl IdentUnraw {
     pub fn to_local(&self) -> Ident {
         let unraw = self.0.unraw();
         let repr = unraw.to_string();
-        if syn::parse_str::<Ident>(&repr).is_err() {
+        // Syn does not know about `gen`, which is reserved since edition 2024.
+        if syn::parse_str::<Ident>(&repr).is_err() || repr == "gen" {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-- 
2.43.0


From 605978b4a128f36dd6412f96ae0175cdbdd941c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 15/24] fix: Do not mistake a path from the extern prelude for
 a type parameter

---
 impl/src/generics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 5128c4b..6982afe 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -30,7 +30,10 @@ fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
             crawl(in_scope, &qself.ty, found);
         } else {
             let front = ty.path.segments.first().unwrap();
-            if front.arguments.is_none() && in_scope.names.contains(&front.ident) {
+            if ty.path.leading_colon.is_none()
+                && front.arguments.is_none()
+                && in_scope.names.contains(&front.ident)
+            {
                 *found = true;
             }
         }
-- 
2.43.0


From 9f84e5f16149d7fae02ba899f5465a72c3859c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 16/24] fix: Allow deprecated fields and types in generated
 Error impls

---
 impl/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index f54d1d0..a3d9ef7 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -200,7 +200,7 @@ fn impl_struct(input: Struct) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
@@ -476,7 +476,7 @@ fn impl_enum(input: Enum) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
-- 
2.43.0


From 5110597af9cfa37ce684c2a769a90597abe59700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 17/24] fix: Allow non-snake-case field names in generated
 Display impls

---
 impl/src/attr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index f5a3635..788ccc3 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -343,6 +343,7 @@ impl ToTokens for Display<'_> {
             let locals = self.bindings.iter().map(|(local, _value)| local);
             let values = self.bindings.iter().map(|(_local, value)| value);
             quote! {
+                #[allow(non_snake_case)]
                 match (#(#values,)*) {
                     (#(#locals,)*) => #write
                 }
-- 
2.43.0


From 638b852d32029d0c7b8b7e4c1f1202f4a78905f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 18/24] fix: Allow deprecated types in where clauses of enum
 Display impls

---
 impl/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index a3d9ef7..124a5ca 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -421,7 +421,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         let arms = arms.collect::<Vec<_>>();
         let display_where_clause = display_inferred_bounds.augment_where_clause(input.generics);
         Some(quote! {
-            #[allow(unused_qualifications)]
+            #[allow(deprecated, unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-- 
2.43.0


From 130deeeca3e97d12f61207acb1aae98d85c815ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 19/24] fix: Allow clippy::redundant_field_names in generated
 From impls

---
 impl/src/expand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 124a5ca..53faf06 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -187,6 +187,7 @@ fn impl_struct(input: Struct) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
@@ -463,6 +464,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
-- 
2.43.0


From dc4801a0b07296c96b806d8fc75017513a701cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 20/24] fix: do not enable backtrace support on a nightly
 compiler told by RUSTC_BOOTSTRAP=-1 to reject unstable features

---
 build.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/build.rs b/build.rs
index 5d795e4..955d04c 100644
--- a/build.rs
+++ b/build.rs
@@ -16,10 +16,11 @@ fn main() {
 
     let error_generic_member_access;
     let consider_rustc_bootstrap;
-    if compile_probe(false) {
+    if compile_probe(false) && env::var_os("RUSTC_BOOTSTRAP").map_or(true, |value| value != "-1") {
         // This is a nightly or dev compiler, so it supports unstable features
-        // regardless of RUSTC_BOOTSTRAP. No need to rerun build script if
-        // RUSTC_BOOTSTRAP is changed.
+        // regardless of RUSTC_BOOTSTRAP, other than RUSTC_BOOTSTRAP=-1 which
+        // makes it behave like a stable compiler. No need to rerun build script
+        // if RUSTC_BOOTSTRAP is changed.
         error_generic_member_access = true;
         consider_rustc_bootstrap = false;
     } else if let Some(rustc_bootstrap) = env::var_os("RUSTC_BOOTSTRAP") {
-- 
2.43.0


From 0928d94c1917146190da2437495382caac6b7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 21/24] fix: Support transparent, source and from attributes
 coming from a macro_rules fragment

Spanned tokens took the identifiers self and transparent along into the
hygiene context of the attribute or field.
---
 impl/src/expand.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 53faf06..277d365 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -38,8 +38,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
         }
         let member = &only_field.member;
+        let this = quote!(self);
         Some(quote_spanned! {transparent_attr.span=>
-            ::thiserror::__private::Error::source(self.#member.as_dyn_error())
+            ::thiserror::__private::Error::source(#this.#member.as_dyn_error())
         })
     } else if let Some(source_field) = input.source_field() {
         let source = &source_field.member;
@@ -52,8 +53,9 @@ fn impl_struct(input: Struct) -> TokenStream {
         } else {
             None
         };
+        let this = quote!(self);
         let dyn_error = quote_spanned! {source_field.source_span()=>
-            self.#source #asref.as_dyn_error()
+            #this.#source #asref.as_dyn_error()
         };
         Some(quote! {
             ::core::option::Option::Some(#dyn_error)
@@ -82,8 +84,9 @@ fn impl_struct(input: Struct) -> TokenStream {
                     }
                 }
             } else {
+                let this = quote!(self);
                 quote_spanned! {source.span()=>
-                    self.#source.thiserror_provide(#request);
+                    #this.#source.thiserror_provide(#request);
                 }
             };
             let self_provide = if source == backtrace {
@@ -226,11 +229,12 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
+                let transparent = quote!(transparent);
                 let source = quote_spanned! {transparent_attr.span=>
-                    ::thiserror::__private::Error::source(transparent.as_dyn_error())
+                    ::thiserror::__private::Error::source(#transparent.as_dyn_error())
                 };
                 quote! {
-                    #ty::#ident {#member: transparent} => #source,
+                    #ty::#ident {#member: #transparent} => #source,
                 }
             } else if let Some(source_field) = variant.source_field() {
                 let source = &source_field.member;
-- 
2.43.0


From bda3d3b5c03b112fabbd9d2fab4586f120bc95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 22/24] fix: Support field shorthand in arguments coming from a
 macro_rules fragment

In `macro_rules! m { ($($e:tt)*) => { #[error("{}", $($e)*)] struct E(u8); } }`,
an argument like `.0 + 1` failed to find the binding of the field, because the
binding was resolved at the macro's definition and the shorthand at its use.
---
 impl/src/attr.rs | 30 +++++++++++++++++++++++-------
 impl/src/fmt.rs  |  4 +++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 788ccc3..aa27c61 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -1,3 +1,5 @@
+use crate::ast::Field;
+use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::BTreeSet as Set;
@@ -167,7 +169,7 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
             input.parse::<Option<Token![,]>>()?;
             TokenStream::new()
         } else {
-            parse_token_expr(input, false)?
+            input.parse()?
         };
 
         let requires_fmt_machinery = !args.is_empty();
@@ -193,7 +195,11 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
     })
 }
 
-fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStream> {
+pub(crate) fn parse_token_expr(
+    input: ParseStream,
+    fields: &[Field],
+    mut begin_expr: bool,
+) -> Result<TokenStream> {
     let mut tokens = Vec::new();
     while !input.is_empty() {
         if input.peek(token::Group) {
@@ -206,13 +212,22 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         if begin_expr && input.peek(Token![.]) {
             if input.peek2(Ident) {
                 input.parse::<Token![.]>()?;
+                let mut ident: Ident = input.parse()?;
+                let member = MemberUnraw::Named(IdentUnraw::new(ident.clone()));
+                if let Some(field) = fields.iter().find(|field| field.member == member) {
+                    // Refer to the field's binding even if this expression and
+                    // the field come from different macro_rules hygiene contexts.
+                    ident.set_span(ident.span().resolved_at(field.member.span()));
+                }
+                tokens.push(TokenTree::Ident(ident));
                 begin_expr = false;
                 continue;
             } else if input.peek2(LitInt) {
                 input.parse::<Token![.]>()?;
                 let int: Index = input.parse()?;
                 tokens.push({
-                    let ident = format_ident!("_{}", int.index, span = int.span);
+                    let span = int.span.resolved_at(Span::call_site());
+                    let ident = format_ident!("_{}", int.index, span = span);
                     TokenTree::Ident(ident)
                 });
                 begin_expr = false;
@@ -228,7 +243,8 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 {
                     input.advance_to(&ahead);
                     tokens.push({
-                        let ident = format_ident!("_{}", first, span = float.span());
+                        let span = float.span().resolved_at(Span::call_site());
+                        let ident = format_ident!("_{}", first, span = span);
                         TokenTree::Ident(ident)
                     });
                     tokens.push({
@@ -285,21 +301,21 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         let token: TokenTree = if input.peek(token::Paren) {
             let content;
             let delimiter = parenthesized!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Parenthesis, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Brace) {
             let content;
             let delimiter = braced!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Brace, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Bracket) {
             let content;
             let delimiter = bracketed!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Bracket, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 8f9d463..7894dd3 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ContainerKind, Field};
-use crate::attr::{Display, Trait};
+use crate::attr::{parse_token_expr, Display, Trait};
 use crate::scan_expr::scan_expr;
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -13,6 +13,8 @@ use syn::{Expr, Ident, Index, LitStr, Token};
 
 impl Display<'_> {
     pub fn expand_shorthand(&mut self, fields: &[Field], container: ContainerKind) -> Result<()> {
+        let parse_args = |input: ParseStream| parse_token_expr(input, fields, false);
+        self.args = parse_args.parse2(self.args.clone())?;
         let raw_args = self.args.clone();
         let FmtArguments {
             named: user_named_args,
-- 
2.43.0


From 696fcabe0288fd7d8e9becc4fdb294caa74fbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 23/24] fix: Support fields as width and precision in a message
 coming from a macro_rules fragment

The implicit capture of `width` in `{x:width$}` was resolved at the format
string, not like the field.
---
 impl/src/fmt.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 7894dd3..a8a3801 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -165,6 +165,25 @@ impl Display<'_> {
         }
 
         out += read;
+
+        for name in count_args(&fmt) {
+            // Widths and precisions are resolved like the fields interpolated
+            // above, not using the hygiene of the format string.
+            let mut ident = match IdentUnraw::parse.parse_str(name) {
+                Ok(ident) => ident,
+                Err(_) => continue,
+            };
+            ident.set_span(span);
+            let member = MemberUnraw::Named(ident.clone());
+            if let Some(&field) = member_index.get(&member) {
+                if !user_named_args.contains(&ident) && macro_named_args.insert(ident.clone()) {
+                    let mut binding_value = ident.to_local();
+                    binding_value.set_span(span.resolved_at(fields[field].member.span()));
+                    bindings.push((ident.to_local(), binding_value.into_token_stream()));
+                }
+            }
+        }
+
         self.fmt = LitStr::new(&out, self.fmt.span());
         self.has_bonus_display = has_bonus_display;
         self.infinite_recursive = infinite_recursive;
@@ -313,6 +332,36 @@ fn skip_fill(read: &str) -> usize {
     }
 }
 
+// The names in `{:width$}` and `{:.precision$}`.
+fn count_args(mut read: &str) -> Vec<&str> {
+    let mut names = Vec::new();
+    while let Some(brace) = read.find('{') {
+        read = &read[brace + 1..];
+        if read.starts_with('{') {
+            read = &read[1..];
+            continue;
+        }
+        read = match read.find([':', '}']) {
+            Some(end_name) => &read[end_name..],
+            None => break,
+        };
+        let begin_spec = skip_fill(read);
+        let spec = match read[begin_spec..].find('}') {
+            Some(len) => &read[begin_spec..begin_spec + len],
+            None => break,
+        };
+        for (dollar, _) in spec.match_indices('$') {
+            let name = (spec[..dollar].rsplit([':', '<', '^', '>', '+', '-', '#', '.', '$']))
+                .next()
+                .unwrap();
+            // May be preceded by the flag `0`.
+            names.push(name.strip_prefix('0').unwrap_or(name));
+        }
+        read = &read[begin_spec + spec.len()..];
+    }
+    names
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From 69731642104d18fb1ea473ffc1994ba6db7ee930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 24/24] fix: do not repeat the Error bound of a source type
 that another variant is transparent over

---
 impl/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 277d365..eb36693 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -240,7 +240,8 @@ fn impl_enum(input: Enum) -> TokenStream {
                 let source = &source_field.member;
                 if source_field.contains_generic {
                     let ty = unoptional_type(source_field.ty);
-                    error_inferred_bounds.insert(ty, quote!(::thiserror::__private::Error + 'static));
+                    error_inferred_bounds.insert(&ty, quote!(::thiserror::__private::Error));
+                    error_inferred_bounds.insert(&ty, quote!('static));
                 }
                 let asref = if type_is_option(source_field.ty) {
                     Some(quote_spanned!(source.span()=> .as_ref()?))
-- 
2.43.0

