From 0b7149cf91922a84c004f881d9cba2219f55c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 01/20] fix: drop all already mapped array elements when
 fallible mapping aborts

The drop guard of the fallible array mapping cast its slice of initialized
elements to a pointer to a single element, so it dropped exactly one element:
all but the first leaked, and an uninitialized element was dropped if mapping
the first one failed or panicked.
---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From 7b02f7c943c971013f6f49e6eab97a8d34d7a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 02/20] fix: make the crate build with the alloc feature but
 without std

Box and Vec are not in the prelude of a no_std crate, so the implementations
for types in alloc did not compile without the std feature.
---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From 7cdd2d13c6ad91dd128151bd4f6cd9bdba56deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 03/20] fix: support fields of one-element tuple types

The mapped expression for (T,) was generated as (x), i.e. without the trailing
comma that makes it a tuple, so deriving failed to compile.
---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From 85ffad64a38e6b56a861e23a127bdbc4d9367872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 04/20] fix: support field types passed through macro_rules
 type fragments

A `$t:ty` fragment reaches the derive macro as a type within invisible
delimiters, which was rejected as unsupported although the type it contains
can be mapped.
---
 funcmap_derive/src/map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3b618f9..14c7a72 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -8,10 +8,9 @@ use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
-use syn::TypeParen;
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypeParen, TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -117,7 +116,8 @@ impl<'ast> Mapper<'ast> {
                     .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
             }
 
-            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+            Type::Group(TypeGroup { elem: inner_ty, .. })
+            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
             Type::Path(type_path) => {
                 let TypePath {
-- 
2.43.0


From 105eb9387360342a41b883399483ed076ff0ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 05/20] fix: take raw identifiers into account when reserving
 type parameter names

A type definition containing r#A made the derived impl declare a second type
parameter A, as r#A was not recognized as the same identifier.
---
 funcmap_derive/src/ident_collector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..cee3a0f 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
-use syn::visit::Visit;
+use syn::{ext::IdentExt, visit::Visit};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -83,7 +83,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // `r#A` and `A` are the same identifier
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
-- 
2.43.0


From 5e10e756bf0b88eb6f6fcc54f8b9b08a715f1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 06/20] fix: take the crate path into account when reserving
 type parameter names

With #[funcmap(crate = "A")], the type parameter A of the derived impl shadowed
the path to the funcmap crate.
---
 funcmap_derive/src/input.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..212433f 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -45,7 +45,7 @@ pub(crate) struct FuncMapMeta {
     pub(crate) crate_path: Path,
 
     /// [`IdentCollector`] where all identifiers that occur within the
-    /// definition of the type are already reserved
+    /// definition of the type or within `crate_path` are already reserved
     pub(crate) ident_collector: IdentCollector,
 }
 
@@ -94,14 +94,15 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
+        if let Some(crate_path) = &opts.crate_path {
+            ident_collector.visit_path(crate_path);
+        }
+
         let meta = FuncMapMeta {
             crate_path: opts.crate_path.unwrap_or_else(|| {
                 let path = CRATE_IDENT.into();
@@ -112,7 +113,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
-            ident_collector,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From a1b8d08e9507d4da480f9a2e291d666a927dee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 07/20] fix: take identifiers in macro arguments into account
 when reserving names

With a field type such as [u8; size!(A)], the type parameter A of the derived
impl shadowed the A meant by the macro argument.
---
 funcmap_derive/src/ident_collector.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cee3a0f..bb525e0 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,8 +2,12 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, visit::Visit};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
+use syn::{
+    ext::IdentExt,
+    visit::{self, Visit},
+    Macro,
+};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -81,7 +85,24 @@ impl VisitingIdentCollector {
     }
 }
 
+impl VisitingIdentCollector {
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Ident(ident) => self.visit_ident(&ident),
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
+            }
+        }
+    }
+}
+
 impl Visit<'_> for VisitingIdentCollector {
+    fn visit_macro(&mut self, mac: &Macro) {
+        visit::visit_macro(self, mac);
+        self.visit_tokens(mac.tokens.clone());
+    }
+
     fn visit_ident(&mut self, ident: &Ident) {
         // `r#A` and `A` are the same identifier
         self.0.idents.insert(ident.unraw().to_string());
-- 
2.43.0


From 785691f5e8b4b5cb5f75e14a754b77b0b177cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 08/20] fix: recognize raw identifiers as references to a type
 parameter

A field of type r#T was not mapped over the type parameter T (or vice versa)
although both denote the same identifier, making the derived impl ill-typed.
---
 funcmap_derive/src/syn_ext.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..323d461 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -60,7 +61,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -118,7 +119,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
-- 
2.43.0


From 44bee38aee9540f2e9eb9364892fe90d534a9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 09/20] fix: treat raw identifiers in the params option as the
 identifiers they denote

#[funcmap(params(r#T))] was rejected as an unknown parameter T.
---
 funcmap_derive/src/input.rs |  6 +++---
 funcmap_derive/src/opts.rs  | 11 ++++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 212433f..429024c 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, GenericParam,
-    Generics, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
+    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -156,7 +156,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             .filter_map(|(marker_idx, (param_idx, param))| match param {
                 GenericParam::Type(type_param)
                     if mapped_type_param_idents.is_empty()
-                        || mapped_type_param_idents.contains(&type_param.ident) =>
+                        || mapped_type_param_idents.contains(&type_param.ident.unraw()) =>
                 {
                     Some(MappedTypeParam {
                         param_idx,
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..94343c7 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
@@ -197,7 +198,7 @@ pub(crate) enum Param {
     /// A lifetime parameter
     Lifetime(Lifetime),
 
-    /// A type or const parameter
+    /// A type or const parameter (without an `r#` prefix)
     TypeOrConst(Ident),
 }
 
@@ -206,7 +207,11 @@ impl Parse for Param {
         input
             .parse::<Lifetime>()
             .map(Self::Lifetime)
-            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
+            .or_else(|_| {
+                input
+                    .parse::<Ident>()
+                    .map(|ident| Self::TypeOrConst(ident.unraw()))
+            })
             .map_err(|_| input.error("expected name of generic parameter"))
     }
 }
@@ -230,7 +235,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => *l == r.unraw(),
             _ => false,
         }
     }
-- 
2.43.0


From 287a6c33671ffc6d32c85f501448589c88509e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 10/20] fix: support structs whose last field is a possibly
 unsized generic type

---
 funcmap_derive/src/derive.rs | 49 +++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..0141831 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,15 +10,16 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    DependencyOnType, IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use syn::punctuated::Punctuated;
 use syn::{
-    DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam, TypeParamBound,
-    WherePredicate,
+    parse_quote, DeriveInput, GenericArgument, GenericParam, Member, Token, Type, TypeParam,
+    TypeParamBound, WherePredicate,
 };
 
 /// Generates an implementation of `FuncMap` or `TryFuncMap` for a given item
@@ -196,6 +197,28 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 let mut mappings = Vec::new();
                 let mut patterns = Vec::new();
 
+                // Where the last field of a struct may be unsized, the struct
+                // is not known to be sized just because this field is
+                if let (None, Some(last_field)) = (variant_ident, fields.last()) {
+                    if may_be_unsized(
+                        &last_field.ty,
+                        &mapped_type_param.type_param.ident,
+                        all_params,
+                    ) {
+                        let src_args = src_args.clone();
+                        let dst_args = dst_args.clone();
+
+                        for predicate in [
+                            parse_quote!(#ident<#(#src_args),*>: ::core::marker::Sized),
+                            parse_quote!(#ident<#(#dst_args),*>: ::core::marker::Sized),
+                        ] {
+                            unique_predicates
+                                .add(predicate)
+                                .add_err_to(&mut result_builder);
+                        }
+                    }
+                }
+
                 for (field_idx, field) in fields.iter().enumerate() {
                     let (member, ident) = if let Some(field_ident) = &field.ident {
                         let member: Member = field_ident.clone().into();
@@ -320,6 +343,26 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     })
 }
 
+/// Checks if a type that does not depend on the mapped type parameter may be
+/// unsized even though it is not a type parameter itself
+///
+/// This is the case if it depends on any other type parameter, which may be
+/// `?Sized` or have associated types that are.
+fn may_be_unsized<'ast>(
+    ty: &Type,
+    mapped_ident: &Ident,
+    params: impl IntoIterator<Item = &'ast GenericParam>,
+) -> bool {
+    ty.dependency_on_type(mapped_ident).is_none()
+        && params.into_iter().any(|param| match param {
+            GenericParam::Type(type_param) => {
+                *ty != type_param.ident.clone().into_type()
+                    && ty.dependency_on_type(&type_param.ident).is_some()
+            }
+            _ => false,
+        })
+}
+
 /// Substitutes a type with multiple other types within a collection of bounds
 ///
 /// Substitutes the type named `type_ident` with each of `subs_idents` within
-- 
2.43.0


From b6a448dac225985805c8c5c175e8cf0c2ab1c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 11/20] fix: refer to const parameters unambiguously

---
 funcmap_derive/src/derive.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 0141831..bb8fcb7 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -18,8 +18,8 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use syn::punctuated::Punctuated;
 use syn::{
-    parse_quote, DeriveInput, GenericArgument, GenericParam, Member, Token, Type, TypeParam,
-    TypeParamBound, WherePredicate,
+    parse_quote, ConstParam, DeriveInput, GenericArgument, GenericParam, Member, Token, Type,
+    TypeParam, TypeParamBound, WherePredicate,
 };
 
 /// Generates an implementation of `FuncMap` or `TryFuncMap` for a given item
@@ -74,10 +74,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             .cloned()
             .map(|param| param.without_attrs().without_default());
 
-        let args = all_params
-            .iter()
-            .cloned()
-            .map(IntoGenericArgument::into_generic_argument);
+        let args = all_params.iter().cloned().map(generic_argument);
 
         let trait_ident = derivable.no_drop_marker_trait_ident();
 
@@ -146,7 +143,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 if param_idx == mapped_type_param.param_idx {
                     GenericArgument::Type(src_type_ident.clone().into_type())
                 } else {
-                    param.clone().into_generic_argument()
+                    generic_argument(param.clone())
                 }
             });
 
@@ -154,7 +151,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 if param_idx == mapped_type_param.param_idx {
                     GenericArgument::Type(dst_type_ident.clone().into_type())
                 } else {
-                    param.clone().into_generic_argument()
+                    generic_argument(param.clone())
                 }
             });
 
@@ -343,6 +340,19 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     })
 }
 
+/// Converts a parameter of the type into the corresponding argument
+///
+/// For a const parameter, this is a block, because as a bare identifier it might
+/// be taken for a type of the same name.
+fn generic_argument(param: GenericParam) -> GenericArgument {
+    match param {
+        GenericParam::Const(ConstParam { ident, .. }) => {
+            GenericArgument::Const(parse_quote!({ #ident }))
+        }
+        param => param.into_generic_argument(),
+    }
+}
+
 /// Checks if a type that does not depend on the mapped type parameter may be
 /// unsized even though it is not a type parameter itself
 ///
-- 
2.43.0


From 7e79d78d06daf9aa5a8507a3c8cabef0db117b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 12/20] fix: avoid local variables named like const parameters
 or the type itself

---
 funcmap_derive/src/derive.rs | 44 ++++++++++++++++++++++++++++--------
 funcmap_derive/src/map.rs    |  9 +++++---
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index bb8fcb7..5454e60 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -15,7 +15,8 @@ use crate::syn_ext::{
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
-use quote::{format_ident, quote, quote_spanned};
+use quote::{quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
     parse_quote, ConstParam, DeriveInput, GenericArgument, GenericParam, Member, Token, Type,
@@ -47,13 +48,15 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     let dst_type_ident = ident_collector.reserve_uppercase_letter('B', Span::mixed_site());
     let fn_type_ident = ident_collector.reserve_uppercase_letter('F', Span::mixed_site());
     let err_type_ident = ident_collector.reserve_uppercase_letter('E', Span::mixed_site());
-    let fn_var_ident = Ident::new("f", Span::mixed_site());
 
     let crate_path = &input.meta.crate_path;
     let ident = &input.ident;
     let all_params = &input.generics.params;
     let where_clause = &input.generics.where_clause;
 
+    let fn_var_ident = local_ident("f", ident, all_params);
+    let closure_arg_ident = local_ident("value", ident, all_params);
+
     let attrs = quote! {
         #[allow(absolute_paths_not_starting_with_crate)]
         #[allow(bare_trait_objects)]
@@ -219,16 +222,12 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 for (field_idx, field) in fields.iter().enumerate() {
                     let (member, ident) = if let Some(field_ident) = &field.ident {
                         let member: Member = field_ident.clone().into();
-                        let ident = format_ident!(
-                            "field_{}",
-                            field_ident.clone(),
-                            span = Span::mixed_site()
-                        );
-                        (member, ident)
+                        let name = format!("field_{}", field_ident.unraw());
+                        (member, local_ident(&name, &input.ident, all_params))
                     } else {
                         let member: Member = field_idx.into();
-                        let ident = format_ident!("field_{}", field_idx, span = Span::mixed_site());
-                        (member, ident)
+                        let name = format!("field_{field_idx}");
+                        (member, local_ident(&name, &input.ident, all_params))
                     };
 
                     let pattern = quote!(#member: #ident);
@@ -238,6 +237,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         src_type_ident: &src_type_ident,
                         dst_type_ident: &dst_type_ident,
                         fn_ident: &fn_var_ident,
+                        closure_arg_ident: &closure_arg_ident,
                         crate_path: &input.meta.crate_path,
                         derivable,
                     };
@@ -353,6 +353,30 @@ fn generic_argument(param: GenericParam) -> GenericArgument {
     }
 }
 
+/// Returns an identifier for a local variable in generated code
+///
+/// This is named `name` unless that is the name of the type (`type_ident`) or of
+/// one of the const parameters among `params`, which a local variable cannot
+/// shadow.
+fn local_ident<'ast>(
+    name: &str,
+    type_ident: &Ident,
+    params: impl IntoIterator<Item = &'ast GenericParam> + Copy,
+) -> Ident {
+    let mut name = name.to_owned();
+
+    while type_ident.unraw() == name
+        || params.into_iter().any(|param| match param {
+            GenericParam::Const(const_param) => const_param.ident.unraw() == name,
+            _ => false,
+        })
+    {
+        name.insert(0, '_');
+    }
+
+    Ident::new(&name, Span::mixed_site())
+}
+
 /// Checks if a type that does not depend on the mapped type parameter may be
 /// unsized even though it is not a type parameter itself
 ///
diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 14c7a72..5a161fd 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -6,7 +6,7 @@ use crate::predicates::UniquePredicates;
 use crate::result::Error;
 use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
 
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
@@ -28,6 +28,9 @@ pub(crate) struct Mapping<'ast> {
     /// Identifier of the mapping function
     pub(crate) fn_ident: &'ast Ident,
 
+    /// Identifier of the argument of generated closures
+    pub(crate) closure_arg_ident: &'ast Ident,
+
     /// Path to the `funcmap` crate
     pub(crate) crate_path: &'ast Path,
 
@@ -343,8 +346,8 @@ impl<'ast> Mapper<'ast> {
     }
 
     fn map_closure(&mut self, ty: &Type) -> Result<TokenStream, Error> {
-        let closure_arg = Ident::new("value", Span::mixed_site());
-        let mapped = self.map(closure_arg.clone().into_token_stream(), ty)?;
+        let closure_arg = self.mapping.closure_arg_ident;
+        let mapped = self.map(closure_arg.into_token_stream(), ty)?;
         let expr = self.mapping.derivable.unit_expr(mapped);
         Ok(quote!(|#closure_arg| #expr))
     }
-- 
2.43.0


From 58db26aae976543dc17e55735780c8c54d227e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 13/20] fix: support enums with a variant named Output

---
 funcmap_derive/src/derive.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 5454e60..6bbb8af 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -57,6 +57,14 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     let fn_var_ident = local_ident("f", ident, all_params);
     let closure_arg_ident = local_ident("value", ident, all_params);
 
+    // If there is a variant named `Output`, then `Self::Output` is ambiguous
+    let has_output_variant = input.variants.iter().any(|variant| {
+        variant
+            .variant_ident
+            .as_ref()
+            .map_or(false, |ident| ident.unraw() == OUTPUT_TYPE_IDENT.as_ref())
+    });
+
     let attrs = quote! {
         #[allow(absolute_paths_not_starting_with_crate)]
         #[allow(bare_trait_objects)]
@@ -158,6 +166,14 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 }
             });
 
+            let dst_type = quote!(#ident<#(#dst_args),*>);
+
+            let output_type = if has_output_variant {
+                quote!(#dst_type)
+            } else {
+                quote!(Self::#OUTPUT_TYPE_IDENT)
+            };
+
             let mut unique_predicates = UniquePredicates::new();
 
             for predicate in where_clause
@@ -206,11 +222,10 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         all_params,
                     ) {
                         let src_args = src_args.clone();
-                        let dst_args = dst_args.clone();
 
                         for predicate in [
                             parse_quote!(#ident<#(#src_args),*>: ::core::marker::Sized),
-                            parse_quote!(#ident<#(#dst_args),*>: ::core::marker::Sized),
+                            parse_quote!(#dst_type: ::core::marker::Sized),
                         ] {
                             unique_predicates
                                 .add(predicate)
@@ -259,6 +274,10 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 }
 
                 let (pat_path, output_path) = match variant_ident {
+                    Some(variant_ident) if has_output_variant => (
+                        quote!(#ident::#variant_ident),
+                        quote!(#ident::#variant_ident),
+                    ),
                     Some(ident) => (
                         quote!(Self::#ident),
                         quote!(Self::#OUTPUT_TYPE_IDENT::#ident),
@@ -286,12 +305,12 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         for #ident<#(#src_args),*>
                         #impl_where_clause
                     {
-                        type #OUTPUT_TYPE_IDENT = #ident<#(#dst_args),*>;
+                        type #OUTPUT_TYPE_IDENT = #dst_type;
 
                         fn #FN_IDENT<#fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> Self::#OUTPUT_TYPE_IDENT
+                        ) -> #output_type
                         where
                             #fn_type_ident: ::core::ops::FnMut(#src_type_ident) -> #dst_type_ident
                         {
@@ -312,12 +331,12 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         for #ident<#(#src_args),*>
                         #impl_where_clause
                     {
-                        type #OUTPUT_TYPE_IDENT = #ident<#(#dst_args),*>;
+                        type #OUTPUT_TYPE_IDENT = #dst_type;
 
                         fn #FALLIBLE_FN_IDENT<#err_type_ident, #fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> ::core::result::Result<Self::#OUTPUT_TYPE_IDENT, #err_type_ident>
+                        ) -> ::core::result::Result<#output_type, #err_type_ident>
                         where
                             #fn_type_ident:
                                 ::core::ops::FnMut(
-- 
2.43.0


From 4c6d865f781d7872403a1cb7f119765df27309c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 14/20] fix: reject the funcmap attribute on generic parameters

---
 funcmap_derive/src/input.rs | 10 ++++++++++
 funcmap_derive/src/opts.rs  |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 429024c..df21701 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -119,6 +119,16 @@ impl TryFrom<DeriveInput> for FuncMapInput {
         let mut mapped_type_param_idents = HashSet::new();
         let mut result_builder = result::Builder::new();
 
+        for param in &derive_input.generics.params {
+            let attrs = match param {
+                GenericParam::Lifetime(lifetime_param) => &lifetime_param.attrs,
+                GenericParam::Type(type_param) => &type_param.attrs,
+                GenericParam::Const(const_param) => &const_param.attrs,
+            };
+
+            opts::assert_absent(attrs, "generic parameters").add_err_to(&mut result_builder);
+        }
+
         for param in opts.params {
             match (
                 derive_input.generics.params.iter().find(|p| &&param == p),
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index 94343c7..dce97e2 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -246,7 +246,7 @@ impl PartialEq<GenericParam> for Param {
 ///
 /// This is meant to be invoked with the slice of all attributes of an item for
 /// which `#[funcmap]` helper attributes aren't supported. `name` is the kind of
-/// item, i.e. `"variants"` or `"fields"`.
+/// item, e.g. `"variants"` or `"fields"`.
 ///
 /// # Errors
 /// Fails if `attrs` contains a `#[funcmap]` helper attribute
-- 
2.43.0


From 44132c7a8fa33ca23267ef8adb3658a1bdc0e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 15/20] fix: report invalid crate paths at the option in any
 case

---
 funcmap_derive/src/opts.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index dce97e2..ddc89ad 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -12,7 +12,7 @@ use quote::ToTokens;
 use syn::{
     ext::IdentExt,
     parenthesized,
-    parse::{Parse, ParseStream, Parser},
+    parse::{Parse, ParseStream},
     punctuated::Punctuated,
     Attribute, ConstParam, GenericParam, Lifetime, LifetimeParam, LitStr, Path, Token, TypeParam,
 };
@@ -156,19 +156,13 @@ impl Parse for ArgCrate {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse::<Token![crate]>()?;
         input.parse::<Token![=]>()?;
-        Ok(Self(input.parse::<LitStr>()?.parse_with(PathParser)?))
-    }
-}
-
-/// Parser for [`Path`] producing errors spanned to the parsed tokens
-#[derive(Debug)]
-struct PathParser;
-
-impl Parser for PathParser {
-    type Output = Path;
+        let value: LitStr = input.parse()?;
 
-    fn parse2(self, tokens: TokenStream) -> syn::Result<Self::Output> {
-        syn::parse2(tokens.clone()).map_err(|_| syn::Error::new_spanned(tokens, "expected path"))
+        // errors may be spanned to anything if `value` isn't tokenizable or empty
+        value
+            .parse()
+            .map(Self)
+            .map_err(|_| syn::Error::new_spanned(value, "expected path"))
     }
 }
 
-- 
2.43.0


From cc9fc5bc91dfdfffbe2a6918a4b6eec19bba0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 16/20] fix: support field types that only differ in lifetimes

Each of them led to a bound of its own, between which the compiler could not
decide.
---
 funcmap_derive/src/derive.rs     |  14 ++-
 funcmap_derive/src/predicates.rs | 205 ++++++++++++++++++++++++++++++-
 2 files changed, 216 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 6bbb8af..0f92c60 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -204,6 +204,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             }
 
             let mut arms = Vec::new();
+            let mut mapping_predicates = UniquePredicates::new();
 
             for Structish {
                 variant_ident,
@@ -262,7 +263,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         .add_err_to(&mut result_builder)
                     {
                         for predicate in mapped.predicates.into_iter() {
-                            unique_predicates
+                            mapping_predicates
                                 .add(predicate)
                                 .add_err_to(&mut result_builder);
                         }
@@ -290,6 +291,17 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 });
             }
 
+            if let Some(mapping_predicates) = mapping_predicates
+                .unify_lifetimes(all_params)
+                .add_err_to(&mut result_builder)
+            {
+                for predicate in mapping_predicates.into_iter() {
+                    unique_predicates
+                        .add(predicate)
+                        .add_err_to(&mut result_builder);
+                }
+            }
+
             let impl_where_clause = unique_predicates.into_where_clause();
             let marker_idx = mapped_type_param.marker_idx;
 
diff --git a/funcmap_derive/src/predicates.rs b/funcmap_derive/src/predicates.rs
index 73048b9..e000d0f 100644
--- a/funcmap_derive/src/predicates.rs
+++ b/funcmap_derive/src/predicates.rs
@@ -2,10 +2,17 @@
 
 use crate::result::Error;
 
+use std::collections::HashSet;
+
 use indexmap::{IndexMap, IndexSet};
+use proc_macro2::Span;
 use syn::{
-    punctuated::Punctuated, BoundLifetimes, Lifetime, PredicateLifetime, PredicateType, Token,
-    Type, TypeParamBound, WhereClause, WherePredicate,
+    fold::{self, Fold},
+    parse_quote,
+    punctuated::Punctuated,
+    visit::{self, Visit},
+    BoundLifetimes, GenericParam, Lifetime, PredicateLifetime, PredicateType, Token, Type,
+    TypeParamBound, WhereClause, WherePredicate,
 };
 
 /// A set of unique type bounds
@@ -120,6 +127,115 @@ impl UniquePredicates {
         Ok(())
     }
 
+    /// Replaces type predicates that only differ in lifetimes with a single
+    /// higher-ranked one
+    ///
+    /// If there are both `Foo<'a, A>: Bar` and `Foo<'b, A>: Bar` in a `where`
+    /// clause, the compiler considers it ambiguous which one to use for proving
+    /// either of them. Hence this turns both into `for<'c> Foo<'c, A>: Bar`.
+    ///
+    /// Such predicates for [`Sized`] are removed instead: Being sized does not
+    /// depend on lifetimes, and only one of the types can be that of the last
+    /// field of a struct, so at least one of them is known to be sized anyway.
+    ///
+    /// The predicates in this set must not be higher-ranked themselves. `params`
+    /// are the generic parameters in scope.
+    pub(crate) fn unify_lifetimes<'ast>(
+        self,
+        params: impl IntoIterator<Item = &'ast GenericParam>,
+    ) -> Result<Self, Error> {
+        let mut lifetime_collector = LifetimeCollector::default();
+
+        for param in params {
+            lifetime_collector.visit_generic_param(param);
+        }
+
+        let mut groups: IndexMap<WherePredicate, Vec<(WherePredicate, Vec<Lifetime>)>> =
+            IndexMap::new();
+
+        for predicate in self.into_single_bounds() {
+            lifetime_collector.visit_where_predicate(&predicate);
+
+            let mut lifetimes = Vec::new();
+            let erased = replace_free_lifetimes(predicate.clone(), |lifetime| {
+                lifetimes.push(lifetime);
+                Lifetime::new("'_", Span::mixed_site())
+            });
+
+            groups
+                .entry(erased)
+                .or_default()
+                .push((predicate, lifetimes));
+        }
+
+        let sized_bound: TypeParamBound = parse_quote!(::core::marker::Sized);
+        let mut unified = Self::new();
+
+        for group in groups.into_values() {
+            let (first, lifetimes) = group.first().cloned().expect("group should not be empty");
+
+            // for each free lifetime of the predicates, those at its place in
+            // all predicates of the group
+            let columns: Vec<Vec<_>> = (0..lifetimes.len())
+                .map(|idx| group.iter().map(|(_, lifetimes)| &lifetimes[idx]).collect())
+                .collect();
+
+            let mut bound_lifetimes: IndexMap<&Vec<_>, Lifetime> = IndexMap::new();
+
+            for column in &columns {
+                if column.iter().any(|lifetime| *lifetime != column[0]) {
+                    let idx = bound_lifetimes.len();
+                    bound_lifetimes
+                        .entry(column)
+                        .or_insert_with(|| lifetime_collector.unused_lifetime(idx));
+                }
+            }
+
+            if let WherePredicate::Type(predicate_type) = &first {
+                if !bound_lifetimes.is_empty() && predicate_type.bounds.iter().eq([&sized_bound]) {
+                    continue;
+                }
+            }
+
+            let mut column_iter = columns.iter();
+            let mut predicate = replace_free_lifetimes(first, |lifetime| {
+                column_iter
+                    .next()
+                    .and_then(|column| bound_lifetimes.get(column))
+                    .cloned()
+                    .unwrap_or(lifetime)
+            });
+
+            if !bound_lifetimes.is_empty() {
+                if let WherePredicate::Type(predicate_type) = &mut predicate {
+                    let lifetimes = bound_lifetimes.values();
+                    predicate_type.lifetimes = Some(parse_quote!(for<#(#lifetimes),*>));
+                }
+            }
+
+            unified.add(predicate)?;
+        }
+
+        Ok(unified)
+    }
+
+    /// Turns this set into an iterator of predicates with a single bound each
+    fn into_single_bounds(self) -> impl Iterator<Item = WherePredicate> {
+        self.into_iter().flat_map(|predicate| match predicate {
+            WherePredicate::Type(predicate_type) => predicate_type
+                .bounds
+                .iter()
+                .map(|bound| {
+                    WherePredicate::Type(PredicateType {
+                        bounds: [bound.clone()].into_iter().collect(),
+                        ..predicate_type.clone()
+                    })
+                })
+                .collect(),
+            predicate => vec![predicate],
+        })
+    }
+
     /// Turns this set into an iterator of predicates
     pub(crate) fn into_iter(self) -> impl Iterator<Item = WherePredicate> {
         let for_lifetimes = self.for_lifetimes.into_iter().filter_map(|(lhs, rhs)| {
@@ -159,6 +275,91 @@ impl UniquePredicates {
     }
 }
 
+/// Collects the names of lifetimes
+#[derive(Debug, Default)]
+struct LifetimeCollector {
+    names: HashSet<String>,
+}
+
+impl LifetimeCollector {
+    /// Returns a lifetime that has not been visited
+    ///
+    /// These are different for different values of `idx`.
+    fn unused_lifetime(&self, idx: usize) -> Lifetime {
+        let mut name = format!("funcmap_{idx}");
+
+        while self.names.contains(&name) {
+            name.insert(0, '_');
+        }
+
+        Lifetime::new(&format!("'{name}"), Span::mixed_site())
+    }
+}
+
+impl<'ast> Visit<'ast> for LifetimeCollector {
+    fn visit_lifetime(&mut self, lifetime: &'ast Lifetime) {
+        self.names.insert(lifetime.ident.to_string());
+    }
+}
+
+/// Replaces all lifetimes within a predicate that are not bound within it
+fn replace_free_lifetimes<F>(predicate: WherePredicate, replace: F) -> WherePredicate
+where
+    F: FnMut(Lifetime) -> Lifetime,
+{
+    // As lifetimes cannot shadow each other, a lifetime that is bound anywhere
+    // within the predicate is not free elsewhere
+    let mut bound_lifetimes = BoundLifetimeCollector::default();
+    bound_lifetimes.visit_where_predicate(&predicate);
+
+    FreeLifetimeFolder {
+        bound: bound_lifetimes.lifetimes,
+        replace,
+    }
+    .fold_where_predicate(predicate)
+}
+
+/// Collects lifetimes bound by `for<...>`
+#[derive(Debug, Default)]
+struct BoundLifetimeCollector {
+    lifetimes: HashSet<Lifetime>,
+}
+
+impl<'ast> Visit<'ast> for BoundLifetimeCollector {
+    fn visit_bound_lifetimes(&mut self, bound_lifetimes: &'ast BoundLifetimes) {
+        self.lifetimes.extend(
+            bound_lifetimes
+                .lifetimes
+                .iter()
+                .filter_map(|param| match param {
+                    GenericParam::Lifetime(lifetime_param) => Some(lifetime_param.lifetime.clone()),
+                    _ => None,
+                }),
+        );
+
+        visit::visit_bound_lifetimes(self, bound_lifetimes);
+    }
+}
+
+/// Helper implementing [`replace_free_lifetimes`] through [`Fold`]
+struct FreeLifetimeFolder<F> {
+    bound: HashSet<Lifetime>,
+    replace: F,
+}
+
+impl<F> Fold for FreeLifetimeFolder<F>
+where
+    F: FnMut(Lifetime) -> Lifetime,
+{
+    fn fold_lifetime(&mut self, lifetime: Lifetime) -> Lifetime {
+        if lifetime.ident == "_" || self.bound.contains(&lifetime) {
+            fold::fold_lifetime(self, lifetime)
+        } else {
+            (self.replace)(lifetime)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9e12b2af719809e497a4831576fbfd197cfb23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 17/20] fix: give Self in a definition its meaning for source
 and target

---
 funcmap_derive/src/derive.rs  |  6 +--
 funcmap_derive/src/syn_ext.rs | 74 +++++++++++++++++++++++++++++++++--
 2 files changed, 73 insertions(+), 7 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 0f92c60..bac529b 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,8 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    DependencyOnType, IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault,
-    WithoutMaybeBounds,
+    DependencyOnType, ExpandSelf, IntoGenericArgument, IntoType, SubsType, WithoutAttrs,
+    WithoutDefault, WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -41,7 +41,7 @@ pub(crate) fn derive(item: TokenStream, derivable: Derivable) -> TokenStream {
 /// - any of the fields of `item` has an unsupported type
 pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<TokenStream, Error> {
     let input: DeriveInput = syn::parse2(item)?;
-    let input: FuncMapInput = input.try_into()?;
+    let input: FuncMapInput = input.expand_self().try_into()?;
     let mut ident_collector = input.meta.ident_collector;
 
     let src_type_ident = ident_collector.reserve_uppercase_letter('A', Span::mixed_site());
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 323d461..644ceaf 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -1,14 +1,15 @@
 //! Additional functionality for types in the [`syn`] crate
 
-use proc_macro2::{Ident, TokenStream};
-use quote::ToTokens;
+use proc_macro2::{Ident, Span, TokenStream};
+use quote::{quote_spanned, ToTokens};
 use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    parse_quote_spanned, ConstParam, DeriveInput, Expr, GenericArgument, GenericParam,
+    LifetimeParam, PathSegment, PredicateType, TraitBound, TraitBoundModifier, Type, TypeParam,
+    TypeParamBound, TypePath, WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -132,6 +133,71 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for expanding `Self` in an AST node
+pub(crate) trait ExpandSelf {
+    /// Replaces `Self` with the type that it refers to
+    fn expand_self(self) -> Self;
+}
+
+impl ExpandSelf for DeriveInput {
+    fn expand_self(self) -> Self {
+        let mut folder = ExpandSelfFolder {
+            ident: self.ident.clone(),
+            params: self.generics.params.iter().cloned().collect(),
+        };
+
+        folder.fold_derive_input(self)
+    }
+}
+
+/// Type implementing [`Fold`] for [`expand_self`](ExpandSelf::expand_self)
+struct ExpandSelfFolder {
+    ident: Ident,
+    params: Vec<GenericParam>,
+}
+
+impl Fold for ExpandSelfFolder {
+    fn fold_expr(&mut self, expr: Expr) -> Expr {
+        // `Self` may have a different meaning within an expression
+        expr
+    }
+
+    fn fold_type(&mut self, ty: Type) -> Type {
+        match &ty {
+            Type::Path(TypePath { qself: None, path }) => match path.get_ident() {
+                Some(self_ident) if self_ident == "Self" => {
+                    let span = self_ident.span();
+                    let ident = respan(&self.ident, span);
+
+                    let args = self.params.iter().map(|param| match param {
+                        GenericParam::Type(TypeParam { ident, .. }) => {
+                            respan(ident, span).into_token_stream()
+                        }
+                        GenericParam::Lifetime(LifetimeParam { lifetime, .. }) => {
+                            lifetime.to_token_stream()
+                        }
+                        GenericParam::Const(ConstParam { ident, .. }) => {
+                            let ident = respan(ident, span);
+                            quote_spanned!(span=> { #ident })
+                        }
+                    });
+
+                    parse_quote_spanned!(span=> #ident<#(#args),*>)
+                }
+                _ => fold::fold_type(self, ty),
+            },
+            _ => fold::fold_type(self, ty),
+        }
+    }
+}
+
+/// Returns `ident` located at `span`
+fn respan(ident: &Ident, span: Span) -> Ident {
+    let mut ident = ident.clone();
+    ident.set_span(ident.span().located_at(span));
+    ident
+}
+
 /// Extension trait for converting an AST node into a [`GenericArgument`]
 pub(crate) trait IntoGenericArgument {
     /// Converts `self` into a [`GenericArgument`]
-- 
2.43.0


From c4b6103214e95c837989961e4c5cb805b1a424f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:58 +0000
Subject: [PATCH 18/20] fix: report type macros that mention the mapped type
 parameter

---
 funcmap_derive/src/derive.rs  | 28 ++++++++++++--
 funcmap_derive/src/map.rs     | 33 +++++++++++-----
 funcmap_derive/src/syn_ext.rs | 72 +++++++++++++++++++++++++++++++++--
 3 files changed, 117 insertions(+), 16 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index bac529b..76315a1 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -6,12 +6,12 @@ use crate::ident::{
     TRAIT_IDENT,
 };
 use crate::input::{FuncMapInput, Structish};
-use crate::map::Mapping;
+use crate::map::{type_macro_error, Mapping};
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    DependencyOnType, ExpandSelf, IntoGenericArgument, IntoType, SubsType, WithoutAttrs,
-    WithoutDefault, WithoutMaybeBounds,
+    DependencyOnType, ExpandSelf, IntoGenericArgument, IntoType, SubsType, TypeMacros,
+    WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -107,6 +107,28 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         .map(|mapped_type_param| {
             let mut result_builder = result::Builder::new();
 
+            let type_macros_in_bounds = all_params
+                .iter()
+                .filter_map(|param| match param {
+                    GenericParam::Type(type_param) => Some(&type_param.bounds),
+                    _ => None,
+                })
+                .flatten()
+                .flat_map(|bound| {
+                    bound.type_macros_mentioning(&mapped_type_param.type_param.ident)
+                });
+
+            let type_macros_in_where_clause = where_clause
+                .iter()
+                .flat_map(|clause| clause.predicates.iter())
+                .flat_map(|predicate| {
+                    predicate.type_macros_mentioning(&mapped_type_param.type_param.ident)
+                });
+
+            for type_macro in type_macros_in_bounds.chain(type_macros_in_where_clause) {
+                result_builder.add_err(type_macro_error(type_macro));
+            }
+
             let mut impl_params = Vec::with_capacity(all_params.len() + 1);
 
             for (param_idx, param) in all_params.iter().enumerate() {
diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 5a161fd..929e9ec 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -4,13 +4,14 @@ use crate::derivable::Derivable;
 use crate::ident::{MARKER_TYPE_IDENT, OUTPUT_TYPE_IDENT};
 use crate::predicates::UniquePredicates;
 use crate::result::Error;
-use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
+use crate::syn_ext::{DependencyOnType, IsTypish, SubsType, TypeMacros};
 
 use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypeParen, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeMacro, TypeParam, TypeParen,
+    TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -66,6 +67,17 @@ impl Mapping<'_> {
     }
 }
 
+/// Creates an error for a macro in type position
+pub(crate) fn type_macro_error(type_macro: &TypeMacro) -> Error {
+    syn::Error::new_spanned(
+        type_macro,
+        // this is literally the same error message
+        // that would be emitted by builtin derive macros
+        "`derive` cannot be used on items with type macros",
+    )
+    .into()
+}
+
 /// Helper used for collecting predicates while mapping
 #[derive(Debug)]
 struct Mapper<'ast> {
@@ -85,14 +97,15 @@ impl<'ast> Mapper<'ast> {
     }
 
     fn map(&mut self, mappable: TokenStream, ty: &Type) -> Result<TokenStream, Error> {
-        if let Type::Macro(..) = ty {
-            return Err(syn::Error::new_spanned(
-                ty,
-                // this is literally the same error message
-                // that would be emitted by builtin derive macros
-                "`derive` cannot be used on items with type macros",
-            )
-            .into());
+        if let Type::Macro(type_macro) = ty {
+            return Err(type_macro_error(type_macro));
+        }
+
+        if let Some(type_macro) = ty
+            .type_macros_mentioning(&self.mapping.type_param.ident)
+            .first()
+        {
+            return Err(type_macro_error(type_macro));
         }
 
         if ty
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 644ceaf..f1695be 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -1,6 +1,6 @@
 //! Additional functionality for types in the [`syn`] crate
 
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::{quote_spanned, ToTokens};
 use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
@@ -8,8 +8,8 @@ use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
     parse_quote_spanned, ConstParam, DeriveInput, Expr, GenericArgument, GenericParam,
-    LifetimeParam, PathSegment, PredicateType, TraitBound, TraitBoundModifier, Type, TypeParam,
-    TypeParamBound, TypePath, WherePredicate,
+    LifetimeParam, PathSegment, PredicateType, TraitBound, TraitBoundModifier, Type, TypeMacro,
+    TypeParam, TypeParamBound, TypePath, WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -73,6 +73,72 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
     }
 }
 
+/// Extension trait for finding macros in type position
+pub(crate) trait TypeMacros {
+    /// Returns all macros in type position within `self` whose arguments mention
+    /// `type_ident` or `Self`
+    fn type_macros_mentioning(&self, type_ident: &Ident) -> Vec<&TypeMacro>;
+}
+
+impl TypeMacros for Type {
+    fn type_macros_mentioning(&self, type_ident: &Ident) -> Vec<&TypeMacro> {
+        let mut visitor = TypeMacrosVisitor::new(type_ident);
+        visitor.visit_type(self);
+        visitor.type_macros
+    }
+}
+
+impl TypeMacros for TypeParamBound {
+    fn type_macros_mentioning(&self, type_ident: &Ident) -> Vec<&TypeMacro> {
+        let mut visitor = TypeMacrosVisitor::new(type_ident);
+        visitor.visit_type_param_bound(self);
+        visitor.type_macros
+    }
+}
+
+impl TypeMacros for WherePredicate {
+    fn type_macros_mentioning(&self, type_ident: &Ident) -> Vec<&TypeMacro> {
+        let mut visitor = TypeMacrosVisitor::new(type_ident);
+        visitor.visit_where_predicate(self);
+        visitor.type_macros
+    }
+}
+
+/// Type implementing [`Visit`] for
+/// [`type_macros_mentioning`](TypeMacros::type_macros_mentioning)
+#[derive(Debug)]
+struct TypeMacrosVisitor<'ast, 'a> {
+    type_macros: Vec<&'ast TypeMacro>,
+    type_ident: &'a Ident,
+}
+
+impl<'a> TypeMacrosVisitor<'_, 'a> {
+    fn new(type_ident: &'a Ident) -> Self {
+        Self {
+            type_macros: Vec::new(),
+            type_ident,
+        }
+    }
+
+    fn is_mentioned(&self, tokens: TokenStream) -> bool {
+        tokens.into_iter().any(|token| match token {
+            TokenTree::Ident(ident) => ident == "Self" || ident.unraw() == self.type_ident.unraw(),
+            TokenTree::Group(group) => self.is_mentioned(group.stream()),
+            TokenTree::Punct(..) | TokenTree::Literal(..) => false,
+        })
+    }
+}
+
+impl<'ast> Visit<'ast> for TypeMacrosVisitor<'ast, '_> {
+    fn visit_expr(&mut self, _: &'ast Expr) {}
+
+    fn visit_type_macro(&mut self, type_macro: &'ast TypeMacro) {
+        if self.is_mentioned(type_macro.mac.tokens.clone()) {
+            self.type_macros.push(type_macro);
+        }
+    }
+}
+
 /// Extension trait for substituting one type with another in an AST node
 pub(crate) trait SubsType {
     /// Substitutes the type named `type_ident` with `subs_ident` within `self`
-- 
2.43.0


From 2a12ad2bdfe3d76b1366ec105524b76f202d822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 19/20] fix: leave items within array lengths and const
 arguments alone

---
 funcmap_derive/src/syn_ext.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index f1695be..d812110 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,7 +7,7 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    parse_quote_spanned, ConstParam, DeriveInput, Expr, GenericArgument, GenericParam,
+    parse_quote_spanned, ConstParam, DeriveInput, Expr, GenericArgument, GenericParam, Item,
     LifetimeParam, PathSegment, PredicateType, TraitBound, TraitBoundModifier, Type, TypeMacro,
     TypeParam, TypeParamBound, TypePath, WherePredicate,
 };
@@ -54,6 +54,9 @@ impl<'ast, 'a> DependencyOnTypeVisitor<'ast, 'a> {
 }
 
 impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
+    // type parameters are not in scope within nested items
+    fn visit_item(&mut self, _: &'ast Item) {}
+
     fn visit_type(&mut self, ty: &'ast Type) {
         if self.dependency.is_some() {
             return;
@@ -182,6 +185,11 @@ impl<'a> SubsTypeFolder<'a> {
 }
 
 impl Fold for SubsTypeFolder<'_> {
+    // type parameters are not in scope within nested items
+    fn fold_item(&mut self, item: Item) -> Item {
+        item
+    }
+
     fn fold_type(&mut self, mut ty: Type) -> Type {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
-- 
2.43.0


From 3bea19e300879296a8ab6409deaf192d097f017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 20/20] fix: support fields that are pointers or references to
 function pointers

---
 funcmap_derive/src/map.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 929e9ec..ef18c04 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -10,8 +10,8 @@ use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeMacro, TypeParam, TypeParen,
-    TypePath,
+    PathArguments, PathSegment, QSelf, ReturnType, Type, TypeArray, TypeBareFn, TypeGroup,
+    TypeMacro, TypeParam, TypeParen, TypePath, TypePtr, TypeReference,
 };
 
 /// Configuration of a mapping for a given type
@@ -112,8 +112,16 @@ impl<'ast> Mapper<'ast> {
             .dependency_on_type(&self.mapping.type_param.ident)
             .is_none()
         {
+            // In a `where` clause, the `:` after e.g. `*const fn()` would be taken
+            // for a mistyped `->`
+            let bounded_ty = if is_indirect_fn_without_return_type(ty) {
+                quote!((#ty))
+            } else {
+                quote!(#ty)
+            };
+
             self.unique_predicates.add(parse_quote! {
-                #ty: ::core::marker::Sized
+                #bounded_ty: ::core::marker::Sized
             })?;
 
             return Ok(mappable);
@@ -377,3 +385,25 @@ impl<'ast> Mapper<'ast> {
         (self.subs_src_type(ty.clone()), self.subs_dst_type(ty))
     }
 }
+
+/// Checks if a type is a pointer or reference to a function pointer type for
+/// which no return type is written
+fn is_indirect_fn_without_return_type(ty: &Type) -> bool {
+    match ty {
+        Type::Group(TypeGroup { elem, .. }) => is_indirect_fn_without_return_type(elem),
+        Type::Ptr(TypePtr { elem, .. }) | Type::Reference(TypeReference { elem, .. }) => {
+            is_fn_without_return_type(elem) || is_indirect_fn_without_return_type(elem)
+        }
+        _ => false,
+    }
+}
+
+/// Checks if a type is a function pointer type for which no return type is
+/// written
+fn is_fn_without_return_type(ty: &Type) -> bool {
+    match ty {
+        Type::Group(TypeGroup { elem, .. }) => is_fn_without_return_type(elem),
+        Type::BareFn(TypeBareFn { output, .. }) => matches!(output, ReturnType::Default),
+        _ => false,
+    }
+}
-- 
2.43.0

