From 3130b53c46d245b251c6f5a1d32f4cc411678009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 01/32] Add model checking hook (cfg fieldx_mc)

---
 fieldx/src/async/fxlock.rs  | 5 +++++
 fieldx/src/async/fxproxy.rs | 5 +++++
 fieldx/src/sync/fxlock.rs   | 5 +++++
 fieldx/src/sync/fxproxy.rs  | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..f61bdcf 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -1,3 +1,8 @@
+// Model checking hook: with `--cfg fieldx_mc` sync primitives of `std` are controlled by a scheduler.
+#[allow(unexpected_cfgs)]
+#[cfg(fieldx_mc)]
+use tokio::mc::fakestd as std;
+
 use std::{borrow::Borrow, fmt, fmt::Debug, ops::Deref};
 use tokio::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 
diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..9e391f6 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -1,3 +1,8 @@
+// Model checking hook: with `--cfg fieldx_mc` sync primitives of `std` are controlled by a scheduler.
+#[allow(unexpected_cfgs)]
+#[cfg(fieldx_mc)]
+use tokio::mc::fakestd as std;
+
 use crate::traits::{FXBuilderWrapper, FXStruct};
 use async_trait::async_trait;
 use std::{
diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..dfc8502 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -1,3 +1,8 @@
+// Model checking hook: with `--cfg fieldx_mc` sync primitives of `std` are controlled by a scheduler.
+#[allow(unexpected_cfgs)]
+#[cfg(fieldx_mc)]
+use parking_lot::mc::fakestd as std;
+
 use parking_lot::RwLock;
 use std::{borrow::Borrow, fmt, fmt::Debug, ops::Deref};
 
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..2d5eaad 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -1,3 +1,8 @@
+// Model checking hook: with `--cfg fieldx_mc` sync primitives of `std` are controlled by a scheduler.
+#[allow(unexpected_cfgs)]
+#[cfg(fieldx_mc)]
+use parking_lot::mc::fakestd as std;
+
 use crate::traits::{FXBuilderWrapper, FXStruct};
 use parking_lot::{
     MappedRwLockReadGuard, MappedRwLockWriteGuard, RwLock, RwLockReadGuard, RwLockUpgradableReadGuard, RwLockWriteGuard,
-- 
2.43.0


From f36bab989f62aa168bc85422ed46cc596be3b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 02/32] fix: don't deadlock when comparing sync containers
 while a writer is waiting

---
 fieldx/src/sync/fxlock.rs  | 4 +++-
 fieldx/src/sync/fxproxy.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index dfc8502..6632388 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -31,7 +31,9 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
-        let otherguard = other.0.read();
+        // With one lock already held, waiting behind a pending writer would deadlock when `self` and `other` are the
+        // same object, or when another thread compares them in the opposite order.
+        let otherguard = other.0.read_recursive();
 
         myguard.eq(&otherguard)
     }
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 2d5eaad..8483b3f 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -268,7 +268,9 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
-        let otherguard = other.value.read();
+        // With one lock already held, waiting behind a pending writer would deadlock when `self` and `other` are the
+        // same object, or when another thread compares them in the opposite order.
+        let otherguard = other.value.read_recursive();
         myguard.eq(&otherguard)
     }
 }
-- 
2.43.0


From d0a8bb2ca0455bb0569b88fd6e918075798668e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 03/32] fix: don't deadlock when comparing async locks while a
 writer is waiting

---
 fieldx/src/async/fxlock.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index f61bdcf..09126fc 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -40,8 +40,22 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
-        let otherguard = other.0.blocking_read();
+        // The lock is fair: a reader waits behind a pending writer. Therefore never lock the same object twice and
+        // always lock different objects in the same order.
+        if std::ptr::eq(self, other) {
+            let guard = self.0.blocking_read();
+            return guard.eq(&guard);
+        }
+
+        let (myguard, otherguard);
+        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
+            myguard = self.0.blocking_read();
+            otherguard = other.0.blocking_read();
+        }
+        else {
+            otherguard = other.0.blocking_read();
+            myguard = self.0.blocking_read();
+        }
 
         myguard.eq(&otherguard)
     }
-- 
2.43.0


From 2b0883f067e20124734ce4570a7fe5fa91e2a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 04/32] fix: apply struct-level fallible to lazy fields only

---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..3f43672 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -193,10 +193,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // Only lazy builders can fail; a struct-level default must not affect other kinds of fields.
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From 51b53bf43aff7f05a5de856fccb2fdee838e4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 05/32] fix: make async copy, clone and mutable accessors of
 locked fields async

---
 fieldx_derive/src/codegen/sync.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..06354dc 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -261,11 +261,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 }
                 else if fctx.needs_lock() {
                     let ty = self.maybe_optional_ty(fctx, ty);
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -345,11 +347,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     let lock_span = fctx.lock_span();
                     let wrguard = self.implementor(fctx).rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write()#await_call
                         }
                     ]
                 }
-- 
2.43.0


From 828b51897f003e73d350ffbc4eb8d0186e81b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 06/32] fix: use visibility and attributes of get_mut for
 mutable accessors of sync fields

---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 06354dc..571f4b3 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -313,11 +313,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From 7ea09c99db0e00d60cf22138a242abae404ad85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 07/32] fix: honour mode(async) of a field in a plain struct

---
 fieldx_derive/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..dc0b0e9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -218,7 +218,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From f3dc2a8abc05a7770ad34ece7b43464a3c42c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 08/32] fix: a struct with a sync field is sync wherever the
 field stands

---
 fieldx_derive/src/ctx/codegen.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 8edbd32..f62ae88 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -437,14 +437,7 @@ impl FXCodeGenCtx {
     pub fn is_rather_sync(&self) -> bool {
         *self.is_rather_sync.borrow_mut().get_or_init(|| {
             self.args.is_sync().map_or_else(
-                || {
-                    for field in self.all_fields() {
-                        if let Some(is_sync) = field.is_sync() {
-                            return is_sync;
-                        }
-                    }
-                    false
-                },
+                || self.all_fields().iter().any(|field| field.is_sync().unwrap_or(false)),
                 |is_sync| is_sync,
             )
         })
-- 
2.43.0


From 6123bf284510a1ac7133d87a7d0c798468223f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 09/32] fix: accept a fallible post_build in reference counted
 structs

---
 fieldx_derive/src/codegen/codegen_trait.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..fb3c0fe 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -237,6 +237,7 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let fallible_init = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
             let shortcut = if ctx.build_has_error_type() {
                 quote![?]
@@ -253,6 +254,24 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+            if fallible_init {
+                // The closure of new_cyclic has no way to return an error.
+                return quote![
+                    {
+                        let mut fx_new_object = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            |me| {
+                                fx_new_object.#myself_field = me.clone();
+                                fx_new_object
+                            }
+                        )
+                    }
+                ];
+            }
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From d24717b5353572afbcc2d9c7cf2de1c5481fa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 10/32] fix: struct-level builder(required) doesn't require
 fields without a builder method

---
 fieldx_derive/src/codegen/codegen_trait.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index fb3c0fe..2ef1aab 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -413,7 +413,8 @@ pub trait FXCodeGenContextual {
     }
 
     fn field_builder_value_required(&self, fctx: &FXFieldCtx) {
-        if fctx.is_builder_required()
+        // There is no way to provide a value for a field without a builder method.
+        if (fctx.is_builder_required() && (fctx.forced_builder() || fctx.needs_builder()))
             || (fctx.needs_builder() && !(fctx.is_lazy() || fctx.is_optional() || fctx.has_default_value()))
         {
             let field_ident = fctx.ident();
-- 
2.43.0


From e07d8b937f7617b3a1ff7ba7c4784c3eb54bee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:00 +0000
Subject: [PATCH 11/32] fix: make field-level serde(serialize(off)) compile

---
 fieldx_derive/src/codegen/serde.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..d95fcfd 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -403,9 +403,10 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    // The shadow has fields with serialization off too.
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
-                        let is_lazy = fctx.is_lazy();
+                        let is_lazy = fctx.is_lazy() && fctx.needs_serialize();
 
                         ctx.exec_or_record(|| {
                             let cgen = self.field_codegen(&fctx)?;
-- 
2.43.0


From 8fe0127d894d425dab81574cca848e546110e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 12/32] fix: use the name given with field-level serde for
 serialization

---
 fieldx_derive/src/codegen/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index d95fcfd..7e95c3a 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,11 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // Name given with `serde` argument is for serialization only and overrides `rename`.
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                serde_attr_args.push(quote_spanned![*fctx.span()=> rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From 167dfd238e433a55a0fdf6a7d8f96ca68ee7f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:35 +0000
Subject: [PATCH 13/32] fix: use type parameters without bounds and defaults as
 arguments

---
 fieldx_derive/src/codegen.rs               |  9 ++++----
 fieldx_derive/src/codegen/codegen_trait.rs |  4 ++--
 fieldx_derive/src/codegen/serde.rs         | 26 ++++++++++------------
 3 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..5af9414 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -330,9 +330,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -408,7 +406,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -440,7 +438,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let generic_params = ctx.struct_generic_params();
+                quote![#mf: #weak_type<#input_ident #generic_params>,]
             }
             else {
                 quote![]
diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 2ef1aab..2e1ab29 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -502,13 +502,13 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let generic_params = ctx.struct_generic_params();
 
         for t in tokens.into_iter() {
             match t {
                 TokenTree::Ident(ref ident) => {
                     if ident.to_string() == "Self" {
-                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generics>]);
+                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generic_params>]);
                     }
                     else {
                         fixed_tokens.extend(t.to_token_stream());
diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 7e95c3a..bc39b55 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -262,8 +262,8 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let (_, ty_generics, _) = ctx.input().generics().split_for_impl();
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), ty_generics.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -300,7 +300,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes();
 
@@ -313,7 +313,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #ty_generics #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -348,8 +348,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -380,8 +379,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #ty_generics> for #struct_ident #ty_generics #where_clause {
+                    fn from(#shadow_var: #shadow_ident #ty_generics) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -401,8 +400,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, ty_generics, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -433,8 +431,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #ty_generics> for #shadow_ident #ty_generics #where_clause {
+                    fn from(mut #me_var: #struct_ident #ty_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -516,12 +514,12 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, ty_generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
                     #[allow(non_snake_case)]
-                    fn #fn_ident() -> #shadow_ident #generics {
+                    fn #fn_ident() -> #shadow_ident #ty_generics {
                         #serde_default.into()
                     }
                 ]);
-- 
2.43.0


From 397f6ea2a5ad0b807f9b0b110de0d9496438568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:32 +0000
Subject: [PATCH 14/32] fix: resolve Self in defaults of sync fields within the
 builder

---
 fieldx_derive/src/codegen/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 571f4b3..a46f476 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -399,7 +399,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
@@ -694,6 +694,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From 75377f5041029455159977f1f96f8789e63e17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 15/32] fix: sync of a field overrides async of the struct

---
 fieldx_derive/src/fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index dc0b0e9..f97abdf 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // `sync` of a field overrides `async` of the struct.
+            .or_else(|| self.mode_sync.as_ref().and_then(|s| s.is_true().then_some(false)))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
-- 
2.43.0


From c3dce911707aee4eb76c46624394bca166f90c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:53 +0000
Subject: [PATCH 16/32] fix: don't generate a builder method when
 builder("name", off) disables it

---
 fieldx_derive/src/ctx/field.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 3f43672..d3d3803 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -7,7 +7,7 @@ use darling::ast::NestedMeta;
 use delegate::delegate;
 #[cfg(feature = "serde")]
 use fieldx_aux::FXSerde;
-use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode};
+use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode, FXTriggerHelper};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
 use std::{
@@ -173,7 +173,9 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn forced_builder(&self) -> bool {
-        self.builder().as_ref().map_or(false, |b| b.name().is_some())
+        self.builder()
+            .as_ref()
+            .map_or(false, |b| b.is_true() && b.name().is_some())
     }
 
     #[inline]
-- 
2.43.0


From c4c9ef1c1e9136db08fe47a2aa99cb9284c3b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 17/32] fix: copy(off) and clone(off) of a field override the
 struct in plain mode

---
 fieldx_derive/src/ctx/field.rs | 38 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index d3d3803..969dd80 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -267,30 +267,20 @@ impl FXFieldCtx {
     }
 
     pub fn accessor_mode(&self) -> FXAccessorMode {
-        self.field
-            .accessor_mode()
-            .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .unwrap_or(FXAccessorMode::None)
+        self.field.accessor_mode().unwrap_or_else(|| {
+            if self.is_copy() {
+                FXAccessorMode::Copy
+            }
+            else if self.is_clone() {
+                FXAccessorMode::Clone
+            }
+            else {
+                match self.codegen_ctx.args().accessor_mode() {
+                    Some(FXAccessorMode::AsRef) => FXAccessorMode::AsRef,
+                    _ => FXAccessorMode::None,
+                }
+            }
+        })
     }
 
     pub fn default_value(&self) -> Option<&NestedMeta> {
-- 
2.43.0


From da078851e54f58960c13b8260c0c55e02fe2f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 18/32] fix: accept the documented public(some::module)

---
 fieldx_aux/src/lib.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/fieldx_aux/src/lib.rs b/fieldx_aux/src/lib.rs
index fddaa48..47a529c 100644
--- a/fieldx_aux/src/lib.rs
+++ b/fieldx_aux/src/lib.rs
@@ -88,15 +88,14 @@ pub use crate::{
     value::FXValueArg,
     with_origin::FXOrig,
 };
-use darling::FromMeta;
+use darling::{ast::NestedMeta, FromMeta};
 use quote::{quote, ToTokens};
-use syn::{ext::IdentExt, Lit};
+use syn::{ext::IdentExt, Lit, Meta};
 
 /// Visibility of an element
-#[derive(FromMeta, Debug, Clone, Default)]
+#[derive(Debug, Clone, Default)]
 pub enum FXPubMode {
     /// private
-    #[darling(skip)]
     Private,
     /// `pub(crate)`
     Crate,
@@ -105,10 +104,41 @@ pub enum FXPubMode {
     /// `pub(in crate::Module)`
     InMod(syn::Path),
     #[default]
-    #[darling(skip)]
     All,
 }
 
+impl FromMeta for FXPubMode {
+    fn from_list(items: &[NestedMeta]) -> darling::Result<Self> {
+        match items {
+            [] => Err(darling::Error::too_few_items(1)),
+            [NestedMeta::Meta(meta)] => {
+                let path = meta.path();
+                match meta {
+                    Meta::Path(_) if path.is_ident("crate") => Ok(Self::Crate),
+                    Meta::Path(_) if path.is_ident("super") => Ok(Self::Super),
+                    // A module: public(some::module)
+                    Meta::Path(_) if path.segments.len() > 1 => Ok(Self::InMod(path.clone())),
+                    _ if path.is_ident("in_mod") => {
+                        FromMeta::from_meta(meta).map(Self::InMod).map_err(|e| e.at("in_mod"))
+                    }
+                    _ => Err(darling::Error::unknown_field_path_with_alts(path, &["crate", "super", "in_mod"])),
+                }
+                .map_err(|e| e.with_span(meta))
+            }
+            [NestedMeta::Lit(lit)] => Err(darling::Error::unsupported_format("literal").with_span(lit)),
+            _ => Err(darling::Error::too_many_items(1)),
+        }
+    }
+
+    fn from_string(value: &str) -> darling::Result<Self> {
+        match value {
+            "crate" => Ok(Self::Crate),
+            "super" => Ok(Self::Super),
+            _ => Err(darling::Error::unknown_value(value)),
+        }
+    }
+}
+
 impl FromNestAttr for FXPubMode {
     fn for_keyword(_path: &syn::Path) -> darling::Result<Self> {
         Ok(Self::All)
-- 
2.43.0


From ad2d0f625b97c8dcfa711ff5dff7637a3ba4238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 19/32] fix: struct-level lock, inner_mut and copy don't affect
 skipped fields

---
 fieldx_derive/src/codegen.rs   |  2 +-
 fieldx_derive/src/ctx/field.rs | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 5af9414..7c5e3dd 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 969dd80..14d7149 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,7 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
+    helper_fn_ctx! { is: lazy }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -102,6 +102,17 @@ impl FXFieldCtx {
         &self.codegen_ctx
     }
 
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        // Skipped fields retain their type
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx.args().is_inner_mut())
+                .unwrap_or(false)
+    }
+
     #[inline]
     pub fn needs_accessor(&self) -> bool {
         self.field
@@ -149,10 +160,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        // Skipped fields retain their type
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From 7a1c038899d24d338e734a4f7dc0b87c9179473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:43 +0000
Subject: [PATCH 20/32] fix: builders of structs with skipped fields didn't
 compile

---
 fieldx_derive/src/codegen.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 7c5e3dd..f6ab177 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -370,6 +370,20 @@ impl FXRewriter {
             }
         }
 
+        // There are no builder methods for skipped fields, they only get their default values.
+        for field in ctx.input().fields().iter().filter(|f| f.is_skipped()) {
+            match field.ident().and_then(|ident| ctx.ident_field_ctx(&ident)) {
+                Ok(fctx) => match self.field_codegen(&fctx).and_then(|fgen| fgen.field_default_wrap(&fctx)) {
+                    Ok(default_value) => {
+                        let ident = fctx.ident();
+                        field_setters.push(quote![ #ident: #default_value ]);
+                    }
+                    Err(err) => ctx.push_error(err),
+                },
+                Err(err) => ctx.push_error(err),
+            }
+        }
+
         let default_initializer = if use_default && ctx.needs_default() {
             quote![..::std::default::Default::default()]
         }
-- 
2.43.0


From 356de8ed5289048d9960ce4a2ac9123e7aa4d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 21/32] fix: struct-level attributes are for the shadow struct,
 not for each of its fields

---
 fieldx_derive/src/codegen/serde.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index bc39b55..fa89685 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -148,8 +148,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -302,7 +301,10 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper
+                .attributes()
+                .as_ref()
+                .or_else(|| args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From 36c98c959ff1b0b783a553020c33cbed1c47a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 22/32] fix: attributes with paths and values in
 attributes*(...)

The list was split at any punctuation, thus attributes(doc = "x") or
attributes(a::b) made the macro panic.
---
 fieldx_aux/src/attributes.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index bf7298a..62c2162 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -28,13 +28,11 @@ impl FromMeta for FXAttributes {
         match input {
             Meta::List(ref ml) => {
                 let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
-                // Split the incoming tokenstream into chunks separated by Puncts (i.e. by commas)
+                // Split the incoming tokenstream into chunks separated by commas
                 let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
-                    if let proc_macro2::TokenTree::Punct(_) = item {
-                        mlc.push(TokenStream::new());
-                    }
-                    else {
-                        mlc.last_mut().unwrap().extend([item]);
+                    match item {
+                        proc_macro2::TokenTree::Punct(ref p) if p.as_char() == ',' => mlc.push(TokenStream::new()),
+                        _ => mlc.last_mut().unwrap().extend([item]),
                     }
                     mlc
                 });
-- 
2.43.0


From eab315180094b8125a54a9ed9a9bb8420fa9df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 23/32] fix: defaults of an inferred type for plain lazy and
 inner_mut fields

---
 fieldx_derive/src/codegen/plain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..405146b 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -374,7 +374,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
             FXValueRepr::Exact(v) => quote_spanned![ident_span=> #v],
             FXValueRepr::Versatile(v) => {
                 if is_lazy {
-                    quote_spanned![ident_span=> ::fieldx::OnceCell::from(#v)]
+                    quote_spanned![ident_span=> ::fieldx::OnceCell::with_value(#v)]
                 }
                 else if is_optional || is_inner_mut {
                     let mut value_tok = v;
@@ -383,7 +383,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                         value_tok = quote_spanned![ident_span=> ::std::option::Option::Some(#value_tok)];
                     }
                     if is_inner_mut {
-                        value_tok = quote_spanned![ident_span=> ::fieldx::RefCell::from(#value_tok)];
+                        value_tok = quote_spanned![ident_span=> ::fieldx::RefCell::new(#value_tok)];
                     }
 
                     value_tok
-- 
2.43.0


From 06822dd781ae413b6012f59b1be69ff0ea7365d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 24/32] fix: report malformed attributes arguments instead of
 panicking

---
 fieldx_aux/src/attributes.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index 62c2162..4d66ba7 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -3,8 +3,8 @@
 use darling::FromMeta;
 use getset::Getters;
 use proc_macro2::TokenStream;
-use quote::{quote, ToTokens};
-use syn::{parse_quote_spanned, spanned::Spanned, Meta};
+use quote::{quote, quote_spanned, ToTokens};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Meta};
 
 /// Implementation of `attributes*(...)` family of arguments.
 ///
@@ -46,14 +46,15 @@ impl FromMeta for FXAttributes {
 
                 // Transform chunks into attributes
                 let pound = quote![#];
-                Ok(Self {
-                    list: ml_chunks
-                        .iter()
-                        .map(|tt| parse_quote_spanned!(tt.span()=> #pound [ #tt ]))
-                        .collect(),
-                })
+                let mut list = Vec::new();
+                for tt in ml_chunks.iter() {
+                    let attr_toks = quote_spanned!(tt.span()=> #pound [ #tt ]);
+                    list.extend(Attribute::parse_outer.parse2(attr_toks)?);
+                }
+                Ok(Self { list })
             }
-            _ => unimplemented!("Can't deal with this kind of input"),
+            Meta::Path(_) => Err(darling::Error::unsupported_format("word").with_span(input)),
+            Meta::NameValue(_) => Err(darling::Error::unsupported_format("value").with_span(input)),
         }
     }
 }
-- 
2.43.0


From a96737e4678cc247757da0d04a02e68caa51be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 25/32] fix: conversion from bool into a helper argument was
 inverted

---
 fieldx_aux/src/base_helper.rs | 2 +-
 fieldx_derive/src/fields.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fieldx_aux/src/base_helper.rs b/fieldx_aux/src/base_helper.rs
index 181d836..671d2d1 100644
--- a/fieldx_aux/src/base_helper.rs
+++ b/fieldx_aux/src/base_helper.rs
@@ -53,7 +53,7 @@ impl<const BOOL_ONLY: bool> From<&FXBaseHelper<BOOL_ONLY>> for bool {
 impl<const BOOL_ONLY: bool> From<bool> for FXBaseHelper<BOOL_ONLY> {
     fn from(value: bool) -> Self {
         Self {
-            off: Flag::from(value),
+            off: Flag::from(!value),
             ..Default::default()
         }
     }
diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index f97abdf..6669066 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -348,9 +348,9 @@ impl FXFieldReceiver {
     fn mark_implicitly(&mut self, orig: Meta) -> Result<(), &str> {
         match self.lazy {
             None => {
-                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig)));
+                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig)));
             }
             _ => (),
         };
-- 
2.43.0


From 9daa51dfb27c1ef7ca053b22cb85b70034f00442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 26/32] fix: implement Default for structs without fields

---
 fieldx_derive/src/codegen.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f6ab177..d7fba91 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -290,19 +290,13 @@ impl FXRewriter {
         let ident = ctx.input().ident();
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
-        if !defaults.is_empty() {
-            quote! [
-                impl #impl_generics Default for #ident #type_generics #where_clause {
-                    fn default() -> Self {
-                        Self { #defaults }
-                    }
+        quote! [
+            impl #impl_generics Default for #ident #type_generics #where_clause {
+                fn default() -> Self {
+                    Self { #defaults }
                 }
-            ]
-        }
-        else {
-            // It's already empty, what sense in allocating another copy?
-            defaults
-        }
+            }
+        ]
     }
 
     fn builder_struct_visibility(&self) -> TokenStream {
-- 
2.43.0


From bfe087b946b69b1312d15a41f8116edc3e215914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 27/32] fix: rc(off) with a builder must not make the builder
 reference counted

---
 fieldx_derive/src/ctx/codegen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index f62ae88..8422ed6 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -423,6 +423,10 @@ impl FXCodeGenCtx {
     }
 
     pub fn myself_names(&self) -> Option<(Ident, Ident)> {
+        if !self.args().is_ref_counted() {
+            return None;
+        }
+
         self.args().rc().as_ref().map(|rc_helper| {
             let myself_name = rc_helper.name().unwrap_or("myself");
             (
-- 
2.43.0


From c423ad99c4c81f87bd7b014315b028fcd0eb1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 28/32] fix: accessors of fields with raw identifiers

---
 fieldx_derive/src/codegen/codegen_trait.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 2e1ab29..74236f1 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -135,6 +135,11 @@ pub trait FXCodeGenContextual {
             .unwrap_or("");
         let suffix = helper_kind.default_suffix().unwrap_or("");
 
+        if prefix.is_empty() && suffix.is_empty() {
+            // The name of the field might be a raw identifier
+            return Ok(helper_base_name);
+        }
+
         Ok(format_ident!(
             "{}{}{}",
             prefix,
-- 
2.43.0


From c63ad7f3c1fb0eee8cf615573c1706b0322c78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 29/32] fix: Self in field types means the struct in the
 builder and in the shadow struct, too

---
 fieldx_derive/src/ctx/field.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 14d7149..7a36638 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -8,7 +8,7 @@ use delegate::delegate;
 #[cfg(feature = "serde")]
 use fieldx_aux::FXSerde;
 use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode, FXTriggerHelper};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use std::{
     cell::{OnceCell, RefCell},
@@ -43,9 +43,26 @@ macro_rules! arg_accessor {
     };
 }
 
+// Field types are copied over into the builder and shadow structs where `Self` would mean these and not the user struct.
+fn expand_self(tokens: TokenStream, self_ty: &TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .flat_map(|tt| match tt {
+            TokenTree::Ident(ident) if ident == "Self" => self_ty.clone(),
+            TokenTree::Group(group) => {
+                let mut expanded = Group::new(group.delimiter(), expand_self(group.stream(), self_ty));
+                expanded.set_span(group.span());
+                TokenTree::Group(expanded).into()
+            }
+            tt => tt.into(),
+        })
+        .collect()
+}
+
 #[derive(Debug)]
 pub struct FXFieldCtx {
     field:            FXField,
+    ty:               syn::Type,
     codegen_ctx:      Rc<FXCodeGenCtx>,
     ty_tok:           OnceCell<TokenStream>,
     ty_wrapped:       OnceCell<TokenStream>,
@@ -69,7 +86,6 @@ impl FXFieldCtx {
             pub fn has_default_value(&self) -> bool;
             pub fn is_skipped(&self) -> bool;
             pub fn span(&self) -> &Span;
-            pub fn ty(&self) -> &syn::Type;
             pub fn vis(&self) -> &syn::Visibility;
             #[cfg(feature = "serde")]
             pub fn serde(&self) -> &Option<FXSerde>;
@@ -84,8 +100,11 @@ impl FXFieldCtx {
 
     pub fn new(field: FXField, codegen_ctx: &Rc<FXCodeGenCtx>) -> Self {
         let codegen_ctx = Rc::clone(codegen_ctx);
+        let (ident, generics) = (codegen_ctx.input_ident(), codegen_ctx.struct_generic_params());
+        let ty = syn::Type::Verbatim(expand_self(field.ty().to_token_stream(), &quote![#ident #generics]));
         Self {
             field,
+            ty,
             codegen_ctx,
             ty_wrapped: OnceCell::new(),
             ident: OnceCell::new(),
@@ -97,6 +116,11 @@ impl FXFieldCtx {
         }
     }
 
+    #[inline(always)]
+    pub fn ty(&self) -> &syn::Type {
+        &self.ty
+    }
+
     #[inline]
     pub fn codegen_ctx(&self) -> &FXCodeGenCtx {
         &self.codegen_ctx
@@ -336,7 +360,7 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn ty_tok(&self) -> &TokenStream {
-        self.ty_tok.get_or_init(|| self.field.ty().to_token_stream())
+        self.ty_tok.get_or_init(|| self.ty.to_token_stream())
     }
 
     #[inline]
-- 
2.43.0


From 75df94dc8150d8627f64201b40759ac66eab66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:24 +0000
Subject: [PATCH 30/32] fix: generated code names Default, Send and FXStruct by
 their full paths

A type of the user's with one of these names in scope of the struct made the generated code fail to compile.
---
 fieldx_derive/src/codegen.rs                 | 4 ++--
 fieldx_derive/src/codegen/sync/impl_async.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index d7fba91..375ca58 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -291,7 +291,7 @@ impl FXRewriter {
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
         quote! [
-            impl #impl_generics Default for #ident #type_generics #where_clause {
+            impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
                 fn default() -> Self {
                     Self { #defaults }
                 }
@@ -519,7 +519,7 @@ impl FXRewriter {
                 #( #fields ),*
             }
 
-            impl #impl_generics FXStruct for #ident #type_generics #where_clause {}
+            impl #impl_generics ::fieldx::traits::FXStruct for #ident #type_generics #where_clause {}
 
             #attributes_impl
             impl #impl_generics #ident #type_generics #where_clause {
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..9336213 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -39,7 +39,7 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let lazy_builder_name = codegen.lazy_name(fctx)?;
         let builder_return = codegen.fallible_return_type(fctx, fctx.ty())?;
         Ok(
-            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + Send + '_>> {
+            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + ::std::marker::Send + '_>> {
                 ::std::boxed::Box::pin(
                     self.#lazy_builder_name()
                 )
-- 
2.43.0


From b553a14980414f11b38ac8840eafd9080210651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:38 +0000
Subject: [PATCH 31/32] fix: a panic in the conversion done by a plain lazy
 field's setter(into) lost the old value

---
 fieldx_derive/src/codegen/plain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 405146b..534ec19 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -252,8 +252,10 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok fn #setter_name #gen_params(&mut self, value: #val_type) -> ::std::option::Option<#ty_tok> {
+                        // A conversion may panic, it must not cost the old value
+                        let value = value #into_tok;
                         let old = self.#ident.take();
-                        let _ = self.#ident.set(value #into_tok);
+                        let _ = self.#ident.set(value);
                         old
                     }
                 ]
-- 
2.43.0


From fc286490abdd4a35864972478bb47bbf9d77aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:05 +0000
Subject: [PATCH 32/32] fix: a struct with new() could not implement Drop

---
 fieldx_derive/src/codegen.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 375ca58..2f4b865 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -239,7 +239,20 @@ impl FXRewriter {
             };
 
             let return_type = cgen.maybe_ref_counted(&quote![Self]);
-            let body = cgen.maybe_ref_counted_create(&quote![Self], &quote![..Self::default()], None);
+            // Don't move fields out of the default object, as it is not possible with a struct that implements Drop.
+            let body = if let Some(myself_field) = ctx.myself_field() {
+                let (rc_type, _) = cgen.ref_count_types();
+                quote![
+                    #rc_type::new_cyclic(|me| {
+                        let mut fx_new_object = Self::default();
+                        fx_new_object.#myself_field = me.clone();
+                        fx_new_object
+                    })
+                ]
+            }
+            else {
+                quote![Self::default()]
+            };
 
             ctx.add_method_decl(quote![
                 #[inline]
-- 
2.43.0

