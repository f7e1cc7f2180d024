From 96fb0e041ecc58f6c77d0c5a37965209f69a6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 1/7] fix: panic when reserving more than isize::MAX bytes
 instead of wrapping around

---
 laby_common/src/internal/buffer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..765d154 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -159,6 +159,8 @@ impl Buffer {
             return;
         }
 
+        // without this, the new capacity could wrap around and leave the buffer too small
+        assert!(size <= core::isize::MAX as usize, "capacity is too large");
         self.reserve_internal(size);
     }
 
-- 
2.43.0


From 0f4193b429c257c59f4c7a68f4b66cb9948d0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 2/7] fix: select the AVX2 escaping implementation only on
 processors with AVX2

---
 laby_common/src/internal/escape.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..90d19e0 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -102,9 +102,13 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
 
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
+        let cpuid = raw_cpuid::CpuId::new();
+        let features = cpuid.get_feature_info();
+        // AVX2 is reported separately from AVX, which does not imply it
+        let extended = cpuid.get_extended_feature_info();
+        let has_avx2 = extended.map_or(false, |extended| extended.has_avx2());
         let fun = if let Some(features) = features {
-            if features.has_avx() {
+            if features.has_avx() && has_avx2 {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From c9743ba3f3ba324f3fd925b3c8fe506ce13e8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 3/7] fix: render raw identifier attribute names without the r#
 prefix

---
 laby_macros/src/build.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..0c59ca6 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -182,7 +182,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
     {
         node.render.push_str(value);
     } else {
@@ -218,7 +218,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
             {
                 node.render.push_str(value);
             } else {
@@ -232,7 +232,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From 713d6319bcae62ee6604b31b10cf416bc969c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 4/7] fix: render number literals with a float suffix as values
 of that float type

---
 laby_macros/src/build.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 0c59ca6..9741329 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,6 +164,10 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
+            // the suffix decides the type, and so the text, of a number
+            Lit::Int(ref v) if v.suffix() == "f64" => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) if v.suffix() == "f32" => render!(v.base10_parse::<f32>().ok()?),
+            Lit::Float(ref v) if v.suffix() == "f32" => render!(v.base10_parse::<f32>().ok()?),
             Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
             Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
 
-- 
2.43.0


From 5eb4ab20cdb859a939ebd6cf96fdc9f07cbe3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 5/7] fix: do not poll an empty delimited iterator again after
 its end

---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 6abeba4b202fea0cef97cfa33a62ce59c90b0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 6/7] fix: evaluate the name expression of an attribute that is
 literally false

---
 laby_macros/src/build.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 9741329..5ab32ca 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -230,6 +230,10 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
                 node.render
                     .push_expr(quote!(::laby::Render::render(#value, buffer)));
             }
+        } else if try_unwrap_literal(&left).is_none() && try_unwrap_ident(&left).is_none() {
+            // the name is not rendered, but is still an expression to evaluate
+            let value = node.store_generic(quote!(#left), quote!(::laby::Render));
+            node.render.push_expr(quote!(let _ = #value));
         }
     } else {
         let enabled = node.store_concrete(quote!(#right), quote!(::core::primitive::bool));
-- 
2.43.0


From 8d5692f44d163514333334ee8e4d46d7b02fddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 7/7] fix: call of a component whose function has a where
 clause

The arguments were parsed as predicates of the encoded where clause.
---
 laby_macros/src/component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..64d4b67 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,9 +26,12 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
     let func_name = func_sig.ident.clone();
 
+    // where clause is irrelevant to the call, and would swallow the arguments that follow it
+    func_sig.generics.where_clause = None;
+
     for arg in func.sig.inputs.iter_mut() {
         let PatType { ref mut attrs, .. } = unwrap_typed_arg(arg)?;
 
-- 
2.43.0

