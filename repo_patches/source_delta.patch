From c68f5f15918a26bbbf9abbc40009f5091d2f80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 01/16] fix: hook `?` in the place expression of an assignment

`*slot()? = v` was left unhooked: only the right-hand side was walked.
---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From ae29e475f953fcf70ee36f97dbab5fc530277c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 02/16] fix: report a `$` that ends a method or a group in it

It was dropped without a word, unlike a `$` before any other non-identifier.
---
 hooq-macros/src/impls/method/render/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..7ebabb9 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -95,6 +95,7 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_dollar_span = q_span;
 
         for tt in ts.into_iter() {
             match tt {
@@ -104,7 +105,10 @@ impl HookInfo<'_> {
                     }
 
                     match punct.as_char() {
-                        '$' => next_is_replace_target = true,
+                        '$' => {
+                            next_is_replace_target = true;
+                            last_dollar_span = punct.span();
+                        }
                         _ => res.extend([TokenTree::Punct(punct)]),
                     }
                 }
@@ -152,6 +156,13 @@ impl HookInfo<'_> {
             }
         }
 
+        if next_is_replace_target {
+            return Err(syn::Error::new(
+                last_dollar_span,
+                "unexpected end of tokens after `$`",
+            ));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From 50459f2e8f894a3dbd884e131427bb301fb8ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 03/16] fix: take the position of a tail expression before
 hooking inside it

With a replacing method the tail then started with the inner hook, and
$line/$col pointed at the inner `?`.
---
 hooq-macros/src/impls/walker/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..caeee5b 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -71,6 +71,7 @@ fn handle_tail_expr(
     } = handle_inert_attrs(attrs, context)?;
 
     let source_tokenstream = expr.to_token_stream();
+    let q_span = expr.span();
 
     walk_expr(expr, &context)?;
 
@@ -92,8 +93,6 @@ fn handle_tail_expr(
             && tail_expr_target_kind == TailExprTargetKind::FnBlockTailExpr
             && !is_not_target_call
     {
-        let q_span = expr.span();
-
         let _exc = hook_expr(
             !is_skipped,
             expr,
-- 
2.43.0


From 83971d311da4b167a152c6b9f92eb0f435ca55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 04/16] fix: keep inner attributes of items in macro arguments

`#![..]` at the start of macro arguments made of items was dropped.
---
 hooq-macros/src/impls/walker/walk_macro.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..c8e6668 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,12 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    file.items
+                        .iter_mut()
+                        .try_for_each(|item| walk_item(item, context))?;
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 2af8e0e9eabe65a93bceb880cd521bc6ebd1cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 05/16] fix: inherit trait_uses when a hooq.toml flavor does
 not set it

Unlike every other setting it was reset, so overriding a built-in flavor
lost its traits and a sub flavor did not get those of its parent.
---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 14 ++++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..85c6e98 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,14 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            let trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+            flavor.trait_uses = trait_uses;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From b64e5e9d766488a3ed03e06057dcbf062a1def61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 06/16] fix: number hook targets within their function

$count is documented to count within the function, but functions under a
#[hooq] impl, mod or trait, and nested functions, shared one counter.
---
 hooq-macros/src/impls/inert_attr/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..af28525 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -314,6 +314,11 @@ impl HookContext {
     }
 
     pub fn update_fn_info(&mut self, function_info: FunctionInfo) {
+        // $count は関数ごとに数える（クロージャは囲んでいる関数に含める）
+        if let FunctionInfo::Function(_) = function_info {
+            self.counter = Rc::new(RefCell::new(Counter::new()));
+        }
+
         self.local_context.fn_info =
             LocalContextField::from_parent(Some(Some(function_info)), &self.local_context.fn_info);
     }
-- 
2.43.0


From 92f2286d894aad6f1e516961fd3a7d37c8bea4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 07/16] fix: keep the layout after a multi-line literal in
 stringified sources

The line of the next token was compared with the first line of the
literal, which added a blank line and shifted the line numbers after it.
---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..9ca61ae 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // 複数行にまたがるリテラルでは、最後の行が現在の行になる
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 3f5bbbd8dc4e87e77dc31a1d3fcc47230c266374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 08/16] fix: do not hook a tail `return` a second time as a
 tail expression

Its operand is hooked as a `return` already; the second method was also
appended to that operand.
---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index caeee5b..957b95c 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -80,6 +80,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // `return ...` の値は return としてフック済みであり、式自体は値を持たない
+    if matches!(expr, Expr::Return(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From 213595f21da637f9c4e3f8bd9f606c0be8d7fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 09/16] fix: insert the method on the whole operand of `return`
 or the tail

`return a + b` became `return a + b.method()`: operands that bind weaker
than a method call need parentheses.
---
 hooq-macros/src/impls/method/render/mod.rs | 28 ++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 7ebabb9..147b08c 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -18,6 +18,23 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+fn binds_weaker_than_method_call(expr: &Expr) -> bool {
+    matches!(
+        expr,
+        Expr::Assign(_)
+            | Expr::Binary(_)
+            | Expr::Break(_)
+            | Expr::Cast(_)
+            | Expr::Closure(_)
+            | Expr::Range(_)
+            | Expr::RawAddr(_)
+            | Expr::Reference(_)
+            | Expr::Return(_)
+            | Expr::Unary(_)
+            | Expr::Yield(_)
+    )
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -45,9 +62,16 @@ impl HookInfo<'_> {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
 
+                // メソッド呼び出しより結合が弱い式は、全体に掛かるように括弧で包む
+                let receiver = if binds_weaker_than_method_call(expr) {
+                    quote! { (#expr) }
+                } else {
+                    expr.to_token_stream()
+                };
+
                 (
                     parse_quote! {
-                        #expr #dot #method
+                        #receiver #dot #method
                     },
                     exc,
                 )
-- 
2.43.0


From 2a15ee088f13c92517beb374528eed6f63a257e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 10/16] fix: look up the name of the hooq crate per project

It was kept for the life of the process, so in a process that serves
several projects (rust-analyzer) the first one decided for all of them.
---
 .../src/impls/utils/get_hooq_crate_name.rs    | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..e46b17d 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,21 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+// NOTE: プロジェクトごとの結果は proc_macro_crate 側でキャッシュされる
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
 
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From 88ccaf5ab1350d47835e8c64cd5dd1c0f46cf343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 11/16] fix: keep skip_all in force below a nested skip

A #[hooq::skip] somewhere inside #[hooq::skip_all] replaced the skip
status, so blocks nested in it were hooked again.
---
 hooq-macros/src/impls/inert_attr/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index af28525..6a2e749 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,8 +222,13 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
+        // skip_all の内側に skip があっても、 skip_all が有効なままとする
+        let new_skip_status = match &**parent_context.local_context.skip_status {
+            Some(SkipStatus::SkipAll) => None,
+            _ => inert_attr.get_skip_status().map(Option::Some),
+        };
         let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
+            new_skip_status,
             &parent_context.local_context.skip_status,
         );
         let InertAttribute {
-- 
2.43.0


From ba5fb0201587ee8a8e98a97b661b6c29c71b2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 12/16] fix: keep the attributes of a consumed ? expression

When a method ending in `!` removes the `?`, the expression replacing it
dropped the attributes that stood on the `?` expression, e.g. a `#[cfg(..)]` or
`#[allow(..)]` on the statement.
---
 hooq-macros/src/impls/walker/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 957b95c..0437a71 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -426,8 +426,14 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 )?;
 
                 match exc {
-                    // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    // ? を消去 (Try式に付いていた属性は残った式に引き継ぐ)
+                    Some(_) => {
+                        let mut new_expr = *expr_try.expr.clone();
+                        if let Some(attrs) = get_attrs_from_expr(&mut new_expr) {
+                            attrs.splice(0..0, expr_try.attrs.drain(..));
+                        }
+                        Some(new_expr)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From 41a69c23f030b967efd7d2f54ccf70717fe3f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 13/16] fix: see a return type that comes from a macro_rules
 fragment

---
 hooq-macros/src/impls/utils/function_info.rs |  5 ++---
 hooq-macros/src/impls/utils/mod.rs           | 11 ++++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/utils/function_info.rs b/hooq-macros/src/impls/utils/function_info.rs
index 05214bf..4201774 100644
--- a/hooq-macros/src/impls/utils/function_info.rs
+++ b/hooq-macros/src/impls/utils/function_info.rs
@@ -1,11 +1,10 @@
-use std::ops::Deref;
 use std::rc::Rc;
 
 use quote::ToTokens;
 use syn::{ExprClosure, ReturnType, Signature, Type, TypePath, parse_quote};
 
 use crate::impls::inert_attr::context::LocalContextField;
-use crate::impls::utils::path_is_end_of;
+use crate::impls::utils::{path_is_end_of, peel_type_groups};
 
 #[derive(Clone, Debug)]
 pub struct ClosureInfo {
@@ -82,7 +81,7 @@ impl FunctionInfo {
 
 fn return_type_is_result_inner(rt: &ReturnType, result_types: &[String]) -> bool {
     if let ReturnType::Type(_, t) = rt
-        && let Type::Path(TypePath { path, .. }) = t.deref()
+        && let Type::Path(TypePath { path, .. }) = peel_type_groups(t)
     {
         result_types.iter().any(|s| path_is_end_of(path, s))
     } else {
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index e2bf711..d9a3b67 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -1,5 +1,5 @@
 pub use get_attrs::*;
-use syn::Path;
+use syn::{Path, Type};
 
 pub mod function_info;
 mod get_attrs;
@@ -16,3 +16,12 @@ pub fn path_is_end_of(path: &Path, target: &str) -> bool {
         .next_back()
         .is_some_and(|segment| segment.ident == target)
 }
+
+/// `macro_rules!` のフラグメント (`$t:ty` など) に由来する不可視のグループを剥がす
+pub fn peel_type_groups(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+
+    ty
+}
-- 
2.43.0


From 1ff6b980cea8522328f8e3214c7f1cdb0c5c35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 14/16] fix: see tail and return expressions that come from
 macro_rules fragments

---
 hooq-macros/src/impls/method/render/mod.rs |  3 ++-
 hooq-macros/src/impls/utils/mod.rs         | 11 ++++++++++-
 hooq-macros/src/impls/walker/mod.rs        | 21 ++++++++++++++-------
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 147b08c..8810b80 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -8,6 +8,7 @@ use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::peel_expr_groups;
 
 mod meta_vars;
 
@@ -20,7 +21,7 @@ fn get_file_name(q_span: Span) -> String {
 
 fn binds_weaker_than_method_call(expr: &Expr) -> bool {
     matches!(
-        expr,
+        peel_expr_groups(expr),
         Expr::Assign(_)
             | Expr::Binary(_)
             | Expr::Break(_)
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index d9a3b67..5b0ea72 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -1,5 +1,5 @@
 pub use get_attrs::*;
-use syn::{Path, Type};
+use syn::{Expr, Path, Type};
 
 pub mod function_info;
 mod get_attrs;
@@ -17,6 +17,15 @@ pub fn path_is_end_of(path: &Path, target: &str) -> bool {
         .is_some_and(|segment| segment.ident == target)
 }
 
+/// `macro_rules!` のフラグメント (`$e:expr` など) に由来する不可視のグループを剥がす
+pub fn peel_expr_groups(mut expr: &Expr) -> &Expr {
+    while let Expr::Group(group) = expr {
+        expr = &group.expr;
+    }
+
+    expr
+}
+
 /// `macro_rules!` のフラグメント (`$t:ty` など) に由来する不可視のグループを剥がす
 pub fn peel_type_groups(mut ty: &Type) -> &Type {
     while let Type::Group(group) = ty {
diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0437a71..6ac5bca 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -1,15 +1,15 @@
 use quote::ToTokens;
 use syn::spanned::Spanned;
 use syn::{
-    Expr, ExprCall, ExprMacro, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item, ItemConst,
-    ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem, TraitItemConst,
-    TraitItemFn, TraitItemMacro,
+    Expr, ExprCall, ExprGroup, ExprMacro, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item,
+    ItemConst, ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem,
+    TraitItemConst, TraitItemFn, TraitItemMacro,
 };
 
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
 use crate::impls::inert_attr::{HandleInertAttrsResult, handle_inert_attrs};
 use crate::impls::utils::function_info::{ClosureInfo, FunctionInfo};
-use crate::impls::utils::get_attrs_from_expr;
+use crate::impls::utils::{get_attrs_from_expr, peel_expr_groups};
 
 mod hook_expr;
 mod walk_macro;
@@ -42,8 +42,8 @@ struct TargetCallCheckBools {
 }
 
 fn target_call_check_bools(context: &HookContext, expr: &Expr) -> TargetCallCheckBools {
-    if let Expr::Call(ExprCall { func, .. }) = expr
-        && let Expr::Path(ExprPath { path, .. }) = func.as_ref()
+    if let Expr::Call(ExprCall { func, .. }) = peel_expr_groups(expr)
+        && let Expr::Path(ExprPath { path, .. }) = peel_expr_groups(func)
     {
         TargetCallCheckBools {
             is_target_call: context.path_is_hook_call_like_err(path),
@@ -62,6 +62,13 @@ fn handle_tail_expr(
     context: &HookContext,
     tail_expr_target_kind: TailExprTargetKind,
 ) -> syn::Result<()> {
+    // `macro_rules!` のフラグメントに由来する不可視のグループは、中身を末尾の式とみなす
+    if let Expr::Group(ExprGroup { attrs, expr, .. }) = expr
+        && attrs.is_empty()
+    {
+        return handle_tail_expr(expr, context, tail_expr_target_kind);
+    }
+
     let Some(attrs) = get_attrs_from_expr(expr) else {
         return Ok(());
     };
@@ -81,7 +88,7 @@ fn handle_tail_expr(
     }
 
     // `return ...` の値は return としてフック済みであり、式自体は値を持たない
-    if matches!(expr, Expr::Return(_)) {
+    if matches!(peel_expr_groups(expr), Expr::Return(_)) {
         return Ok(());
     }
 
-- 
2.43.0


From 92b5a997ae77fb1ecd37958f967b5d2afdabf440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 15/16] fix: accept flavor names that come from macro_rules
 fragments

---
 hooq-macros/src/impls/inert_attr/parse.rs |  3 ++-
 hooq-macros/src/impls/root_attr/parse.rs  | 18 +++++++-----------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index a3bf155..9bf9e8a 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -12,6 +12,7 @@ use crate::impls::flavor::{Flavor, FlavorPath, FlavorStore};
 use crate::impls::inert_attr::InertAttribute;
 use crate::impls::inert_attr::context::HookTargetSwitch;
 use crate::impls::method::Method;
+use crate::impls::utils::peel_expr_groups;
 
 fn get_binding_name(path: &Path) -> syn::Result<Option<String>> {
     let mut segs = path.segments.iter();
@@ -94,7 +95,7 @@ This format overrides the corresponding setting with the one defined in the spec
 "#;
 
 fn get_flavor_path(value: &Expr, setting_name: &str) -> syn::Result<FlavorPath> {
-    match value {
+    match peel_expr_groups(value) {
         Expr::Path(ExprPath { path, .. }) => Ok(path
             .try_into()
             .map_err(|e| syn::Error::new_spanned(path, e))?),
diff --git a/hooq-macros/src/impls/root_attr/parse.rs b/hooq-macros/src/impls/root_attr/parse.rs
index 5c5b4ea..ae7d5f7 100644
--- a/hooq-macros/src/impls/root_attr/parse.rs
+++ b/hooq-macros/src/impls/root_attr/parse.rs
@@ -7,6 +7,7 @@ use syn::{Expr, ExprLit, Lit, Meta, MetaList, MetaNameValue, Path, Token};
 
 use crate::impls::flavor::{FlavorPath, FlavorStore};
 use crate::impls::root_attr::RootAttribute;
+use crate::impls::utils::peel_expr_groups;
 
 impl Parse for RootAttribute {
     fn parse(input: ParseStream) -> syn::Result<Self> {
@@ -94,16 +95,11 @@ fn parse_meta_list(
 }
 
 fn parse_name_value(input: MetaNameValue, flavor: &mut Option<FlavorPath>) -> syn::Result<()> {
-    match input {
-        MetaNameValue {
-            path,
-            value:
-                Expr::Lit(ExprLit {
-                    lit: Lit::Str(lit_str),
-                    ..
-                }),
+    match peel_expr_groups(&input.value) {
+        Expr::Lit(ExprLit {
+            lit: Lit::Str(lit_str),
             ..
-        } if path.is_ident("flavor") => {
+        }) if input.path.is_ident("flavor") => {
             let span = lit_str.span();
 
             let flavor_names = lit_str
@@ -115,8 +111,8 @@ fn parse_name_value(input: MetaNameValue, flavor: &mut Option<FlavorPath>) -> sy
 
             Ok(())
         }
-        else_ => Err(syn::Error::new_spanned(
-            else_,
+        _ => Err(syn::Error::new_spanned(
+            input,
             root_attribute_error_message(),
         )),
     }
-- 
2.43.0


From c1cbb21842745a496ea2c5f9319684d46a1567fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 16/16] fix: reject hooq attributes with a leading `::` and
 flavor paths with a qualified self

`#[::hooq::method = log]` was taken for a binding named `method` and so dropped
silently; the qualified self of `#[hooq::flavor = <x>::log]` was ignored.
---
 hooq-macros/src/impls/inert_attr/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index 9bf9e8a..b3aceab 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -27,7 +27,7 @@ fn get_binding_name(path: &Path) -> syn::Result<Option<String>> {
 
     let maybe_binding = segs.next();
 
-    if segs.next().is_some() {
+    if segs.next().is_some() || path.leading_colon.is_some() {
         return Err(syn::Error::new_spanned(
             path,
             "invalid hooq attribute format. expected: hooq::xxx, hooq::xxx(...) or hooq::xxx = ...",
@@ -96,7 +96,9 @@ This format overrides the corresponding setting with the one defined in the spec
 
 fn get_flavor_path(value: &Expr, setting_name: &str) -> syn::Result<FlavorPath> {
     match peel_expr_groups(value) {
-        Expr::Path(ExprPath { path, .. }) => Ok(path
+        Expr::Path(ExprPath {
+            qself: None, path, ..
+        }) => Ok(path
             .try_into()
             .map_err(|e| syn::Error::new_spanned(path, e))?),
         Expr::Lit(ExprLit {
-- 
2.43.0

