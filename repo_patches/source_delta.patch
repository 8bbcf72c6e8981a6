From b6555714f91a25f3427cce3aec87e435a20a262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 1/6] fix: check the call depth in recursive cycles closed
 through a lambda

A lambda that refers to a member of its recursive cycle was emitted without a
call-depth check, so such recursion overflowed the host stack.
---
 src/hir/emit_functions.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hir/emit_functions.rs b/src/hir/emit_functions.rs
index ea9c43c..93a0792 100644
--- a/src/hir/emit_functions.rs
+++ b/src/hir/emit_functions.rs
@@ -1118,7 +1118,19 @@ where
             function.name.1,
             expected_span,
         );
-        lambda_functions.drain(..).for_each(|function| {
+        lambda_functions.drain(..).for_each(|mut function| {
+            // A recursive cycle can close through a lambda, whose body is not part of `fn_arena`.
+            let lambda_body_id = function.code.entry_node_id;
+            let lambda_body_span = function.code.arena[lambda_body_id].span;
+            function.code.entry_node_id = wrap_body_with_call_depth_check_if_recursive(
+                &mut ty_inf,
+                &mut function.code.arena,
+                lambda_body_id,
+                &recursive_function_ids,
+                function.definition.ty_scheme.ty.ret,
+                lambda_body_span,
+                lambda_body_span,
+            );
             let lambda_id =
                 add_pending_function_anonymous(output, &mut pending_functions, function);
             output.name_function_with_visibility(
-- 
2.43.0


From 873d85a6b144f598d197110142012d67c8b84dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 2/6] fix: let a sandbox violation in a block's cleanup-free
 evaluation reach the host

The leak assertion ran even when execution was poisoned, in which case nothing
is cleaned up and the assertion panicked.
---
 src/eval.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 89d9eed..ec9b9c5 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -3475,11 +3475,14 @@ fn eval_block(
                 if let Some(value) = last_value.take() {
                     value.discard_storage();
                 }
-                ctx.assert_no_owned_local_leaks_before_truncate(
-                    locals,
-                    env_size,
-                    arena[*node].span,
-                );
+                // Nothing is cleaned up once execution is poisoned.
+                if !err.is_poisoning() {
+                    ctx.assert_no_owned_local_leaks_before_truncate(
+                        locals,
+                        env_size,
+                        arena[*node].span,
+                    );
+                }
                 ctx.truncate_environment_storage(env_size);
                 return Err(err);
             }
-- 
2.43.0


From 689405bd2001247ba4359f6ef7f477d5cb4e881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 3/6] fix: reject unifying record types with different numbers
 of fields

---
 src/types/type_inference/unify.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/types/type_inference/unify.rs b/src/types/type_inference/unify.rs
index 3c93129..858c687 100644
--- a/src/types/type_inference/unify.rs
+++ b/src/types/type_inference/unify.rs
@@ -753,6 +753,15 @@ impl UnifiedTypeInference {
                 Ok(())
             }
             (Record(cur), Record(exp)) => {
+                if cur.len() != exp.len() {
+                    return Err(internal_compilation_error!(TypeMismatch {
+                        current_ty,
+                        current_span,
+                        expected_ty,
+                        expected_span,
+                        sub_or_same,
+                    }));
+                }
                 for (cur_field, exp_field) in cur.into_iter().zip(exp) {
                     if cur_field.0 != exp_field.0 {
                         return Err(internal_compilation_error!(TypeMismatch {
-- 
2.43.0


From 44b7539c7548497c6131075b6c13803111525fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 4/6] fix: keep recursive named types with different effect
 arguments distinct when interning

---
 src/types/type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/type.rs b/src/types/type.rs
index 50a7020..0e6f865 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -3126,6 +3126,7 @@ fn type_kinds_match_with_mapping(
         }
         (TypeKind::Named(a), TypeKind::Named(b)) => {
             a.def == b.def
+                && a.effect_params == b.effect_params
                 && type_slices_match_with_mapping(&a.params, &b.params, world_idx, mapping)
         }
         _ => false,
-- 
2.43.0


From 69253f41b14d6cf7dca3c672cde657150062832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 5/6] fix: reject effect inclusions that lose primitive effects

---
 src/types/type_inference/effect_solver.rs | 38 ++++++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/types/type_inference/effect_solver.rs b/src/types/type_inference/effect_solver.rs
index 9ed8960..a51502b 100644
--- a/src/types/type_inference/effect_solver.rs
+++ b/src/types/type_inference/effect_solver.rs
@@ -477,6 +477,7 @@ impl EffectSolver {
             return Ok(true);
         }
 
+        let lower_primitives = EffType::multiple_primitive(&lower.inner_non_vars());
         let lower_vars = lower.inner_vars();
         let upper_vars = upper.inner_vars();
         match (lower_vars.is_empty(), upper_vars.is_empty()) {
@@ -488,6 +489,16 @@ impl EffectSolver {
                 inclusion.origin,
             )),
             (false, true) => {
+                // Only the variables can be bounded by `upper`, the primitives must be in it.
+                if !current_satisfied_by_target(&lower_primitives, &upper) {
+                    return Err(invalid_effect_dependency(
+                        lower,
+                        inclusion.lower_span,
+                        upper,
+                        inclusion.upper_span,
+                        inclusion.origin,
+                    ));
+                }
                 for var in lower_vars {
                     self.table.union_value(var, Some(upper.clone()));
                 }
@@ -556,26 +567,29 @@ impl EffectSolver {
             return Ok(());
         }
 
+        let lower_primitives = EffType::multiple_primitive(&lower.inner_non_vars());
         let lower_vars = lower.inner_vars();
         let upper_vars = upper.inner_vars();
         match (lower_vars.is_empty(), upper_vars.is_empty()) {
-            (true, true) => Err(invalid_effect_dependency(
-                lower,
-                inclusion.lower_span,
-                upper,
-                inclusion.upper_span,
-                inclusion.origin,
-            )),
-            (false, _) => {
+            (_, true) if !current_satisfied_by_target(&lower_primitives, &upper) => {
+                Err(invalid_effect_dependency(
+                    lower,
+                    inclusion.lower_span,
+                    upper,
+                    inclusion.upper_span,
+                    inclusion.origin,
+                ))
+            }
+            _ => {
                 for var in lower_vars {
                     self.table.union_value(var, Some(upper.clone()));
                 }
-                Ok(())
-            }
-            (true, false) => {
+                if current_satisfied_by_target(&lower_primitives, &upper) {
+                    return Ok(());
+                }
                 for var in upper_vars {
                     self.pending_dependencies.push(PendingEffectDependency {
-                        source: lower.clone(),
+                        source: lower_primitives.clone(),
                         source_span: inclusion.lower_span,
                         target: var,
                         target_span: inclusion.upper_span,
-- 
2.43.0


From a2dd29db2a0e40e22ee093c9da284ae32ac61754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 6/6] fix: a type is visible only if its native type's
 arguments are visible

---
 src/module/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 6b80837..59b3c9a 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -1848,7 +1848,11 @@ impl Module {
     ) -> bool {
         use TypeKind::*;
         match &*ty.data() {
-            Variable(_) | Native(_) | Never => true,
+            Variable(_) | Never => true,
+            Native(native) => native
+                .arguments
+                .iter()
+                .all(|ty| self.is_type_visible_by(*ty, others, is_named_type_visible)),
             Variant(fields) | Record(fields) => fields
                 .iter()
                 .all(|(_, ty)| self.is_type_visible_by(*ty, others, is_named_type_visible)),
-- 
2.43.0

