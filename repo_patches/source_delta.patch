From 29cd7a3dd7358a68aa622b8257796e8cf144b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 01/40] fix: vm-js no longer compiles (duplicate Realm::id,
 untyped throw completions)

---
 vm-js/src/exec.rs  | 6 +++---
 vm-js/src/realm.rs | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 4e5dda8..c4135d0 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -1805,7 +1805,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype cycle",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::PrototypeChainTooDeep) => {
         let intr = self
@@ -1818,7 +1818,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype chain too deep",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::InvalidPropertyDescriptorPatch) => {
         let intr = self
@@ -1831,7 +1831,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "invalid property descriptor patch: cannot mix data and accessor fields",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::NotCallable) => {
         let intr = self
diff --git a/vm-js/src/realm.rs b/vm-js/src/realm.rs
index e464557..a4d9c3f 100644
--- a/vm-js/src/realm.rs
+++ b/vm-js/src/realm.rs
@@ -279,19 +279,11 @@ impl Realm {
     })
   }
 
-  pub fn id(&self) -> RealmId {
-    self.id
-  }
-
   /// The realm's global object.
   pub fn global_object(&self) -> GcObject {
     self.global_object
   }
 
-  pub fn id(&self) -> RealmId {
-    RealmId::from_raw(self.global_object.id().0)
-  }
-
   /// The realm's intrinsic objects.
   pub fn intrinsics(&self) -> &Intrinsics {
     &self.intrinsics
-- 
2.43.0


From d4ce97bc63a55c487bd847071029e5b8b73bf3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 02/40] fix: webidl-vm-js iterator calls pass no host to
 Vm::call

---
 webidl-vm-js/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webidl-vm-js/src/lib.rs b/webidl-vm-js/src/lib.rs
index 250195d..bf652fe 100644
--- a/webidl-vm-js/src/lib.rs
+++ b/webidl-vm-js/src/lib.rs
@@ -331,7 +331,7 @@ impl JsRuntime for VmJsWebIdlCx<'_> {
 
     let iterator = self
       .vm
-      .call(&mut self.scope, method, Value::Object(object), &[])?;
+      .call_without_host(&mut self.scope, method, Value::Object(object), &[])?;
     let Value::Object(iterator) = iterator else {
       return Err(self.type_error("Iterator method did not return an object"));
     };
@@ -352,7 +352,7 @@ impl JsRuntime for VmJsWebIdlCx<'_> {
 
     let result = self
       .vm
-      .call(&mut self.scope, next_method, Value::Object(iterator), &[])?;
+      .call_without_host(&mut self.scope, next_method, Value::Object(iterator), &[])?;
     let Value::Object(result_obj) = result else {
       return Err(self.type_error("IteratorNext(iterator): next() did not return an object"));
     };
-- 
2.43.0


From bb1b8b022462febe42f589a56234479d5646586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 03/40] fix: vm-js keeps handles rooted across allocations that
 may collect

Promise resolving functions, Promise combinators, finally handlers, Array.prototype.map keys,
destructuring assignment targets, let/const initialisers, caught values, for-of completions,
@@toPrimitive methods and iterator results were used after an allocation that may run a GC while
nothing rooted them.
---
 vm-js/src/builtins.rs    | 28 +++++++++++++++-----
 vm-js/src/destructure.rs |  2 ++
 vm-js/src/exec.rs        | 57 ++++++++++++++++++++++++----------------
 vm-js/src/iterator.rs    |  7 +++--
 4 files changed, 63 insertions(+), 31 deletions(-)

diff --git a/vm-js/src/builtins.rs b/vm-js/src/builtins.rs
index 906235d..020d125 100644
--- a/vm-js/src/builtins.rs
+++ b/vm-js/src/builtins.rs
@@ -915,6 +915,7 @@ fn create_promise_resolving_functions(
   scope
     .heap_mut()
     .set_function_closure_env(resolve, Some(already_resolved_env))?;
+  scope.push_root(Value::Object(resolve))?;
 
   let reject_name = scope.alloc_string("reject")?;
   let reject = scope.alloc_native_function(call_id, None, reject_name, 1)?;
@@ -1657,6 +1658,7 @@ pub fn promise_prototype_finally(
       is_reject: false,
     },
   )?;
+  scope.push_root(Value::Object(then_finally))?;
 
   let catch_finally_name = scope.alloc_string("catchFinally")?;
   let catch_finally = scope.alloc_native_function(call_id, None, catch_finally_name, 1)?;
@@ -1673,8 +1675,8 @@ pub fn promise_prototype_finally(
     },
   )?;
 
-  // Root the closure functions before invoking `then`, which may allocate/GC.
-  scope.push_root(Value::Object(then_finally))?;
+  // `then_finally` is already rooted; root its sibling before invoking `then`, which may
+  // allocate/GC.
   scope.push_root(Value::Object(catch_finally))?;
 
   invoke_then(
@@ -2118,6 +2120,8 @@ pub fn promise_all(
     Ok(v) => v,
     Err(err) => return if_abrupt_reject_promise(vm, scope, host, hooks, capability, err),
   };
+  // `promiseResolve` may come from a getter, so nothing else is guaranteed to keep it alive.
+  scope.push_root(promise_resolve)?;
 
   let mut iterator_record = match crate::iterator::get_iterator(vm, host, hooks, scope, iterable) {
     Ok(r) => r,
@@ -2190,6 +2194,8 @@ pub fn promise_race(
     Ok(v) => v,
     Err(err) => return if_abrupt_reject_promise(vm, scope, host, hooks, capability, err),
   };
+  // `promiseResolve` may come from a getter, so nothing else is guaranteed to keep it alive.
+  scope.push_root(promise_resolve)?;
 
   let mut iterator_record = match crate::iterator::get_iterator(vm, host, hooks, scope, iterable) {
     Ok(r) => r,
@@ -2301,7 +2307,9 @@ fn perform_promise_all_settled(
     write_internal_record_value(&mut step_scope, remaining, Value::Number(n + 1.0))?;
 
     let on_fulfilled_name = step_scope.alloc_string("onFulfilled")?;
+    step_scope.push_root(Value::String(on_fulfilled_name))?;
     let on_rejected_name = step_scope.alloc_string("onRejected")?;
+    step_scope.push_root(Value::String(on_rejected_name))?;
     let fulfilled_slots = [
       Value::Object(values),
       Value::Number(index as f64),
@@ -2377,6 +2385,8 @@ pub fn promise_all_settled(
     Ok(v) => v,
     Err(err) => return if_abrupt_reject_promise(vm, scope, host, hooks, capability, err),
   };
+  // `promiseResolve` may come from a getter, so nothing else is guaranteed to keep it alive.
+  scope.push_root(promise_resolve)?;
 
   let mut iterator_record = match crate::iterator::get_iterator(vm, host, hooks, scope, iterable) {
     Ok(r) => r,
@@ -2548,6 +2558,8 @@ pub fn promise_any(
     Ok(v) => v,
     Err(err) => return if_abrupt_reject_promise(vm, scope, host, hooks, capability, err),
   };
+  // `promiseResolve` may come from a getter, so nothing else is guaranteed to keep it alive.
+  scope.push_root(promise_resolve)?;
 
   let mut iterator_record = match crate::iterator::get_iterator(vm, host, hooks, scope, iterable) {
     Ok(r) => r,
@@ -3072,16 +3084,20 @@ pub fn array_prototype_map(
 
   for i in 0..len {
     vm.tick()?;
-    let key = PropertyKey::from_string(scope.alloc_string(&i.to_string())?);
-    let Some(value) = get_data_property_value(scope, this_obj, &key)? else {
+    // Root the key across the callback: it is used again to define the mapped element.
+    let mut iter_scope = scope.reborrow();
+    let key_s = iter_scope.alloc_string(&i.to_string())?;
+    iter_scope.push_root(Value::String(key_s))?;
+    let key = PropertyKey::from_string(key_s);
+    let Some(value) = get_data_property_value(&mut iter_scope, this_obj, &key)? else {
       continue;
     };
 
     // callback(value, index, array)
     let call_args = [value, Value::Number(i as f64), Value::Object(this_obj)];
-    let mapped = vm.call_with_host(scope, host, callback, this_arg, &call_args)?;
+    let mapped = vm.call_with_host(&mut iter_scope, host, callback, this_arg, &call_args)?;
 
-    scope.define_property(out, key, data_desc(mapped, true, true, true))?;
+    iter_scope.define_property(out, key, data_desc(mapped, true, true, true))?;
   }
 
   Ok(Value::Object(out))
diff --git a/vm-js/src/destructure.rs b/vm-js/src/destructure.rs
index 469b554..ccf802f 100644
--- a/vm-js/src/destructure.rs
+++ b/vm-js/src/destructure.rs
@@ -506,6 +506,7 @@ fn assign_to_member(
       "member assignment on non-object",
     )?);
   };
+  rhs_scope.push_root(obj_value)?;
 
   let key_s = rhs_scope.alloc_string(&member.right)?;
   let key = PropertyKey::from_string(key_s);
@@ -548,6 +549,7 @@ fn assign_to_computed_member(
       "computed member assignment on non-object",
     )?);
   };
+  rhs_scope.push_root(obj_value)?;
 
   let key_value = eval_expr(vm, host, hooks, env, strict, this, &mut rhs_scope, &member.member)?;
   let key_value = rhs_scope.push_root(key_value)?;
diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index c4135d0..94b1b90 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -1932,11 +1932,14 @@ impl<'a> Evaluator<'a> {
             None => Value::Undefined,
           };
 
-          if !scope.heap().env_has_binding(self.env.lexical_env, name)? {
+          // Root the initializer value: creating the binding may allocate and trigger GC.
+          let mut init_scope = scope.reborrow();
+          let value = init_scope.push_root(value)?;
+          if !init_scope.heap().env_has_binding(self.env.lexical_env, name)? {
             // Non-block statement contexts may not have performed lexical hoisting yet.
-            scope.env_create_mutable_binding(self.env.lexical_env, name)?;
+            init_scope.env_create_mutable_binding(self.env.lexical_env, name)?;
           }
-          scope
+          init_scope
             .heap_mut()
             .env_initialize_binding(self.env.lexical_env, name, value)?;
         }
@@ -1974,10 +1977,13 @@ impl<'a> Evaluator<'a> {
           };
           let name = id.stx.name.as_str();
 
-          if !scope.heap().env_has_binding(self.env.lexical_env, name)? {
-            scope.env_create_immutable_binding(self.env.lexical_env, name)?;
+          // Root the initializer value: creating the binding may allocate and trigger GC.
+          let mut init_scope = scope.reborrow();
+          let value = init_scope.push_root(value)?;
+          if !init_scope.heap().env_has_binding(self.env.lexical_env, name)? {
+            init_scope.env_create_immutable_binding(self.env.lexical_env, name)?;
           }
-          scope
+          init_scope
             .heap_mut()
             .env_initialize_binding(self.env.lexical_env, name, value)?;
         }
@@ -2068,26 +2074,25 @@ impl<'a> Evaluator<'a> {
     catch: &CatchBlock,
     thrown: Value,
   ) -> Result<Completion, VmError> {
-    let outer = self.env.lexical_env;
-    let catch_env = scope.env_create(Some(outer))?;
-    self.env.set_lexical_env(scope.heap_mut(), catch_env);
+    // Root the thrown value across catch environment creation and binding instantiation, which may
+    // allocate.
+    let mut catch_scope = scope.reborrow();
+    catch_scope.push_root(thrown)?;
 
-    let result = {
-      // Root the thrown value across catch binding instantiation, which may allocate.
-      let mut catch_scope = scope.reborrow();
-      catch_scope.push_root(thrown)?;
+    let outer = self.env.lexical_env;
+    let catch_env = catch_scope.env_create(Some(outer))?;
+    self.env.set_lexical_env(catch_scope.heap_mut(), catch_env);
 
-      self
-        .instantiate_block_decls_in_stmt_list(&mut catch_scope, catch_env, &catch.body)
-        .and_then(|_| {
-          if let Some(param) = &catch.parameter {
-            self.bind_catch_param(&mut catch_scope, &param.stx, thrown, catch_env)?;
-          }
-          self.eval_stmt_list(&mut catch_scope, &catch.body)
-        })
-    };
+    let result = self
+      .instantiate_block_decls_in_stmt_list(&mut catch_scope, catch_env, &catch.body)
+      .and_then(|_| {
+        if let Some(param) = &catch.parameter {
+          self.bind_catch_param(&mut catch_scope, &param.stx, thrown, catch_env)?;
+        }
+        self.eval_stmt_list(&mut catch_scope, &catch.body)
+      });
 
-    self.env.set_lexical_env(scope.heap_mut(), outer);
+    self.env.set_lexical_env(catch_scope.heap_mut(), outer);
     result
   }
 
@@ -2623,6 +2628,11 @@ impl<'a> Evaluator<'a> {
       };
 
       if !Self::loop_continues(&body_completion, label_set) {
+        // Root the completion's value (if any) while `return` runs, which may allocate and trigger
+        // GC.
+        if let Some(value) = body_completion.value() {
+          iter_scope.push_root(value)?;
+        }
         let _ = iterator::iterator_close(
           self.vm,
           &mut *self.host,
@@ -4692,6 +4702,7 @@ impl<'a> Evaluator<'a> {
       if !prim_scope.heap().is_callable(exotic)? {
         return Err(throw_type_error(self.vm, &mut prim_scope, "@@toPrimitive is not callable")?);
       }
+      prim_scope.push_root(exotic)?;
 
       let hint_s = prim_scope.alloc_string(hint.as_str())?;
       prim_scope.push_root(Value::String(hint_s))?;
diff --git a/vm-js/src/iterator.rs b/vm-js/src/iterator.rs
index da4acac..e6fc2e2 100644
--- a/vm-js/src/iterator.rs
+++ b/vm-js/src/iterator.rs
@@ -244,11 +244,14 @@ pub fn iterator_step_value(
     }
     IteratorKind::Protocol => {
       let result = iterator_next(vm, host, hooks, scope, record)?;
-      if iterator_complete(vm, host, hooks, scope, result)? {
+      // Root the result object while `done` and `value` are read.
+      let mut result_scope = scope.reborrow();
+      let result = result_scope.push_root(result)?;
+      if iterator_complete(vm, host, hooks, &mut result_scope, result)? {
         record.done = true;
         return Ok(None);
       }
-      Ok(Some(iterator_value(vm, host, hooks, scope, result)?))
+      Ok(Some(iterator_value(vm, host, hooks, &mut result_scope, result)?))
     }
   }
 }
-- 
2.43.0


From 75c9c08b8d5655e56fb1c118f32868c89693a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 04/40] fix: emit-js writes `undefined` for expressions in
 computed type member keys

---
 emit-js/src/ts_type.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/ts_type.rs b/emit-js/src/ts_type.rs
index 560c2fd..0cd2cc2 100644
--- a/emit-js/src/ts_type.rs
+++ b/emit-js/src/ts_type.rs
@@ -1,4 +1,5 @@
 use crate::escape::emit_template_literal_segment;
+use crate::expr_js::{emit_expr, ExprCtx};
 use crate::{EmitMode, EmitOptions, EmitResult, Emitter};
 use parse_js::ast::expr::Expr;
 use parse_js::ast::expr::ImportExpr;
@@ -910,9 +911,7 @@ impl<'a> TypeEmitter<'a> {
         self.em.write_punct("]");
       }
       Expr::Import(import) => self.emit_import_entity(import)?,
-      _ => {
-        self.em.write_keyword("undefined");
-      }
+      _ => emit_expr(self.em, expr, ExprCtx::Default)?,
     }
     Ok(())
   }
-- 
2.43.0


From 60dcbb31308e938d63bb5b5f31bcedcd876d60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 05/40] fix: vm-js instantiates var declarations in order of
 appearance

The names were collected in a HashSet, so properties of the global object
appeared in an order that changed from run to run.
---
 vm-js/src/exec.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 94b1b90..01de14e 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -768,6 +768,26 @@ impl VmJobContext for JsRuntime {
   }
 }
 
+/// The names that a statement list declares with `var`, in order of first appearance: bindings are
+/// created in that order, which scripts can observe on the global object.
+#[derive(Default)]
+struct VarNames {
+  seen: HashSet<String>,
+  in_order: Vec<String>,
+}
+
+impl VarNames {
+  fn insert(&mut self, name: String) {
+    if self.seen.insert(name.clone()) {
+      self.in_order.push(name);
+    }
+  }
+
+  fn contains(&self, name: &str) -> bool {
+    self.seen.contains(name)
+  }
+}
+
 struct Evaluator<'a> {
   vm: &'a mut Vm,
   host: &'a mut dyn VmHost,
@@ -1008,7 +1028,7 @@ impl<'a> Evaluator<'a> {
     // Minimal early error checks:
     // - Duplicate lexical declarations (let/const) in the same statement list.
     // - Lexical declarations may not collide with var-scoped names (var + function declarations).
-    let mut var_names = HashSet::<String>::new();
+    let mut var_names = VarNames::default();
     for stmt in stmts {
       self.collect_var_names(&stmt.stx, &mut var_names)?;
     }
@@ -1069,11 +1089,11 @@ impl<'a> Evaluator<'a> {
     scope: &mut Scope<'_>,
     stmts: &[Node<Stmt>],
   ) -> Result<(), VmError> {
-    let mut names = HashSet::<String>::new();
+    let mut names = VarNames::default();
     for stmt in stmts {
       self.collect_var_names(&stmt.stx, &mut names)?;
     }
-    for name in names {
+    for name in names.in_order {
       self.env.declare_var(scope, &name)?;
     }
     Ok(())
@@ -1144,7 +1164,7 @@ impl<'a> Evaluator<'a> {
   fn collect_sloppy_function_decl_names(
     &self,
     stmt: &Stmt,
-    out: &mut HashSet<String>,
+    out: &mut VarNames,
   ) -> Result<(), VmError> {
     match stmt {
       Stmt::FunctionDecl(decl) => {
@@ -1522,7 +1542,7 @@ impl<'a> Evaluator<'a> {
     }
   }
 
-  fn collect_var_names(&self, stmt: &Stmt, out: &mut HashSet<String>) -> Result<(), VmError> {
+  fn collect_var_names(&self, stmt: &Stmt, out: &mut VarNames) -> Result<(), VmError> {
     match stmt {
       Stmt::VarDecl(var) => {
         if var.stx.mode != VarDeclMode::Var {
@@ -1623,12 +1643,12 @@ impl<'a> Evaluator<'a> {
   fn collect_var_names_from_pat_decl(
     &self,
     pat_decl: &PatDecl,
-    out: &mut HashSet<String>,
+    out: &mut VarNames,
   ) -> Result<(), VmError> {
     self.collect_var_names_from_pat(&pat_decl.pat.stx, out)
   }
 
-  fn collect_var_names_from_pat(&self, pat: &Pat, out: &mut HashSet<String>) -> Result<(), VmError> {
+  fn collect_var_names_from_pat(&self, pat: &Pat, out: &mut VarNames) -> Result<(), VmError> {
     match pat {
       Pat::Id(id) => {
         out.insert(id.stx.name.clone());
-- 
2.43.0


From c722ab507f0381881d5c128410e7c2867a520064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 06/40] fix: typecheck-ts picks definitions in a fixed order,
 not in hash order

Several lookups took the first match of a HashMap iteration, or let the
last of several equal keys win, so results could differ between runs.
---
 typecheck-ts/src/check/decls.rs                      |  6 ++++--
 typecheck-ts/src/check/hir_body.rs                   |  9 +++++++--
 typecheck-ts/src/program/state.rs                    |  4 +++-
 .../src/program/state/analysis/hir_align/bodies.rs   |  3 ++-
 .../src/program/state/analysis/hir_align/defs.rs     | 11 +++++++++--
 typecheck-ts/src/program/state/bodies/body_check.rs  | 11 +++++++++--
 typecheck-ts/src/program/state/body_context.rs       | 10 ++++++++--
 typecheck-ts/src/program/state/interned/ensure.rs    |  3 ++-
 .../src/program/state/merging/interned_named.rs      | 11 +++++++----
 typecheck-ts/src/program/state/merging/namespace.rs  | 12 +++++++-----
 typecheck-ts/src/program/state/merging/overloads.rs  |  9 ++++++---
 11 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/typecheck-ts/src/check/decls.rs b/typecheck-ts/src/check/decls.rs
index f82564c..a4b4cbf 100644
--- a/typecheck-ts/src/check/decls.rs
+++ b/typecheck-ts/src/check/decls.rs
@@ -1407,13 +1407,15 @@ impl<'a, 'diag> HirDeclLowerer<'a, 'diag> {
     if let Some(def) = self
       .defs
       .iter()
-      .find(|((_, def_name), _)| def_name == &name)
+      .filter(|((_, def_name), _)| def_name == &name)
+      .min_by_key(|((file, _), def)| (file.0, def.0))
       .map(|(_, def)| *def)
       .or_else(|| {
         self.def_by_name.and_then(|map| {
           map
             .iter()
-            .find(|((_, def_name), _)| def_name == &name)
+            .filter(|((_, def_name), _)| def_name == &name)
+            .min_by_key(|((file, _), def)| (file.0, def.0))
             .map(|(_, def)| *def)
         })
       })
diff --git a/typecheck-ts/src/check/hir_body.rs b/typecheck-ts/src/check/hir_body.rs
index e7dab2e..c55e98a 100644
--- a/typecheck-ts/src/check/hir_body.rs
+++ b/typecheck-ts/src/check/hir_body.rs
@@ -8127,8 +8127,13 @@ impl<'a> FlowBodyChecker<'a> {
       let id = bindings
         .param_bindings
         .iter()
-        .find(|b| matches!(b, BindingKey::Local { name: n, .. } if *n == *name))
-        .and_then(|b| bindings.flow_binding_for_key(*b))
+        .filter_map(|b| match b {
+          BindingKey::Local { pat, name: n } if *n == *name => Some((pat.0, b)),
+          _ => None,
+        })
+        // Of several parameters with the same name, the last one is what the name refers to.
+        .max_by_key(|(pat, _)| *pat)
+        .and_then(|(_, b)| bindings.flow_binding_for_key(*b))
         .unwrap_or_else(|| bindings.flow_binding_for_external(*name));
       initial_flow.insert(id, *ty);
     }
diff --git a/typecheck-ts/src/program/state.rs b/typecheck-ts/src/program/state.rs
index e7787bc..1762f7e 100644
--- a/typecheck-ts/src/program/state.rs
+++ b/typecheck-ts/src/program/state.rs
@@ -584,7 +584,9 @@ impl ProgramState {
         });
       }
     }
-    for data in self.def_data.values() {
+    let mut defs: Vec<_> = self.def_data.iter().collect();
+    defs.sort_by_key(|(def, _)| def.0);
+    for (_, data) in defs {
       let body = match &data.kind {
         DefKind::Function(func) => func.body,
         DefKind::Var(var) if var.body != MISSING_BODY => Some(var.body),
diff --git a/typecheck-ts/src/program/state/analysis/hir_align/bodies.rs b/typecheck-ts/src/program/state/analysis/hir_align/bodies.rs
index 92e0710..219f694 100644
--- a/typecheck-ts/src/program/state/analysis/hir_align/bodies.rs
+++ b/typecheck-ts/src/program/state/analysis/hir_align/bodies.rs
@@ -173,7 +173,8 @@ impl ProgramState {
             if let Some((_def_id, def)) = self
               .def_data
               .iter_mut()
-              .find(|(_, data)| data.file == file && data.name == "default")
+              .filter(|(_, data)| data.file == file && data.name == "default")
+              .min_by_key(|(id, _)| id.0)
             {
               if let DefKind::Var(var) = &mut def.kind {
                 var.body = *body;
diff --git a/typecheck-ts/src/program/state/analysis/hir_align/defs.rs b/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
index 39d7adc..389cea6 100644
--- a/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
+++ b/typecheck-ts/src/program/state/analysis/hir_align/defs.rs
@@ -423,8 +423,15 @@ impl ProgramState {
     self.interned_type_param_decls = new_interned_type_param_decls;
 
     self.symbol_to_def.clear();
-    for (def, data) in self.def_data.iter() {
-      self.symbol_to_def.insert(data.symbol, *def);
+    let mut symbol_defs: Vec<_> = self
+      .def_data
+      .iter()
+      .map(|(def, data)| (data.symbol, *def))
+      .collect();
+    symbol_defs.sort_by_key(|(symbol, def)| (symbol.0, def.0));
+    // Definitions may share a symbol; always keep the same one.
+    for (symbol, def) in symbol_defs {
+      self.symbol_to_def.entry(symbol).or_insert(def);
     }
     self.next_def = self
       .def_data
diff --git a/typecheck-ts/src/program/state/bodies/body_check.rs b/typecheck-ts/src/program/state/bodies/body_check.rs
index 8332a35..998c16e 100644
--- a/typecheck-ts/src/program/state/bodies/body_check.rs
+++ b/typecheck-ts/src/program/state/bodies/body_check.rs
@@ -653,7 +653,14 @@ impl ProgramState {
       return Err(err);
     }
 
-    for (name, def) in binding_defs.iter() {
+    // Computing a definition's type has effects on later ones, so the order must be fixed.
+    let mut ordered_defs: Vec<(String, DefId)> = binding_defs
+      .iter()
+      .map(|(name, def)| (name.clone(), *def))
+      .collect();
+    ordered_defs.sort();
+
+    for (name, def) in ordered_defs.iter() {
       if self.type_stack.contains(def) {
         continue;
       }
@@ -689,7 +696,7 @@ impl ProgramState {
 
     let prim = store.primitive_ids();
     let caches = self.checker_caches.for_body();
-    for def in binding_defs.values() {
+    for (_, def) in ordered_defs.iter() {
       if self.type_stack.contains(def) {
         continue;
       }
diff --git a/typecheck-ts/src/program/state/body_context.rs b/typecheck-ts/src/program/state/body_context.rs
index 6c19cce..1c43c11 100644
--- a/typecheck-ts/src/program/state/body_context.rs
+++ b/typecheck-ts/src/program/state/body_context.rs
@@ -88,8 +88,14 @@ impl ProgramState {
       file_bindings.insert(*file, state.bindings.clone());
     }
     let mut def_spans = HashMap::new();
-    for (def, data) in self.def_data.iter() {
-      def_spans.insert((data.file, data.span), *def);
+    let mut spanned_defs: Vec<_> = self
+      .def_data
+      .iter()
+      .map(|(def, data)| ((data.file, data.span), *def))
+      .collect();
+    spanned_defs.sort_by_key(|(_, def)| def.0);
+    for (span, def) in spanned_defs {
+      def_spans.insert(span, def);
     }
     let def_kinds = Arc::new(
       self
diff --git a/typecheck-ts/src/program/state/interned/ensure.rs b/typecheck-ts/src/program/state/interned/ensure.rs
index 69cc931..7a5a55f 100644
--- a/typecheck-ts/src/program/state/interned/ensure.rs
+++ b/typecheck-ts/src/program/state/interned/ensure.rs
@@ -543,13 +543,14 @@ impl ProgramState {
       }
     }
 
-    let import_defs: Vec<_> = self
+    let mut import_defs: Vec<_> = self
       .def_data
       .iter()
       .filter_map(|(def, data)| {
         matches!(data.kind, DefKind::Import(_)).then_some((*def, data.clone()))
       })
       .collect();
+    import_defs.sort_by_key(|(def, data)| (data.file.0, data.span.start, def.0));
     for (def_id, data) in import_defs {
       if def_types.contains_key(&def_id) {
         continue;
diff --git a/typecheck-ts/src/program/state/merging/interned_named.rs b/typecheck-ts/src/program/state/merging/interned_named.rs
index 8a5c536..e01a5c0 100644
--- a/typecheck-ts/src/program/state/merging/interned_named.rs
+++ b/typecheck-ts/src/program/state/merging/interned_named.rs
@@ -45,10 +45,13 @@ impl ProgramState {
     let resolver_defs = Arc::new(def_by_name.clone());
     let mut def_by_span: HashMap<(FileId, TextRange), DefId> = HashMap::new();
     let mut defs_by_name: HashMap<(FileId, String), Vec<DefId>> = HashMap::new();
-    for (def_id, data) in self.def_data.iter() {
-      if !matches!(data.kind, DefKind::Function(_)) {
-        continue;
-      }
+    let mut function_defs: Vec<_> = self
+      .def_data
+      .iter()
+      .filter(|(_, data)| matches!(data.kind, DefKind::Function(_)))
+      .collect();
+    function_defs.sort_by_key(|(def_id, _)| def_id.0);
+    for (def_id, data) in function_defs {
       def_by_span.insert((data.file, data.span), *def_id);
       defs_by_name
         .entry((data.file, data.name.clone()))
diff --git a/typecheck-ts/src/program/state/merging/namespace.rs b/typecheck-ts/src/program/state/merging/namespace.rs
index 8836180..db81d7b 100644
--- a/typecheck-ts/src/program/state/merging/namespace.rs
+++ b/typecheck-ts/src/program/state/merging/namespace.rs
@@ -5,12 +5,14 @@ impl ProgramState {
     self
       .def_data
       .iter()
-      .find_map(|(id, data)| match &data.kind {
-        DefKind::Namespace(_) | DefKind::Module(_) if data.file == file && data.name == name => {
-          Some(*id)
-        }
-        _ => None,
+      .filter(|(_, data)| {
+        matches!(data.kind, DefKind::Namespace(_) | DefKind::Module(_))
+          && data.file == file
+          && data.name == name
       })
+      .map(|(id, data)| (data.span.start, id.0))
+      .min()
+      .map(|(_, id)| DefId(id))
   }
 
   pub(in super::super) fn merge_namespace_value_types(&mut self) -> Result<(), FatalError> {
diff --git a/typecheck-ts/src/program/state/merging/overloads.rs b/typecheck-ts/src/program/state/merging/overloads.rs
index 72f1aa8..2f3e6d9 100644
--- a/typecheck-ts/src/program/state/merging/overloads.rs
+++ b/typecheck-ts/src/program/state/merging/overloads.rs
@@ -6,11 +6,14 @@ impl ProgramState {
     if let Some(semantics) = self.semantics.as_ref() {
       let symbols = semantics.symbols();
       let mut seen_symbols = HashSet::new();
-      for def_id in self
+      let mut function_defs: Vec<DefId> = self
         .def_data
         .iter()
-        .filter_map(|(def_id, data)| matches!(data.kind, DefKind::Function(_)).then_some(def_id))
-      {
+        .filter_map(|(def_id, data)| matches!(data.kind, DefKind::Function(_)).then_some(*def_id))
+        .collect();
+      // The first symbol seen for a name provides its overloads, so the order must be fixed.
+      function_defs.sort();
+      for def_id in function_defs {
         let Some(symbol) =
           semantics.symbol_for_def(sem_ts::DefId(def_id.0), sem_ts::Namespace::VALUE)
         else {
-- 
2.43.0


From e9c31bcd4c37b7e0ccdbbc4c798fbb118f228a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 07/40] fix: constant folding follows JavaScript for **,
 Math.round, BigInt and string comparison

---
 minify-js/src/opt/const_fold.rs   | 11 +++++-
 optimize-js/src/eval/consteval.rs | 56 +++++++++++++++++++++++++------
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 50b10fa..89213b1 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -692,7 +692,7 @@ fn fold_binary_expr(
           Multiplication => l * r,
           Division => l / r,
           Remainder => l % r,
-          Exponentiation => l.powf(r),
+          Exponentiation => js_pow(l, r),
           _ => unreachable!(),
         };
         *changed = true;
@@ -998,6 +998,15 @@ fn const_to_string(val: ConstVal<'_>) -> Option<String> {
   })
 }
 
+// Unlike IEEE 754 `pow`, JavaScript gives NaN for `1 ** NaN` and for `(+-1) ** (+-Infinity)`.
+fn js_pow(base: f64, exponent: f64) -> f64 {
+  if exponent.is_nan() || (base.abs() == 1.0 && exponent.is_infinite()) {
+    f64::NAN
+  } else {
+    base.powf(exponent)
+  }
+}
+
 fn js_to_uint32(n: f64) -> u32 {
   if !n.is_finite() || n == 0.0 {
     return 0;
diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 97e426b..08020ab 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -5,7 +5,7 @@ use crate::il::inst::Const::*;
 use crate::il::inst::UnOp;
 use crate::il::inst::UnOp::*;
 use num_bigint::{BigInt, Sign};
-use num_traits::ToPrimitive;
+use num_traits::{FromPrimitive, ToPrimitive};
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
 use parse_js::num::JsNumber as JN;
 use std::cmp::Ordering;
@@ -54,7 +54,7 @@ fn parse_int_digits_to_bigint(digits: &str, radix: u32) -> Option<BigInt> {
 pub fn parse_bigint(raw: &str) -> Option<BigInt> {
   let trimmed = trim_js_whitespace(raw);
   if trimmed.is_empty() {
-    return None;
+    return Some(BigInt::from(0));
   }
   let (sign, body) = match trimmed.strip_prefix('+') {
     Some(rest) => (1, rest),
@@ -211,7 +211,7 @@ fn coerce_to_int32(v: &Const) -> Option<i32> {
 // https://developer.mozilla.org/en-US/docs/Glossary/Falsy
 pub fn coerce_to_bool(v: &Const) -> bool {
   match v {
-    BigInt(v) => v == &BigInt::from(0),
+    BigInt(v) => v != &BigInt::from(0),
     Bool(b) => *b,
     Null => false,
     Num(JN(v)) => !v.is_nan() && *v != 0.0,
@@ -224,10 +224,13 @@ pub fn coerce_to_bool(v: &Const) -> bool {
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   match (a, b) {
-    (Str(a), Str(b)) => Some(a.cmp(b)),
+    // Strings compare by UTF-16 code unit.
+    (Str(a), Str(b)) => Some(a.encode_utf16().cmp(b.encode_utf16())),
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
+    (BigInt(a), b) => cmp_bigint_num(a, coerce_to_num(b)),
+    (a, BigInt(b)) => cmp_bigint_num(b, coerce_to_num(a)).map(Ordering::reverse),
     (a, b) => {
       // https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-lessThan
       let a = coerce_to_num(a);
@@ -241,6 +244,18 @@ pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   }
 }
 
+// Compares by mathematical value.
+fn cmp_bigint_num(a: &BigInt, b: f64) -> Option<Ordering> {
+  if b.is_nan() {
+    return None;
+  }
+  match BigInt::from_f64(b.trunc()) {
+    Some(int) => Some(a.cmp(&int).then(0.0.partial_cmp(&b.fract())?)),
+    None if b > 0.0 => Some(Ordering::Less),
+    None => Some(Ordering::Greater),
+  }
+}
+
 pub fn js_div(a: f64, b: f64) -> f64 {
   a / b
 }
@@ -253,6 +268,25 @@ pub fn js_mod(a: f64, b: f64) -> f64 {
   }
 }
 
+// Unlike IEEE 754 `pow`, JavaScript gives NaN for `1 ** NaN` and for `(+-1) ** (+-Infinity)`.
+pub fn js_pow(base: f64, exponent: f64) -> f64 {
+  if exponent.is_nan() || (base.abs() == 1.0 && exponent.is_infinite()) {
+    f64::NAN
+  } else {
+    base.powf(exponent)
+  }
+}
+
+// `Math.round` rounds halves towards positive infinity, and keeps the sign of zero.
+pub fn js_round(n: f64) -> f64 {
+  let floor = n.floor();
+  if n - floor >= 0.5 {
+    n.ceil()
+  } else {
+    floor
+  }
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islooselyequal
 pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
   if discriminant(a) == discriminant(b) {
@@ -267,8 +301,8 @@ pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
     (Str(l), BigInt(r)) => parse_bigint(l).is_some_and(|l| &l == r),
     (Bool(l), r) => js_loose_eq(&Num(JN(*l as u8 as f64)), r),
     (l, Bool(r)) => js_loose_eq(l, &Num(JN(*r as u8 as f64))),
-    (BigInt(l), Num(r)) => r.0.is_finite() && coerce_bigint_to_num(l) == r.0,
-    (Num(l), BigInt(r)) => l.0.is_finite() && l.0 == coerce_bigint_to_num(r),
+    (BigInt(l), Num(r)) => cmp_bigint_num(l, r.0) == Some(Ordering::Equal),
+    (Num(l), BigInt(r)) => cmp_bigint_num(r, l.0) == Some(Ordering::Equal),
     _ => false,
   }
 }
@@ -295,10 +329,10 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
     (BitAnd, l, r) => Num(JN((coerce_to_int32(l)? & coerce_to_int32(r)?) as f64)),
     (BitOr, l, r) => Num(JN((coerce_to_int32(l)? | coerce_to_int32(r)?) as f64)),
     (BitXor, l, r) => Num(JN((coerce_to_int32(l)? ^ coerce_to_int32(r)?) as f64)),
-    (Exp, Num(l), Num(r)) => Num(JN(l.0.powf(r.0))),
-    (Exp, Num(l), Str(r)) => Num(JN(l.0.powf(coerce_str_to_num(r)))),
-    (Exp, Str(l), Num(r)) => Num(JN(coerce_str_to_num(l).powf(r.0))),
-    (Exp, Str(l), Str(r)) => Num(JN(coerce_str_to_num(l).powf(coerce_str_to_num(r)))),
+    (Exp, Num(l), Num(r)) => Num(JN(js_pow(l.0, r.0))),
+    (Exp, Num(l), Str(r)) => Num(JN(js_pow(l.0, coerce_str_to_num(r)))),
+    (Exp, Str(l), Num(r)) => Num(JN(js_pow(coerce_str_to_num(l), r.0))),
+    (Exp, Str(l), Str(r)) => Num(JN(js_pow(coerce_str_to_num(l), coerce_str_to_num(r)))),
     (Geq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_ge())),
     (Gt, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_gt())),
     (Leq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_le())),
@@ -371,7 +405,7 @@ pub fn maybe_eval_const_builtin_call(func: &str, args: &[Const]) -> Option<Const
       ("Math.log10", Num(a)) => Num(JN(a.0.log10())),
       ("Math.log1p", Num(a)) => Num(JN(a.0.ln_1p())),
       ("Math.log2", Num(a)) => Num(JN(a.0.log2())),
-      ("Math.round", Num(a)) => Num(JN(a.0.round())),
+      ("Math.round", Num(a)) => Num(JN(js_round(a.0))),
       ("Math.sin", Num(a)) => Num(JN(a.0.sin())),
       ("Math.sqrt", Num(a)) => Num(JN(a.0.sqrt())),
       ("Math.tan", Num(a)) => Num(JN(a.0.tan())),
-- 
2.43.0


From f695afb848a61f117609c4cc28ab9ba12c329083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 08/40] fix: emit-js writes one n after BigInt literals that
 already carry it

---
 emit-js/src/emitter.rs | 5 +++--
 emit-js/src/expr.rs    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 4afe538..b7deab4 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -343,9 +343,10 @@ impl Emitter {
     self.write_with_kind(number, TokenKind::Number);
   }
 
-  /// Emits a BigInt literal from its canonical decimal digits (without the
-  /// trailing `n`).
+  /// Emits a BigInt literal from its canonical decimal digits (with or without
+  /// the trailing `n`).
   pub fn write_bigint_literal(&mut self, digits: &str) {
+    let digits = digits.strip_suffix('n').unwrap_or(digits);
     if digits.is_empty() {
       return;
     }
diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index e4c4eef..a6e0f12 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -185,7 +185,8 @@ where
 
   fn emit_lit_big_int(&mut self, lit: &Node<LitBigIntExpr>) -> EmitResult {
     with_node_context(lit.loc, || {
-      write!(self.out, "{}n", lit.stx.value)?;
+      let digits = &lit.stx.value;
+      write!(self.out, "{}n", digits.strip_suffix('n').unwrap_or(digits))?;
       Ok(())
     })
   }
-- 
2.43.0


From 47ebffcb0dabeee1db9c0505dfe90dcb05e35bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 09/40] fix: vm-js: closing an iterator must not swallow
 termination or out-of-memory

---
 vm-js/src/builtins.rs | 16 ++++++++--------
 vm-js/src/exec.rs     | 24 +++++++++++++-----------
 vm-js/src/iterator.rs | 34 +++++++++++++++++++++++++++++++---
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/vm-js/src/builtins.rs b/vm-js/src/builtins.rs
index 020d125..223cc97 100644
--- a/vm-js/src/builtins.rs
+++ b/vm-js/src/builtins.rs
@@ -2142,9 +2142,9 @@ pub fn promise_all(
 
   match result {
     Ok(v) => Ok(v),
-    Err(err) => {
+    Err(mut err) => {
       if !iterator_record.done {
-        let _ = crate::iterator::iterator_close(vm, host, hooks, scope, &iterator_record);
+        err = crate::iterator::iterator_close_on_error(vm, host, hooks, scope, &iterator_record, err);
       }
       if_abrupt_reject_promise(vm, scope, host, hooks, capability, err)
     }
@@ -2216,9 +2216,9 @@ pub fn promise_race(
 
   match result {
     Ok(v) => Ok(v),
-    Err(err) => {
+    Err(mut err) => {
       if !iterator_record.done {
-        let _ = crate::iterator::iterator_close(vm, host, hooks, scope, &iterator_record);
+        err = crate::iterator::iterator_close_on_error(vm, host, hooks, scope, &iterator_record, err);
       }
       if_abrupt_reject_promise(vm, scope, host, hooks, capability, err)
     }
@@ -2407,9 +2407,9 @@ pub fn promise_all_settled(
 
   match result {
     Ok(v) => Ok(v),
-    Err(err) => {
+    Err(mut err) => {
       if !iterator_record.done {
-        let _ = crate::iterator::iterator_close(vm, host, hooks, scope, &iterator_record);
+        err = crate::iterator::iterator_close_on_error(vm, host, hooks, scope, &iterator_record, err);
       }
       if_abrupt_reject_promise(vm, scope, host, hooks, capability, err)
     }
@@ -2580,9 +2580,9 @@ pub fn promise_any(
 
   match result {
     Ok(v) => Ok(v),
-    Err(err) => {
+    Err(mut err) => {
       if !iterator_record.done {
-        let _ = crate::iterator::iterator_close(vm, host, hooks, scope, &iterator_record);
+        err = crate::iterator::iterator_close_on_error(vm, host, hooks, scope, &iterator_record, err);
       }
       if_abrupt_reject_promise(vm, scope, host, hooks, capability, err)
     }
diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 01de14e..f617128 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -2568,14 +2568,14 @@ impl<'a> Evaluator<'a> {
       {
         Ok(v) => v,
         Err(err) => {
-          let _ = iterator::iterator_close(
+          return Err(iterator::iterator_close_on_error(
             self.vm,
             &mut *self.host,
             &mut *self.hooks,
             &mut iter_scope,
             &iterator_record,
-          );
-          return Err(err);
+            err,
+          ));
         }
       };
 
@@ -2623,27 +2623,27 @@ impl<'a> Evaluator<'a> {
       };
 
       if let Err(err) = bind_res {
-        let _ = iterator::iterator_close(
+        return Err(iterator::iterator_close_on_error(
           self.vm,
           &mut *self.host,
           &mut *self.hooks,
           &mut iter_scope,
           &iterator_record,
-        );
-        return Err(err);
+          err,
+        ));
       }
 
       let body_completion = match self.eval_for_body(&mut iter_scope, &stmt.body.stx) {
         Ok(c) => c,
         Err(err) => {
-          let _ = iterator::iterator_close(
+          return Err(iterator::iterator_close_on_error(
             self.vm,
             &mut *self.host,
             &mut *self.hooks,
             &mut iter_scope,
             &iterator_record,
-          );
-          return Err(err);
+            err,
+          ));
         }
       };
 
@@ -2653,13 +2653,15 @@ impl<'a> Evaluator<'a> {
         if let Some(value) = body_completion.value() {
           iter_scope.push_root(value)?;
         }
-        let _ = iterator::iterator_close(
+        if let Err(err @ (VmError::Termination(_) | VmError::OutOfMemory)) = iterator::iterator_close(
           self.vm,
           &mut *self.host,
           &mut *self.hooks,
           &mut iter_scope,
           &iterator_record,
-        );
+        ) {
+          return Err(err);
+        }
         return Ok(body_completion.update_empty(Some(v)));
       }
 
diff --git a/vm-js/src/iterator.rs b/vm-js/src/iterator.rs
index e6fc2e2..420abfd 100644
--- a/vm-js/src/iterator.rs
+++ b/vm-js/src/iterator.rs
@@ -277,9 +277,37 @@ pub fn iterator_close(
     return Ok(());
   };
 
-  // Best-effort: ignore errors.
-  let _ = vm.call_with_host_and_hooks(host, scope, hooks, return_method, record.iterator, &[]);
-  Ok(())
+  // Best-effort: ignore errors, except for those that no script can catch.
+  match vm.call_with_host_and_hooks(host, scope, hooks, return_method, record.iterator, &[]) {
+    Err(err @ (VmError::Termination(_) | VmError::OutOfMemory)) => Err(err),
+    _ => Ok(()),
+  }
+}
+
+/// Closes an iterator because of `err`, and returns the error to propagate: `err` itself, unless
+/// closing the iterator fails in a way that no script can catch.
+pub(crate) fn iterator_close_on_error(
+  vm: &mut Vm,
+  host: &mut dyn VmHost,
+  hooks: &mut dyn VmHostHooks,
+  scope: &mut Scope<'_>,
+  record: &IteratorRecord,
+  err: VmError,
+) -> VmError {
+  if matches!(err, VmError::Termination(_) | VmError::OutOfMemory) {
+    return err;
+  }
+  // Root the thrown value while `return` runs, which may allocate and trigger GC.
+  let mut scope = scope.reborrow();
+  if let Some(value) = err.thrown_value() {
+    if let Err(root_err) = scope.push_root(value) {
+      return root_err;
+    }
+  }
+  match iterator_close(vm, host, hooks, &mut scope, record) {
+    Err(close_err @ (VmError::Termination(_) | VmError::OutOfMemory)) => close_err,
+    _ => err,
+  }
 }
 
 // Note: old `vm-js.internal.ArrayMarker` tagging was removed now that arrays are proper exotic
-- 
2.43.0


From af68247a70054ffed2f7079d36ef0ac972a1b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 10/40] fix: runtime-js: do not ignore out-of-memory when
 rooting

---
 runtime-js/src/lib.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/runtime-js/src/lib.rs b/runtime-js/src/lib.rs
index dbe9123..2fab1f3 100644
--- a/runtime-js/src/lib.rs
+++ b/runtime-js/src/lib.rs
@@ -185,18 +185,18 @@ impl<'a> Engine<'a> {
 
       // Keep core handles alive regardless of what JS code does.
       let heap_mut = scope.heap_mut();
-      heap_mut.add_root(Value::Object(global_env));
-      heap_mut.add_root(Value::Object(global_this));
-      heap_mut.add_root(Value::Object(object_prototype));
-      heap_mut.add_root(Value::String(key_prototype));
-      heap_mut.add_root(Value::String(key_constructor));
-      heap_mut.add_root(Value::String(key_name));
-      heap_mut.add_root(Value::String(key_object));
-      heap_mut.add_root(Value::String(key_undefined));
-      heap_mut.add_root(Value::Symbol(sym_function_id));
-      heap_mut.add_root(Value::Symbol(sym_function_env));
-      heap_mut.add_root(Value::String(type_error_str));
-      heap_mut.add_root(Value::Object(object_ctor));
+      heap_mut.add_root(Value::Object(global_env))?;
+      heap_mut.add_root(Value::Object(global_this))?;
+      heap_mut.add_root(Value::Object(object_prototype))?;
+      heap_mut.add_root(Value::String(key_prototype))?;
+      heap_mut.add_root(Value::String(key_constructor))?;
+      heap_mut.add_root(Value::String(key_name))?;
+      heap_mut.add_root(Value::String(key_object))?;
+      heap_mut.add_root(Value::String(key_undefined))?;
+      heap_mut.add_root(Value::Symbol(sym_function_id))?;
+      heap_mut.add_root(Value::Symbol(sym_function_env))?;
+      heap_mut.add_root(Value::String(type_error_str))?;
+      heap_mut.add_root(Value::Object(object_ctor))?;
 
       (
         global_env,
@@ -868,8 +868,8 @@ impl<'a> Engine<'a> {
 
     // Root the new environment + this for the duration of the call.
     let mut call_scope = scope.reborrow();
-    call_scope.push_root(Value::Object(local_env));
-    call_scope.push_root(this_arg);
+    call_scope.push_root(Value::Object(local_env))?;
+    call_scope.push_root(this_arg)?;
 
     // Bind parameters.
     for (idx, param) in func.stx.parameters.iter().enumerate() {
-- 
2.43.0


From 2b9c2a37092e5944728388281efce70392e779e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 11/40] fix: runtime-js: bound the call depth

---
 runtime-js/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime-js/src/lib.rs b/runtime-js/src/lib.rs
index 2fab1f3..2ad9045 100644
--- a/runtime-js/src/lib.rs
+++ b/runtime-js/src/lib.rs
@@ -36,6 +36,7 @@ use vm_js::PropertyDescriptor;
 use vm_js::PropertyKey;
 use vm_js::PropertyKind;
 use vm_js::Scope;
+use vm_js::StackFrame;
 use vm_js::Value;
 use vm_js::Vm;
 use vm_js::VmError;
@@ -833,7 +834,19 @@ impl<'a> Engine<'a> {
           scope.alloc_object_with_prototype(Some(self.object_prototype))?,
         ))
       }
-      FunctionKind::User { func } => self.call_user_function(scope, fn_obj, func, this_arg, args),
+      FunctionKind::User { func } => {
+        let func = *func;
+        // Bounds the recursion depth.
+        self.vm.push_frame(StackFrame {
+          function: None,
+          source: "<script>".into(),
+          line: 0,
+          col: 0,
+        })?;
+        let result = self.call_user_function(scope, fn_obj, func, this_arg, args);
+        self.vm.pop_frame();
+        result
+      }
     }
   }
 
-- 
2.43.0


From c238cfe33ca9e67413e299942e5266163cdf6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 12/40] fix: vm-js: bound the native recursion through bound
 functions

---
 vm-js/src/exec.rs | 103 ++++++++++++++++---------------
 vm-js/src/vm.rs   | 152 +++++++++++++++++++++++-----------------------
 2 files changed, 130 insertions(+), 125 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index f617128..2ae13aa 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -4576,7 +4576,7 @@ impl<'a> Evaluator<'a> {
     &mut self,
     scope: &mut Scope<'_>,
     object: Value,
-    constructor: Value,
+    mut constructor: Value,
   ) -> Result<bool, VmError> {
     // Root inputs for the duration of the operation: `instanceof` may allocate when performing
     // `GetMethod`/`Get`/`Call`.
@@ -4584,55 +4584,67 @@ impl<'a> Evaluator<'a> {
     scope.push_root(object)?;
     scope.push_root(constructor)?;
 
-    // 1. `C` must be callable.
-    if !scope.heap().is_callable(constructor)? {
-      return Err(throw_type_error(
-        self.vm,
-        &mut scope,
-        "Right-hand side of 'instanceof' is not callable",
-      )?);
-    }
-    let Value::Object(constructor_obj) = constructor else {
-      // `Heap::is_callable` returning true for a non-object would be an internal bug.
-      return Err(VmError::InvariantViolation(
-        "instanceof: is_callable returned true for non-object",
-      ));
-    };
-
-    // 2. GetMethod(C, @@hasInstance).
-    let has_instance_sym = self
-      .vm
-      .intrinsics()
-      .ok_or(VmError::Unimplemented("intrinsics not initialized"))?
-      .well_known_symbols()
-      .has_instance;
-    let has_instance_key = PropertyKey::from_symbol(has_instance_sym);
-    let method = match self
-      .vm
-      .get_method(&mut scope, constructor, has_instance_key)
-    {
-      Ok(method) => method,
-      Err(VmError::TypeError(_) | VmError::NotCallable) => {
+    loop {
+      // 1. `C` must be callable.
+      if !scope.heap().is_callable(constructor)? {
         return Err(throw_type_error(
           self.vm,
           &mut scope,
-          "@@hasInstance is not callable",
+          "Right-hand side of 'instanceof' is not callable",
         )?);
       }
-      Err(err) => return Err(err),
-    };
+      let Value::Object(constructor_obj) = constructor else {
+        // `Heap::is_callable` returning true for a non-object would be an internal bug.
+        return Err(VmError::InvariantViolation(
+          "instanceof: is_callable returned true for non-object",
+        ));
+      };
 
-    if let Some(method) = method {
-      let result = self.call(&mut scope, method, Value::Object(constructor_obj), &[object])?;
-      return Ok(to_boolean(scope.heap(), result)?);
-    }
+      // 2. GetMethod(C, @@hasInstance).
+      let has_instance_sym = self
+        .vm
+        .intrinsics()
+        .ok_or(VmError::Unimplemented("intrinsics not initialized"))?
+        .well_known_symbols()
+        .has_instance;
+      let has_instance_key = PropertyKey::from_symbol(has_instance_sym);
+      let method = match self
+        .vm
+        .get_method(&mut scope, constructor, has_instance_key)
+      {
+        Ok(method) => method,
+        Err(VmError::TypeError(_) | VmError::NotCallable) => {
+          return Err(throw_type_error(
+            self.vm,
+            &mut scope,
+            "@@hasInstance is not callable",
+          )?);
+        }
+        Err(err) => return Err(err),
+      };
 
-    // 3. If `C` is not constructable, `instanceof` is `false`.
-    if !scope.heap().is_constructor(constructor)? {
-      return Ok(false);
-    }
+      if let Some(method) = method {
+        let result = self.call(&mut scope, method, Value::Object(constructor_obj), &[object])?;
+        return Ok(to_boolean(scope.heap(), result)?);
+      }
 
-    self.ordinary_has_instance(&mut scope, object, constructor_obj)
+      // 3. If `C` is not constructable, `instanceof` is `false`.
+      if !scope.heap().is_constructor(constructor)? {
+        return Ok(false);
+      }
+
+      // 4. Bound functions delegate `instanceof` checks to their target.
+      if let Ok(func) = scope.heap().get_function(constructor_obj) {
+        if let Some(bound_target) = func.bound_target {
+          self.tick()?;
+          constructor = Value::Object(bound_target);
+          scope.push_root(constructor)?;
+          continue;
+        }
+      }
+
+      return self.ordinary_has_instance(&mut scope, object, constructor_obj);
+    }
   }
 
   fn ordinary_has_instance(
@@ -4641,13 +4653,6 @@ impl<'a> Evaluator<'a> {
     object: Value,
     constructor: GcObject,
   ) -> Result<bool, VmError> {
-    // Bound functions delegate `instanceof` checks to their target.
-    if let Ok(func) = scope.heap().get_function(constructor) {
-      if let Some(bound_target) = func.bound_target {
-        return self.instanceof_operator(scope, object, Value::Object(bound_target));
-      }
-    }
-
     // If the LHS is not an object, `instanceof` is `false` without further observable actions.
     let Value::Object(object) = object else {
       return Ok(false);
diff --git a/vm-js/src/vm.rs b/vm-js/src/vm.rs
index 93f062b..ffac5a6 100644
--- a/vm-js/src/vm.rs
+++ b/vm-js/src/vm.rs
@@ -1212,6 +1212,21 @@ impl Vm {
     result
   }
 
+  /// The arguments with which a bound function calls its target.
+  fn concat_bound_args(bound_args: &[Value], args: &[Value]) -> Result<Vec<Value>, VmError> {
+    let total_len = bound_args
+      .len()
+      .checked_add(args.len())
+      .ok_or(VmError::OutOfMemory)?;
+    let mut combined: Vec<Value> = Vec::new();
+    combined
+      .try_reserve_exact(total_len)
+      .map_err(|_| VmError::OutOfMemory)?;
+    combined.extend_from_slice(bound_args);
+    combined.extend_from_slice(args);
+    Ok(combined)
+  }
+
   fn call_impl(
     &mut self,
     host: &mut dyn VmHost,
@@ -1230,41 +1245,36 @@ impl Vm {
     scope.push_roots_with_extra_roots(&roots, args, &[])?;
     scope.push_roots(args)?;
 
-    let callee_obj = match callee {
-      Value::Object(obj) => obj,
-      _ => return Err(VmError::NotCallable),
+    let mut callee = callee;
+    let mut this = this;
+    let mut combined: Option<Vec<Value>> = None;
+    let callee_obj = loop {
+      let callee_obj = match callee {
+        Value::Object(obj) => obj,
+        _ => return Err(VmError::NotCallable),
+      };
+      // Bound function dispatch: if the callee has `[[BoundTargetFunction]]`, forward the call to
+      // the target with the bound `this` and arguments. Chains of bound functions can be
+      // arbitrarily long, so follow them iteratively and within the budget.
+      let Ok(func) = scope.heap().get_function(callee_obj) else {
+        break callee_obj;
+      };
+      let Some(bound_target) = func.bound_target else {
+        break callee_obj;
+      };
+      self.tick()?;
+
+      let bound_args = func.bound_args.as_deref().unwrap_or(&[]);
+      let forwarded = Self::concat_bound_args(bound_args, combined.as_deref().unwrap_or(args))?;
+      callee = Value::Object(bound_target);
+      this = func.bound_this.unwrap_or(Value::Undefined);
+
+      // Root the forwarded inputs for the duration of the call.
+      scope.push_roots_with_extra_roots(&[callee, this], &forwarded, &[])?;
+      scope.push_roots(&forwarded)?;
+      combined = Some(forwarded);
     };
-    // Bound function dispatch: if the callee has `[[BoundTargetFunction]]`, forward the call to
-    // the target with the bound `this` and arguments.
-    if let Ok(func) = scope.heap().get_function(callee_obj) {
-      if let Some(bound_target) = func.bound_target {
-        let bound_this = func.bound_this.unwrap_or(Value::Undefined);
-        let bound_args = func.bound_args.as_deref().unwrap_or(&[]);
-
-        let total_len = bound_args
-          .len()
-          .checked_add(args.len())
-          .ok_or(VmError::OutOfMemory)?;
-        let mut combined: Vec<Value> = Vec::new();
-        combined
-          .try_reserve_exact(total_len)
-          .map_err(|_| VmError::OutOfMemory)?;
-        combined.extend_from_slice(bound_args);
-        combined.extend_from_slice(args);
-
-        // Root the concatenated list for the duration of the forwarding call.
-        scope.push_roots(&combined)?;
-
-        return self.call_impl(
-          host,
-          &mut scope,
-          hooks,
-          Value::Object(bound_target),
-          bound_this,
-          &combined,
-        );
-      }
-    }
+    let args = combined.as_deref().unwrap_or(args);
     let call_handler = scope.heap().get_function_call_handler(callee_obj)?;
 
     let function_name = scope
@@ -1460,49 +1470,39 @@ impl Vm {
     scope.push_roots_with_extra_roots(&roots, args, &[])?;
     scope.push_roots(args)?;
 
-    let callee_obj = match callee {
-      Value::Object(obj) => obj,
-      _ => return Err(VmError::NotConstructable),
-    };
-
-    // Bound function dispatch: if the callee has `[[BoundTargetFunction]]`, forward construction to
-    // the target with concatenated arguments.
-    if let Ok(func) = scope.heap().get_function(callee_obj) {
-      if let Some(bound_target) = func.bound_target {
-        let bound_args = func.bound_args.as_deref().unwrap_or(&[]);
-
-        let total_len = bound_args
-          .len()
-          .checked_add(args.len())
-          .ok_or(VmError::OutOfMemory)?;
-        let mut combined: Vec<Value> = Vec::new();
-        combined
-          .try_reserve_exact(total_len)
-          .map_err(|_| VmError::OutOfMemory)?;
-        combined.extend_from_slice(bound_args);
-        combined.extend_from_slice(args);
-
-        // ECMA-262: if `new_target` is the bound function itself, forward `new_target` as the
-        // target function.
-        let forwarded_new_target = if new_target == callee {
-          Value::Object(bound_target)
-        } else {
-          new_target
-        };
-
-        // Root the concatenated list for the duration of the forwarding call.
-        scope.push_roots(&combined)?;
-
-        return self.construct_impl(
-          host,
-          &mut scope,
-          hooks,
-          Value::Object(bound_target),
-          &combined,
-          forwarded_new_target,
-        );
+    let mut callee = callee;
+    let mut new_target = new_target;
+    let mut combined: Option<Vec<Value>> = None;
+    let callee_obj = loop {
+      let callee_obj = match callee {
+        Value::Object(obj) => obj,
+        _ => return Err(VmError::NotConstructable),
+      };
+      // Bound function dispatch: if the callee has `[[BoundTargetFunction]]`, forward construction
+      // to the target with concatenated arguments. See `Vm::call_impl`.
+      let Ok(func) = scope.heap().get_function(callee_obj) else {
+        break callee_obj;
+      };
+      let Some(bound_target) = func.bound_target else {
+        break callee_obj;
+      };
+      self.tick()?;
+
+      let bound_args = func.bound_args.as_deref().unwrap_or(&[]);
+      let forwarded = Self::concat_bound_args(bound_args, combined.as_deref().unwrap_or(args))?;
+      // ECMA-262: if `new_target` is the bound function itself, forward `new_target` as the
+      // target function.
+      if new_target == callee {
+        new_target = Value::Object(bound_target);
       }
-    }
+      callee = Value::Object(bound_target);
+
+      // Root the forwarded inputs for the duration of the construction.
+      scope.push_roots_with_extra_roots(&[callee, new_target], &forwarded, &[])?;
+      scope.push_roots(&forwarded)?;
+      combined = Some(forwarded);
+    };
+    let args = combined.as_deref().unwrap_or(args);
     let construct_handler = scope
       .heap()
       .get_function_construct_handler(callee_obj)?
-- 
2.43.0


From 3ec298a54ee77b9673533aef3fa6763e3d70c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 13/40] fix: vm-js: check the budget in loops whose length the
 script chooses

---
 vm-js/src/builtins.rs    | 5 +++--
 vm-js/src/destructure.rs | 1 +
 vm-js/src/iterator.rs    | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vm-js/src/builtins.rs b/vm-js/src/builtins.rs
index 223cc97..66e0a21 100644
--- a/vm-js/src/builtins.rs
+++ b/vm-js/src/builtins.rs
@@ -40,7 +40,7 @@ fn require_callable(this: Value) -> Result<GcObject, VmError> {
   }
 }
 
-fn get_array_like_args(scope: &mut Scope<'_>, obj: GcObject) -> Result<Vec<Value>, VmError> {
+fn get_array_like_args(vm: &mut Vm, scope: &mut Scope<'_>, obj: GcObject) -> Result<Vec<Value>, VmError> {
   // Treat `obj` as array-like:
   // - read `length` as a Number
   // - read indices 0..length-1 as data properties
@@ -73,6 +73,7 @@ fn get_array_like_args(scope: &mut Scope<'_>, obj: GcObject) -> Result<Vec<Value
     .map_err(|_| VmError::OutOfMemory)?;
 
   for idx in 0..length {
+    vm.tick()?;
     let idx_s = scope.alloc_string(&idx.to_string())?;
     let key = PropertyKey::from_string(idx_s);
     let desc = scope.heap().get_property(obj, &key)?;
@@ -2944,7 +2945,7 @@ pub fn function_prototype_apply(
       // Root `obj` while building the argument list, since we may allocate strings for property
       // keys and trigger a GC.
       scope.push_root(Value::Object(obj))?;
-      let list = get_array_like_args(scope, obj)?;
+      let list = get_array_like_args(vm, scope, obj)?;
       vm.call_with_host(scope, host, Value::Object(target), this_arg, &list)
     }
     _ => Err(VmError::Unimplemented(
diff --git a/vm-js/src/destructure.rs b/vm-js/src/destructure.rs
index ccf802f..58eacfa 100644
--- a/vm-js/src/destructure.rs
+++ b/vm-js/src/destructure.rs
@@ -369,6 +369,7 @@ fn bind_array_pattern(
 
   let mut rest_idx: u32 = 0;
   while idx < len {
+    vm.tick()?;
     let v = array_like_get(vm, host, hooks, scope, obj, idx)?;
     {
       // Root the element value while allocating the property key and defining the property:
diff --git a/vm-js/src/iterator.rs b/vm-js/src/iterator.rs
index 420abfd..f918c26 100644
--- a/vm-js/src/iterator.rs
+++ b/vm-js/src/iterator.rs
@@ -235,6 +235,8 @@ pub fn iterator_step_value(
         return Ok(None);
       }
 
+      // Unlike the protocol, no call charges for this step.
+      vm.tick()?;
       let idx = *next_index;
       *next_index = next_index.saturating_add(1);
 
-- 
2.43.0


From 27a07d44699840617a74712b485cb5e34f6fd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 14/40] fix: vm-js: bound the nesting of direct eval

Direct eval evaluated its code without entering a frame, so eval inside
eval was bounded only by the native stack, which it overflowed. It now
counts against the stack depth limit like any other call, and an
environment that cannot be allocated no longer leaves the caller with
the eval code's source info.
---
 vm-js/src/exec.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 2ae13aa..6d29d9e 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -4323,8 +4323,16 @@ impl<'a> Evaluator<'a> {
     let prev_lexical_env = self.env.lexical_env;
     let prev_strict = self.strict;
 
-    self.env.set_source_info(source.clone(), 0, 0);
     let eval_lex = scope.env_create(Some(prev_lexical_env))?;
+    // Record a frame for the eval code: it bounds how deeply evals can nest.
+    let (line, col) = source.line_col(0);
+    self.vm.push_frame(StackFrame {
+      function: None,
+      source: source.name.clone(),
+      line,
+      col,
+    })?;
+    self.env.set_source_info(source.clone(), 0, 0);
     self.env.set_lexical_env(scope.heap_mut(), eval_lex);
     self.strict = strict;
 
@@ -4344,6 +4352,7 @@ impl<'a> Evaluator<'a> {
       }
     })();
 
+    self.vm.pop_frame();
     self.strict = prev_strict;
     self.env.set_lexical_env(scope.heap_mut(), prev_lexical_env);
     self
-- 
2.43.0


From 23096167fe2a9a3e262a6d54406aad2cc96228e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 15/40] fix: vm-js: keep queued jobs when a script cannot be
 entered

---
 vm-js/src/exec.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 6d29d9e..d568a24 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -604,9 +604,8 @@ impl JsRuntime {
     // Script evaluation needs a host hook implementation for Promise jobs. `Vm` stores a default
     // microtask queue inside itself, but we need to hold `&mut Vm` and `&mut dyn VmHostHooks`
     // simultaneously. Temporarily move the queue out so it can be passed as `hooks`.
-    let mut hooks = std::mem::take(self.vm.microtask_queue_mut());
-
     let mut vm_frame = self.vm.enter_frame(frame)?;
+    let mut hooks = std::mem::take(vm_frame.microtask_queue_mut());
 
     let mut scope = self.heap.scope();
     // In classic scripts, top-level `this` is the global object (even in strict mode).
-- 
2.43.0


From 1d1c72a11b3c3a2d2d291a4bb5de87e49fd03f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 16/40] fix: typecheck-ts: put the current file back when a
 check or the analysis ends early

---
 typecheck-ts/src/program/state/analysis.rs    | 14 ++++++++----
 .../src/program/state/bodies/body_check.rs    | 22 +++++++++----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/typecheck-ts/src/program/state/analysis.rs b/typecheck-ts/src/program/state/analysis.rs
index 46b9690..62a8588 100644
--- a/typecheck-ts/src/program/state/analysis.rs
+++ b/typecheck-ts/src/program/state/analysis.rs
@@ -16,6 +16,14 @@ impl ProgramState {
     host: &Arc<dyn Host>,
     roots: &[FileKey],
   ) -> Result<(), FatalError> {
+    // Restored here whichever way the analysis ends (result, fatal error or cancellation).
+    let prev_file = self.current_file;
+    let res = self.analyze(host, roots);
+    self.current_file = prev_file;
+    res
+  }
+
+  fn analyze(&mut self, host: &Arc<dyn Host>, roots: &[FileKey]) -> Result<(), FatalError> {
     if self.analyzed {
       return Ok(());
     }
@@ -141,16 +149,14 @@ impl ProgramState {
       }
     }
     let mut seen: AHashSet<FileId> = AHashSet::new();
+    let prev_file = self.current_file;
     while let Some(file) = queue.pop_front() {
       self.check_cancelled()?;
-      let prev_file = self.current_file;
       self.current_file = Some(file);
       if !seen.insert(file) || self.lib_file_ids.contains(&file) {
-        self.current_file = prev_file;
         continue;
       }
       let Some(file_key) = self.file_key_for_id(file) else {
-        self.current_file = prev_file;
         continue;
       };
       self
@@ -313,8 +319,8 @@ impl ProgramState {
           let _ = err;
         }
       }
-      self.current_file = prev_file;
     }
+    self.current_file = prev_file;
     if !self.hir_lowered.is_empty() {
       self.check_cancelled()?;
       let ts_semantics = db::ts_semantics(&self.typecheck_db);
diff --git a/typecheck-ts/src/program/state/bodies/body_check.rs b/typecheck-ts/src/program/state/bodies/body_check.rs
index 998c16e..b913d9d 100644
--- a/typecheck-ts/src/program/state/bodies/body_check.rs
+++ b/typecheck-ts/src/program/state/bodies/body_check.rs
@@ -6,13 +6,23 @@ impl ProgramState {
   pub(in super::super) fn check_body(
     &mut self,
     body_id: BodyId,
+  ) -> Result<Arc<BodyCheckResult>, FatalError> {
+    // Restored here whichever way the check ends (result, fatal error or cancellation).
+    let prev_file = self.current_file;
+    let res = self.check_body_in_file(body_id);
+    self.current_file = prev_file;
+    res
+  }
+
+  fn check_body_in_file(
+    &mut self,
+    body_id: BodyId,
   ) -> Result<Arc<BodyCheckResult>, FatalError> {
     self.check_cancelled()?;
     let _parallel_guard = db::queries::body_check::parallel_guard();
     let cache_hit = self.body_results.contains_key(&body_id);
     let body_meta = self.body_map.get(&body_id).copied();
     let owner = self.owner_of_body(body_id);
-    let prev_file = self.current_file;
     if let Some(meta) = body_meta.as_ref() {
       self.current_file = Some(meta.file);
     }
@@ -38,7 +48,6 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Ok(existing);
     }
     if !self.checking_bodies.insert(body_id) {
@@ -50,7 +59,6 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Ok(res);
     }
     struct BodyCheckGuard {
@@ -90,7 +98,6 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Ok(res);
     };
 
@@ -113,7 +120,6 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Ok(res);
     };
 
@@ -185,7 +191,6 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Err(err);
     }
 
@@ -642,14 +647,12 @@ impl ProgramState {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Err(err);
     }
     if let Err(err) = self.check_cancelled() {
       if let Some(span) = span.take() {
         span.finish(None);
       }
-      self.current_file = prev_file;
       return Err(err);
     }
 
@@ -765,7 +768,6 @@ impl ProgramState {
           if let Some(span) = span.take() {
             span.finish(None);
           }
-          self.current_file = prev_file;
           return Err(FatalError::Cancelled);
         }
         let mut initial_env: HashMap<NameId, TypeId> = HashMap::new();
@@ -1054,7 +1056,6 @@ impl ProgramState {
         if let Some(span) = span.take() {
           span.finish(None);
         }
-        self.current_file = prev_file;
         return Err(err);
       }
     }
@@ -1218,7 +1219,6 @@ impl ProgramState {
     if let Some(span) = span.take() {
       span.finish(None);
     }
-    self.current_file = prev_file;
     Ok(res)
   }
 }
-- 
2.43.0


From ff79ad1dd23bbe8ac22d7cae562cb39515a7f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 17/40] fix: keep the import attributes of import types

---
 emit-js/src/ts_type.rs          | 7 +++++++
 parse-js/src/ast/type_expr.rs   | 2 ++
 parse-js/src/parse/type_expr.rs | 4 +++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/ts_type.rs b/emit-js/src/ts_type.rs
index 0cd2cc2..ca10b4a 100644
--- a/emit-js/src/ts_type.rs
+++ b/emit-js/src/ts_type.rs
@@ -822,6 +822,13 @@ impl<'a> TypeEmitter<'a> {
     self.em.write_keyword("import");
     self.em.write_punct("(");
     self.emit_string_literal(&import.module_specifier);
+    if let Some(attributes) = &import.attributes {
+      self.em.write_punct(",");
+      if self.is_canonical() {
+        self.em.write_space();
+      }
+      self.emit_expr(attributes)?;
+    }
     self.em.write_punct(")");
     if let Some(qualifier) = &import.qualifier {
       self.em.write_punct(".");
diff --git a/parse-js/src/ast/type_expr.rs b/parse-js/src/ast/type_expr.rs
index bb1d1bb..ec75c7f 100644
--- a/parse-js/src/ast/type_expr.rs
+++ b/parse-js/src/ast/type_expr.rs
@@ -477,6 +477,8 @@ pub struct TypeThis {}
 pub struct TypeImport {
   #[drive(skip)]
   pub module_specifier: String,
+  /// The import attributes: `import("module", { with: { .. } })`
+  pub attributes: Option<Node<Expr>>,
   pub qualifier: Option<TypeEntityName>,
   pub type_arguments: Option<Vec<Node<TypeExpr>>>,
 }
diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index c9d54e4..9161448 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -838,9 +838,10 @@ impl<'a> Parser<'a> {
     self.require(TT::KeywordImport)?;
     self.require(TT::ParenthesisOpen)?;
     let module_specifier = self.lit_str_val()?;
+    let mut attributes = None;
     if self.consume_if(TT::Comma).is_match() {
       if self.peek().typ != TT::ParenthesisClose {
-        let _ = self.expr(ctx, [TT::Comma, TT::ParenthesisClose])?;
+        attributes = Some(self.expr(ctx, [TT::Comma, TT::ParenthesisClose])?);
         let _ = self.consume_if(TT::Comma);
       }
     }
@@ -869,6 +870,7 @@ impl<'a> Parser<'a> {
       start_loc,
       TypeImport {
         module_specifier,
+        attributes,
         qualifier,
         type_arguments,
       },
-- 
2.43.0


From db0f145148210c8c9bc86697c857fc49eac8a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 18/40] fix: substitute type arguments in type predicates and
 type parameter declarations when evaluating a type

---
 types-ts-interned/src/eval.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/types-ts-interned/src/eval.rs b/types-ts-interned/src/eval.rs
index e10d296..b4091a6 100644
--- a/types-ts-interned/src/eval.rs
+++ b/types-ts-interned/src/eval.rs
@@ -683,6 +683,18 @@ impl<'a, E: TypeExpander> TypeEvaluator<'a, E> {
         self.evaluate_indexed_access(obj, index, subst, depth + 1)
       }
       TypeKind::KeyOf(inner) => self.evaluate_keyof(inner, subst, depth + 1),
+      TypeKind::Predicate {
+        parameter,
+        asserted,
+        asserts,
+      } => {
+        let asserted = asserted.map(|ty| self.evaluate_with_subst(ty, subst, depth + 1));
+        self.store.intern_type(TypeKind::Predicate {
+          parameter,
+          asserted,
+          asserts,
+        })
+      }
       other => self.store.intern_type(other),
     };
     self.eval_in_progress.remove(&key);
@@ -704,6 +716,14 @@ impl<'a, E: TypeExpander> TypeEvaluator<'a, E> {
     if let Some(this) = sig.this_param.as_mut() {
       *this = self.evaluate_with_subst(*this, subst, depth + 1);
     }
+    for tp in sig.type_params.iter_mut() {
+      tp.constraint = tp
+        .constraint
+        .map(|ty| self.evaluate_with_subst(ty, subst, depth + 1));
+      tp.default = tp
+        .default
+        .map(|ty| self.evaluate_with_subst(ty, subst, depth + 1));
+    }
     self.store.intern_signature(sig)
   }
 
-- 
2.43.0


From eda3f0df08c34f7693312b36487f903cbfdd0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 19/40] fix: substitute type arguments in type predicates and
 infer constraints when instantiating a signature

---
 typecheck-ts/src/check/instantiate.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/typecheck-ts/src/check/instantiate.rs b/typecheck-ts/src/check/instantiate.rs
index d66cb30..d538f36 100644
--- a/typecheck-ts/src/check/instantiate.rs
+++ b/typecheck-ts/src/check/instantiate.rs
@@ -190,8 +190,24 @@ impl Substituter {
         let inner = self.substitute_type(inner);
         self.store.intern_type(TypeKind::KeyOf(inner))
       }
+      TypeKind::Predicate {
+        parameter,
+        asserted,
+        asserts,
+      } => {
+        let asserted = asserted.map(|ty| self.substitute_type(ty));
+        self.store.intern_type(TypeKind::Predicate {
+          parameter,
+          asserted,
+          asserts,
+        })
+      }
+      TypeKind::Infer { param, constraint } => {
+        let constraint = constraint.map(|c| self.substitute_type(c));
+        self.store.intern_type(TypeKind::Infer { param, constraint })
+      }
       _other => {
-        // Primitive, literal, `this`, `infer`, etc. remain unchanged.
+        // Primitive, literal, `this`, etc. remain unchanged.
         self.store.canon(ty)
       }
     };
-- 
2.43.0


From 05d6bdbfae903eb0cadf121473c2eb7e73b1f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 20/40] fix: count uses in template literal types when checking
 variance annotations

---
 typecheck-ts/src/check/decls.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typecheck-ts/src/check/decls.rs b/typecheck-ts/src/check/decls.rs
index a4b4cbf..a79ecc1 100644
--- a/typecheck-ts/src/check/decls.rs
+++ b/typecheck-ts/src/check/decls.rs
@@ -1081,6 +1081,11 @@ impl<'a, 'diag> HirDeclLowerer<'a, 'diag> {
         self.collect_variance_usage(index, OUT | IN, usage, visited);
       }
       TypeKind::KeyOf(inner) => self.collect_variance_usage(inner, OUT | IN, usage, visited),
+      TypeKind::TemplateLiteral(tpl) => {
+        for span in tpl.spans {
+          self.collect_variance_usage(span.ty, position, usage, visited);
+        }
+      }
       TypeKind::EmptyObject
       | TypeKind::Any
       | TypeKind::Unknown
@@ -1098,8 +1103,7 @@ impl<'a, 'diag> HirDeclLowerer<'a, 'diag> {
       | TypeKind::NumberLiteral(_)
       | TypeKind::StringLiteral(_)
       | TypeKind::BigIntLiteral(_)
-      | TypeKind::This
-      | TypeKind::TemplateLiteral(_) => {}
+      | TypeKind::This => {}
     }
   }
 
-- 
2.43.0


From bde8c83ee9104dd8cab530eba4fb6722d43b7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 21/40] fix: print the type of a predicate with the caller's
 names

---
 types-ts-interned/src/display.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types-ts-interned/src/display.rs b/types-ts-interned/src/display.rs
index ae2a27c..0292ada 100644
--- a/types-ts-interned/src/display.rs
+++ b/types-ts-interned/src/display.rs
@@ -355,12 +355,10 @@ impl<'a> TypeDisplay<'a> {
         asserted, asserts, ..
       } => {
         if let Some(asserted) = asserted {
-          let inner = TypeDisplay::new(self.store, asserted);
           if asserts {
-            write!(f, "asserts {}", inner)
-          } else {
-            write!(f, "{}", inner)
+            write!(f, "asserts ")?;
           }
+          self.fmt_type(asserted, f)
         } else if asserts {
           write!(f, "asserts boolean")
         } else {
-- 
2.43.0


From fbdb58c2154ad3bb1de0b81c83bd126b98180d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 22/40] fix: collect the definitions nested in every kind of
 statement, expression and pattern

---
 hir-js/src/lower.rs | 169 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 165 insertions(+), 4 deletions(-)

diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 3e08153..8c1fbd9 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -3417,6 +3417,15 @@ fn collect_stmt<'a>(
       desc.parent = parent;
       desc.is_exported = true;
       descriptors.push(desc);
+      collect_expr(
+        &assign.stx.expression,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
       if record_module_item {
         module_items.push(ModuleItem {
           span,
@@ -3898,19 +3907,37 @@ fn collect_var_decl<'a>(
 
 fn collect_for_lhs<'a>(
   lhs: &'a ForInOfLhs,
-  _descriptors: &mut Vec<DefDescriptor<'a>>,
-  _module_items: &mut Vec<ModuleItem<'a>>,
+  descriptors: &mut Vec<DefDescriptor<'a>>,
+  module_items: &mut Vec<ModuleItem<'a>>,
   names: &mut NameInterner,
-  _ambient: bool,
-  _in_global: bool,
+  ambient: bool,
+  in_global: bool,
   ctx: &mut LoweringContext,
 ) {
   match lhs {
     ForInOfLhs::Assign(pat) => {
       let _ = collect_pat_names(pat, names, ctx);
+      collect_exprs_from_pat(
+        pat,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
     }
     ForInOfLhs::Decl((_, pat_decl)) => {
       let _ = collect_pat_names(&pat_decl.stx.pat, names, ctx);
+      collect_exprs_from_pat(
+        &pat_decl.stx.pat,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
     }
   }
 }
@@ -4196,6 +4223,15 @@ fn walk_stmt_children<'a>(
       if let Some(catch) = &tr.stx.catch {
         if let Some(param) = &catch.stx.parameter {
           let _ = collect_pat_names(&param.stx.pat, names, ctx);
+          collect_exprs_from_pat(
+            &param.stx.pat,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
         }
         for stmt in catch.stx.body.iter() {
           collect_stmt(
@@ -4224,6 +4260,30 @@ fn walk_stmt_children<'a>(
         );
       }
     }
+    AstStmt::Label(label) => {
+      collect_stmt(
+        &label.stx.statement,
+        descriptors,
+        module_items,
+        names,
+        false,
+        false,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstStmt::Throw(throw) => {
+      collect_expr(
+        &throw.stx.value,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstStmt::With(w) => {
       collect_expr(
         &w.stx.object,
@@ -4582,6 +4642,21 @@ fn collect_expr<'a>(
       use parse_js::ast::class_or_object::ClassOrObjVal;
       use parse_js::ast::class_or_object::ObjMemberType;
       for member in obj.stx.members.iter() {
+        if let ObjMemberType::Valued {
+          key: ClassOrObjKey::Computed(key),
+          ..
+        } = &member.stx.typ
+        {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         match &member.stx.typ {
           ObjMemberType::Valued { key, val } => match val {
             ClassOrObjVal::Prop(Some(expr)) => collect_expr(
@@ -4768,6 +4843,17 @@ fn collect_expr<'a>(
     }
     AstExpr::ObjPat(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -4834,6 +4920,61 @@ fn collect_expr<'a>(
         ctx,
       );
     }
+    AstExpr::Unary(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::UnaryPostfix(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::Import(import) => {
+      collect_expr(
+        &import.stx.module,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+      if let Some(attributes) = &import.stx.attributes {
+        collect_expr(
+          attributes,
+          descriptors,
+          module_items,
+          names,
+          ambient,
+          in_global,
+          ctx,
+        );
+      }
+    }
+    AstExpr::Instantiation(inst) => {
+      collect_expr(
+        &inst.stx.expression,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstExpr::JsxElem(elem) => {
       collect_jsx_elem(
         elem,
@@ -5003,6 +5144,17 @@ fn collect_exprs_from_pat<'a>(
     }
     AstPat::Obj(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -5095,6 +5247,15 @@ fn collect_func_params<'a>(
       in_global,
       ctx,
     );
+    collect_exprs_from_pat(
+      &param.stx.pattern.stx.pat,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    );
     if let Some(default) = &param.stx.default_value {
       collect_expr(
         default,
-- 
2.43.0


From 1f86e4bd6b5dd4cc82afd77df9657690d2d89688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 23/40] fix: keep the target of an assignment pattern's keyed
 property

---
 parse-js/src/parse/expr/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index bc81fb3..d5f7563 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -158,13 +158,20 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
                 },
                 _ => return Err(loc.error(SyntaxErrorType::InvalidAssigmentTarget, None)),
               };
+              // `{ a = 1 }` arrives as `{ a: a = 1 }`; any other target needs its key.
+              let shorthand = match (&key, target.stx.as_ref()) {
+                (ClassOrObjKey::Direct(key), Pat::Id(id)) => {
+                  key.stx.tt == TT::Identifier && key.stx.key == id.stx.name
+                }
+                _ => false,
+              };
               properties.push(Node::new(
                 loc,
                 ObjPatProp {
                   key,
                   target,
                   default_value,
-                  shorthand: true,
+                  shorthand,
                 },
               ));
             }
-- 
2.43.0


From 329dde4e405591e4b90effa3c1ddff7ec195684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 24/40] fix: the semicolon after do-while belongs to the
 statement

---
 parse-js/src/parse/stmt/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 5c05bfc..e2658c6 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -1065,6 +1065,8 @@ impl<'a> Parser<'a> {
       p.require(TT::ParenthesisOpen)?;
       let condition = p.expr(ctx, [TT::ParenthesisClose])?;
       p.require(TT::ParenthesisClose)?;
+      // The semicolon belongs to the statement; it is inserted where it is left out.
+      let _ = p.consume_if(TT::Semicolon);
       Ok(DoWhileStmt { condition, body })
     })
   }
-- 
2.43.0


From fa7d5b937a35baeeb23d8ff588a8ee2caef40d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 25/40] fix: an unnamed default export has no name in the
 output

---
 emit-js/src/hir.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 16afeb9..894167a 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -531,7 +531,28 @@ fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) ->
     .function
     .as_ref()
     .ok_or_else(|| EmitError::unsupported("function metadata missing"))?;
-  emit_function_like(em, ctx, Some(ctx.name(def.name)), func, body)
+  emit_function_like(em, ctx, declared_name(ctx, def), func, body)
+}
+
+/// The name a function or class is declared with; `export default` declarations
+/// may have none.
+fn declared_name<'a>(ctx: &'a HirContext<'_>, def: &DefData) -> Option<&'a str> {
+  if def.is_default_export {
+    for export in &ctx.lowered.hir.exports {
+      if let ExportKind::Default(default) = &export.kind {
+        match &default.value {
+          ExportDefaultValue::Function { def: id, name, .. }
+          | ExportDefaultValue::Class { def: id, name, .. }
+            if *id == def.id =>
+          {
+            return name.map(|name| ctx.name(name));
+          }
+          _ => {}
+        }
+      }
+    }
+  }
+  Some(ctx.name(def.name))
 }
 
 fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -541,7 +562,7 @@ fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> Emi
   let body = ctx
     .body(body_id)
     .ok_or_else(|| EmitError::unsupported("class body not found"))?;
-  emit_class_like(em, ctx, body, Some(ctx.name(def.name)), false)
+  emit_class_like(em, ctx, body, declared_name(ctx, def), def.is_default_export)
 }
 
 fn emit_class_like(
-- 
2.43.0


From f9cd0e27edd0374702e396693ff355a30ef16d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 26/40] fix: print the comma of a hole at the end of a list

---
 emit-js/src/hir.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 894167a..dd24e04 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1444,6 +1444,9 @@ fn emit_pat(
         }
         em.write_punct("...");
         emit_pat(em, ctx, body, rest, in_assignment)?;
+      } else if matches!(array.elements.last(), Some(None)) {
+        // The last comma of a list is not followed by an element.
+        em.write_punct(",");
       }
       em.write_punct("]");
     }
@@ -1801,15 +1804,19 @@ fn emit_array_literal(
     }
     match element {
       hir_js::ArrayElement::Expr(expr) => {
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       }
       hir_js::ArrayElement::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       }
       hir_js::ArrayElement::Empty => {}
     }
   }
+  if matches!(array.elements.last(), Some(hir_js::ArrayElement::Empty)) {
+    // The last comma of a list is not followed by an element.
+    em.write_punct(",");
+  }
   em.write_punct("]");
   Ok(())
 }
-- 
2.43.0


From 0703344b50863a54921e1c53175324110ced3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 27/40] fix: an assigned object pattern takes no parentheses of
 its own

---
 emit-js/src/hir.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index dd24e04..fa7ba13 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1455,9 +1455,6 @@ fn emit_pat(
       // comma operator as needing parentheses.
       let assignment_expr_min_prec =
         Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      if in_assignment {
-        em.write_punct("(");
-      }
       em.write_punct("{");
       for (idx, prop) in obj.props.iter().enumerate() {
         if idx > 0 {
@@ -1481,9 +1478,6 @@ fn emit_pat(
         emit_pat(em, ctx, body, rest, in_assignment)?;
       }
       em.write_punct("}");
-      if in_assignment {
-        em.write_punct(")");
-      }
     }
     PatKind::Assign {
       target,
-- 
2.43.0


From 06a82668cf7ff91cd000489a7828664bdd8fe617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 28/40] fix: parenthesise a callee that new would split

---
 emit-js/src/hir.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index fa7ba13..de1f2f9 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1713,7 +1713,9 @@ fn emit_call(
   body: &Body,
   call: &hir_js::CallExpr,
 ) -> EmitResult {
-  let callee_needs_parens = call.is_new && starts_with_optional_chaining(ctx, body, call.callee);
+  let callee_needs_parens = call.is_new
+    && (starts_with_optional_chaining(ctx, body, call.callee)
+      || new_callee_contains_call(ctx, body, call.callee));
   if call.is_new {
     em.write_keyword("new");
   }
@@ -2400,15 +2402,19 @@ fn token_from_identifier(name: &str) -> StmtStartToken {
   }
 }
 
-fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
-  matches!(
-    expr.kind,
-    ExprKind::Object(_)
-      | ExprKind::Binary {
-        op: BinaryOp::Comma,
-        ..
-      }
-  )
+/// Whether a callee that `new` would read up to its first argument list has a
+/// call in it: `new (f().g)()`.
+fn new_callee_contains_call(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Member(member) => new_callee_contains_call(ctx, body, member.object),
+    ExprKind::TaggedTemplate { tag, .. } => new_callee_contains_call(ctx, body, *tag),
+    ExprKind::Call(call) => !call.is_new,
+    ExprKind::ImportCall { .. } => true,
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => new_callee_contains_call(ctx, body, *expr),
+    _ => false,
+  }
 }
 
 fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
-- 
2.43.0


From 4aeeebd6ec904228b1a1ccfc9b803d1a24a5b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 29/40] fix: parenthesise in operators in the head of a for
 statement

---
 emit-js/src/hir.rs | 63 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index de1f2f9..56a757c 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1198,7 +1198,8 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       if let Some(init) = init {
         match init {
           hir_js::ForInit::Expr(expr) => {
-            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr);
+            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr)
+              || contains_bare_in(ctx, body, *expr);
             if needs_parens {
               em.write_punct("(");
             }
@@ -1397,7 +1398,14 @@ fn emit_var_decl(
     emit_pat(em, ctx, body, declarator.pat, false)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      // The head of a `for` cannot hold an `in` outside of brackets.
+      if !trailing_semicolon && contains_bare_in(ctx, body, init) {
+        em.write_punct("(");
+        emit_expr_no_parens(em, ctx, body, init)?;
+        em.write_punct(")");
+      } else {
+        emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      }
     }
   }
   if trailing_semicolon {
@@ -2608,6 +2616,57 @@ fn for_init_expr_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId
   })
 }
 
+/// Whether printing the expression may leave an `in` operator outside of any
+/// brackets.
+fn contains_bare_in(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  let any = |exprs: &[ExprId]| {
+    exprs
+      .iter()
+      .any(|expr| contains_bare_in(ctx, body, *expr))
+  };
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Binary {
+      op: BinaryOp::In, ..
+    } => true,
+    ExprKind::Binary { left, right, .. } => any(&[*left, *right]),
+    ExprKind::Conditional {
+      test,
+      consequent,
+      alternate,
+    } => any(&[*test, *consequent, *alternate]),
+    ExprKind::Assignment { target, value, .. } => {
+      any(&[*value])
+        || match &ctx.pat(body, *target).kind {
+          PatKind::AssignTarget(target) => any(&[*target]),
+          _ => false,
+        }
+    }
+    ExprKind::Call(call) => any(&[call.callee]),
+    ExprKind::Member(member) => any(&[member.object]),
+    ExprKind::TaggedTemplate { tag, .. } => any(&[*tag]),
+    ExprKind::Unary { expr, .. }
+    | ExprKind::Update { expr, .. }
+    | ExprKind::Await { expr }
+    | ExprKind::Yield {
+      expr: Some(expr), ..
+    }
+    | ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => any(&[*expr]),
+    ExprKind::FunctionExpr {
+      body: func_body,
+      is_arrow: true,
+      ..
+    } => ctx.body(*func_body).is_some_and(|func_body| {
+      match func_body.function.as_ref().map(|func| &func.body) {
+        Some(FunctionBody::Expr(expr)) => contains_bare_in(ctx, func_body, *expr),
+        _ => false,
+      }
+    }),
+    _ => false,
+  }
+}
+
 fn for_inof_assign_needs_parens(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
   contextual_keyword_start_from_pat(ctx, body, pat_id).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
-- 
2.43.0


From 8e627a6f41c537a34d0b81e41e11697a2adc5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 30/40] fix: print expressions with the parentheses their
 position needs

---
 emit-js/src/hir.rs | 97 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 23 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 56a757c..91eccca 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -201,7 +201,7 @@ fn emit_decorators(em: &mut Emitter, ctx: &HirContext<'_>, decorators: &[Decorat
     let deco_body = ctx
       .body(deco.body)
       .ok_or_else(|| EmitError::unsupported("decorator body not found"))?;
-    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, CALL_MEMBER_PRECEDENCE)?;
     em.write_space();
   }
   Ok(())
@@ -242,7 +242,7 @@ fn emit_module_attributes(
   let body = ctx
     .body(attrs.body)
     .ok_or_else(|| EmitError::unsupported("module attributes body missing"))?;
-  emit_expr_with_min_prec(em, ctx, body, attrs.expr, Prec::LOWEST)
+  emit_expr_with_min_prec(em, ctx, body, attrs.expr, assignment_expr_min_prec())
 }
 
 fn emit_import_es(em: &mut Emitter, ctx: &HirContext<'_>, es: &ImportEs) -> EmitResult {
@@ -344,7 +344,7 @@ fn emit_export(em: &mut Emitter, ctx: &HirContext<'_>, export: &Export) -> EmitR
       let body = ctx
         .body(assign.body)
         .ok_or_else(|| EmitError::unsupported("export assignment body missing"))?;
-      emit_expr_with_min_prec(em, ctx, body, assign.expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, assign.expr, assignment_expr_min_prec())?;
       em.write_semicolon();
       Ok(())
     }
@@ -473,7 +473,12 @@ fn emit_export_default(
       if needs_parens {
         em.write_punct("(");
       }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      let min_prec = if needs_parens {
+        Prec::LOWEST
+      } else {
+        assignment_expr_min_prec()
+      };
+      emit_expr_with_min_prec(em, ctx, body, *expr, min_prec)?;
       if needs_parens {
         em.write_punct(")");
       }
@@ -587,7 +592,7 @@ fn emit_class_like(
 
   if let Some(extends) = class.extends {
     em.write_keyword("extends");
-    emit_expr_with_min_prec(em, ctx, body, extends, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, extends, CALL_MEMBER_PRECEDENCE)?;
   }
 
   em.write_punct("{");
@@ -724,7 +729,7 @@ fn emit_class_member_key(
     ClassMemberKey::Number(value) => em.write_number(value),
     ClassMemberKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       em.write_punct("]");
     }
   }
@@ -822,7 +827,7 @@ fn emit_jsx_attr(
     }
     JsxAttr::Spread { expr } => {
       em.write_str("{...");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       em.write_char('}')?;
       Ok(())
     }
@@ -857,7 +862,7 @@ fn emit_jsx_expr_container(
     em.write_str("...");
   }
   if let Some(expr) = container.expr {
-    emit_expr_with_min_prec(em, ctx, body, expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, expr, assignment_expr_min_prec())?;
   }
   em.write_char('}')?;
   Ok(())
@@ -936,11 +941,18 @@ fn emit_arrow_function(
   em.write_punct("=>");
   match &func.body {
     FunctionBody::Expr(expr) => {
-      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr));
-      if needs_parens {
+      // A body that starts with `{` would be read as a block.
+      let needs_parens = matches!(
+        expr_stmt_tokens(ctx, body, *expr).first,
+        StmtStartToken::BraceOpen
+      );
+      let min_prec = if needs_parens {
         em.write_punct("(");
-      }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        Prec::LOWEST
+      } else {
+        assignment_expr_min_prec()
+      };
+      emit_expr_with_min_prec(em, ctx, body, *expr, min_prec)?;
       if needs_parens {
         em.write_punct(")");
       }
@@ -1236,7 +1248,14 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       em.write_punct("(");
       match left {
         hir_js::ForHead::Pat(pat) => {
-          let needs_parens = for_inof_assign_needs_parens(ctx, body, *pat);
+          // `for (async of` would start an arrow function.
+          let async_of = *is_for_of
+            && !*await_
+            && matches!(
+              ctx.pat(body, *pat).kind,
+              PatKind::Ident(name) if ctx.name(name) == "async"
+            );
+          let needs_parens = async_of || for_inof_assign_needs_parens(ctx, body, *pat);
           if needs_parens {
             em.write_punct("(");
           }
@@ -1252,7 +1271,12 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       } else {
         em.write_keyword("in");
       }
-      emit_expr_with_min_prec(em, ctx, body, *right, Prec::LOWEST)?;
+      let right_min_prec = if *is_for_of {
+        assignment_expr_min_prec()
+      } else {
+        Prec::LOWEST
+      };
+      emit_expr_with_min_prec(em, ctx, body, *right, right_min_prec)?;
       em.write_punct(")");
       emit_stmt_as_body(em, ctx, body, *inner)?;
     }
@@ -1510,6 +1534,12 @@ fn emit_pat(
   Ok(())
 }
 
+/// The loosest precedence an expression may have without parentheses where the
+/// grammar asks for an `AssignmentExpression`.
+fn assignment_expr_min_prec() -> Prec {
+  Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter()
+}
+
 fn emit_expr_with_min_prec(
   em: &mut Emitter,
   ctx: &HirContext<'_>,
@@ -1701,10 +1731,10 @@ fn emit_expr_no_parens(
     } => {
       em.write_keyword("import");
       em.write_punct("(");
-      emit_expr_with_min_prec(em, ctx, body, *argument, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *argument, assignment_expr_min_prec())?;
       if let Some(attrs) = attributes {
         em.write_punct(",");
-        emit_expr_with_min_prec(em, ctx, body, *attrs, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *attrs, assignment_expr_min_prec())?;
       }
       em.write_punct(")");
     }
@@ -1746,7 +1776,7 @@ fn emit_call(
     if arg.spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, ctx, body, arg.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, arg.expr, assignment_expr_min_prec())?;
   }
   em.write_punct(")");
   Ok(())
@@ -1758,7 +1788,20 @@ fn emit_member(
   body: &Body,
   member: &MemberExpr,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
+  if !member.optional
+    && matches!(member.property, ObjectKey::Ident(_))
+    && matches!(
+      ctx.expr(body, member.object).kind,
+      ExprKind::Literal(Literal::Number(_))
+    )
+  {
+    // The `.` would be read as part of the number.
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, member.object)?;
+    em.write_punct(")");
+  } else {
+    emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
+  }
   let use_brackets = !matches!(member.property, ObjectKey::Ident(_));
   if member.optional {
     if use_brackets {
@@ -1867,13 +1910,13 @@ fn emit_object_literal(
           } else {
             emit_object_key(em, ctx, body, key)?;
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, assignment_expr_min_prec())?;
           }
         } else {
           emit_object_key(em, ctx, body, key)?;
           if !*shorthand {
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, assignment_expr_min_prec())?;
           }
         }
       }
@@ -1905,7 +1948,7 @@ fn emit_object_literal(
       }
       ObjectProperty::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       }
     }
   }
@@ -1925,7 +1968,7 @@ fn emit_object_key(
     ObjectKey::Number(num) => em.write_number(num),
     ObjectKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, assignment_expr_min_prec())?;
       em.write_punct("]");
     }
   }
@@ -2043,7 +2086,10 @@ fn emit_binary(
   let left_needs_paren = op_name == OperatorName::Exponentiation
     && matches!(
       ctx.expr(body, left).kind,
-      ExprKind::Unary { .. } | ExprKind::Update { .. }
+      ExprKind::Unary { .. }
+        | ExprKind::Update { .. }
+        | ExprKind::Await { .. }
+        | ExprKind::Literal(Literal::Undefined)
     );
   if left_needs_paren {
     em.write_punct("(");
@@ -2341,6 +2387,11 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
         Some(arg_prefix.first),
       )
     }
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => prefix_with_fallback(ctx, body, *expr, StmtStartToken::Other),
     ExprKind::Unary { expr, .. }
     | ExprKind::Update { expr, .. }
     | ExprKind::Yield {
-- 
2.43.0


From efc81e2224043379acf36e52f9c38ecb18218de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 31/40] fix: declare variables are erased and erasure reaches
 patterns, catch parameters and decorators

---
 minify-js/src/ts_erase.rs           | 29 +++++++++++++++++++++++++----
 parse-js/src/ast/node.rs            |  5 +++++
 parse-js/src/parse/import_export.rs |  2 ++
 parse-js/src/parse/stmt/mod.rs      | 19 +++++++++----------
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/minify-js/src/ts_erase.rs b/minify-js/src/ts_erase.rs
index d5829c3..42ba189 100644
--- a/minify-js/src/ts_erase.rs
+++ b/minify-js/src/ts_erase.rs
@@ -12,7 +12,7 @@ use parse_js::ast::expr::pat::{ArrPat, ClassOrFuncName, IdPat, ObjPat, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
 use parse_js::ast::import_export::{ExportName, ExportNames, ImportNames, ModuleExportImportName};
-use parse_js::ast::node::{Node, NodeAssocData};
+use parse_js::ast::node::{DeclareModifier, Node, NodeAssocData};
 use parse_js::ast::stmt::decl::{
   ClassDecl, FuncDecl, ParamDecl, PatDecl, VarDecl, VarDeclMode, VarDeclarator,
 };
@@ -702,6 +702,7 @@ fn strip_stmt(ctx: &mut StripContext, stmt: Node<Stmt>, is_top_level: bool) -> V
       label_stmt.stx.statement = strip_stmt_required(ctx, label_stmt.stx.statement, false);
       vec![new_node(loc, assoc, Stmt::Label(label_stmt))]
     }
+    Stmt::VarDecl(decl) if decl.assoc.get::<DeclareModifier>().is_some() => vec![],
     Stmt::VarDecl(mut decl) => {
       strip_var_decl(ctx, &mut decl.stx);
       vec![new_node(loc, assoc, Stmt::VarDecl(decl))]
@@ -764,7 +765,7 @@ fn collect_top_level_value_bindings(stmts: &[Node<Stmt>]) -> HashSet<String> {
           }
         }
       }
-      Stmt::VarDecl(decl) => {
+      Stmt::VarDecl(decl) if decl.assoc.get::<DeclareModifier>().is_none() => {
         for declarator in &decl.stx.declarators {
           let mut bindings = Vec::new();
           collect_pat_binding_names(&declarator.pattern.stx.pat, &mut bindings);
@@ -815,7 +816,9 @@ fn collect_top_level_module_exports(
   let mut names = HashSet::new();
   for stmt in stmts {
     match stmt.stx.as_ref() {
-      Stmt::VarDecl(decl) if decl.stx.export => {
+      Stmt::VarDecl(decl)
+        if decl.stx.export && decl.assoc.get::<DeclareModifier>().is_none() =>
+      {
         for declarator in &decl.stx.declarators {
           let mut bindings = Vec::new();
           collect_pat_binding_names(&declarator.pattern.stx.pat, &mut bindings);
@@ -1840,6 +1843,9 @@ fn inline_const_enums(top_level: &mut Node<TopLevel>) -> HashSet<String> {
         }
         Pat::Obj(obj) => {
           for prop in obj.stx.properties.iter_mut() {
+            if let ClassOrObjKey::Computed(expr) = &mut prop.stx.key {
+              self.rewrite_expr(expr);
+            }
             self.rewrite_pat(&mut prop.stx.target);
             if let Some(default) = prop.stx.default_value.as_mut() {
               self.rewrite_expr(default);
@@ -2128,6 +2134,9 @@ fn inline_const_enums(top_level: &mut Node<TopLevel>) -> HashSet<String> {
             }
             scope.extend(self.collect_block_declared_names(&catch.stx.body));
             self.shadowed.push(scope);
+            if let Some(param) = catch.stx.parameter.as_mut() {
+              self.rewrite_pat(&mut param.stx.pat);
+            }
             for stmt in catch.stx.body.iter_mut() {
               self.rewrite_stmt(stmt);
             }
@@ -2183,6 +2192,9 @@ fn inline_const_enums(top_level: &mut Node<TopLevel>) -> HashSet<String> {
         Stmt::ExportDefaultExpr(export_default) => {
           self.rewrite_expr(&mut export_default.stx.expression)
         }
+        Stmt::ExportAssignmentDecl(export_assignment) => {
+          self.rewrite_expr(&mut export_assignment.stx.expression)
+        }
         Stmt::Debugger(_)
         | Stmt::Break(_)
         | Stmt::Continue(_)
@@ -2198,7 +2210,6 @@ fn inline_const_enums(top_level: &mut Node<TopLevel>) -> HashSet<String> {
         | Stmt::ImportTypeDecl(_)
         | Stmt::ExportTypeDecl(_)
         | Stmt::ImportEqualsDecl(_)
-        | Stmt::ExportAssignmentDecl(_)
         | Stmt::ExportAsNamespaceDecl(_) => {}
       }
     }
@@ -2638,6 +2649,9 @@ fn rewrite_enum_member_refs(
           if let Some(default) = param.stx.default_value.as_mut() {
             rewriter.rewrite_expr(default);
           }
+          for decorator in param.stx.decorators.iter_mut() {
+            rewriter.rewrite_expr(&mut decorator.stx.expression);
+          }
         }
         match func.body.as_mut() {
           Some(FuncBody::Block(body)) => rewriter.rewrite_stmts_in_block(body),
@@ -2950,6 +2964,9 @@ fn rewrite_enum_member_refs(
             }
             scope.extend(self.collect_block_declared_names(&catch.stx.body));
             self.with_scope(scope, |rewriter| {
+              if let Some(param) = catch.stx.parameter.as_mut() {
+                rewriter.rewrite_pat(&mut param.stx.pat);
+              }
               for stmt in catch.stx.body.iter_mut() {
                 rewriter.rewrite_stmt(stmt);
               }
@@ -3973,6 +3990,10 @@ fn strip_arr_pat(ctx: &mut StripContext, pat: Node<ArrPat>) -> Node<ArrPat> {
 fn strip_obj_pat(ctx: &mut StripContext, pat: Node<ObjPat>) -> Node<ObjPat> {
   let mut pat = pat;
   for prop in pat.stx.properties.iter_mut() {
+    if let ClassOrObjKey::Computed(expr) = &mut prop.stx.key {
+      let key = take_expr(expr);
+      *expr = strip_expr(ctx, key);
+    }
     let target = take_pat(&mut prop.stx.target);
     prop.stx.target = strip_pat(ctx, target);
     if let Some(default) = prop.stx.default_value.take() {
diff --git a/parse-js/src/ast/node.rs b/parse-js/src/ast/node.rs
index 4c86d97..2aa8b0b 100644
--- a/parse-js/src/ast/node.rs
+++ b/parse-js/src/ast/node.rs
@@ -29,6 +29,11 @@ pub struct NodeAssocData {
 #[derive(Clone, Copy, Debug)]
 pub struct ParenthesizedExpr;
 
+/// Marker attached to a variable declaration that has a TypeScript `declare`
+/// modifier: it declares names that exist elsewhere and has no runtime effect.
+#[derive(Clone, Copy, Debug)]
+pub struct DeclareModifier;
+
 /// Marker attached to a numeric literal node that originated from a legacy octal
 /// integer literal (e.g. `010`).
 ///
diff --git a/parse-js/src/parse/import_export.rs b/parse-js/src/parse/import_export.rs
index 06f8e5e..3af1568 100644
--- a/parse-js/src/parse/import_export.rs
+++ b/parse-js/src/parse/import_export.rs
@@ -12,6 +12,7 @@ use crate::ast::import_export::ExportNames;
 use crate::ast::import_export::ImportName;
 use crate::ast::import_export::ImportNames;
 use crate::ast::import_export::ModuleExportImportName;
+use crate::ast::node::DeclareModifier;
 use crate::ast::node::LegacyOctalEscapeSequence;
 use crate::ast::node::Node;
 use crate::ast::stmt::decl::PatDecl;
@@ -694,6 +695,7 @@ impl<'a> Parser<'a> {
           | TT::KeywordAwait => {
             let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
             decl.stx.export = true;
+            decl.assoc.set(DeclareModifier);
             decl.into_wrapped()
           }
           _ => return Err(self.peek().error(SyntaxErrorType::ExpectedSyntax("declaration after export declare"))),
diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index e2658c6..8a3c94f 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -4,6 +4,7 @@ use super::expr::pat::is_valid_pattern_identifier;
 use super::expr::Asi;
 use super::ParseCtx;
 use super::Parser;
+use crate::ast::node::DeclareModifier;
 use crate::ast::node::Node;
 use crate::ast::stmt::decl::PatDecl;
 use crate::ast::stmt::BlockStmt;
@@ -245,20 +246,18 @@ impl<'a> Parser<'a> {
           .wrap(Stmt::ClassDecl),
       ),
       // TypeScript: declare var, declare const, declare let, declare using
-      TT::KeywordVar | TT::KeywordConst | TT::KeywordLet | TT::KeywordUsing => Ok(
-        self
-          .var_decl(ctx, VarDeclParseMode::Asi)?
-          .wrap(Stmt::VarDecl),
-      ),
+      TT::KeywordVar | TT::KeywordConst | TT::KeywordLet | TT::KeywordUsing => {
+        let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
+        decl.assoc.set(DeclareModifier);
+        Ok(decl.wrap(Stmt::VarDecl))
+      }
       // TypeScript: declare await using
       TT::KeywordAwait => {
         let [_, next] = self.peek_n::<2>();
         if next.typ == TT::KeywordUsing {
-          Ok(
-            self
-              .var_decl(ctx, VarDeclParseMode::Asi)?
-              .wrap(Stmt::VarDecl),
-          )
+          let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
+          decl.assoc.set(DeclareModifier);
+          Ok(decl.wrap(Stmt::VarDecl))
         } else {
           Err(
             self
-- 
2.43.0


From 6383981c5a6def3bad1114f02f1699f517778f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 32/40] fix: local binding walks reach loops, throw, exported
 expressions and assertions

---
 semantic-js/src/ts/locals.rs | 170 +++++++++++++++++++++++++++++++++++
 1 file changed, 170 insertions(+)

diff --git a/semantic-js/src/ts/locals.rs b/semantic-js/src/ts/locals.rs
index 4ce6d9b..6c88666 100644
--- a/semantic-js/src/ts/locals.rs
+++ b/semantic-js/src/ts/locals.rs
@@ -709,6 +709,17 @@ impl DeclarePass {
       AstStmt::ModuleDecl(module) => self.walk_module(module),
       AstStmt::Import(import) => self.walk_import(import),
       AstStmt::ImportEqualsDecl(import_equals) => self.walk_import_equals(import_equals),
+      AstStmt::While(while_stmt) => {
+        self.walk_expr(&mut while_stmt.stx.condition);
+        self.walk_stmt(&mut while_stmt.stx.body);
+      }
+      AstStmt::DoWhile(do_while) => {
+        self.walk_stmt(&mut do_while.stx.body);
+        self.walk_expr(&mut do_while.stx.condition);
+      }
+      AstStmt::Throw(throw) => self.walk_expr(&mut throw.stx.value),
+      AstStmt::ExportDefaultExpr(export) => self.walk_expr(&mut export.stx.expression),
+      AstStmt::ExportAssignmentDecl(export) => self.walk_expr(&mut export.stx.expression),
       _ => {}
     }
   }
@@ -867,6 +878,9 @@ impl DeclarePass {
   fn walk_obj_pat(&mut self, pat: &mut Node<ObjPat>, in_decl: bool, namespaces: Namespace) {
     self.mark_scope(&mut pat.assoc);
     for prop in pat.stx.properties.iter_mut() {
+      if let ClassOrObjKey::Computed(key) = &mut prop.stx.key {
+        self.walk_expr(key);
+      }
       self.walk_pat(&mut prop.stx.target, in_decl, namespaces);
       if let Some(default) = &mut prop.stx.default_value {
         self.walk_expr(default);
@@ -972,6 +986,23 @@ impl DeclarePass {
       AstExpr::JsxElem(elem) => self.walk_jsx_elem(elem),
       AstExpr::JsxExprContainer(container) => self.walk_expr(&mut container.stx.value),
       AstExpr::JsxSpreadAttr(attr) => self.walk_expr(&mut attr.stx.value),
+      AstExpr::TypeAssertion(assertion) => {
+        self.walk_expr(&mut assertion.stx.expression);
+        if let Some(annotation) = &mut assertion.stx.type_annotation {
+          self.walk_type_expr(annotation);
+        }
+      }
+      AstExpr::NonNullAssertion(assertion) => self.walk_expr(&mut assertion.stx.expression),
+      AstExpr::SatisfiesExpr(satisfies) => {
+        self.walk_expr(&mut satisfies.stx.expression);
+        self.walk_type_expr(&mut satisfies.stx.type_annotation);
+      }
+      AstExpr::Import(import) => {
+        self.walk_expr(&mut import.stx.module);
+        if let Some(attributes) = &mut import.stx.attributes {
+          self.walk_expr(attributes);
+        }
+      }
       _ => {}
     }
   }
@@ -1516,6 +1547,18 @@ impl<'a> ResolvePass<'a> {
           self.expr_resolutions.insert(span, sym);
         }
       }
+      AstStmt::While(while_stmt) => {
+        self.walk_expr(&mut while_stmt.stx.condition);
+        self.walk_stmt(&mut while_stmt.stx.body);
+      }
+      AstStmt::DoWhile(do_while) => {
+        self.walk_stmt(&mut do_while.stx.body);
+        self.walk_expr(&mut do_while.stx.condition);
+      }
+      AstStmt::Throw(throw) => self.walk_expr(&mut throw.stx.value),
+      AstStmt::ExportDefaultExpr(export) => self.walk_expr(&mut export.stx.expression),
+      AstStmt::ExportAssignmentDecl(export) => self.walk_expr(&mut export.stx.expression),
+      AstStmt::Label(label) => self.walk_stmt(&mut label.stx.statement),
       _ => {}
     }
     self.pop_scope_from_assoc(&stmt.assoc);
@@ -1592,6 +1635,9 @@ impl<'a> ResolvePass<'a> {
       }
       AstPat::Obj(obj) => {
         for prop in obj.stx.properties.iter_mut() {
+          if let ClassOrObjKey::Computed(key) = &mut prop.stx.key {
+            self.walk_expr(key);
+          }
           self.walk_pat(&mut prop.stx.target);
           if let Some(default) = &mut prop.stx.default_value {
             self.walk_expr(default);
@@ -1619,6 +1665,9 @@ impl<'a> ResolvePass<'a> {
 
   fn walk_obj_pat_expr(&mut self, pat: &mut Node<ObjPat>) {
     for prop in pat.stx.properties.iter_mut() {
+      if let ClassOrObjKey::Computed(key) = &mut prop.stx.key {
+        self.walk_expr(key);
+      }
       self.walk_pat(&mut prop.stx.target);
       if let Some(default) = &mut prop.stx.default_value {
         self.walk_expr(default);
@@ -1737,6 +1786,29 @@ impl<'a> ResolvePass<'a> {
       AstExpr::JsxElem(elem) => self.walk_jsx_elem(elem),
       AstExpr::JsxExprContainer(container) => self.walk_expr(&mut container.stx.value),
       AstExpr::JsxSpreadAttr(attr) => self.walk_expr(&mut attr.stx.value),
+      AstExpr::TypeAssertion(assertion) => {
+        self.walk_expr(&mut assertion.stx.expression);
+        if let Some(annotation) = &mut assertion.stx.type_annotation {
+          self.walk_type_expr(annotation);
+        }
+      }
+      AstExpr::NonNullAssertion(assertion) => self.walk_expr(&mut assertion.stx.expression),
+      AstExpr::SatisfiesExpr(satisfies) => {
+        self.walk_expr(&mut satisfies.stx.expression);
+        self.walk_type_expr(&mut satisfies.stx.type_annotation);
+      }
+      AstExpr::Import(import) => {
+        self.walk_expr(&mut import.stx.module);
+        if let Some(attributes) = &mut import.stx.attributes {
+          self.walk_expr(attributes);
+        }
+      }
+      AstExpr::Instantiation(inst) => {
+        self.walk_expr(&mut inst.stx.expression);
+        for arg in inst.stx.type_arguments.iter_mut() {
+          self.walk_type_expr(arg);
+        }
+      }
       _ => {}
     }
   }
@@ -1967,6 +2039,11 @@ impl<'a> ResolvePass<'a> {
   }
 
   fn walk_type_function(&mut self, func: &mut Node<TypeFunction>) {
+    if let Some(params) = &mut func.stx.type_parameters {
+      for param in params.iter_mut() {
+        self.walk_type_param(param);
+      }
+    }
     for param in func.stx.parameters.iter_mut() {
       self.walk_type_expr(&mut param.stx.type_expr);
     }
@@ -1974,6 +2051,11 @@ impl<'a> ResolvePass<'a> {
   }
 
   fn walk_constructor_type(&mut self, func: &mut Node<TypeConstructor>) {
+    if let Some(params) = &mut func.stx.type_parameters {
+      for param in params.iter_mut() {
+        self.walk_type_param(param);
+      }
+    }
     for param in func.stx.parameters.iter_mut() {
       self.walk_type_expr(&mut param.stx.type_expr);
     }
@@ -2203,6 +2285,17 @@ impl DeclareTablesPass {
       AstStmt::NamespaceDecl(ns) => self.walk_namespace(ns),
       AstStmt::ModuleDecl(module) => self.walk_module(module),
       AstStmt::Import(import) => self.walk_import(import),
+      AstStmt::While(while_stmt) => {
+        self.walk_expr(&while_stmt.stx.condition);
+        self.walk_stmt(&while_stmt.stx.body);
+      }
+      AstStmt::DoWhile(do_while) => {
+        self.walk_stmt(&do_while.stx.body);
+        self.walk_expr(&do_while.stx.condition);
+      }
+      AstStmt::Throw(throw) => self.walk_expr(&throw.stx.value),
+      AstStmt::ExportDefaultExpr(export) => self.walk_expr(&export.stx.expression),
+      AstStmt::ExportAssignmentDecl(export) => self.walk_expr(&export.stx.expression),
       _ => {}
     }
   }
@@ -2360,6 +2453,9 @@ impl DeclareTablesPass {
   fn walk_obj_pat(&mut self, pat: &Node<ObjPat>, in_decl: bool, namespaces: Namespace) {
     self.mark_scope(pat);
     for prop in pat.stx.properties.iter() {
+      if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+        self.walk_expr(key);
+      }
       self.walk_pat(&prop.stx.target, in_decl, namespaces);
       if let Some(default) = &prop.stx.default_value {
         self.walk_expr(default);
@@ -2458,6 +2554,29 @@ impl DeclareTablesPass {
       AstExpr::JsxElem(elem) => self.walk_jsx_elem(elem),
       AstExpr::JsxExprContainer(container) => self.walk_expr(&container.stx.value),
       AstExpr::JsxSpreadAttr(attr) => self.walk_expr(&attr.stx.value),
+      AstExpr::TypeAssertion(assertion) => {
+        self.walk_expr(&assertion.stx.expression);
+        if let Some(annotation) = &assertion.stx.type_annotation {
+          self.walk_type_expr(annotation);
+        }
+      }
+      AstExpr::NonNullAssertion(assertion) => self.walk_expr(&assertion.stx.expression),
+      AstExpr::SatisfiesExpr(satisfies) => {
+        self.walk_expr(&satisfies.stx.expression);
+        self.walk_type_expr(&satisfies.stx.type_annotation);
+      }
+      AstExpr::Import(import) => {
+        self.walk_expr(&import.stx.module);
+        if let Some(attributes) = &import.stx.attributes {
+          self.walk_expr(attributes);
+        }
+      }
+      AstExpr::Instantiation(inst) => {
+        self.walk_expr(&inst.stx.expression);
+        for arg in inst.stx.type_arguments.iter() {
+          self.walk_type_expr(arg);
+        }
+      }
       _ => {}
     }
   }
@@ -2982,6 +3101,18 @@ impl<'a> ResolveTablesPass<'a> {
           }
         }
       }
+      AstStmt::While(while_stmt) => {
+        self.walk_expr(&while_stmt.stx.condition);
+        self.walk_stmt(&while_stmt.stx.body);
+      }
+      AstStmt::DoWhile(do_while) => {
+        self.walk_stmt(&do_while.stx.body);
+        self.walk_expr(&do_while.stx.condition);
+      }
+      AstStmt::Throw(throw) => self.walk_expr(&throw.stx.value),
+      AstStmt::ExportDefaultExpr(export) => self.walk_expr(&export.stx.expression),
+      AstStmt::ExportAssignmentDecl(export) => self.walk_expr(&export.stx.expression),
+      AstStmt::Label(label) => self.walk_stmt(&label.stx.statement),
       _ => {}
     }
     self.pop_scope_for_node(stmt);
@@ -3056,6 +3187,9 @@ impl<'a> ResolveTablesPass<'a> {
       }
       AstPat::Obj(obj) => {
         for prop in obj.stx.properties.iter() {
+          if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+            self.walk_expr(key);
+          }
           self.walk_pat(&prop.stx.target);
           if let Some(default) = &prop.stx.default_value {
             self.walk_expr(default);
@@ -3083,6 +3217,9 @@ impl<'a> ResolveTablesPass<'a> {
 
   fn walk_obj_pat_expr(&mut self, pat: &Node<ObjPat>) {
     for prop in pat.stx.properties.iter() {
+      if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+        self.walk_expr(key);
+      }
       self.walk_pat(&prop.stx.target);
       if let Some(default) = &prop.stx.default_value {
         self.walk_expr(default);
@@ -3201,6 +3338,29 @@ impl<'a> ResolveTablesPass<'a> {
       AstExpr::JsxElem(elem) => self.walk_jsx_elem(elem),
       AstExpr::JsxExprContainer(container) => self.walk_expr(&container.stx.value),
       AstExpr::JsxSpreadAttr(attr) => self.walk_expr(&attr.stx.value),
+      AstExpr::TypeAssertion(assertion) => {
+        self.walk_expr(&assertion.stx.expression);
+        if let Some(annotation) = &assertion.stx.type_annotation {
+          self.walk_type_expr(annotation);
+        }
+      }
+      AstExpr::NonNullAssertion(assertion) => self.walk_expr(&assertion.stx.expression),
+      AstExpr::SatisfiesExpr(satisfies) => {
+        self.walk_expr(&satisfies.stx.expression);
+        self.walk_type_expr(&satisfies.stx.type_annotation);
+      }
+      AstExpr::Import(import) => {
+        self.walk_expr(&import.stx.module);
+        if let Some(attributes) = &import.stx.attributes {
+          self.walk_expr(attributes);
+        }
+      }
+      AstExpr::Instantiation(inst) => {
+        self.walk_expr(&inst.stx.expression);
+        for arg in inst.stx.type_arguments.iter() {
+          self.walk_type_expr(arg);
+        }
+      }
       _ => {}
     }
   }
@@ -3431,6 +3591,11 @@ impl<'a> ResolveTablesPass<'a> {
   }
 
   fn walk_type_function(&mut self, func: &Node<TypeFunction>) {
+    if let Some(params) = &func.stx.type_parameters {
+      for param in params.iter() {
+        self.walk_type_param(param);
+      }
+    }
     for param in func.stx.parameters.iter() {
       self.walk_type_expr(&param.stx.type_expr);
     }
@@ -3438,6 +3603,11 @@ impl<'a> ResolveTablesPass<'a> {
   }
 
   fn walk_constructor_type(&mut self, func: &Node<TypeConstructor>) {
+    if let Some(params) = &func.stx.type_parameters {
+      for param in params.iter() {
+        self.walk_type_param(param);
+      }
+    }
     for param in func.stx.parameters.iter() {
       self.walk_type_expr(&param.stx.type_expr);
     }
-- 
2.43.0


From d19d3b03c7be7f3af58534ff8fe3a97408780ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 33/40] fix: the checker finds code in default exports,
 patterns, enum initialisers and parameter decorators

---
 typecheck-ts/src/check/hir_body.rs | 80 +++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/typecheck-ts/src/check/hir_body.rs b/typecheck-ts/src/check/hir_body.rs
index c55e98a..52f560c 100644
--- a/typecheck-ts/src/check/hir_body.rs
+++ b/typecheck-ts/src/check/hir_body.rs
@@ -337,6 +337,19 @@ impl AstIndex {
       Stmt::GlobalDecl(global) => {
         self.index_stmt_list(&global.stx.body, file, cancelled);
       }
+      Stmt::EnumDecl(enum_decl) => {
+        for member in enum_decl.stx.members.iter() {
+          if let Some(init) = &member.stx.initializer {
+            self.index_expr(init, file, cancelled);
+          }
+        }
+      }
+      Stmt::ExportDefaultExpr(export) => {
+        self.index_expr(&export.stx.expression, file, cancelled);
+      }
+      Stmt::ExportAssignmentDecl(export) => {
+        self.index_expr(&export.stx.expression, file, cancelled);
+      }
       _ => {}
     }
   }
@@ -417,6 +430,9 @@ impl AstIndex {
       if let Some(default) = &param.stx.default_value {
         self.index_expr(default, file, cancelled);
       }
+      for decorator in param.stx.decorators.iter() {
+        self.index_expr(&decorator.stx.expression, file, cancelled);
+      }
     }
 
     if let Some(body) = &func.stx.body {
@@ -606,6 +622,8 @@ impl AstIndex {
       }
       AstExpr::Func(func) => self.index_function(&func.stx.func, file, cancelled),
       AstExpr::ArrowFunc(func) => self.index_function(&func.stx.func, file, cancelled),
+      AstExpr::ArrPat(arr) => self.index_arr_pat(arr, file, cancelled),
+      AstExpr::ObjPat(obj) => self.index_obj_pat(obj, file, cancelled),
       AstExpr::JsxElem(elem) => self.index_jsx_elem(elem, file, cancelled),
       AstExpr::JsxExprContainer(container) => {
         if !is_empty_jsx_expr_placeholder(&container.stx.value) {
@@ -629,8 +647,6 @@ impl AstIndex {
       | AstExpr::This(..)
       | AstExpr::Super(..)
       | AstExpr::IdPat(..)
-      | AstExpr::ArrPat(..)
-      | AstExpr::ObjPat(..)
       | AstExpr::ImportMeta(..)
       | AstExpr::JsxMember(..)
       | AstExpr::JsxName(..)
@@ -903,29 +919,47 @@ impl AstIndex {
     let span = loc_to_range(file, pat.loc);
     self.pats.insert(span, pat as *const _);
     match pat.stx.as_ref() {
-      AstPat::Arr(arr) => {
-        for elem in arr.stx.elements.iter().flatten() {
-          self.index_pat(&elem.target, file, cancelled);
-          if let Some(default) = &elem.default_value {
-            self.index_expr(default, file, cancelled);
-          }
-        }
-        if let Some(rest) = &arr.stx.rest {
-          self.index_pat(rest, file, cancelled);
-        }
+      AstPat::Arr(arr) => self.index_arr_pat(arr, file, cancelled),
+      AstPat::Obj(obj) => self.index_obj_pat(obj, file, cancelled),
+      AstPat::AssignTarget(expr) => self.index_expr(expr, file, cancelled),
+      AstPat::Id(_) => {}
+    }
+  }
+
+  fn index_arr_pat(
+    &mut self,
+    arr: &Node<ArrPat>,
+    file: FileId,
+    cancelled: Option<&Arc<AtomicBool>>,
+  ) {
+    for elem in arr.stx.elements.iter().flatten() {
+      self.index_pat(&elem.target, file, cancelled);
+      if let Some(default) = &elem.default_value {
+        self.index_expr(default, file, cancelled);
       }
-      AstPat::Obj(obj) => {
-        for prop in obj.stx.properties.iter() {
-          self.index_pat(&prop.stx.target, file, cancelled);
-          if let Some(default) = &prop.stx.default_value {
-            self.index_expr(default, file, cancelled);
-          }
-        }
-        if let Some(rest) = &obj.stx.rest {
-          self.index_pat(rest, file, cancelled);
-        }
+    }
+    if let Some(rest) = &arr.stx.rest {
+      self.index_pat(rest, file, cancelled);
+    }
+  }
+
+  fn index_obj_pat(
+    &mut self,
+    obj: &Node<ObjPat>,
+    file: FileId,
+    cancelled: Option<&Arc<AtomicBool>>,
+  ) {
+    for prop in obj.stx.properties.iter() {
+      if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+        self.index_expr(key, file, cancelled);
       }
-      AstPat::Id(_) | AstPat::AssignTarget(_) => {}
+      self.index_pat(&prop.stx.target, file, cancelled);
+      if let Some(default) = &prop.stx.default_value {
+        self.index_expr(default, file, cancelled);
+      }
+    }
+    if let Some(rest) = &obj.stx.rest {
+      self.index_pat(rest, file, cancelled);
     }
   }
 }
-- 
2.43.0


From 3a2f25c87ba31fd75fab847e2fed1a5cde06dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 34/40] fix: computed keys of patterns and object literals are
 type checked

---
 typecheck-ts/src/check/hir_body.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/typecheck-ts/src/check/hir_body.rs b/typecheck-ts/src/check/hir_body.rs
index 52f560c..06704d3 100644
--- a/typecheck-ts/src/check/hir_body.rs
+++ b/typecheck-ts/src/check/hir_body.rs
@@ -5633,7 +5633,10 @@ impl<'a> Checker<'a> {
             ClassOrObjKey::Direct(direct) => {
               PropKey::String(self.store.intern_name(direct.stx.key.clone()))
             }
-            ClassOrObjKey::Computed(_) => continue,
+            ClassOrObjKey::Computed(key) => {
+              self.check_expr(key);
+              continue;
+            }
           };
           match val {
             ClassOrObjVal::Prop(Some(expr)) => {
@@ -5719,7 +5722,10 @@ impl<'a> Checker<'a> {
         ObjMemberType::Valued { key, val } => {
           let name = match key {
             ClassOrObjKey::Direct(direct) => direct.stx.key.clone(),
-            ClassOrObjKey::Computed(_) => continue,
+            ClassOrObjKey::Computed(key) => {
+              self.check_expr(key);
+              continue;
+            }
           };
           let prop_key = PropKey::String(self.store.intern_name(name.clone()));
           let expected_prop = self.member_type(expected, &name);
@@ -6414,10 +6420,14 @@ impl<'a> Checker<'a> {
     let value_is_any = matches!(self.store.type_kind(value), TypeKind::Any);
     for prop in obj.stx.properties.iter() {
       let mut prop_ty = if value_is_any { prim.any } else { prim.unknown };
-      if !value_is_any {
-        if let ClassOrObjKey::Direct(direct) = &prop.stx.key {
+      match &prop.stx.key {
+        ClassOrObjKey::Direct(direct) if !value_is_any => {
           prop_ty = self.member_type(value, &direct.stx.key);
         }
+        ClassOrObjKey::Direct(_) => {}
+        ClassOrObjKey::Computed(key) => {
+          self.check_expr(key);
+        }
       }
       if let Some(default) = &prop.stx.default_value {
         let default_ty = self.check_expr(default);
-- 
2.43.0


From 1fe805ba95c8f358e772e062f9e26c7f6f1a9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 35/40] fix: vm-js roots related handles in one step

Growing a root stack may run a collection, so rooting two fresh handles one
after the other could collect the second while the first was being rooted.
---
 vm-js/src/builtins.rs | 30 ++++++++----------------------
 vm-js/src/exec.rs     | 13 +++++--------
 vm-js/src/heap.rs     | 21 ++++++++++++++-------
 vm-js/src/ops.rs      |  4 ++--
 vm-js/src/spec_ops.rs |  3 +--
 5 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/vm-js/src/builtins.rs b/vm-js/src/builtins.rs
index 66e0a21..5e623c2 100644
--- a/vm-js/src/builtins.rs
+++ b/vm-js/src/builtins.rs
@@ -870,8 +870,7 @@ fn promise_resolve_abstract(
 
   // Root the promise + resolving function for the duration of the resolve call (which may
   // allocate/GC).
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
+  scope.push_roots(&[capability.promise, capability.resolve])?;
   let _ = vm.call_with_host(&mut scope, host, capability.resolve, Value::Undefined, &[x])?;
   Ok(promise_obj)
 }
@@ -1413,8 +1412,7 @@ pub fn promise_reject(
 ) -> Result<Value, VmError> {
   let reason = args.get(0).copied().unwrap_or(Value::Undefined);
   let capability = new_promise_capability(vm, scope, host, this)?;
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.reject])?;
   let _ = vm.call_with_host(scope, host, capability.reject, Value::Undefined, &[reason])?;
   Ok(capability.promise)
 }
@@ -1794,9 +1792,7 @@ pub fn promise_try(
   let capability = new_promise_capability(vm, scope, host, this)?;
 
   // Root the promise + resolving functions for the duration of the callback call.
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let callback_args = args.get(1..).unwrap_or(&[]);
   match vm.call_with_host(scope, host, callback, Value::Undefined, callback_args) {
@@ -1825,9 +1821,7 @@ pub fn promise_with_resolvers(
 
   let capability = new_promise_capability(vm, scope, host, this)?;
   // Root the new promise and resolving functions before allocating the result object.
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let obj = scope.alloc_object()?;
   scope.push_root(Value::Object(obj))?;
@@ -2113,9 +2107,7 @@ pub fn promise_all(
 
   // Root the resulting promise and resolving functions so `IfAbruptRejectPromise` can call them
   // even if the iterator acquisition/loop allocates and triggers GC.
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let promise_resolve = match get_promise_resolve(vm, scope, hooks, this) {
     Ok(v) => v,
@@ -2187,9 +2179,7 @@ pub fn promise_race(
   // `Promise.race(iterable)` (ECMA-262).
   let iterable = args.get(0).copied().unwrap_or(Value::Undefined);
   let capability = new_promise_capability(vm, scope, hooks, this)?;
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let promise_resolve = match get_promise_resolve(vm, scope, hooks, this) {
     Ok(v) => v,
@@ -2378,9 +2368,7 @@ pub fn promise_all_settled(
   // `Promise.allSettled(iterable)` (ECMA-262).
   let iterable = args.get(0).copied().unwrap_or(Value::Undefined);
   let capability = new_promise_capability(vm, scope, hooks, this)?;
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let promise_resolve = match get_promise_resolve(vm, scope, hooks, this) {
     Ok(v) => v,
@@ -2551,9 +2539,7 @@ pub fn promise_any(
   // `Promise.any(iterable)` (ECMA-262).
   let iterable = args.get(0).copied().unwrap_or(Value::Undefined);
   let capability = new_promise_capability(vm, scope, hooks, this)?;
-  scope.push_root(capability.promise)?;
-  scope.push_root(capability.resolve)?;
-  scope.push_root(capability.reject)?;
+  scope.push_roots(&[capability.promise, capability.resolve, capability.reject])?;
 
   let promise_resolve = match get_promise_resolve(vm, scope, hooks, this) {
     Ok(v) => v,
diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index d568a24..00ccaa0 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -211,11 +211,10 @@ impl RuntimeEnv {
     lexical_env: GcEnv,
     var_env: GcEnv,
   ) -> Result<Self, VmError> {
-    // Root the global object across root registration in case it triggers GC.
+    // Root the global object and the environments across root registration in case it triggers GC.
     let mut scope = heap.scope();
-    scope.push_root(Value::Object(global_object))?;
-    scope.push_env_root(lexical_env)?;
-    scope.push_env_root(var_env)?;
+    scope.push_roots_with_extra_roots(&[Value::Object(global_object)], &[], &[lexical_env, var_env])?;
+    scope.push_env_roots(&[lexical_env, var_env])?;
 
     let lexical_root = scope.heap_mut().add_env_root(lexical_env)?;
 
@@ -4038,8 +4037,7 @@ impl<'a> Evaluator<'a> {
                 &mut new_scope,
                 spread_value,
               )?;
-              new_scope.push_root(iter.iterator)?;
-              new_scope.push_root(iter.next_method)?;
+              new_scope.push_roots(&[iter.iterator, iter.next_method])?;
 
               while let Some(value) =
                 iterator::iterator_step_value(self.vm, &mut *self.host, &mut *self.hooks, &mut new_scope, &mut iter)?
@@ -4840,8 +4838,7 @@ impl<'a> Evaluator<'a> {
     // Root inputs and intermediates for the duration of the operation: `+` may allocate
     // (string concatenation, ToString) and thus trigger GC.
     let mut add_scope = scope.reborrow();
-    add_scope.push_root(left)?;
-    add_scope.push_root(right)?;
+    add_scope.push_roots(&[left, right])?;
 
     // ECMA-262 AdditionOperator (+): ToPrimitive (default), then string concat if either side is a
     // string; otherwise numeric addition.
diff --git a/vm-js/src/heap.rs b/vm-js/src/heap.rs
index 2ded3c6..33c0665 100644
--- a/vm-js/src/heap.rs
+++ b/vm-js/src/heap.rs
@@ -2846,25 +2846,32 @@ impl<'a> Scope<'a> {
   }
 
   pub fn push_env_root(&mut self, env: GcEnv) -> Result<GcEnv, VmError> {
-    debug_assert!(self.heap.is_valid_env(env));
+    self.push_env_roots(&[env])?;
+    Ok(env)
+  }
+
+  /// Pushes multiple environment stack roots in one operation.
+  pub(crate) fn push_env_roots(&mut self, envs: &[GcEnv]) -> Result<(), VmError> {
+    for env in envs {
+      debug_assert!(self.heap.is_valid_env(*env));
+    }
 
     let new_len = self
       .heap
       .env_root_stack
       .len()
-      .checked_add(1)
+      .checked_add(envs.len())
       .ok_or(VmError::OutOfMemory)?;
     let growth_bytes = vec_capacity_growth_bytes::<GcEnv>(self.heap.env_root_stack.capacity(), new_len);
 
     if growth_bytes != 0 {
-      // Ensure `env` is treated as a root if this triggers a GC while we grow `env_root_stack`.
-      let envs = [env];
-      self.heap.ensure_can_allocate_with_extra_roots(|_| growth_bytes, &[], &[], &envs, &[])?;
+      // Ensure `envs` are treated as roots if this triggers a GC while we grow `env_root_stack`.
+      self.heap.ensure_can_allocate_with_extra_roots(|_| growth_bytes, &[], &[], envs, &[])?;
       reserve_vec_to_len::<GcEnv>(&mut self.heap.env_root_stack, new_len)?;
     }
 
-    self.heap.env_root_stack.push(env);
-    Ok(env)
+    self.heap.env_root_stack.extend_from_slice(envs);
+    Ok(())
   }
 
   /// Creates a nested child scope that borrows the same heap.
diff --git a/vm-js/src/ops.rs b/vm-js/src/ops.rs
index d618c19..a65959a 100644
--- a/vm-js/src/ops.rs
+++ b/vm-js/src/ops.rs
@@ -48,8 +48,8 @@ pub fn abstract_equality(heap: &mut Heap, a: Value, b: Value) -> Result<bool, Vm
   // `==` can allocate when converting objects to primitives (via `ToPrimitive`), so root operands
   // for the duration of the comparison.
   let mut scope = heap.scope();
-  let mut a = scope.push_root(a)?;
-  let mut b = scope.push_root(b)?;
+  scope.push_roots(&[a, b])?;
+  let (mut a, mut b) = (a, b);
 
   loop {
     match (a, b) {
diff --git a/vm-js/src/spec_ops.rs b/vm-js/src/spec_ops.rs
index a0505e2..5f94a52 100644
--- a/vm-js/src/spec_ops.rs
+++ b/vm-js/src/spec_ops.rs
@@ -53,8 +53,7 @@ where
 
   // Root `new_target`/`proto` across allocation in case it triggers GC.
   let mut scope = scope.reborrow();
-  scope.push_root(new_target)?;
-  scope.push_root(Value::Object(proto))?;
+  scope.push_roots(&[new_target, Value::Object(proto)])?;
 
   let obj = allocate(&mut scope)?;
   scope.heap_mut().object_set_prototype(obj, Some(proto))?;
-- 
2.43.0


From 76505cb4a916e49419aa119586aac2bc91f6364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:44 +0000
Subject: [PATCH 36/40] fix: a comma expression keeps its parentheses where an
 assignment expression is required

---
 emit-js/src/expr.rs       | 43 ++++++++++++++++++--------
 emit-js/src/expr_js.rs    | 63 ++++++++++++++++++++++++++-------------
 emit-js/src/js_expr.rs    | 11 +++++--
 emit-js/src/js_pat.rs     | 10 +++----
 emit-js/src/js_stmt.rs    |  4 +--
 emit-js/src/jsx.rs        |  2 +-
 emit-js/src/pat.rs        | 15 ++++++----
 emit-js/src/precedence.rs |  3 ++
 emit-js/src/stmt.rs       | 26 ++++++++--------
 emit-js/src/ts_stmt.rs    |  6 ++--
 emit-js/src/ts_type.rs    |  4 +--
 11 files changed, 123 insertions(+), 64 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index a6e0f12..7dd761d 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -20,7 +20,7 @@ use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
 use crate::escape::emit_string_literal;
 use crate::precedence::{
   child_min_prec_for_binary, expr_prec, needs_parens, starts_with_optional_chaining, Prec, Side,
-  CALL_MEMBER_PRECEDENCE,
+  ASSIGNMENT_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
 };
 use crate::Emitter;
 
@@ -263,10 +263,10 @@ where
           self.out.write_char(',')?;
         }
         match elem {
-          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, Prec::new(1))?,
+          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE)?,
           LitArrElem::Rest(expr) => {
             self.out.write_str("...")?;
-            self.emit_expr_with_min_prec(expr, Prec::new(1))?;
+            self.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE)?;
           }
           LitArrElem::Empty => {}
         }
@@ -300,7 +300,7 @@ where
       }
       ObjMemberType::Rest { val } => {
         self.out.write_str("...")?;
-        self.emit_expr_with_min_prec(val, Prec::new(1))
+        self.emit_expr_with_min_prec(val, ASSIGNMENT_PRECEDENCE)
       }
     })
   }
@@ -311,7 +311,7 @@ where
         self.emit_pattern_fragment(|em| crate::pat::emit_class_or_object_key(em, key))?;
         self.out.write_char(':')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(expr, Prec::new(1))
+        self.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE)
       }
       ClassOrObjVal::Prop(None) => Err(EmitError::unsupported("object property missing value")),
       _ => Err(EmitError::unsupported("object member kind not supported")),
@@ -404,7 +404,7 @@ where
 
       if let Some(extends) = &class.extends {
         self.out.write_str(" extends ")?;
-        self.emit_expr_with_min_prec(extends, Prec::new(1))?;
+        self.emit_expr_with_min_prec(extends, CALL_MEMBER_PRECEDENCE)?;
       }
       if !class.implements.is_empty() {
         self.out.write_str(" implements ")?;
@@ -428,11 +428,11 @@ where
   fn emit_import_expr(&mut self, import: &Node<ImportExpr>) -> EmitResult {
     with_node_context(import.loc, || {
       self.out.write_str("import(")?;
-      self.emit_expr_with_min_prec(&import.stx.module, Prec::new(1))?;
+      self.emit_expr_with_min_prec(&import.stx.module, ASSIGNMENT_PRECEDENCE)?;
       if let Some(attrs) = &import.stx.attributes {
         self.out.write_char(',')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(attrs, Prec::new(1))?;
+        self.emit_expr_with_min_prec(attrs, ASSIGNMENT_PRECEDENCE)?;
       }
       self.out.write_char(')')?;
       Ok(())
@@ -553,7 +553,7 @@ where
           if *spread {
             write!(self.out, "...")?;
           }
-          self.emit_expr_with_min_prec(value, Prec::new(1))?;
+          self.emit_expr_with_min_prec(value, ASSIGNMENT_PRECEDENCE)?;
         }
 
         write!(self.out, ")")?;
@@ -678,7 +678,7 @@ where
             if *spread {
               write!(self.out, "...")?;
             }
-            self.emit_expr_with_min_prec(value, Prec::new(1))?;
+            self.emit_expr_with_min_prec(value, ASSIGNMENT_PRECEDENCE)?;
           }
           write!(self.out, ")")?;
           return Ok(());
@@ -700,7 +700,7 @@ where
         if *spread {
           write!(self.out, "...")?;
         }
-        self.emit_expr_with_min_prec(value, Prec::new(1))?;
+        self.emit_expr_with_min_prec(value, ASSIGNMENT_PRECEDENCE)?;
       }
       write!(self.out, ")")?;
       Ok(())
@@ -820,6 +820,16 @@ where
   emitter.emit_expr(expr)
 }
 
+/// Emits an expression where the grammar asks for an `AssignmentExpression`.
+pub fn emit_assignment_expr<W, F>(out: &mut W, expr: &Node<Expr>, emit_type: F) -> EmitResult
+where
+  W: fmt::Write,
+  F: FnMut(&mut W, &Node<TypeExpr>) -> fmt::Result,
+{
+  let mut emitter = ExprEmitter::new(out, emit_type, EmitOptions::canonical());
+  emitter.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE)
+}
+
 pub fn emit_expr<W, F>(out: &mut W, expr: &Node<Expr>, emit_type: F) -> EmitResult
 where
   W: fmt::Write,
@@ -829,6 +839,14 @@ where
 }
 
 pub fn emit_expr_with_emitter(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
+  emit_expr_with_emitter_and_min_prec(out, expr, Prec::LOWEST)
+}
+
+pub(crate) fn emit_expr_with_emitter_and_min_prec(
+  out: &mut Emitter,
+  expr: &Node<Expr>,
+  min_prec: Prec,
+) -> EmitResult {
   struct EmitterWriteAdapter<'a> {
     emitter: &'a mut Emitter,
   }
@@ -851,7 +869,8 @@ pub fn emit_expr_with_emitter(out: &mut Emitter, expr: &Node<Expr>) -> EmitResul
   let mut adapter = EmitterWriteAdapter { emitter: out };
   let mut emit_type =
     |out: &mut EmitterWriteAdapter<'_>, ty: &Node<TypeExpr>| crate::emit_type_expr(out, ty);
-  emit_expr_with_options(&mut adapter, expr, &mut emit_type, opts)
+  let mut emitter = ExprEmitter::new(&mut adapter, &mut emit_type, opts);
+  emitter.emit_expr_with_min_prec(expr, min_prec)
 }
 
 fn unary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4fc35ee..27ea264 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,6 +1,8 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
 use crate::escape::{cooked_template_segment, emit_template_literal_segment};
-use crate::precedence::{child_min_prec_for_binary, starts_with_optional_chaining, Side};
+use crate::precedence::{
+  child_min_prec_for_binary, starts_with_optional_chaining, Prec, Side, ASSIGNMENT_PRECEDENCE,
+};
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
 use parse_js::ast::class_or_object::{ClassOrObjKey, ClassOrObjVal, ObjMember, ObjMemberType};
@@ -33,11 +35,30 @@ pub enum ExprCtx {
 }
 
 pub fn emit_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
-  match emit_expr_with_min_prec(em, expr, 1, ctx) {
+  emit_expr_or_fallback(em, expr, Prec::LOWEST.value(), ctx)
+}
+
+/// Emits an expression where the grammar asks for an `AssignmentExpression`.
+pub fn emit_assignment_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
+  emit_expr_or_fallback(em, expr, ASSIGNMENT_PRECEDENCE.value(), ctx)
+}
+
+/// Emits an expression where the grammar asks for a `LeftHandSideExpression`.
+pub fn emit_left_hand_side_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
+  emit_expr_or_fallback(em, expr, CALL_MEMBER_PRECEDENCE, ctx)
+}
+
+fn emit_expr_or_fallback(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  min_prec: u8,
+  ctx: ExprCtx,
+) -> EmitResult {
+  match emit_expr_with_min_prec(em, expr, min_prec, ctx) {
     Err(EmitError {
       kind: EmitErrorKind::Unsupported(_),
       ..
-    }) => emit_expr_via_fmt(em, expr),
+    }) => emit_expr_via_fmt(em, expr, min_prec),
     other => other,
   }
 }
@@ -178,7 +199,8 @@ fn emit_binary(em: &mut Emitter, binary: &Node<BinaryExpr>, ctx: ExprCtx) -> Emi
       Expr::Unary(_) | Expr::UnaryPostfix(_)
     );
   let force_left_parens = force_left_parens
-    || (binary.stx.operator == OperatorName::NullishCoalescing && is_logical_and_or(&binary.stx.left))
+    || (binary.stx.operator == OperatorName::NullishCoalescing
+      && is_logical_and_or(&binary.stx.left))
     || ((binary.stx.operator == OperatorName::LogicalAnd
       || binary.stx.operator == OperatorName::LogicalOr)
       && is_nullish(&binary.stx.left));
@@ -296,7 +318,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE.value(), ctx)?;
       }
       em.write_punct(")");
       return Ok(());
@@ -317,7 +339,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
     if *spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, value, 1, ctx)?;
+    emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE.value(), ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -443,7 +465,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE.value(), ctx)?;
       }
       em.write_punct(")");
       Ok(())
@@ -479,10 +501,10 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
       em.write_punct(",");
     }
     match elem {
-      LitArrElem::Single(expr) => emit_expr(em, expr, ExprCtx::Default)?,
+      LitArrElem::Single(expr) => emit_assignment_expr(em, expr, ExprCtx::Default)?,
       LitArrElem::Rest(expr) => {
         em.write_punct("...");
-        emit_expr(em, expr, ExprCtx::Default)?;
+        emit_assignment_expr(em, expr, ExprCtx::Default)?;
       }
       LitArrElem::Empty => {}
     }
@@ -512,7 +534,7 @@ fn emit_obj_member(em: &mut Emitter, member: &Node<ObjMember>) -> EmitResult {
     }
     ObjMemberType::Rest { val } => {
       em.write_punct("...");
-      emit_expr(em, val, ExprCtx::Default)
+      emit_assignment_expr(em, val, ExprCtx::Default)
     }
   }
 }
@@ -527,7 +549,7 @@ fn emit_obj_valued_member(
       emit_class_or_object_key(em, key)?;
       if let Some(init) = init {
         em.write_punct(":");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       Ok(())
     }
@@ -588,7 +610,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
     }
     ClassOrObjKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr(em, expr, ExprCtx::Default)?;
+      emit_assignment_expr(em, expr, ExprCtx::Default)?;
       em.write_punct("]");
       Ok(())
     }
@@ -636,7 +658,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -677,7 +699,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -719,7 +741,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -844,7 +866,7 @@ fn emit_func_body(em: &mut Emitter, body: &Option<FuncBody>, ctx: ExprCtx) -> Em
       em.write_punct("}");
       Ok(())
     }
-    Some(FuncBody::Expression(expr)) => emit_expr(em, expr, ctx),
+    Some(FuncBody::Expression(expr)) => emit_assignment_expr(em, expr, ctx),
     None => Err(EmitError::unsupported("function missing body")),
   }
 }
@@ -882,10 +904,10 @@ fn emit_class_expression(em: &mut Emitter, class: &Node<ClassExpr>) -> EmitResul
 fn emit_import_expr(em: &mut Emitter, import: &Node<ImportExpr>, ctx: ExprCtx) -> EmitResult {
   em.write_keyword("import");
   em.write_punct("(");
-  emit_expr(em, &import.stx.module, ctx)?;
+  emit_assignment_expr(em, &import.stx.module, ctx)?;
   if let Some(attrs) = &import.stx.attributes {
     em.write_punct(",");
-    emit_expr(em, attrs, ctx)?;
+    emit_assignment_expr(em, attrs, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -927,10 +949,11 @@ fn emit_template_parts(em: &mut Emitter, parts: &[LitTemplatePart]) -> EmitResul
   Ok(())
 }
 
-fn emit_expr_via_fmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
+fn emit_expr_via_fmt(em: &mut Emitter, expr: &Node<Expr>, min_prec: u8) -> EmitResult {
   let mut buf = String::new();
   let mut emit_type = |out: &mut String, ty: &Node<TypeExpr>| emit_type_expr(out, ty);
-  crate::expr::emit_expr_with_options(&mut buf, expr, &mut emit_type, em.options())?;
+  crate::expr::ExprEmitter::new(&mut buf, &mut emit_type, em.options())
+    .emit_expr_with_min_prec(expr, Prec::new(min_prec))?;
   em.write_str(&buf);
   Ok(())
 }
diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index e709012..f16f661 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -12,6 +12,7 @@ use crate::Emitter;
 
 const CALL_MEMBER_PRECEDENCE: u8 = 18; // Matches OperatorName::Call/MemberAccess precedence.
 const PRIMARY_PRECEDENCE: u8 = CALL_MEMBER_PRECEDENCE + 1;
+const ASSIGNMENT_PRECEDENCE: u8 = 2; // Anything but a comma expression.
 const ARROW_PRECEDENCE: u8 = 3; // Matches assignment-expression precedence.
 
 #[derive(Debug)]
@@ -122,7 +123,7 @@ impl<'a> JsExprEmitter<'a> {
     };
 
     match body {
-      FuncBody::Expression(expr) => self.emit_expr(expr),
+      FuncBody::Expression(expr) => self.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE),
       FuncBody::Block(_) => Err(JsEmitError::Unsupported(
         "block bodies are not supported by JS emitter",
       )),
@@ -162,7 +163,7 @@ impl<'a> JsExprEmitter<'a> {
       if arg.stx.spread {
         self.out.write_punct("...");
       }
-      self.emit_expr_with_min_prec(&arg.stx.value, 1)?;
+      self.emit_expr_with_min_prec(&arg.stx.value, ASSIGNMENT_PRECEDENCE)?;
     }
     self.out.write_punct(")");
     Ok(())
@@ -267,6 +268,12 @@ impl<'a> JsExprEmitter<'a> {
   }
 }
 
+/// Emits an expression where the grammar asks for an `AssignmentExpression`.
+pub(crate) fn emit_js_assignment_expr(out: &mut Emitter, expr: &Node<Expr>) -> JsEmitResult {
+  let mut emitter = JsExprEmitter { out };
+  emitter.emit_expr_with_min_prec(expr, ASSIGNMENT_PRECEDENCE)
+}
+
 pub fn emit_js_expr(out: &mut Emitter, expr: &Node<Expr>) -> JsEmitResult {
   let mut emitter = JsExprEmitter { out };
   emitter.emit_expr(expr)
diff --git a/emit-js/src/js_pat.rs b/emit-js/src/js_pat.rs
index 2856192..1f7c88a 100644
--- a/emit-js/src/js_pat.rs
+++ b/emit-js/src/js_pat.rs
@@ -3,7 +3,7 @@ use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::node::Node;
 use parse_js::ast::stmt::decl::{ParamDecl, PatDecl};
 
-use crate::js_expr::{emit_js_expr, JsEmitError, JsEmitResult};
+use crate::js_expr::{emit_js_assignment_expr, emit_js_expr, JsEmitError, JsEmitResult};
 use crate::Emitter;
 
 pub fn emit_js_pat(out: &mut Emitter, pat: &Node<Pat>) -> JsEmitResult {
@@ -51,7 +51,7 @@ pub fn emit_js_param_decl(out: &mut Emitter, decl: &Node<ParamDecl>) -> JsEmitRe
   emit_js_pat_decl(out, &decl.stx.pattern)?;
   if let Some(default) = &decl.stx.default_value {
     out.write_punct("=");
-    emit_js_expr(out, default)?;
+    emit_js_assignment_expr(out, default)?;
   }
   Ok(())
 }
@@ -83,7 +83,7 @@ fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> JsEmitResult {
       emit_js_pat(out, &elem.target)?;
       if let Some(default) = &elem.default_value {
         out.write_punct("=");
-        emit_js_expr(out, default)?;
+        emit_js_assignment_expr(out, default)?;
       }
     }
   }
@@ -124,7 +124,7 @@ fn emit_class_or_object_key(out: &mut Emitter, key: &ClassOrObjKey) -> JsEmitRes
     }
     ClassOrObjKey::Computed(expr) => {
       out.write_punct("[");
-      emit_js_expr(out, expr)?;
+      emit_js_assignment_expr(out, expr)?;
       out.write_punct("]");
     }
   }
@@ -139,7 +139,7 @@ fn emit_obj_pat_prop(out: &mut Emitter, prop: &Node<ObjPatProp>) -> JsEmitResult
   }
   if let Some(default) = &prop.stx.default_value {
     out.write_punct("=");
-    emit_js_expr(out, default)?;
+    emit_js_assignment_expr(out, default)?;
   }
   Ok(())
 }
diff --git a/emit-js/src/js_stmt.rs b/emit-js/src/js_stmt.rs
index f5f0011..219ae7d 100644
--- a/emit-js/src/js_stmt.rs
+++ b/emit-js/src/js_stmt.rs
@@ -15,7 +15,7 @@ use parse_js::ast::stx::TopLevel;
 
 use crate::asi::separator_between;
 use crate::asi::Separator;
-use crate::js_expr::{emit_js_expr, JsEmitError, JsEmitResult};
+use crate::js_expr::{emit_js_assignment_expr, emit_js_expr, JsEmitError, JsEmitResult};
 use crate::js_pat::emit_js_pat_decl;
 use crate::{Emitter, StmtSepStyle};
 
@@ -189,7 +189,7 @@ fn emit_var_decl_inner(
     emit_js_pat_decl(out, &declarator.pattern)?;
     if let Some(init) = &declarator.initializer {
       out.write_punct("=");
-      emit_js_expr(out, init)?;
+      emit_js_assignment_expr(out, init)?;
     }
   }
 
diff --git a/emit-js/src/jsx.rs b/emit-js/src/jsx.rs
index 2aa2795..222f16a 100644
--- a/emit-js/src/jsx.rs
+++ b/emit-js/src/jsx.rs
@@ -114,7 +114,7 @@ pub fn emit_jsx_spread_attr<W: fmt::Write>(out: &mut W, attr: &Node<JsxSpreadAtt
   with_node_context(attr.loc, || {
     out.write_str("{...")?;
     let mut emit_type = |out: &mut W, ty: &Node<TypeExpr>| crate::emit_type_expr(out, ty);
-    crate::expr::emit_expr(out, &attr.stx.value, &mut emit_type)?;
+    crate::expr::emit_assignment_expr(out, &attr.stx.value, &mut emit_type)?;
     out.write_char('}')?;
     Ok(())
   })
diff --git a/emit-js/src/pat.rs b/emit-js/src/pat.rs
index b9dbec0..62852f0 100644
--- a/emit-js/src/pat.rs
+++ b/emit-js/src/pat.rs
@@ -6,13 +6,18 @@ use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::token::TT;
 
 use crate::emitter::EmitResult;
-use crate::expr::emit_expr_with_emitter;
+use crate::expr::{emit_expr_with_emitter, emit_expr_with_emitter_and_min_prec};
+use crate::precedence::ASSIGNMENT_PRECEDENCE;
 use crate::Emitter;
 
 fn emit_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   emit_expr_with_emitter(out, expr)
 }
 
+fn emit_assignment_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
+  emit_expr_with_emitter_and_min_prec(out, expr, ASSIGNMENT_PRECEDENCE)
+}
+
 fn emit_decorators(out: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for decorator in decorators {
     out.write_punct("@");
@@ -67,7 +72,7 @@ pub fn emit_param_decl(out: &mut Emitter, decl: &Node<ParamDecl>) -> EmitResult
   }
   if let Some(default) = &decl.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
@@ -87,7 +92,7 @@ pub(crate) fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> EmitR
       emit_pat(out, &elem.target)?;
       if let Some(default) = &elem.default_value {
         out.write_punct("=");
-        emit_expr(out, default)?;
+        emit_assignment_expr(out, default)?;
       }
     }
   }
@@ -136,7 +141,7 @@ pub(crate) fn emit_class_or_object_key(out: &mut Emitter, key: &ClassOrObjKey) -
     }
     ClassOrObjKey::Computed(expr) => {
       out.write_punct("[");
-      emit_expr(out, expr)?;
+      emit_assignment_expr(out, expr)?;
       out.write_punct("]");
       Ok(())
     }
@@ -151,7 +156,7 @@ fn emit_obj_pat_prop(out: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 8b3f46b..85920fd 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -32,6 +32,9 @@ pub const SATISFIES_PRECEDENCE: Prec = TYPE_ASSERTION_PRECEDENCE;
 pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
+/// Minimum precedence where the grammar asks for an `AssignmentExpression`: anything
+/// but a comma expression.
+pub const ASSIGNMENT_PRECEDENCE: Prec = Prec::new(2);
 /// Precedence for arrow functions (lower than assignment to force parentheses when
 /// used as operands).
 pub const ARROW_FUNCTION_PRECEDENCE: Prec = Prec::new(2);
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index e8f21b6..2dc0a05 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -1,4 +1,4 @@
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_assignment_expr, emit_expr, emit_left_hand_side_expr, ExprCtx};
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
@@ -183,7 +183,7 @@ fn emit_for_of(em: &mut Emitter, for_stmt: &Node<ForOfStmt>) -> EmitResult {
   em.write_punct("(");
   emit_for_in_of_lhs(em, &for_stmt.lhs)?;
   em.write_keyword("of");
-  emit_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
+  emit_assignment_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
   em.write_punct(")");
   emit_for_body(em, &for_stmt.body)
 }
@@ -390,7 +390,7 @@ fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
   }
   if let Some(init) = &decl.initializer {
     em.write_punct("=");
-    emit_expr(em, init, ExprCtx::Default)?;
+    emit_assignment_expr(em, init, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -486,7 +486,7 @@ pub(crate) fn emit_class_like<T>(
   emit_type_params(em, type_parameters);
   if let Some(extends) = extends {
     em.write_keyword("extends");
-    emit_expr(em, extends, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, extends, ExprCtx::Default)?;
   }
   if !implements.is_empty() {
     em.write_keyword("implements");
@@ -615,7 +615,7 @@ fn emit_class_member(em: &mut Emitter, member: &Node<ClassMember>) -> EmitResult
       }
       if let Some(init) = init {
         em.write_punct("=");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       em.write_punct(";");
       Ok(())
@@ -700,7 +700,7 @@ fn emit_import_stmt(em: &mut Emitter, import: &ImportStmt) -> EmitResult {
   emit_string_literal(em, &import.module);
   if let Some(attrs) = &import.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -798,7 +798,7 @@ fn emit_export_list_stmt(em: &mut Emitter, export: &ExportListStmt) -> EmitResul
   }
   if let Some(attrs) = &export.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -838,7 +838,7 @@ fn emit_export_default_expr(em: &mut Emitter, stmt: &Node<ExportDefaultExprStmt>
     emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
     em.write_punct(")");
   } else {
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
   }
   em.write_punct(";");
   Ok(())
@@ -891,7 +891,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -933,7 +933,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -953,7 +953,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
     }
     ClassOrObjKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr(em, expr, ExprCtx::Default)?;
+      emit_assignment_expr(em, expr, ExprCtx::Default)?;
       em.write_punct("]");
       Ok(())
     }
@@ -981,7 +981,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -989,7 +989,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
 pub(crate) fn emit_decorators(em: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for deco in decorators {
     em.write_punct("@");
-    emit_expr(em, &deco.stx.expression, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, &deco.stx.expression, ExprCtx::Default)?;
     em.write_space();
   }
   Ok(())
diff --git a/emit-js/src/ts_stmt.rs b/emit-js/src/ts_stmt.rs
index 7095e62..3197390 100644
--- a/emit-js/src/ts_stmt.rs
+++ b/emit-js/src/ts_stmt.rs
@@ -1,5 +1,5 @@
 use crate::emitter::{with_node_context, EmitError, EmitErrorKind, EmitMode, EmitResult, Emitter};
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_assignment_expr, ExprCtx};
 use crate::ts_type::emit_type_parameters;
 use crate::{emit_interface_decl, emit_type_alias_decl, emit_type_expr, emit_type_members};
 use parse_js::ast::expr::Expr;
@@ -413,7 +413,9 @@ fn emit_string_literal(em: &mut Emitter, value: &str) -> EmitResult {
 }
 
 fn emit_ts_expr(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
-  with_node_context(expr.loc, || emit_expr(em, expr, ExprCtx::Default))
+  with_node_context(expr.loc, || {
+    emit_assignment_expr(em, expr, ExprCtx::Default)
+  })
 }
 
 fn space_if_canonical(em: &mut Emitter) {
diff --git a/emit-js/src/ts_type.rs b/emit-js/src/ts_type.rs
index ca10b4a..0581a0b 100644
--- a/emit-js/src/ts_type.rs
+++ b/emit-js/src/ts_type.rs
@@ -1,5 +1,5 @@
 use crate::escape::emit_template_literal_segment;
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_left_hand_side_expr, ExprCtx};
 use crate::{EmitMode, EmitOptions, EmitResult, Emitter};
 use parse_js::ast::expr::Expr;
 use parse_js::ast::expr::ImportExpr;
@@ -918,7 +918,7 @@ impl<'a> TypeEmitter<'a> {
         self.em.write_punct("]");
       }
       Expr::Import(import) => self.emit_import_entity(import)?,
-      _ => emit_expr(self.em, expr, ExprCtx::Default)?,
+      _ => emit_left_hand_side_expr(self.em, expr, ExprCtx::Default)?,
     }
     Ok(())
   }
-- 
2.43.0


From 01a4904c8b86cf58c08c27affe8b003a22ab749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 37/40] fix: a statement that would start with function, class
 or a brace is parenthesised

---
 emit-js/src/stmt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index 2dc0a05..9b099bc 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -2,6 +2,7 @@ use crate::expr_js::{emit_assignment_expr, emit_expr, emit_left_hand_side_expr,
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
+use crate::stmt_start::expr_stmt_needs_parens;
 use crate::ts_type::{emit_ts_type, emit_type_parameters};
 use crate::{EmitError, EmitMode, EmitResult, Emitter};
 use parse_js::ast::class_or_object::{
@@ -104,10 +105,7 @@ fn emit_expr_stmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
 }
 
 fn expr_needs_paren_in_stmt(expr: &Node<Expr>) -> bool {
-  matches!(
-    expr.stx.as_ref(),
-    Expr::LitObj(_) | Expr::Func(_) | Expr::Class(_) | Expr::ArrowFunc(_)
-  )
+  matches!(expr.stx.as_ref(), Expr::ArrowFunc(_)) || expr_stmt_needs_parens(expr)
 }
 
 fn emit_stmt_as_body(em: &mut Emitter, stmt: &Node<Stmt>) -> EmitResult {
-- 
2.43.0


From 0706f963e51767b85f67795d613591a6df9895f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:57 +0000
Subject: [PATCH 38/40] fix: ?? is parenthesised next to && and ||

---
 emit-js/src/hir.rs     | 19 +++++++++++++++++++
 emit-js/src/js_expr.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 91eccca..23a5170 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2091,6 +2091,7 @@ fn emit_binary(
         | ExprKind::Await { .. }
         | ExprKind::Literal(Literal::Undefined)
     );
+  let left_needs_paren = left_needs_paren || mixes_nullish(op, &ctx.expr(body, left).kind);
   if left_needs_paren {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, left)?;
@@ -2107,11 +2108,29 @@ fn emit_binary(
 
   emit_binary_operator(em, op_name)?;
 
+  if mixes_nullish(op, &ctx.expr(body, right).kind) {
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, right)?;
+    em.write_punct(")");
+    return Ok(());
+  }
   let right_prec = child_min_prec_for_binary(op_name, crate::precedence::Side::Right);
   emit_expr_with_min_prec(em, ctx, body, right, right_prec)?;
   Ok(())
 }
 
+/// `??` may not be mixed with `&&` or `||` without parentheses.
+fn mixes_nullish(op: BinaryOp, operand: &ExprKind) -> bool {
+  match operand {
+    ExprKind::Binary { op: inner, .. } => match op {
+      BinaryOp::NullishCoalescing => matches!(inner, BinaryOp::LogicalAnd | BinaryOp::LogicalOr),
+      BinaryOp::LogicalAnd | BinaryOp::LogicalOr => matches!(inner, BinaryOp::NullishCoalescing),
+      _ => false,
+    },
+    _ => false,
+  }
+}
+
 fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
   match op {
     OperatorName::LogicalNot => em.write_punct("!"),
diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index f16f661..104dc86 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -135,7 +135,8 @@ impl<'a> JsExprEmitter<'a> {
       .get(&binary.stx.operator)
       .ok_or(JsEmitError::Unsupported("unknown operator"))?;
     let left_needs_parens = binary.stx.operator == OperatorName::Exponentiation
-      && needs_parens_for_exponentiation_base(&binary.stx.left);
+      && needs_parens_for_exponentiation_base(&binary.stx.left)
+      || mixes_nullish(binary.stx.operator, &binary.stx.left);
     if left_needs_parens {
       self.out.write_punct("(");
       self.emit_expr_no_parens(&binary.stx.left)?;
@@ -146,6 +147,12 @@ impl<'a> JsExprEmitter<'a> {
 
     emit_binary_operator(self.out, binary.stx.operator)?;
 
+    if mixes_nullish(binary.stx.operator, &binary.stx.right) {
+      self.out.write_punct("(");
+      self.emit_expr_no_parens(&binary.stx.right)?;
+      self.out.write_punct(")");
+      return Ok(());
+    }
     let right_prec = op.precedence + (op.associativity == Associativity::Left) as u8;
     self.emit_expr_with_min_prec(&binary.stx.right, right_prec)
   }
@@ -279,6 +286,23 @@ pub fn emit_js_expr(out: &mut Emitter, expr: &Node<Expr>) -> JsEmitResult {
   emitter.emit_expr(expr)
 }
 
+/// `??` may not be mixed with `&&` or `||` without parentheses.
+fn mixes_nullish(op: OperatorName, operand: &Node<Expr>) -> bool {
+  let Expr::Binary(inner) = operand.stx.as_ref() else {
+    return false;
+  };
+  match op {
+    OperatorName::NullishCoalescing => matches!(
+      inner.stx.operator,
+      OperatorName::LogicalAnd | OperatorName::LogicalOr
+    ),
+    OperatorName::LogicalAnd | OperatorName::LogicalOr => {
+      inner.stx.operator == OperatorName::NullishCoalescing
+    }
+    _ => false,
+  }
+}
+
 fn render_number(lit: &Node<LitNumExpr>) -> String {
   lit.stx.value.to_string()
 }
-- 
2.43.0


From 261c7717b12bb6a94c9845a681ad2393c0508f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:40 +0000
Subject: [PATCH 39/40] fix: new keeps the parentheses around its callee and
 around new without arguments

---
 emit-js/src/expr.rs       |  8 ++++----
 emit-js/src/expr_js.rs    | 11 ++++++++---
 emit-js/src/precedence.rs | 31 +++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index 7dd761d..82a48bb 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -19,8 +19,8 @@ use parse_js::operator::{OperatorName, OPERATORS};
 use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
 use crate::escape::emit_string_literal;
 use crate::precedence::{
-  child_min_prec_for_binary, expr_prec, needs_parens, starts_with_optional_chaining, Prec, Side,
-  ASSIGNMENT_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
+  child_min_prec_for_binary, expr_prec, needs_parens, new_callee_contains_call,
+  starts_with_optional_chaining, Prec, Side, ASSIGNMENT_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
 };
 use crate::Emitter;
 
@@ -534,7 +534,7 @@ where
         }
 
         let callee = &call.stx.callee;
-        if starts_with_optional_chaining(callee) {
+        if starts_with_optional_chaining(callee) || new_callee_contains_call(callee) {
           write!(self.out, "(")?;
           self.emit_memberish_receiver(callee)?;
           write!(self.out, ")")?;
@@ -560,7 +560,7 @@ where
         Ok(())
       }
       _ => {
-        if starts_with_optional_chaining(argument) {
+        if starts_with_optional_chaining(argument) || new_callee_contains_call(argument) {
           write!(self.out, "(")?;
           self.emit_expr_with_min_prec(argument, CALL_MEMBER_PRECEDENCE)?;
           write!(self.out, ")")?;
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 27ea264..f7431e6 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,7 +1,9 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
 use crate::escape::{cooked_template_segment, emit_template_literal_segment};
 use crate::precedence::{
-  child_min_prec_for_binary, starts_with_optional_chaining, Prec, Side, ASSIGNMENT_PRECEDENCE,
+  child_min_prec_for_binary, is_new_without_arguments, new_callee_contains_call,
+  starts_with_optional_chaining, Prec, Side, ASSIGNMENT_PRECEDENCE,
+  NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
 };
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
@@ -114,6 +116,9 @@ fn expr_precedence(expr: &Node<Expr>) -> Result<u8, EmitError> {
         .map(|op| op.precedence)
         .ok_or_else(|| EmitError::unsupported("unknown operator"))?,
     ),
+    Expr::Unary(_) if is_new_without_arguments(expr) => {
+      Ok(NEW_WITHOUT_ARGUMENTS_PRECEDENCE.value())
+    }
     Expr::Unary(unary) => Ok(
       OPERATORS
         .get(&unary.stx.operator)
@@ -448,7 +453,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
       }
 
       let callee = &call.stx.callee;
-      if starts_with_optional_chaining(callee) {
+      if starts_with_optional_chaining(callee) || new_callee_contains_call(callee) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, callee, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
@@ -471,7 +476,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
       Ok(())
     }
     _ => {
-      if starts_with_optional_chaining(argument) {
+      if starts_with_optional_chaining(argument) || new_callee_contains_call(argument) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, argument, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 85920fd..ec5bb96 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -30,6 +30,9 @@ pub const TYPE_ASSERTION_PRECEDENCE: Prec = Prec::new(15);
 pub const SATISFIES_PRECEDENCE: Prec = TYPE_ASSERTION_PRECEDENCE;
 /// Precedence for optional chaining, member access, and call-like operators.
 pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
+/// Precedence for `new C` without an argument list, which a following call or member
+/// access would take apart.
+pub const NEW_WITHOUT_ARGUMENTS_PRECEDENCE: Prec = Prec::new(17);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
 /// Minimum precedence where the grammar asks for an `AssignmentExpression`: anything
@@ -73,6 +76,7 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
   match expr.stx.as_ref() {
     Expr::Binary(binary) => Prec::new(OPERATORS[&binary.stx.operator].precedence),
     Expr::Cond(_) => Prec::new(OPERATORS[&OperatorName::Conditional].precedence),
+    Expr::Unary(_) if is_new_without_arguments(expr) => NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
     Expr::Unary(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::UnaryPostfix(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::Call(_) | Expr::Member(_) | Expr::ComputedMember(_) | Expr::Instantiation(_) => {
@@ -127,3 +131,30 @@ pub fn starts_with_optional_chaining(expr: &Node<Expr>) -> bool {
     _ => false,
   }
 }
+
+/// Whether an expression is printed as `new` without an argument list.
+pub fn is_new_without_arguments(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Unary(unary) if unary.stx.operator == OperatorName::New => {
+      match unary.stx.argument.stx.as_ref() {
+        Expr::Call(call) => call.stx.optional_chaining,
+        _ => true,
+      }
+    }
+    _ => false,
+  }
+}
+
+/// Whether the callee of `new` has a call in its member chain, which would take the
+/// argument list of the `new`.
+pub fn new_callee_contains_call(callee: &Node<Expr>) -> bool {
+  match callee.stx.as_ref() {
+    Expr::Call(_) | Expr::Import(_) => true,
+    Expr::Member(member) => new_callee_contains_call(&member.stx.left),
+    Expr::ComputedMember(member) => new_callee_contains_call(&member.stx.object),
+    Expr::TaggedTemplate(tagged) => new_callee_contains_call(&tagged.stx.function),
+    Expr::NonNullAssertion(non_null) => new_callee_contains_call(&non_null.stx.expression),
+    Expr::Instantiation(instantiation) => new_callee_contains_call(&instantiation.stx.expression),
+    _ => false,
+  }
+}
-- 
2.43.0


From 618f7f76d3d7c631bbb291f7edb92a170220d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:44 +0000
Subject: [PATCH 40/40] fix: left operand of **, decorators and spread
 attributes keep their parentheses

---
 emit-js/src/js_expr.rs  | 3 ++-
 emit-js/src/jsx_emit.rs | 3 ++-
 emit-js/src/pat.rs      | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index 104dc86..b72cd68 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -142,7 +142,8 @@ impl<'a> JsExprEmitter<'a> {
       self.emit_expr_no_parens(&binary.stx.left)?;
       self.out.write_punct(")");
     } else {
-      self.emit_expr_with_min_prec(&binary.stx.left, op.precedence)?;
+      let left_prec = op.precedence + (op.associativity == Associativity::Right) as u8;
+      self.emit_expr_with_min_prec(&binary.stx.left, left_prec)?;
     }
 
     emit_binary_operator(self.out, binary.stx.operator)?;
diff --git a/emit-js/src/jsx_emit.rs b/emit-js/src/jsx_emit.rs
index 876ee1d..b44258e 100644
--- a/emit-js/src/jsx_emit.rs
+++ b/emit-js/src/jsx_emit.rs
@@ -1,4 +1,5 @@
 use crate::emitter::{with_node_context, EmitResult, Emitter};
+use crate::expr_js::emit_assignment_expr;
 use crate::expr_js::{emit_expr as emit_expr_js, ExprCtx};
 use parse_js::ast::expr::jsx::{
   JsxAttr, JsxAttrVal, JsxElem, JsxElemChild, JsxElemName, JsxExprContainer, JsxMemberExpr,
@@ -103,7 +104,7 @@ fn emit_jsx_attr(em: &mut Emitter, attr: &JsxAttr) -> EmitResult {
 fn emit_jsx_spread_attr(em: &mut Emitter, attr: &Node<JsxSpreadAttr>) -> EmitResult {
   with_node_context(attr.loc, || {
     em.write_str("{...");
-    emit_expr_js(em, &attr.stx.value, ExprCtx::Default)?;
+    emit_assignment_expr(em, &attr.stx.value, ExprCtx::Default)?;
     em.write_punct("}");
     Ok(())
   })
diff --git a/emit-js/src/pat.rs b/emit-js/src/pat.rs
index 62852f0..ecebafc 100644
--- a/emit-js/src/pat.rs
+++ b/emit-js/src/pat.rs
@@ -7,7 +7,7 @@ use parse_js::token::TT;
 
 use crate::emitter::EmitResult;
 use crate::expr::{emit_expr_with_emitter, emit_expr_with_emitter_and_min_prec};
-use crate::precedence::ASSIGNMENT_PRECEDENCE;
+use crate::precedence::{ASSIGNMENT_PRECEDENCE, CALL_MEMBER_PRECEDENCE};
 use crate::Emitter;
 
 fn emit_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
@@ -21,7 +21,7 @@ fn emit_assignment_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
 fn emit_decorators(out: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for decorator in decorators {
     out.write_punct("@");
-    emit_expr(out, &decorator.stx.expression)?;
+    emit_expr_with_emitter_and_min_prec(out, &decorator.stx.expression, CALL_MEMBER_PRECEDENCE)?;
     out.write_space();
   }
   Ok(())
-- 
2.43.0

