From 4dd5b1e9c1a6f927f38b6e0efa0356c64a018a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 01/41] fix: $ne selects the documents that differ from the
 operand

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From cbc19f28dc752c8a47fa210d10ff7180809665fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/41] fix: $or combined with other conditions no longer
 decides the whole query

---
 src/polodb_core/vm/codegen.rs | 45 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..b602cf3 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -296,7 +296,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, result_label, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -437,20 +437,25 @@ impl Codegen {
         Ok(())
     }
 
+    // `is_tail` tells that nothing is tested after this document:
+    // `not_found_label` directly follows it, and r0 holds the result there.
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let last_index = query_doc.len() - 1;
+        for (index, (key, value)) in query_doc.iter().enumerate() {
+            let is_tail = is_tail && index == last_index;
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(key, value, result_label, not_found_label, is_tail)?;
             });
         }
 
@@ -479,18 +484,22 @@ impl Codegen {
         result_label: Label,
         not_found_label: Label,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+        }
         for (index, item_doc_value) in arr.iter().enumerate() {
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                self.emit_standard_query_doc(item_doc, result_label, not_found_label, false)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    fn emit_logic_or(&mut self, arr: &Array, not_found_label: Label, is_tail: bool) -> Result<()> {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -504,7 +513,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, ret_label, ret_label, true)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -514,11 +523,30 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        if functions.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(0);
+        }
+
+        if is_tail {
+            for fun in functions {
+                self.emit_goto(DbOp::Call, fun);
+                self.emit_u32(0);
+                self.emit_goto(DbOp::IfTrue, not_found_label);
+            }
+            return Ok(());
+        }
+
+        // other conditions follow: one matching branch only means
+        // that the tests go on
+        let matched_label = self.new_label();
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, matched_label);
         }
+        self.emit_goto(DbOp::Goto, not_found_label);
+        self.emit_label(matched_label);
 
         Ok(())
     }
@@ -531,6 +559,7 @@ impl Codegen {
         value: &Bson,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
@@ -541,7 +570,7 @@ impl Codegen {
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), not_found_label, is_tail)?;
                 }
 
                 _ => {
-- 
2.43.0


From e8007958882d65c03c2e9dc5c25c108b9c512305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 03/41] fix: $not negates the conjunction of its operators

---
 src/polodb_core/vm/codegen.rs | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index b602cf3..e7024af 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -876,7 +876,11 @@ impl Codegen {
                 };
 
                 crate::path_hint!(self, "$not".to_string(), {
-                    self.emit_query_tuple_document(key, doc, !is_in_not, not_found_label)?;
+                    if doc.len() > 1 && !is_in_not {
+                        self.emit_not_all(key, doc, not_found_label)?;
+                    } else {
+                        self.emit_query_tuple_document(key, doc, !is_in_not, not_found_label)?;
+                    }
                 });
             }
 
@@ -890,6 +894,37 @@ impl Codegen {
         Ok(())
     }
 
+    // the negation of several operators holds when at least one of them fails
+    fn emit_not_all(
+        &mut self,
+        key: &str,
+        doc: &Document,
+        not_found_label: Label,
+    ) -> Result<()> {
+        // a missing field does not match, like in the negation of one operator
+        self.get_field(key, not_found_label);
+        self.emit(DbOp::Pop);
+
+        let cmp_label = self.new_label();
+        let fun_label = self.new_label();
+        let ret_label = self.new_label();
+
+        self.emit_goto(DbOp::Goto, cmp_label);
+
+        self.emit_label(fun_label);
+        self.emit_query_tuple_document(key, doc, false, ret_label)?;
+        self.emit_label(ret_label);
+        self.emit_ret(0);
+
+        self.emit_label(cmp_label);
+        self.emit_goto(DbOp::Call, fun_label);
+        self.emit_u32(0);
+        self.emit(DbOp::Not);
+        self.emit_goto(DbOp::IfFalse, not_found_label);
+
+        Ok(())
+    }
+
     // very complex query document
     fn emit_query_tuple_document(
         &mut self,
-- 
2.43.0


From 47ecfd3c3780cca5b56d460b4a3d8951e33f753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 04/41] fix: reject a condition document without operators

---
 src/polodb_core/vm/codegen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index e7024af..a99c61a 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -933,6 +933,12 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            return Err(Error::InvalidField(mk_invalid_query_field(
+                self.last_key().into(),
+                self.gen_path(),
+            )));
+        }
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
-- 
2.43.0


From 892178ef0888bd29fbaf27a8f5ce2b7a339dbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 05/41] fix: finish key-lookup plans, and use them only for
 plain equality conditions

---
 src/polodb_core/vm/codegen.rs | 83 +++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index a99c61a..2737a95 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -36,7 +36,7 @@ use crate::vm::vm_sort::VmFuncSort;
 use crate::vm::vm_unset::VmFuncUnset;
 use crate::vm::SubProgram;
 use crate::{Error, Result};
-use bson::spec::{BinarySubtype, ElementType};
+use bson::spec::BinarySubtype;
 use bson::{Array, Binary, Bson, Document};
 
 const JUMP_TABLE_DEFAULT_SIZE: usize = 8;
@@ -53,6 +53,18 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+/// Whether the condition can be tested by comparing one field for equality,
+/// which is all the layouts that look up a key do with the other conditions.
+fn is_plain_equality(key: &str, value: &Bson) -> bool {
+    !key.starts_with('$')
+        && !matches!(
+            value,
+            Bson::Document(_) | Bson::Array(_) | Bson::RegularExpression(_)
+        )
+}
+
+type BeforeClose = Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>;
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -167,6 +179,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: BeforeClose,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -183,6 +196,9 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
@@ -218,27 +234,29 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: BeforeClose,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
         if try_pkey_result.is_none() {
             return Ok(());
         }
 
-        let result_callback: F = try_pkey_result.unwrap();
+        let (result_callback, before_close) = try_pkey_result.unwrap();
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
         if try_index_result.is_none() {
             return Ok(());
         }
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
+        let (result_callback, before_close) = try_index_result.unwrap();
 
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
@@ -309,19 +327,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: BeforeClose,
+    ) -> Result<Option<(F, BeforeClose)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
-            if id_value.element_type() != ElementType::EmbeddedDocument {
+            if query.iter().all(|(key, value)| is_plain_equality(key, value)) {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -329,12 +353,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: BeforeClose,
+    ) -> Result<Option<(F, BeforeClose)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        if self.is_write {
-            return Ok(Some(result_callback));
+        if self.is_write || !query.iter().all(|(key, value)| is_plain_equality(key, value)) {
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -345,23 +370,22 @@ impl Codegen {
             // { "a.b.c": 1 }
             let test_result = query.get(key);
             if let Some(query_doc) = test_result {
-                if query_doc.element_type() != ElementType::EmbeddedDocument {
-                    let mut remain_query = query.clone();
-                    remain_query.remove(key);
-
-                    self.indeed_emit_query_by_index(
-                        col_spec._id.as_str(),
-                        index_name.as_str(),
-                        query_doc,
-                        &remain_query,
-                        result_callback,
-                    )?;
-                    return Ok(None);
-                }
+                let mut remain_query = query.clone();
+                remain_query.remove(key);
+
+                self.indeed_emit_query_by_index(
+                    col_spec._id.as_str(),
+                    index_name.as_str(),
+                    query_doc,
+                    &remain_query,
+                    result_callback,
+                    before_close,
+                )?;
+                return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -371,6 +395,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: BeforeClose,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -411,6 +436,10 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-- 
2.43.0


From 10b91915ed9e88bc336e4e05a6b7fc15f79fa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 06/41] fix: keep the changes of earlier update operators when
 a later one changes nothing

---
 src/polodb_core/vm/vm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..e95b929 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -955,7 +955,11 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        // an operator which changes nothing must not hide
+                        // the changes of the operators before it
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 3ef424b378862e18381fee11ee08f67dfc85cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 07/41] fix: $rename, $unset and $pop reject the primary key

---
 src/polodb_core/vm/update_operators/pop_operator.rs    | 1 +
 src/polodb_core/vm/update_operators/rename_operator.rs | 8 ++++++--
 src/polodb_core/vm/update_operators/unset_operator.rs  | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..51bbcd9 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..e8d95de 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::FieldTypeUnexpectedStruct;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct RenameOperator {
     doc: Document
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,6 +24,9 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From 7b1b4d5f36d3216d71532e5cd8a90eddb94ea8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 08/41] fix: $inc, $mul and $abs promote or fail instead of
 overflowing

---
 src/polodb_core/vm/operators/abs_operator.rs  | 26 ++++++++-----------
 .../vm/update_operators/inc_operator.rs       | 15 ++++++++---
 .../vm/update_operators/mul_operator.rs       | 17 ++++++++----
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..3bfe872 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,14 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64((v as i64).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
             _ => input,
         }
     }
@@ -45,14 +45,10 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) => {
+                OperatorExpr::Constant(AbsOperator::bson_abs(v.clone()))
             }
+
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
                     OperatorExpr::Alias(stripped_field_name.to_string())
diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..28803c1 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -3,6 +3,10 @@ use crate::vm::update_operators::{UpdateOperator, UpdateResult};
 use crate::{Error, Result};
 use crate::errors::CannotApplyOperationForTypes;
 
+fn inc_i64(a: i64, b: i64) -> Result<Bson> {
+    a.checked_add(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+}
+
 pub(crate) struct IncOperator {
     doc: Document,
 }
@@ -18,11 +22,14 @@ impl IncOperator {
 
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_add(*b) {
+                Some(val) => Bson::Int32(val),
+                None => inc_i64(*a as i64, *b as i64)?,
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => inc_i64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => inc_i64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => inc_i64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..f761d88 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,11 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
+
+fn mul_i64(a: i64, b: i64) -> Result<Bson> {
+    a.checked_mul(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+}
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -18,11 +22,14 @@ impl MulOperator {
 
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_mul(*b) {
+                Some(val) => Bson::Int32(val),
+                None => mul_i64(*a as i64, *b as i64)?,
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => mul_i64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => mul_i64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => mul_i64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
-- 
2.43.0


From b639447bac99e3faafbe34d10ea872ab4d204d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 09/41] fix: $sort follows the order of its keys and orders
 values of any types

---
 src/polodb_core/vm/vm_sort.rs | 49 ++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..4ad09b0 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,15 +13,50 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::cmp::Ordering;
 use std::sync::atomic::AtomicUsize;
+use bson::spec::ElementType;
 use bson::{Bson, Document};
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
+/// The group a value is sorted in. All the numbers are in one group.
+fn sort_group(value: &Bson) -> u8 {
+    match value {
+        Bson::Int32(_) | Bson::Int64(_) => ElementType::Double as u8,
+        _ => value.element_type() as u8,
+    }
+}
+
+/// A number as a double, and what the double does not represent of it.
+fn sort_number(value: &Bson) -> Option<(f64, i128)> {
+    match value {
+        Bson::Int32(i) => Some((*i as f64, 0)),
+        Bson::Int64(i) => {
+            let double = *i as f64;
+            Some((double, *i as i128 - double as i128))
+        }
+        Bson::Double(d) => Some((*d, 0)),
+        _ => None,
+    }
+}
+
+/// Unlike `value_cmp`, it orders every pair of values, and consistently.
+/// The values of a type without an order are equal.
+fn sort_cmp(a: &Bson, b: &Bson) -> Ordering {
+    match (sort_number(a), sort_number(b)) {
+        (Some((a_double, a_rest)), Some((b_double, b_rest))) => a_double
+            .total_cmp(&b_double)
+            .then_with(|| a_rest.cmp(&b_rest)),
+        _ => sort_group(a).cmp(&sort_group(b)).then_with(|| {
+            crate::utils::bson::value_cmp(a, b).unwrap_or(Ordering::Equal)
+        }),
+    }
+}
+
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    order_map: Vec<(String, i8)>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
@@ -30,14 +65,14 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = Vec::with_capacity(doc.len());
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(1) | Bson::Int64(1) => 1,
+                        Bson::Int32(-1) | Bson::Int64(-1) => -1,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
-                    result.insert(k.clone(), order);
+                    result.push((k.clone(), order));
                 }
                 result
             }
@@ -70,7 +105,7 @@ impl VmFuncSort {
                 let b_val = b.get(k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
-                        let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
+                        let result =  sort_cmp(a_val, b_val);
                         match result {
                             std::cmp::Ordering::Equal => continue,
                             std::cmp::Ordering::Less => return Self::i8_to_ordering(*v),
-- 
2.43.0


From 39b994d8f9d40c7c984523dda10f690f5685e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 10/41] fix: pipeline stages no longer pass the end of input on
 as a document

---
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  4 ++--
 src/polodb_core/vm/vm_skip.rs       |  2 +-
 src/polodb_core/vm/vm_sort.rs       | 16 ++++++----------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index 4ad09b0..234c8b1 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -137,16 +137,12 @@ impl VmExternalFunc for VmFuncSort {
             }
             Bson::Null => {
                 self.sort_array();
-                let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+                let buffer = self.buffer.borrow();
+                if idx >= buffer.len() {
+                    return Ok(VmExternalFuncStatus::Continue);
+                }
+                Ok(VmExternalFuncStatus::Next(buffer[idx].clone().into()))
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 6d843761222b3d3e57f488a8dd7aa1ed2c2bafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 11/41] fix: reject an empty pipeline stage instead of
 panicking

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 2737a95..023c33b 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1167,7 +1167,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
-- 
2.43.0


From f27fc7526d722ac50554af51db057284f711e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 12/41] fix: reject a negative $limit or $skip

---
 src/polodb_core/action/find.rs | 4 ++--
 src/polodb_core/vm/vm_limit.rs | 4 ++--
 src/polodb_core/vm/vm_skip.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..c6ff9f8 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -86,13 +86,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": skip.min(i64::MAX as u64) as i64,
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": limit.min(i64::MAX as u64) as i64,
                     });
                 }
 
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 6e21b2a..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 0215739..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
-- 
2.43.0


From ac18641729871c702eed824c7814b22f6f96f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 13/41] fix: reject empty names and names with a NUL, which
 separates key parts

---
 src/polodb_core/db/db_inner.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..fac3699 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -385,8 +385,11 @@ impl DatabaseInner {
     }
 
     fn validate_col_name(col_name: &str) -> Result<()> {
+        if col_name.is_empty() {
+            return Err(Error::IllegalCollectionName(col_name.to_string()))
+        }
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalCollectionName(col_name.to_string()))
             }
         }
@@ -395,8 +398,11 @@ impl DatabaseInner {
     }
 
     fn validate_index_name(col_name: &str) -> Result<()> {
+        if col_name.is_empty() {
+            return Err(Error::IllegalIndexName(col_name.to_string()))
+        }
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalIndexName(col_name.to_string()))
             }
         }
-- 
2.43.0


From d0c1b03fcd6759d783324eccbb42d05219a40187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 14/41] fix: deleting from a missing collection does not create
 it

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index fac3699..93f746b 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -707,7 +707,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From c13a9d83bf26628e03f49c96454c38f07a819cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 15/41] fix: lock the primary key while checking that it is
 free

---
 src/polodb_core/db/db_inner.rs            |  2 +-
 src/polodb_core/db/rocksdb_transaction.rs | 33 +++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 93f746b..3227d75 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -437,7 +437,7 @@ impl DatabaseInner {
             pkey,
         ])?;
 
-        if txn.rocksdb_txn.get(stacked_key.as_ref())?.is_some() {
+        if txn.rocksdb_txn.get_for_update(stacked_key.as_ref())?.is_some() {
             return Err(DuplicateKeyError {
                 name: "_id_".to_string(),
                 key: pkey.to_string(),
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..f2ac15b 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -68,6 +68,13 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    /// Read a key and lock it until the end of the transaction:
+    /// no other transaction can write it in between.
+    pub fn get_for_update(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
+        let inner = self.inner.lock().unwrap();
+        inner.get_for_update(key)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
@@ -166,6 +173,32 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn get_for_update(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                1,
+                &mut err,
+            );
+
+            check_err!(err);
+
+            if value.is_null() {
+                return Ok(None);
+            }
+
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
-- 
2.43.0


From 149f811a17eedbc5913de79d628c829d7db68618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 16/41] fix: lock the value of a unique index while checking
 that it is free

---
 src/polodb_core/index/index_helper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..e980e63 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,6 +143,10 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // lock the value, so that a concurrent transaction can not pass
+        // the same test before this one is committed
+        txn.rocksdb_txn.get_for_update(&index_key_tester)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
-- 
2.43.0


From fd0ba0237985d7f66128a1ab8c2208299cfc580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 17/41] fix: an iterator which stops because of a storage error
 reports it

---
 src/polodb_core/cursor.rs              | 8 +++++++-
 src/polodb_core/db/rocksdb_iterator.rs | 1 -
 src/polodb_core/index/index_helper.rs  | 2 +-
 src/polodb_core/vm/vm.rs               | 1 +
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 21f690e..44349ed 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -64,6 +64,8 @@ impl Cursor {
 
         if self.kv_cursor.valid() {
             self.current_key = Some(self.kv_cursor.copy_key_arc()?);
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(())
@@ -100,6 +102,8 @@ impl Cursor {
             if let Some(found) = &self.current_key {
                 return Ok(found.as_ref().cmp(key_buffer) == Ordering::Equal);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -119,6 +123,8 @@ impl Cursor {
                 let starts_with = found.as_ref().starts_with(key_buffer.as_slice());
                 return Ok(starts_with);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -147,7 +153,7 @@ impl Cursor {
         self.kv_cursor.next();
         if !self.kv_cursor.valid() {
             self.current_key = None;
-            return Ok(());
+            return self.kv_cursor.error();
         }
         self.current_key = Some(self.kv_cursor.copy_key_arc()?);
         Ok(())
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..10950b7 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -54,7 +54,6 @@ impl RocksDBIterator {
         self.inner.prev()
     }
 
-    #[allow(dead_code)]
     pub fn error(&self) -> Result<()> {
         self.inner.error()
     }
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index e980e63..8c8e6c1 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -151,7 +151,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         cursor.seek(&index_key_tester);
 
         if !cursor.valid() {
-            return Ok(());
+            return cursor.error();
         }
         let current_key = cursor.copy_key_arc()?;
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index e95b929..83fad2a 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -217,6 +217,7 @@ impl VM {
         db_iter.seek(pkey_in_kv.as_slice());
 
         if !db_iter.valid() {
+            db_iter.error()?;
             return Ok(None);
         }
         let current_key = db_iter.copy_key()?;
-- 
2.43.0


From c122c2250a7bb66536282113ccce93739671df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 18/41] fix: free what rocksdb allocates for values, errors and
 a failed open

---
 src/polodb_core/db/rocksdb_iterator.rs    | 4 +++-
 src/polodb_core/db/rocksdb_transaction.rs | 9 ++++++---
 src/polodb_core/db/rocksdb_wrapper.rs     | 8 +++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 10950b7..5fe6b19 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -135,7 +135,9 @@ impl RocksDBIteratorInner {
                 let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
 
                 // Convert the &str to a String and return
-                return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+                let message = str_slice.to_owned();
+                ffi::rocksdb_free(err.cast());
+                return Err(crate::Error::RocksDbErr(message))
             }
             Ok(())
         }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index f2ac15b..838c989 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -33,7 +33,9 @@ macro_rules! check_err {
             let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
 
             // Convert the &str to a String and return
-            return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+            let message = str_slice.to_owned();
+            ffi::rocksdb_free($err.cast());
+            return Err(crate::Error::RocksDbErr(message))
         }
     };
 }
@@ -168,8 +170,9 @@ impl RocksDBTransactionInner {
                 return Ok(None);
             }
 
-            let value = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
-            Ok(Some(value))
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
         }
     }
 
diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..4dcb24b 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -33,7 +33,9 @@ macro_rules! check_err {
             let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
 
             // Convert the &str to a String and return
-            return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+            let message = str_slice.to_owned();
+            ffi::rocksdb_free($err.cast());
+            return Err(crate::Error::RocksDbErr(message))
         }
     };
 }
@@ -82,6 +84,10 @@ impl RocksDBWrapperInner {
             let mut err: *mut c_char = ptr::null_mut();
             let path_c = CString::new(path.clone()).unwrap();
             let db = ffi::rocksdb_transactiondb_open(options, txn_db_opts, path_c.as_ptr(), &mut err);
+            if !err.is_null() {
+                ffi::rocksdb_options_destroy(options);
+                ffi::rocksdb_transactiondb_options_destroy(txn_db_opts);
+            }
             check_err!(err);
             Ok(RocksDBWrapperInner {
                 path,
-- 
2.43.0


From f1b4fb0c9b3ad8aba17dbc5dc18f8994682b0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 19/41] fix: a failed write instruction halts the program

---
 src/polodb_core/vm/vm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 83fad2a..9dca4c6 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -754,7 +754,7 @@ impl VM {
                             let cursor = self.r1.as_mut().unwrap();
                             let key_opt = cursor.peek_key();
                             if let Some(key) = key_opt {
-                                txn.delete(key.as_ref())?;
+                                try_vm!(self, txn.delete(key.as_ref()));
                                 true
                             } else {
                                 false
@@ -770,7 +770,7 @@ impl VM {
                     DbOp::InsertIndex => {
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
-                        self.insert_index(index_info_id)?;
+                        try_vm!(self, self.insert_index(index_info_id));
 
                         self.pc = self.pc.add(5);
                     }
@@ -778,7 +778,7 @@ impl VM {
                     DbOp::DeleteIndex => {
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
-                        self.delete_index(index_info_id)?;
+                        try_vm!(self, self.delete_index(index_info_id));
 
                         self.pc = self.pc.add(5);
                     }
@@ -895,7 +895,7 @@ impl VM {
 
                     DbOp::Close => {
                         self.r1 = None;
-                        self.txn.auto_commit()?;
+                        try_vm!(self, self.txn.auto_commit());
 
                         self.pc = self.pc.add(1);
                     }
-- 
2.43.0


From 763061ef8916a0bdc966f1d3f69a5877436fb762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 20/41] fix: iterating a cursor reports a failed
 deserialization instead of panicking

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From 1e49fc55c5908fc0293776eb8bbe083e70063371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 21/41] fix: creating a different index under a name in use is
 an error

---
 src/polodb_core/db/db_inner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 3227d75..214442d 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -246,15 +246,20 @@ impl DatabaseInner {
             }
         };
 
-        if collection_spec.indexes.get(&index_name).is_some() {
-            return Ok(())
-        }
-
         let index_info = IndexInfo::single_index(
             key.to_string(),
             1,
             options.cloned(),
         );
+
+        if let Some(existing) = collection_spec.indexes.get(&index_name) {
+            // the name may belong to another index
+            if existing.keys != index_info.keys || existing.is_unique() != index_info.is_unique() {
+                return Err(Error::IndexAlreadyExists(index_name));
+            }
+            return Ok(())
+        }
+
         collection_spec.indexes.insert(index_name.clone(), index_info.clone());
 
         DatabaseInner::update_collection_spec(
-- 
2.43.0


From 92652055196c28cc797970f53235f21a3c6cc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 22/41] fix: a committed transaction is no longer used by later
 commands of its session

---
 src/polodb/handlers/commit_transaction.rs | 1 +
 src/polodb/main.rs                        | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..cfd2822 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -195,6 +195,7 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
+        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
         let session = if start_transaction {
             let lsid = message.document_payload.get_document("lsid")?;
             let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
@@ -212,12 +213,13 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
                     let id = uuid_from_bson(
                         lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
                     ).ok_or(anyhow!("lsid missing id field"))?;
-                    ctx.get_session(&id)
+                    // a session whose transaction has ended is as good as none for
+                    // the commands which don't belong to a transaction
+                    ctx.get_session(&id).filter(|session| !auto_commit || session.get_transaction().is_some())
                 }
                 _ => None
             }
         };
-        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
 
         let ctx = HandleContext {
             app_context: ctx.clone(),
-- 
2.43.0


From 1704ffc9219f0c682124f6e9c3f89c966fba1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 23/41] fix: the update command runs in the transaction of its
 session

---
 src/polodb/handlers/update_handler.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..3b65d94 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -22,6 +22,7 @@ use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,17 +32,22 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
-
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
 
         let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
         let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
+            let collection = txn.collection::<Document>(col_name);
+            collection.update_many(filter_doc.clone(), update_doc.clone())?
+        } else {
+            let db = ctx.db();
+            let collection = db.collection::<Document>(col_name);
+            collection.update_many(filter_doc.clone(), update_doc.clone())?
+        };
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
@@ -69,7 +75,7 @@ impl Handler for UpdateHandler {
         for update in updates.into_iter() {
             let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
             let d = bson::from_slice::<Document>(update.as_bytes())?;
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &ctx.session, collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From 52408dd6a31d404d66e36c922a39800165ebe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 24/41] fix: the update command counts the documents it matched

---
 src/polodb/handlers/update_handler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 3b65d94..135d305 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -48,6 +48,7 @@ impl UpdateHandler {
             let collection = db.collection::<Document>(col_name);
             collection.update_many(filter_doc.clone(), update_doc.clone())?
         };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
-- 
2.43.0


From 7141b54c6839d1e8fe305cf7ef14f97c23c454a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 25/41] fix: a new server cursor never takes the id of a live
 one

---
 src/polodb/app_context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..742b0db 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,8 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        // cursor_id starts from 1, an id is never used again
+        let cursor_id = self.inner.cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -99,6 +99,7 @@ struct AppContextInner {
     db: Arc<Database>,
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
+    cursor_id: AtomicI64,
     conn_id: AtomicU64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
@@ -110,6 +111,7 @@ impl AppContextInner {
             db: Arc::new(db),
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
+            cursor_id: AtomicI64::new(1),
             conn_id: AtomicU64::new(0),
             session_ctx: Mutex::new(HashMap::new()),
         }
-- 
2.43.0


From ef246cc1bbe5481267d8bd932f27b4cd74c193a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 26/41] fix: a cursor whose first batch fails is not kept on
 the server

---
 src/polodb/handlers/aggregate_handler.rs | 9 +++++++--
 src/polodb/handlers/find_handler.rs      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index e2a78c4..704a67f 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -65,10 +65,15 @@ impl Handler for AggregateHandle {
 
         let cursor = Arc::new(Mutex::new(cursor));
         let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
+        let cursor_doc_result = {
             let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, &mut cursor_guard, batch_size as isize)?
+            FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, &mut cursor_guard, batch_size as isize)
         };
+        if cursor_doc_result.is_err() {
+            // the client never learns the id
+            ctx.app_context.remove_cursor(&[cursor_id]);
+        }
+        let cursor_doc = cursor_doc_result?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..0ee46d4 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -167,10 +167,15 @@ impl Handler for FindHandler {
         let cursor = Arc::new(Mutex::new(cursor));
 
         let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
+        let cursor_doc_result = {
             let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, collection_name, &mut cursor_guard, batch_size as isize)?
+            FindHandler::mk_cursor_doc(cursor_id, db_name, collection_name, &mut cursor_guard, batch_size as isize)
         };
+        if cursor_doc_result.is_err() {
+            // the client never learns the id
+            ctx.app_context.remove_cursor(&[cursor_id]);
+        }
+        let cursor_doc = cursor_doc_result?;
 
         let body = rawdoc! {
             "ok": 1,
-- 
2.43.0


From 74ea2bd339bdbfa1009dd39451a63c6396be1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 27/41] fix: updateOne and deleteOne sent to the server touch
 at most one document

---
 src/polodb/handlers/delete_handler.rs | 15 +++++++++++++--
 src/polodb/handlers/update_handler.rs | 19 +++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..c4c6970 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
+use crate::bson_util;
 use crate::reply::Reply;
 use crate::session_context::SessionContext;
 
@@ -33,15 +34,17 @@ impl DeleteHandler {
 
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
+        // a limit of 1 makes the statement a deleteOne
+        let just_one = delete_doc.get("limit").and_then(bson_util::get_int) == Some(1);
         let filter = delete_doc.get_document("q")?;
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            delete_from_collection(&collection, filter.clone(), just_one)?
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            delete_from_collection(&collection, filter.clone(), just_one)?
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -51,6 +54,14 @@ impl DeleteHandler {
 
 }
 
+fn delete_from_collection<C: CollectionT<Document>>(collection: &C, filter: Document, just_one: bool) -> polodb_core::Result<DeleteResult> {
+    if just_one {
+        collection.delete_one(filter)
+    } else {
+        collection.delete_many(filter)
+    }
+}
+
 #[async_trait]
 impl Handler for DeleteHandler {
     fn test(&self, doc: &RawDocumentBuf) -> Result<bool> {
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 135d305..562c662 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -18,6 +18,7 @@ use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
+use polodb_core::options::UpdateOptions;
 use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
@@ -33,6 +34,12 @@ impl UpdateHandler {
     }
 
     fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
+        // without `multi` the statement is an updateOne
+        let multi = update.get_bool("multi").unwrap_or(false);
+        let options = UpdateOptions::builder()
+            .upsert(update.get_bool("upsert").unwrap_or(false))
+            .build();
+
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
 
@@ -42,11 +49,11 @@ impl UpdateHandler {
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.update_many(filter_doc.clone(), update_doc.clone())?
+            update_collection(&collection, filter_doc.clone(), update_doc.clone(), multi, options)?
         } else {
             let db = ctx.db();
             let collection = db.collection::<Document>(col_name);
-            collection.update_many(filter_doc.clone(), update_doc.clone())?
+            update_collection(&collection, filter_doc.clone(), update_doc.clone(), multi, options)?
         };
         result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
@@ -56,6 +63,14 @@ impl UpdateHandler {
 
 }
 
+fn update_collection<C: CollectionT<Document>>(collection: &C, filter: Document, update: Document, multi: bool, options: UpdateOptions) -> polodb_core::Result<UpdateResult> {
+    if multi {
+        collection.update_many_with_options(filter, update, options)
+    } else {
+        collection.update_one_with_options(filter, update, options)
+    }
+}
+
 #[async_trait]
 impl Handler for UpdateHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
-- 
2.43.0


From 0542473210dc084719abac8bcc20dba085f16185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 28/41] fix: a request with malformed session fields gets an
 error reply

---
 src/polodb/main.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index cfd2822..0d44c87 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,6 +192,23 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
+    let reply = match execute_message(ctx, conn_id, &message).await {
+        Ok(reply) => reply,
+        Err(e) => {
+            log::error!("handler error: {:?}", e);
+            let doc = rawdoc! {
+                "ok": 0,
+                "errmsg": e.to_string(),
+                "code": 1,
+            };
+            Reply::new(message.request_id.unwrap(), doc)
+        }
+    };
+    reply.write_to(stream).await?;
+    Ok(())
+}
+
+async fn execute_message(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
@@ -224,36 +241,19 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-            message: &message,
+            message,
             session,
             auto_commit,
         };
-        let reply_result = handler.handle(&ctx).await;
-        match reply_result {
-            Ok(reply) => {
-                reply.write_to(stream).await?;
-            }
-            Err(e) => {
-                log::error!("handler error: {:?}", e);
-                let doc = rawdoc! {
-                    "ok": 0,
-                    "errmsg": e.to_string(),
-                    "code": 1,
-                };
-                let reply = Reply::new(message.request_id.unwrap(), doc);
-                reply.write_to(stream).await?;
-            }
-        }
+        handler.handle(&ctx).await
     } else {
         log::error!("no handler found for message: {:?}", message);
         let doc = rawdoc! {
             "ok": 0,
             "errmsg": "no handler found",
         };
-        let reply = Reply::new(message.request_id.unwrap(), doc);
-        reply.write_to(stream).await?;
+        Ok(Reply::new(message.request_id.unwrap(), doc))
     }
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 64aaa8e741cf3fa2453952760cbe87a4667b5208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 29/41] fix: the reply of find is addressed to its request

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 0ee46d4..0f15de0 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -181,7 +181,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 535afee76397d188423a715705c88c6b0346ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 30/41] fix: a delete command without deletes gets an error
 reply

---
 src/polodb/handlers/delete_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index c4c6970..f22ad7e 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -76,7 +76,7 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes_arr = doc.get("deletes")?.ok_or(anyhow!("deletes is missing"))?.as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-- 
2.43.0


From d22ebf61e6fe7a92f65e6f0e6ece4765443522f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 31/41] fix: abortTransaction is recognised like
 commitTransaction

---
 src/polodb/handlers/abort_transaction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..aca9aa1 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,13 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => {
+                match r {
+                    bson::RawBsonRef::Int32(i) => Ok(i == 1),
+                    bson::RawBsonRef::Int64(i) => Ok(i == 1),
+                    _ => Ok(false),
+                }
+            },
             None => Ok(false),
         }
     }
-- 
2.43.0


From f9524adb16a626f5efa8d51c1c276203a2013500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 32/41] fix: the flags of a reply are not derived from its
 length

---
 src/polodb/reply.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..7b40a22 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -26,13 +26,12 @@ pub(crate) struct Reply {
 impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
+        const FLAGS: u32 = 0;
         const SINGLE_DOC_KIND: u8 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
+        std::io::Write::write_all(&mut payload, FLAGS.to_le_bytes().as_slice()).unwrap();
         std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
 
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
-
         payload.extend_from_slice(doc.as_bytes());
 
         Reply { response_to, doc, payload }
-- 
2.43.0


From 0e17f5a8048e4111035513603774a034803f2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 33/41] fix: lengths inside a message are checked before they
 are allocated

---
 src/polodb/bson_util.rs    | 7 +++++--
 src/polodb/wire/message.rs | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..8717cd3 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -148,11 +148,14 @@ fn num_decimal_digits(mut n: usize) -> usize {
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
+    let length_remaining = Checked::<u64>::try_from(length)? - 4;
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    // the length is not reserved up front: it has not been checked against
+    // the bytes which are really there
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
-    reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
+    reader.take(length_remaining.get()?).read_to_end(&mut bytes)?;
 
     Ok(bytes)
 }
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..72869a9 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -422,8 +422,10 @@ impl MessageSection {
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-        let mut remain_buffer = vec![0u8; length_remaining.get()?];
-        reader.read_exact(&mut remain_buffer)?;
+        // the size is not reserved up front: it has not been checked against
+        // the bytes which are really there
+        let mut remain_buffer = Vec::new();
+        reader.take(length_remaining.get()? as u64).read_to_end(&mut remain_buffer)?;
 
         let mut buf_slice = remain_buffer.as_slice();
         let reader = &mut buf_slice;
-- 
2.43.0


From 5241a7f85163c7969a50adf406df5e7ba0372a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 34/41] fix: failures in the Python binding raise exceptions
 instead of being dropped or panicking

---
 py-polodb/src/py_database.rs | 46 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 160142f..f4a2d76 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -3,7 +3,7 @@ use crate::helper_type_translator::{
     delete_result_to_pydict, document_to_pydict, update_result_to_pydict,
 };
 use polodb_core::bson::Document;
-use polodb_core::{Collection, CollectionT, Database};
+use polodb_core::{ClientCursor, Collection, CollectionT, Database};
 use pyo3::exceptions::PyOSError;
 use pyo3::exceptions::PyRuntimeError; // Import PyRuntimeError for error handling
 use pyo3::prelude::*;
@@ -38,7 +38,7 @@ impl PyCollection {
         match self.inner.update_one(filter_doc, update_doc) {
             Ok(update_result) => {
                 // Convert BSON Document to Python Dict
-                let py_result = update_result_to_pydict(py, update_result).unwrap();
+                let py_result = update_result_to_pydict(py, update_result)?;
                 Ok(Some(py_result.into_any()))
             }
             Err(err) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -61,7 +61,7 @@ impl PyCollection {
         match self.inner.update_many(filter_doc, update_doc) {
             Ok(update_result) => {
                 // Convert BSON Document to Python Dict
-                let py_result = update_result_to_pydict(py, update_result).unwrap();
+                let py_result = update_result_to_pydict(py, update_result)?;
                 Ok(Some(py_result.into_any()))
             }
             Err(err) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -143,9 +143,7 @@ impl PyCollection {
         let pipeline_documents = convert_py_list_to_vec_document(pipeline.bind(py))?;
         match self.inner.aggregate(pipeline_documents).run() {
             Ok(agg_cursor) => {
-                let vec_res: Vec<Py<PyDict>> = agg_cursor
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let vec_res = cursor_to_pydicts(py, agg_cursor)?;
                 vec_res.into_py_any(py)
             }
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -162,7 +160,7 @@ impl PyCollection {
         match self.inner.find_one(filter_doc) {
             Ok(Some(result_doc)) => {
                 // Convert BSON Document to Python Dict
-                let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_any()))
             }
             Ok(None) => Ok(None), // Return None if no document is found
@@ -180,10 +178,7 @@ impl PyCollection {
         match self.inner.find(filter_doc).run() {
             Ok(result_doc) => {
                 // Convert BSON Document to Python Dict
-                let py_result: Vec<Py<PyDict>> = result_doc
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
-                // let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = cursor_to_pydicts(py, result_doc)?;
                 Ok(Some(py_result.into_py_any(py)?))
             }
             // Ok(None) => Ok(None), // Return None if no document is found
@@ -194,6 +189,20 @@ impl PyCollection {
         }
     }
 }
+
+fn cursor_to_pydicts(
+    py: Python<'_>,
+    cursor: ClientCursor<Document>,
+) -> PyResult<Vec<Py<PyDict>>> {
+    cursor
+        .map(|item| {
+            let doc = item
+                .map_err(|err| PyRuntimeError::new_err(format!("Cursor error: {}", err)))?;
+            document_to_pydict(py, doc)
+        })
+        .collect()
+}
+
 impl From<Collection<Document>> for PyCollection {
     fn from(collection: Collection<Document>) -> PyCollection {
         PyCollection {
@@ -231,8 +240,13 @@ impl PyDatabase {
     }
 
     pub fn create_collection(&self, name: &str) -> PyResult<()> {
-        let _ = self.inner.lock().unwrap().create_collection(name);
-        Ok(())
+        let guard = self
+            .inner
+            .lock()
+            .map_err(|e| PyRuntimeError::new_err(format!("Failed to lock: {}", e)))?;
+        guard
+            .create_collection(name)
+            .map_err(|e| PyRuntimeError::new_err(format!("Create collection error: {}", e)))
     }
 
     fn collection(&self, name: &str) -> PyResult<PyCollection> {
@@ -249,7 +263,11 @@ impl PyDatabase {
     }
 
     pub fn list_collection_names(&self) -> PyResult<Vec<String>> {
-        let collections_names = self.inner.lock().unwrap().list_collection_names();
+        let collections_names = self
+            .inner
+            .lock()
+            .map_err(|e| PyRuntimeError::new_err(format!("Failed to lock: {}", e)))?
+            .list_collection_names();
         match collections_names {
             Ok(collection_names) => Ok(collection_names),
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
-- 
2.43.0


From 50130ea80b322fe272a49b91bb9210e5737d21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 35/41] fix: converting a value for Python raises an exception
 instead of panicking

---
 py-polodb/src/helper_type_translator.rs | 28 ++++++++++++-------------
 py-polodb/src/py_database.rs            |  4 ++--
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3574c77..11fe8f2 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -85,17 +85,17 @@ pub fn update_result_to_pydict(
 pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>> {
     let py_dict = PyDict::new(py);
     for (key, value) in doc {
-        let py_value = bson_to_py_obj(py, &value);
+        let py_value = bson_to_py_obj(py, &value)?;
         py_dict.set_item(key, py_value)?;
     }
     Ok(py_dict.into())
 }
 
-pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
-    match bson {
+pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    let obj = match bson {
         Bson::Null => py.None(),
-        Bson::Int32(i) => i.into_py_any(py).unwrap(),
-        Bson::Int64(i) => i.into_py_any(py).unwrap(),
+        Bson::Int32(i) => i.into_py_any(py)?,
+        Bson::Int64(i) => i.into_py_any(py)?,
         Bson::Double(f) => PyFloat::new(py, *f).into_any().unbind(),
         Bson::String(s) => PyString::new(py, s).into_any().unbind(),
         Bson::Boolean(b) => PyBool::new(py, *b).to_owned().into_any().unbind(),
@@ -103,34 +103,33 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)).unwrap();
+                py_list.append(bson_to_py_obj(py, item)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)).unwrap();
+                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
             }
             py_dict.into_any().unbind()
         }
         Bson::RegularExpression(regex) => {
-            let re_module = py.import("re").unwrap();
+            let re_module = py.import("re")?;
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))
-                .unwrap()
+                .call_method1("compile", (regex.pattern.as_str(),))?
                 .into_any()
                 .unbind()
         }
         // Handle JavaScript code
         Bson::JavaScriptCode(code) => PyString::new(py, code).into_any().unbind(),
-        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py).unwrap(),
+        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py)?,
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
             let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime").unwrap().getattr("datetime").unwrap();
-            datetime.call1((timestamp,)).unwrap().into_any().unbind()
+            let datetime = py.import("datetime")?.getattr("datetime")?;
+            datetime.call1((timestamp,))?.into_any().unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -144,5 +143,6 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::MinKey => py.None(),
 
         _ => py.None(), // Handle other BSON types as needed
-    }
+    };
+    Ok(obj)
 }
diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index f4a2d76..dd5bd0e 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -76,7 +76,7 @@ impl PyCollection {
             Ok(result) => {
                 let dict = PyDict::new(py);
                 for (key, value) in &result.inserted_ids {
-                    dict.set_item(key, bson_to_py_obj(py, value))?;
+                    dict.set_item(key, bson_to_py_obj(py, value)?)?;
                 }
                 Ok(dict.into_any().unbind())
             }
@@ -101,7 +101,7 @@ impl PyCollection {
         };
         match self.inner.insert_one(bson_doc) {
             Ok(result) => {
-                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id);
+                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id)?;
                 let dict = PyDict::new(py);
                 dict.set_item("inserted_id", py_inserted_id)?;
                 Ok(dict.into_any().unbind())
-- 
2.43.0


From fc766c163dec985922d5c4bc94aa239b823ae9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 36/41] fix: Python None, bytes, datetime and large int values
 convert to their counterpart or fail

---
 py-polodb/src/helper_type_translator.rs | 39 ++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 11fe8f2..54ef407 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,8 +1,9 @@
-use polodb_core::bson::{Bson, Document};
+use polodb_core::bson::spec::BinarySubtype;
+use polodb_core::bson::{Binary, Bson, DateTime, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
-use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
+use pyo3::types::{PyAny, PyBool, PyBytes, PyDateTime, PyFloat, PyInt, PyList, PyString};
 use pyo3::IntoPyObjectExt;
 
 pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<Vec<Document>> {
@@ -29,10 +30,25 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
 }
 
 pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
-    if let Ok(rust_string) = py_obj.extract::<String>() {
+    if py_obj.is_none() {
+        Ok(Bson::Null)
+    } else if let Ok(bytes) = py_obj.cast::<PyBytes>() {
+        Ok(Bson::Binary(Binary {
+            subtype: BinarySubtype::Generic,
+            bytes: bytes.as_bytes().to_vec(),
+        }))
+    } else if let Ok(datetime) = py_obj.cast::<PyDateTime>() {
+        let timestamp: f64 = datetime.call_method0("timestamp")?.extract()?;
+        Ok(Bson::DateTime(DateTime::from_millis(
+            (timestamp * 1000.0).round() as i64,
+        )))
+    } else if let Ok(rust_string) = py_obj.extract::<String>() {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
+    } else if let Ok(int) = py_obj.cast::<PyInt>() {
+        // an int out of range is an error, not a rounded float
+        Ok(Bson::Int64(int.extract::<i64>()?))
     } else if let Ok(rust_int) = py_obj.extract::<i64>() {
         Ok(Bson::Int64(rust_int))
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
@@ -127,9 +143,14 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
-            let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime")?.getattr("datetime")?;
-            datetime.call1((timestamp,))?.into_any().unbind()
+            let timestamp = dt.timestamp_millis() as f64 / 1000.0;
+            let datetime_module = py.import("datetime")?;
+            let utc = datetime_module.getattr("timezone")?.getattr("utc")?;
+            datetime_module
+                .getattr("datetime")?
+                .call_method1("fromtimestamp", (timestamp, utc))?
+                .into_any()
+                .unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -142,7 +163,11 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
         // Handle MinKey (convert to None)
         Bson::MinKey => py.None(),
 
-        _ => py.None(), // Handle other BSON types as needed
+        _ => {
+            return Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
+                "Unsupported BSON type for Python conversion",
+            ))
+        }
     };
     Ok(obj)
 }
-- 
2.43.0


From ccd29a3d059e19d2fb92bc86d20d848ec298d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 37/41] fix: pop the array and its size after a $size condition

---
 src/polodb_core/vm/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 023c33b..edcedd2 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -864,8 +864,9 @@ impl Codegen {
 
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
+                // the array size is pushed on top of the array
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
-- 
2.43.0


From 3e6d426cc82f29c31c804938fcdfa73f2c45c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 38/41] fix: $pop removes the last element for 1 and the first
 for -1

---
 src/polodb_core/vm/update_operators/pop_operator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index 51bbcd9..7ec46c1 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -25,8 +25,8 @@ impl PopOperator {
                 }
             };
             let val = match num {
-                -1 => false,
-                1 => true,
+                -1 => true,
+                1 => false,
                 _ => {
                     return Err(Error::InvalidField(mk_invalid_query_field(
                         name,
-- 
2.43.0


From 769949bdbb3ecdfbc2cf193937f67d87a89064d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 39/41] fix: $rename of a missing field changes nothing instead
 of inserting null

---
 .../vm/update_operators/rename_operator.rs            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index e8d95de..051757d 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -33,17 +33,15 @@ impl RenameOperator {
         })
     }
 
-    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> Result<()> {
+    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> bool {
         match doc.remove(key) {
             Some(value) => {
                 doc.insert(new_key, value);
+                true
             }
 
-            None => {
-                doc.insert(new_key, Bson::Null);
-            }
+            None => false,
         }
-        Ok(())
     }
 
 }
@@ -63,8 +61,7 @@ impl UpdateOperator for RenameOperator {
                 Bson::String(new_name) => new_name.as_str(),
                 _ => unreachable!()
             };
-            RenameOperator::rename_field(doc, k, new_name)?;
-            updated = true;
+            updated |= RenameOperator::rename_field(doc, k, new_name);
         }
 
         Ok(UpdateResult {
-- 
2.43.0


From cca7efe2c79ee423318c5932c2835f2201e76db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 40/41] fix: escape zero bytes of strings in keys

---
 src/polodb_core/utils/bson.rs | 54 ++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..86033e0 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::cmp::Ordering;
-use std::io::{BufRead, Read, Write};
+use std::io::{Read, Write};
 use bson::{Bson, DateTime, Decimal128, Document, Timestamp};
 use bson::oid::ObjectId;
 use bson::spec::ElementType;
@@ -41,9 +41,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::String(str) => {
             writer.write_u8(ElementType::String as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_key_str(writer, str)?;
         }
         Bson::Boolean(bl) => {
             writer.write_u8(ElementType::Boolean as u8)?;
@@ -86,9 +84,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::Symbol(str) => {
             writer.write_u8(ElementType::Symbol as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_key_str(writer, str)?;
         }
         Bson::Decimal128(dcl) => {
             writer.write_u8(ElementType::Decimal128 as u8)?;
@@ -110,6 +106,39 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
     Ok(())
 }
 
+/// A string in a key ends with a zero byte, so the zero bytes inside it
+/// are written as `1 1` (and `1` as `1 2`), which keeps their order.
+fn write_key_str<W: Write>(writer: &mut W, str: &str) -> Result<()> {
+    for byte in str.as_bytes() {
+        if *byte <= 1 {
+            writer.write_u8(1)?;
+            writer.write_u8(*byte + 1)?;
+        } else {
+            writer.write_u8(*byte)?;
+        }
+    }
+
+    writer.write_u8(0)?;
+    Ok(())
+}
+
+fn read_key_str<R: Read>(reader: &mut R) -> Result<String> {
+    let mut bytes = Vec::<u8>::new();
+
+    loop {
+        let byte = reader.read_u8()?;
+        if byte == 0 {
+            break;
+        } else if byte == 1 {
+            bytes.push(reader.read_u8()?.wrapping_sub(1));
+        } else {
+            bytes.push(byte);
+        }
+    }
+
+    Ok(String::from_utf8(bytes)?)
+}
+
 pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     let mut result = Vec::<Bson>::new();
     let mut reader = buffer;
@@ -124,11 +153,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let val = reader.read_f64::<BigEndian>()?;
             result.push(Bson::Double(val));
         } else if ch == ElementType::String as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            // remove last byte of bytes
-            bytes.pop();
-            result.push(Bson::String(String::from_utf8(bytes)?));
+            result.push(Bson::String(read_key_str(&mut reader)?));
         } else if ch == ElementType::Boolean as u8 {
             let val = reader.read_u8()?;
             result.push(Bson::Boolean(val != 0));
@@ -156,10 +181,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let datetime = DateTime::from_millis(val);
             result.push(Bson::DateTime(datetime));
         } else if ch == ElementType::Symbol as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            bytes.pop();
-            result.push(Bson::Symbol(String::from_utf8(bytes)?));
+            result.push(Bson::Symbol(read_key_str(&mut reader)?));
         } else if ch == ElementType::Decimal128 as u8 {
             let mut bytes = [0u8; 16];
             reader.read_exact(&mut bytes)?;
-- 
2.43.0


From 75bf5dd0d689f61d425dc0f938dfbae81e4c4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 41/41] fix: $inc and $mul reject operands that are not numbers

---
 .../vm/update_operators/inc_operator.rs        |  1 +
 src/polodb_core/vm/update_operators/mod.rs     | 18 ++++++++++++++++++
 .../vm/update_operators/mul_operator.rs        |  1 +
 3 files changed, 20 insertions(+)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index 28803c1..82a360b 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -15,6 +15,7 @@ impl IncOperator {
 
     pub fn compile(doc: Document) -> Result<IncOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numbers("$inc", &doc)?;
         Ok(IncOperator {
             doc
         })
diff --git a/src/polodb_core/vm/update_operators/mod.rs b/src/polodb_core/vm/update_operators/mod.rs
index 9ce938d..aa4e9c0 100644
--- a/src/polodb_core/vm/update_operators/mod.rs
+++ b/src/polodb_core/vm/update_operators/mod.rs
@@ -9,6 +9,7 @@ mod min_operator;
 mod max_operator;
 
 use bson::{Bson, Document};
+use crate::errors::UnexpectedTypeForOpStruct;
 use crate::Result;
 
 #[derive(Debug, Default)]
@@ -33,6 +34,23 @@ impl dyn UpdateOperator {
         Ok(())
     }
 
+    pub(crate) fn validate_numbers(op_name: &'static str, doc: &Document) -> Result<()> {
+        for (_, value) in doc.iter() {
+            match value {
+                Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => (),
+                _ => {
+                    return Err(UnexpectedTypeForOpStruct {
+                        operation: op_name,
+                        expected_ty: "Number",
+                        actual_ty: value.to_string(),
+                    }
+                        .into());
+                }
+            }
+        }
+        Ok(())
+    }
+
 }
 
 pub(crate) use set_operator::SetOperator;
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index f761d88..7732969 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -15,6 +15,7 @@ impl MulOperator {
 
     pub fn compile(doc: Document) -> Result<MulOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numbers("$mul", &doc)?;
         Ok(MulOperator {
             doc
         })
-- 
2.43.0

