From 621df6f00581b7ff5973bf4e93a0be38857a7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 01/74] fix: $ne must match values that differ from the operand

The operator emitted the same comparison as $eq.
---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From de64ff23cd394a1fff09c6b8454eb5f7f625eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 02/74] fix: $or must not end the evaluation of the conditions
 around it

A matching branch returned from the compare function, so the conditions after
the $or were not tested; when no branch matched, they alone decided.
---
 src/polodb_core/vm/codegen.rs | 67 +++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..5ec278e 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -296,7 +296,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, result_label, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -442,15 +442,18 @@ impl Codegen {
         query_doc: &Document,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let last_index = query_doc.len() - 1;
+        for (index, (key, value)) in query_doc.iter().enumerate() {
+            let is_tail = is_tail && index == last_index;
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(key, value, result_label, not_found_label, is_tail)?;
             });
         }
 
@@ -478,19 +481,36 @@ impl Codegen {
         arr: &Array,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+            return Ok(());
+        }
+        let last_index = arr.len() - 1;
         for (index, item_doc_value) in arr.iter().enumerate() {
+            let is_tail = is_tail && index == last_index;
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                self.emit_standard_query_doc(item_doc, result_label, not_found_label, is_tail)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    // When the `$or` is the last condition to be tested(`is_tail`), its result
+    // is the result of the whole function, which returns at `not_found_label`.
+    // Otherwise, the conditions following must be tested when one of the
+    // branches matches.
+    fn emit_logic_or(
+        &mut self,
+        arr: &Array,
+        not_found_label: Label,
+        is_tail: bool,
+    ) -> Result<()> {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -504,7 +524,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, ret_label, ret_label, true)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -514,13 +534,34 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        self.emit_any_of(functions, not_found_label, is_tail);
+
+        Ok(())
+    }
+
+    // Call the functions one by one until one of them returns true.
+    fn emit_any_of(&mut self, functions: Vec<Label>, not_found_label: Label, is_tail: bool) {
+        let matched_label = if is_tail {
+            not_found_label
+        } else {
+            self.new_label()
+        };
+
+        if functions.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(0);
+        }
+
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, matched_label);
         }
 
-        Ok(())
+        if !is_tail {
+            self.emit_goto(DbOp::Goto, not_found_label);
+            self.emit_label(matched_label);
+        }
     }
 
     // case1: "$and" | "$or" -> [ Document ]
@@ -531,17 +572,23 @@ impl Codegen {
         value: &Bson,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.emit_logic_and(
+                        sub_arr.as_ref(),
+                        result_label,
+                        not_found_label,
+                        is_tail,
+                    )?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), not_found_label, is_tail)?;
                 }
 
                 _ => {
-- 
2.43.0


From 7e7bd844e7cdec01359fc4f71fcc6cfaa581a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 03/74] fix: $not must negate its operand as a whole

{ $not: { A, B } } was evaluated as (not A) and (not B). An empty operator
document left the result of the comparison before in place.
---
 src/polodb_core/vm/codegen.rs | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5ec278e..61745ff 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -916,6 +916,17 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(u8::from(!is_in_not));
+            self.emit_goto(DbOp::IfFalse, not_found_label);
+            return Ok(());
+        }
+
+        if is_in_not && value.len() > 1 {
+            return self.emit_negated_conjunction(key, value, not_found_label);
+        }
+
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
@@ -930,6 +941,44 @@ impl Codegen {
         Ok(())
     }
 
+    // not (A and B) is (not A) or (not B)
+    fn emit_negated_conjunction(
+        &mut self,
+        key: &str,
+        value: &Document,
+        not_found_label: Label,
+    ) -> Result<()> {
+        let cmp_label = self.new_label();
+        self.emit_goto(DbOp::Goto, cmp_label);
+
+        let mut functions = Vec::<Label>::with_capacity(value.len());
+        for (sub_key, sub_value) in value.iter() {
+            crate::path_hint!(self, sub_key.clone(), {
+                let query_label = self.new_label();
+                let ret_label = self.new_label();
+
+                self.emit_label(query_label);
+                self.emit_query_tuple_document_kv(
+                    key,
+                    true,
+                    ret_label,
+                    sub_key.as_ref(),
+                    sub_value,
+                )?;
+
+                self.emit_label(ret_label);
+                self.emit_ret(0);
+
+                functions.push(query_label);
+            });
+        }
+
+        self.emit_label(cmp_label);
+        self.emit_any_of(functions, not_found_label, false);
+
+        Ok(())
+    }
+
     // There are two stage of compiling pipeline
     // 1. Generate the layout code of the pipeline
     // 2. Generate the implementation code of the pipeline
-- 
2.43.0


From 681fff29976a95e1508b2554c0cbe65f11c5adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 04/74] fix: evaluate operators in the conditions beside a
 primary key or an index key

The rest of the query was compared with the raw value, so { _id: 1, a: { $gt: 0 } }
or { _id: 1, $and: [..] } never matched.
---
 src/polodb_core/vm/codegen.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 61745ff..575b0fd 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -192,18 +192,9 @@ impl Codegen {
                 continue;
             }
 
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
-
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+            crate::path_hint!(self, key.clone(), {
+                self.emit_query_tuple(key, value, result_label, close_label, false)?;
+            });
         }
 
         result_callback(self)?;
@@ -416,18 +407,9 @@ impl Codegen {
 
         self.emit_label(result_label);
         for (key, value) in remain_query.iter() {
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
-
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+            crate::path_hint!(self, key.clone(), {
+                self.emit_query_tuple(key, value, result_label, close_label, false)?;
+            });
         }
 
         result_callback(self)?;
-- 
2.43.0


From 51744c84dd99172609961fb16fc05213188fc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 05/74] fix: complete the aggregation stages when $match uses a
 primary key or an index

Only the full scan emitted the code that flushes $sort, $count and $group, so
they returned nothing after { $match: { _id: .. } }.
---
 src/polodb_core/vm/codegen.rs | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 575b0fd..6952f72 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -39,6 +39,8 @@ use crate::{Error, Result};
 use bson::spec::{BinarySubtype, ElementType};
 use bson::{Array, Binary, Bson, Document};
 
+type BeforeCloseCallback = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
 const JUMP_TABLE_DEFAULT_SIZE: usize = 8;
 const PATH_DEFAULT_SIZE: usize = 8;
 
@@ -167,6 +169,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: Option<BeforeCloseCallback>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -183,6 +186,9 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
@@ -209,27 +215,29 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: Option<BeforeCloseCallback>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
         if try_pkey_result.is_none() {
             return Ok(());
         }
 
-        let result_callback: F = try_pkey_result.unwrap();
+        let (result_callback, before_close) = try_pkey_result.unwrap();
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
         if try_index_result.is_none() {
             return Ok(());
         }
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
+        let (result_callback, before_close) = try_index_result.unwrap();
 
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
@@ -300,19 +308,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeCloseCallback>,
+    ) -> Result<Option<(F, Option<BeforeCloseCallback>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -320,12 +334,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeCloseCallback>,
+    ) -> Result<Option<(F, Option<BeforeCloseCallback>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if self.is_write {
-            return Ok(Some(result_callback));
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -346,13 +361,14 @@ impl Codegen {
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -362,6 +378,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: Option<BeforeCloseCallback>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -402,6 +419,10 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-- 
2.43.0


From b0bb669d4c6850000b20f22b90e230f2e3cf7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 06/74] fix: find must not stop at the first index entry
 failing another condition

{ indexed: 1, other: 2 } ended the scan at the first entry with another value
of "other". A non-unique index now serves only queries on its key alone.
---
 src/polodb_core/db/db_inner.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..6970a52 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -836,6 +836,16 @@ impl DatabaseInner {
         Ok(result)
     }
 
+    /// The scan of an index ends at the first entry which fails the rest of
+    /// the query. This is right for a unique index, which has one entry at most
+    /// for a value, but other indexes can only serve a query on their key alone.
+    fn retain_usable_indexes(mut col_spec: CollectionSpecification, query: &Document) -> CollectionSpecification {
+        if query.len() > 1 {
+            col_spec.indexes.retain(|_, index_info| index_info.is_unique());
+        }
+        col_spec
+    }
+
     pub fn find_with_owned_session<T: DeserializeOwned + Send + Sync>(
         &self,
         col_name: &str,
@@ -853,7 +863,7 @@ impl DatabaseInner {
             Some(col_spec) => {
                 match filter_query {
                     Some(query) => SubProgram::compile_query(
-                        &col_spec,
+                        &DatabaseInner::retain_usable_indexes(col_spec, &query),
                         &query,
                         true
                     ),
@@ -938,7 +948,12 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, &txn)?;
         let subprogram = match meta_opt {
-            Some(col_spec) => {
+            Some(mut col_spec) => {
+                let pipeline: Vec<Document> = pipeline.into_iter().collect();
+                let first_match = pipeline.first().and_then(|stage| stage.get_document("$match").ok());
+                if let Some(query) = first_match {
+                    col_spec = DatabaseInner::retain_usable_indexes(col_spec, query);
+                }
                 SubProgram::compile_aggregate(
                     &col_spec,
                     pipeline,
-- 
2.43.0


From b6657f641ba325b08a9e4f516188542ce8f95058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 07/74] fix: pass the end of the stream once to each
 aggregation stage

$skip, $limit, $addFields, $unset and an empty $sort forwarded it, and an
exhausted $limit invented it, so a $count, $group or $sort behind them
completed early or more than once.
---
 src/polodb_core/vm/vm_add_fields.rs | 4 ++--
 src/polodb_core/vm/vm_limit.rs      | 4 ++--
 src/polodb_core/vm/vm_skip.rs       | 2 +-
 src/polodb_core/vm/vm_sort.rs       | 5 ++---
 src/polodb_core/vm/vm_unset.rs      | 4 ++--
 5 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..1d231d9 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -69,8 +69,8 @@ impl VmExternalFunc for VmFuncAddFields {
 
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
-        if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+        if arg0.as_null().is_some() {  // complete
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..1dc0ad5 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -106,10 +106,9 @@ impl VmExternalFunc for VmFuncSort {
                     let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                     let buffer = self.buffer.borrow();
                     if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
+                        return Ok(VmExternalFuncStatus::Continue);
                     }
+                    buffer[idx].clone().into()
                 };
                 Ok(VmExternalFuncStatus::Next(next))
             }
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..46c1b82 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -56,8 +56,8 @@ impl VmExternalFunc for VmFuncUnset {
     }
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
-        if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+        if arg0.as_null().is_some() {  // complete
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 019a5fd52415e912b8589aa38deaf35754592922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 08/74] fix: sort by several keys in the order in which they
 are given

The keys were kept in a HashMap, so their precedence was random.
---
 src/polodb_core/vm/vm_sort.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index 1dc0ad5..a1b0a78 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,15 +13,15 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::sync::atomic::AtomicUsize;
 use bson::{Bson, Document};
+use indexmap::IndexMap;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    order_map: IndexMap<String, i8>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
@@ -30,7 +30,7 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = IndexMap::default();
                 for (k, v) in doc.iter() {
                     let order = match v {
                         Bson::Int32(val) => *val as i8,
-- 
2.43.0


From efb01ad14b3ab596dcd1932bdd012a93518af5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 09/74] fix: order numbers transitively among values of other
 types

---
 src/polodb_core/utils/bson.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..3b4bcc1 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -212,8 +212,8 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
         _ => {
             // compare the numeric type
-            let a_type = a.element_type() as u8;
-            let b_type = b.element_type() as u8;
+            let a_type = type_rank(a);
+            let b_type = type_rank(b);
             if a_type != b_type {
                 return Ok(a_type.cmp(&b_type));
             }
@@ -223,6 +223,15 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     }
 }
 
+// The numbers are compared by value, so they must be on the same side of the
+// values of other types. Otherwise, the order is not transitive.
+fn type_rank(value: &Bson) -> u8 {
+    match value {
+        Bson::Int32(_) | Bson::Int64(_) => ElementType::Double as u8,
+        _ => value.element_type() as u8,
+    }
+}
+
 pub fn try_get_document_value(doc: &Document, key: &str) -> Option<Bson> {
     let keys = key.split('.').collect::<Vec<&str>>();
     let keys_slice = keys.as_slice();
-- 
2.43.0


From 74578a4fc35fcf245502a16785daf5d2752c936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 10/74] fix: sort must report values it cannot compare instead
 of panicking

---
 src/polodb_core/vm/vm_sort.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a1b0a78..10bda7c 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -62,15 +62,22 @@ impl VmFuncSort {
         }
     }
 
-    fn sort_array(&self) {
+    fn sort_array(&self) -> Result<()> {
         let mut array = self.buffer.borrow_mut();
+        let mut cmp_error = None;
         array.sort_by(|a, b| {
             for (k, v) in self.order_map.iter() {
                 let a_val = a.get(k);
                 let b_val = b.get(k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
-                        let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
+                        let result = match crate::utils::bson::value_cmp(a_val, b_val) {
+                            Ok(result) => result,
+                            Err(err) => {
+                                cmp_error = Some(err);
+                                continue;
+                            }
+                        };
                         match result {
                             std::cmp::Ordering::Equal => continue,
                             std::cmp::Ordering::Less => return Self::i8_to_ordering(*v),
@@ -84,6 +91,10 @@ impl VmFuncSort {
             }
             std::cmp::Ordering::Equal
         });
+        match cmp_error {
+            Some(err) => Err(err.into()),
+            None => Ok(()),
+        }
     }
 }
 
@@ -101,7 +112,7 @@ impl VmExternalFunc for VmFuncSort {
                 Ok(VmExternalFuncStatus::Continue)
             }
             Bson::Null => {
-                self.sort_array();
+                self.sort_array()?;
                 let next = {
                     let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                     let buffer = self.buffer.borrow();
-- 
2.43.0


From 4b2f7d6f3eccb08bbedbd412ff295b5d8945391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 11/74] fix: store a document changed by any operator of the
 update

---
 src/polodb_core/vm/vm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..44f06ee 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -955,7 +955,10 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        // the document is stored if any of the operators changed it
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 998264edd5f336b3016fa0e77fef650ca54cac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 12/74] fix: $pop, $unset and $rename must not change the
 primary key

---
 src/polodb_core/vm/update_operators/pop_operator.rs    | 1 +
 src/polodb_core/vm/update_operators/rename_operator.rs | 8 ++++++--
 src/polodb_core/vm/update_operators/unset_operator.rs  | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..51bbcd9 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..e8d95de 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::FieldTypeUnexpectedStruct;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct RenameOperator {
     doc: Document
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,6 +24,9 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From e61a82622bae01220250a19f9d022104a6b7855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 13/74] fix: $inc and $mul must report an overflow

---
 src/polodb_core/vm/update_operators/inc_operator.rs |  8 ++++----
 src/polodb_core/vm/update_operators/mul_operator.rs | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..0388f5f 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -18,11 +18,11 @@ impl IncOperator {
 
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(a.checked_add(*b).ok_or(Error::DataOverflow)?),
+            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64((*a as i64).checked_add(*b).ok_or(Error::DataOverflow)?),
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(a.checked_add(*b).ok_or(Error::DataOverflow)?),
+            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(a.checked_add(*b as i64).ok_or(Error::DataOverflow)?),
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..0be6191 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -18,11 +18,11 @@ impl MulOperator {
 
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(a.checked_mul(*b).ok_or(Error::DataOverflow)?),
+            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64((*a as i64).checked_mul(*b).ok_or(Error::DataOverflow)?),
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(a.checked_mul(*b).ok_or(Error::DataOverflow)?),
+            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(a.checked_mul(*b as i64).ok_or(Error::DataOverflow)?),
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
-- 
2.43.0


From dcd34a768e8a01877398436fadd21727250decaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 14/74] fix: $abs must not panic on the smallest integer

---
 src/polodb_core/vm/operators/abs_operator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..086f8b7 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -25,12 +25,12 @@ impl AbsOperator {
     fn bson_abs(input: Bson) -> Bson {
         match input {
             Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
+                let result = v.checked_abs();
+                result.map_or(Bson::Int64(i64::from(v).abs()), Bson::Int32)
             }
             Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
+                let result = v.checked_abs();
+                result.map_or(Bson::Double((v as f64).abs()), Bson::Int64)
             }
             _ => input,
         }
@@ -46,12 +46,10 @@ impl AbsOperator {
                 OperatorExpr::Constant(Bson::Null)
             }
             Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
+                OperatorExpr::Constant(Self::bson_abs(Bson::Int32(*v)))
             }
             Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+                OperatorExpr::Constant(Self::bson_abs(Bson::Int64(*v)))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
-- 
2.43.0


From 0194c250410054f2775b36da7c69e52d6047185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 15/74] fix: $regex matches the text of strings, not their
 printed form

---
 src/polodb_core/vm/query_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..e097602 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,7 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    Ok(matches_compiled_regex(field_value, &regex))
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From ff78347b42df5be25c975154e984f90665d2cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 16/74] fix: $abs of a double

---
 src/polodb_core/vm/operators/abs_operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 086f8b7..2a05f40 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -32,6 +32,7 @@ impl AbsOperator {
                 let result = v.checked_abs();
                 result.map_or(Bson::Double((v as f64).abs()), Bson::Int64)
             }
+            Bson::Double(v) => Bson::Double(v.abs()),
             _ => input,
         }
     }
-- 
2.43.0


From 48c10ff9b307f7ce92f8ae6c823c153f68640052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 17/74] fix: reject NUL in the names of collections and indexes

NUL ends a string in the keys of the store, so the documents of "a\0b" were
found in the collection "a" too.
---
 src/polodb_core/db/db_inner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 6970a52..62104cb 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -386,7 +386,7 @@ impl DatabaseInner {
 
     fn validate_col_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' || ch == '\0' {
                 return Err(Error::IllegalCollectionName(col_name.to_string()))
             }
         }
@@ -396,7 +396,7 @@ impl DatabaseInner {
 
     fn validate_index_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' || ch == '\0' {
                 return Err(Error::IllegalIndexName(col_name.to_string()))
             }
         }
-- 
2.43.0


From 1d95277b97336f254eb8f6a6b1f32aa57accafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 18/74] fix: a delete must not create the collection

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 62104cb..454a081 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -701,7 +701,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From 68068a65d9bb6138c4b862c9b138a2071f2775fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 19/74] fix: report an index whose name is taken by another
 index

---
 src/polodb_core/db/db_inner.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 454a081..158a4cc 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -246,15 +246,22 @@ impl DatabaseInner {
             }
         };
 
-        if collection_spec.indexes.get(&index_name).is_some() {
-            return Ok(())
-        }
-
         let index_info = IndexInfo::single_index(
             key.to_string(),
             1,
             options.cloned(),
         );
+
+        if let Some(existing) = collection_spec.indexes.get(&index_name) {
+            let is_same = existing.keys == index_info.keys
+                && existing.is_unique() == index_info.is_unique();
+            return if is_same {
+                Ok(())
+            } else {
+                Err(Error::IndexAlreadyExists(index_name))
+            };
+        }
+
         collection_spec.indexes.insert(index_name.clone(), index_info.clone());
 
         DatabaseInner::update_collection_spec(
-- 
2.43.0


From 85fdb6b33bd21f5df00541bc80e1639426016318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 20/74] fix: report an empty stage of an aggregation instead of
 panicking

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 6952f72..524dc1a 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1167,7 +1167,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
-- 
2.43.0


From 579616915f59e4f648bcf6b7733711e8dc26dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 21/74] fix: report a negative $skip or $limit

---
 src/polodb_core/vm/vm_limit.rs | 4 ++--
 src/polodb_core/vm/vm_skip.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 6e21b2a..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 0215739..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
-- 
2.43.0


From 069df96e5e75ff64390948a3c322204fe9a5f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 22/74] fix: report a $sort order other than 1 and -1

---
 src/polodb_core/vm/vm_sort.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index 10bda7c..065deb7 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -33,8 +33,8 @@ impl VmFuncSort {
                 let mut result = IndexMap::default();
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(val) if *val == 1 || *val == -1 => *val as i8,
+                        Bson::Int64(val) if *val == 1 || *val == -1 => *val as i8,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
                     result.insert(k.clone(), order);
-- 
2.43.0


From 2ad9e14ad5f9d687f70fe46eaeaa5f31a709b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 23/74] fix: a cursor must report a document it cannot
 deserialize instead of panicking

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From 81527555e2ae2225495d8f39a4dfcee70e77baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 24/74] fix: lock a unique key before checking that it is free

Two concurrent inserts could both find the key free, and both succeed.
---
 src/polodb_core/db/db_inner.rs            |  2 +-
 src/polodb_core/db/rocksdb_transaction.rs | 33 +++++++++++++++++++++++
 src/polodb_core/index/index_helper.rs     |  3 +++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 158a4cc..ef5feb2 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -438,7 +438,7 @@ impl DatabaseInner {
             pkey,
         ])?;
 
-        if txn.rocksdb_txn.get(stacked_key.as_ref())?.is_some() {
+        if txn.rocksdb_txn.get_for_update(stacked_key.as_ref(), true)?.is_some() {
             return Err(DuplicateKeyError {
                 name: "_id_".to_string(),
                 key: pkey.to_string(),
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..dbc3532 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -68,6 +68,13 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    /// Reads the latest committed value of the key, or the value written by
+    /// this transaction, and locks the key until the end of the transaction.
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        let inner = self.inner.lock().unwrap();
+        inner.get_for_update(key, exclusive)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
@@ -166,6 +173,32 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                exclusive as libc::c_uchar,
+                &mut err,
+            );
+
+            check_err!(err);
+
+            if value.is_null() {
+                return Ok(None);
+            }
+
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..4d08246 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,6 +143,9 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // two transactions must not insert the same value at the same time
+        txn.rocksdb_txn.get_for_update(&index_key_tester, true)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
-- 
2.43.0


From cf497a7779b414a10eb42aede8fe0b7d80ee2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 25/74] fix: an update must not overwrite what was committed
 since it read the document

Updates and deletes computed the new document, and the index entries to remove,
from a version which another transaction could have replaced in the meantime.
---
 src/polodb_core/coll/collection.rs | 52 +++++++++++++++++-------------
 src/polodb_core/errors.rs          |  2 ++
 src/polodb_core/vm/vm.rs           | 18 +++++++++++
 3 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/polodb_core/coll/collection.rs b/src/polodb_core/coll/collection.rs
index 0baaba1..0ecd56e 100644
--- a/src/polodb_core/coll/collection.rs
+++ b/src/polodb_core/coll/collection.rs
@@ -50,6 +50,20 @@ macro_rules! try_db_op {
     }
 }
 
+/// Runs the operation in a new transaction, again when it meets a document
+/// which another transaction has just changed.
+macro_rules! retry_db_op {
+    ($db: expr, $txn: ident, $action: expr) => {
+        loop {
+            let $txn = $db.start_transaction()?;
+            match $action {
+                Err(Error::WriteConflict) => $txn.rollback()?,
+                result => break try_db_op!($txn, result),
+            }
+        }
+    }
+}
+
 pub trait CollectionT<T> {
     fn name(&self) -> &str;
     /// Return the size of all data in the collection.
@@ -139,11 +153,10 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_one(&self, query: Document, update: Document) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.update_one(
+        let result = retry_db_op!(db, txn, db.update_one(
             &self.name,
-            query,
-            update,
+            query.clone(),
+            update.clone(),
             UpdateOptions::default(),
             &txn,
         ));
@@ -152,12 +165,11 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_one_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.update_one(
+        let result = retry_db_op!(db, txn, db.update_one(
             &self.name,
-            query,
-            update,
-            options,
+            query.clone(),
+            update.clone(),
+            options.clone(),
             &txn,
         ));
         Ok(result)
@@ -165,11 +177,10 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_many(&self, query: Document, update: Document) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.update_many(
+        let result = retry_db_op!(db, txn, db.update_many(
             &self.name,
-            query,
-            update,
+            query.clone(),
+            update.clone(),
             UpdateOptions::default(),
             &txn,
         ));
@@ -178,12 +189,11 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_many_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.update_many(
+        let result = retry_db_op!(db, txn, db.update_many(
             &self.name,
-            query,
-            update,
-            options,
+            query.clone(),
+            update.clone(),
+            options.clone(),
             &txn,
         ));
         Ok(result)
@@ -191,15 +201,13 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn delete_one(&self, query: Document) -> Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.delete_one(&self.name, query, &txn));
+        let result = retry_db_op!(db, txn, db.delete_one(&self.name, query.clone(), &txn));
         Ok(result)
     }
 
     fn delete_many(&self, query: Document) -> Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
-        let result = try_db_op!(txn, db.delete_many(&self.name, query, &txn));
+        let result = retry_db_op!(db, txn, db.delete_many(&self.name, query.clone(), &txn));
         Ok(result)
     }
 
diff --git a/src/polodb_core/errors.rs b/src/polodb_core/errors.rs
index a913421..053a4b1 100644
--- a/src/polodb_core/errors.rs
+++ b/src/polodb_core/errors.rs
@@ -184,6 +184,8 @@ pub enum Error {
     DataSizeTooLarge(u32, u32),
     #[error("decode EOF")]
     DecodeEOF,
+    #[error("the document was changed by another transaction")]
+    WriteConflict,
     #[error("data overflow")]
     DataOverflow,
     #[error("item with primary key exists, key: '{0}'")]
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 44f06ee..7539650 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -379,10 +379,24 @@ impl VM {
         Ok(())
     }
 
+    /// Locks the current document, which must still be the one which was read.
+    fn lock_current(&self) -> Result<()> {
+        let cursor = self.r1.as_ref().unwrap();
+        if let Some(key) = cursor.peek_key() {
+            let latest = self.txn.rocksdb_txn.get_for_update(key.as_ref(), true)?;
+            if latest != Some(cursor.copy_data()?) {
+                return Err(Error::WriteConflict);
+            }
+        }
+        Ok(())
+    }
+
     fn update_current(&mut self) -> Result<()> {
         if self.r0 == 0 {
             return Ok(());
         }
+        self.lock_current()?;
+
         let top_index = self.stack.len() - 1;
         let top_value = &self.stack[top_index];
 
@@ -427,6 +441,8 @@ impl VM {
     }
 
     fn delete_index(&mut self, index_info_id: u32) -> Result<()> {
+        self.lock_current()?;
+
         let info = &self.program.index_infos[index_info_id as usize];
 
         let index_meta = &info.indexes;
@@ -748,6 +764,8 @@ impl VM {
                     }
 
                     DbOp::DeleteCurrent => {
+                        try_vm!(self, self.lock_current());
+
                         let txn = &self.txn;
                         let deleted = {
                             let cursor = self.r1.as_mut().unwrap();
-- 
2.43.0


From 64702b6a1c1663d784a5b550e7d8af0647bd6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 26/74] fix: lock the meta of a collection while its documents
 or indexes change

An index could be built without the uncommitted documents of another
transaction, and the first writers of a collection could replace its meta.
---
 src/polodb_core/db/db_inner.rs | 59 +++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index ef5feb2..3e02ae8 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -139,6 +139,31 @@ impl DatabaseInner {
         }
     }
 
+    /// The writers of documents share the lock on the meta of the collection,
+    /// which its indexes depend on. Changing the meta takes an exclusive lock.
+    fn lock_collection_meta(&self, txn: &TransactionInner, name: &str, exclusive: bool) -> Result<()> {
+        let stacked_key = crate::utils::bson::stacked_key(&[
+            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(name.to_string()),
+        ])?;
+
+        txn.rocksdb_txn.get_for_update(stacked_key.as_slice(), exclusive)?;
+
+        Ok(())
+    }
+
+    /// Get the meta of the collection to change its documents.
+    /// The meta can not be changed until the end of the transaction.
+    fn get_collection_meta_for_write(&self, txn: &TransactionInner, name: &str, create_if_not_exist: bool) -> Result<Option<CollectionSpecification>> {
+        let exist = self.check_collection_exist(txn, name)?;
+        if !exist && !create_if_not_exist {
+            return Ok(None);
+        }
+
+        self.lock_collection_meta(txn, name, !exist)?;
+        self.get_collection_meta_by_name_advanced(txn, name, create_if_not_exist, &self.node_id)
+    }
+
     pub fn create_collection(&self, name: &str) -> Result<CollectionSpecification> {
         DatabaseInner::validate_col_name(name)?;
 
@@ -168,7 +193,11 @@ impl DatabaseInner {
         if name.is_empty() {
             return Err(Error::IllegalCollectionName(name.into()));
         }
-        let exist = self.check_collection_exist(txn, name)?;
+        let mut exist = self.check_collection_exist(txn, name)?;
+        if !exist {
+            self.lock_collection_meta(txn, name, true)?;
+            exist = self.check_collection_exist(txn, name)?;
+        }
         if exist {
             return Err(Error::CollectionAlreadyExits(name.into()));
         }
@@ -234,6 +263,7 @@ impl DatabaseInner {
 
         let index_name = DatabaseInner::make_index_name(key, 1, options)?;
 
+        self.lock_collection_meta(txn, col_name, true)?;
         let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
@@ -304,6 +334,7 @@ impl DatabaseInner {
     }
 
     fn internal_drop_index(&self, col_name: &str, index_name: &str, txn: &TransactionInner) -> Result<()> {
+        self.lock_collection_meta(txn, col_name, true)?;
         let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
@@ -414,13 +445,13 @@ impl DatabaseInner {
     pub fn insert_one(&self, col_name: &str, doc: Document, txn: &TransactionInner) -> Result<InsertOneResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let changed = self.insert_one_internal(txn, col_name, doc, &self.node_id)?;
+        let changed = self.insert_one_internal(txn, col_name, doc)?;
 
         Ok(changed)
     }
 
-    fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document, node_id: &[u8; 6]) -> Result<InsertOneResult> {
-        let col_meta = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
+    fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document) -> Result<InsertOneResult> {
+        let col_meta = self.get_collection_meta_for_write(txn, col_name, true)?
             .expect("internal: meta must exist");
         let (result, _) = self.insert_one_with_meta(txn, col_meta, doc)?;
         Ok(result)
@@ -480,7 +511,7 @@ impl DatabaseInner {
     ) -> Result<InsertManyResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let result = self.insert_many_internal(txn, col_name, docs, &self.node_id)?;
+        let result = self.insert_many_internal(txn, col_name, docs)?;
 
         Ok(result)
     }
@@ -490,9 +521,8 @@ impl DatabaseInner {
         txn: &TransactionInner,
         col_name: &str,
         docs: impl IntoIterator<Item = impl Borrow<T>>,
-        node_id: &[u8; 6],
     ) -> Result<InsertManyResult> {
-        let mut col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
+        let mut col_spec = self.get_collection_meta_for_write(txn, col_name, true)?
             .expect("internal: meta must exist");
         let mut inserted_ids: HashMap<usize, Bson> = HashMap::new();
 
@@ -578,7 +608,7 @@ impl DatabaseInner {
         options: UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, txn)?;
+        let meta_opt = self.get_collection_meta_for_write(txn, col_name, false)?;
 
         let result = match &meta_opt {
             Some(col_spec) => {
@@ -638,7 +668,7 @@ impl DatabaseInner {
         let doc = set.as_document().ok_or(Error::SetIsNotADocument)?;
         let merged_doc = DatabaseInner::merge_query_and_update(&query, doc)?;
 
-        let _insert_result = self.insert_one_internal(txn, col_name, merged_doc, &self.node_id)?;
+        let _insert_result = self.insert_one_internal(txn, col_name, merged_doc)?;
 
         Ok(())
     }
@@ -651,6 +681,7 @@ impl DatabaseInner {
     }
 
     fn drop_collection_internal(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
+        self.lock_collection_meta(txn, col_name, true)?;
         let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
         let collection_spec = match test_collection_spec {
             Ok(collection_spec) => collection_spec,
@@ -708,7 +739,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
+        let col_spec = self.get_collection_meta_for_write(txn, col_name, false)?;
         if col_spec.is_none() {
             return Ok(0);
         }
@@ -733,11 +764,9 @@ impl DatabaseInner {
     }
 
     fn internal_delete_all(&self, txn: &TransactionInner, col_name: &str) -> Result<usize> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
-        let collection_spec = match test_collection_spec {
-            Ok(collection_spec) => collection_spec,
-            Err(Error::CollectionNotFound(_)) => return Ok(0),
-            Err(err) => return Err(err),
+        let collection_spec = match self.get_collection_meta_for_write(txn, col_name, false)? {
+            Some(collection_spec) => collection_spec,
+            None => return Ok(0),
         };
 
         // Delete content begin
-- 
2.43.0


From bfa7405f0647d3f2ee1696a000cbd20a1e508ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 27/74] fix: $size must not leave a value on the stack for the
 conditions after it

---
 src/polodb_core/vm/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 524dc1a..e863c1d 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -857,7 +857,8 @@ impl Codegen {
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                // the field, its size and the expected size
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
-- 
2.43.0


From 91c667c51e3547b908e91cb5b8f563ef09f50a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 28/74] fix: accept any skip and limit of a find

---
 src/polodb_core/action/find.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..c6ff9f8 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -86,13 +86,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": skip.min(i64::MAX as u64) as i64,
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": limit.min(i64::MAX as u64) as i64,
                     });
                 }
 
-- 
2.43.0


From cd3d8e2af4fa7be524ded12ea398424eaa217eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 29/74] fix: creating an index must not create a collection
 without a name

---
 src/polodb_core/db/db_inner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 3e02ae8..db215b2 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -228,6 +228,9 @@ impl DatabaseInner {
 
     pub fn create_index(&self, col_name: &str, index: IndexModel, txn: &TransactionInner) -> Result<()> {
         DatabaseInner::validate_col_name(col_name)?;
+        if col_name.is_empty() {
+            return Err(Error::IllegalCollectionName(col_name.into()));
+        }
 
         self.internal_create_index(txn, col_name, index)?;
 
-- 
2.43.0


From 2be3bf020f1d41307eb25793318564f23c06b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 30/74] fix: compare the locked document with what was read,
 not with a moved buffer

---
 src/polodb_core/vm/vm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 7539650..962cd76 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -76,6 +76,7 @@ pub(crate) struct VM {
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
     index_value: Option<Bson>,
+    current_data: Vec<u8>, // the document under the cursor, as it was read
     metrics: Metrics,
 }
 
@@ -106,6 +107,7 @@ impl VM {
             program,
             global_vars,
             index_value: None,
+            current_data: Vec::new(),
             metrics,
         }
     }
@@ -150,6 +152,7 @@ impl VM {
         if cursor.has_next() {
             let item = cursor.copy_data()?;
             let doc = bson::from_slice(item.as_ref())?;
+            self.current_data = item;
             self.stack.push(Bson::Document(doc));
             is_empty.set(false);
         } else {
@@ -171,6 +174,7 @@ impl VM {
 
         let buf = cursor.copy_data()?;
         let doc = bson::from_slice(buf.as_ref())?;
+        self.current_data = buf;
         self.stack.push(Bson::Document(doc));
         Ok(true)
     }
@@ -238,6 +242,7 @@ impl VM {
         if cursor.has_next() {
             let bytes = cursor.copy_data()?;
             let doc = bson::from_slice(bytes.as_ref())?;
+            self.current_data = bytes;
             self.stack.push(Bson::Document(doc));
 
             debug_assert!(
@@ -384,7 +389,9 @@ impl VM {
         let cursor = self.r1.as_ref().unwrap();
         if let Some(key) = cursor.peek_key() {
             let latest = self.txn.rocksdb_txn.get_for_update(key.as_ref(), true)?;
-            if latest != Some(cursor.copy_data()?) {
+            // The value of the iterator is not valid any more once the transaction
+            // has written something.
+            if latest.as_ref() != Some(&self.current_data) {
                 return Err(Error::WriteConflict);
             }
         }
-- 
2.43.0


From 8e62ea9a9fabcbd54d7c2f5f32fe58702a90555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 31/74] fix: an index scan must not end at a document deleted
 meanwhile

---
 src/polodb_core/vm/vm.rs | 60 ++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 962cd76..fd9a657 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -194,14 +194,16 @@ impl VM {
 
         let key = cursor.peek_key().expect("key must exist");
 
-        let index_value = self.read_index_value_by_index_key(key.as_ref())?;
-
-        if index_value.is_none() {
-            return Ok(false);
+        match self.read_index_value_by_index_key(key.as_ref())? {
+            Some(index_value) => self.stack.push(index_value),
+            None => {
+                self.next_index_value()?;
+                if self.r0 == 0 {
+                    return Ok(false);
+                }
+            }
         }
 
-        self.stack.push(index_value.unwrap());
-
         self.metrics.add_find_by_index_count();
 
         Ok(true)
@@ -259,37 +261,35 @@ impl VM {
         Ok(())
     }
 
+    /// Moves to the next entry of the index whose document still exists. The
+    /// document can be deleted after the scan of the index began.
     fn next_index_value(&mut self) -> Result<()> {
-        let cursor = self.r1.as_mut().unwrap();
-        cursor.next()?;
-        let current_key = cursor.peek_key();
-        if current_key.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let index_value = self.index_value.as_ref().expect("index_value must exist");
+        self.r0 = 0;
 
-        let key_buffer =
-            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
+        loop {
+            let cursor = self.r1.as_mut().unwrap();
+            cursor.next()?;
 
-        let current_key = current_key.unwrap();
-        if !current_key.starts_with(key_buffer.as_slice()) {
-            self.r0 = 0;
-            return Ok(());
-        }
+            let current_key = match cursor.peek_key() {
+                Some(current_key) => current_key,
+                None => return Ok(()),
+            };
 
-        let value_opt = self.read_index_value_by_index_key(current_key.as_ref())?;
-        if value_opt.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
+            let index_value = self.index_value.as_ref().expect("index_value must exist");
 
-        self.stack.push(value_opt.unwrap());
+            let key_buffer =
+                make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
 
-        self.r0 = 1;
+            if !current_key.starts_with(key_buffer.as_slice()) {
+                return Ok(());
+            }
 
-        Ok(())
+            if let Some(value) = self.read_index_value_by_index_key(current_key.as_ref())? {
+                self.stack.push(value);
+                self.r0 = 1;
+                return Ok(());
+            }
+        }
     }
 
     pub(crate) fn stack_top(&self) -> &Bson {
-- 
2.43.0


From c32c6ef6948cc5990e94f6f560439daff140dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 32/74] fix: find, aggregate and count read the database at one
 moment

---
 src/polodb_core/action/aggregate.rs       |  2 +-
 src/polodb_core/action/find.rs            |  2 +-
 src/polodb_core/coll/collection.rs        |  2 +-
 src/polodb_core/db/db_inner.rs            |  8 ++++++++
 src/polodb_core/db/rocksdb_options.rs     |  6 ++++++
 src/polodb_core/db/rocksdb_transaction.rs | 21 +++++++++++++++++++++
 6 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/action/aggregate.rs b/src/polodb_core/action/aggregate.rs
index b392275..b4a1739 100644
--- a/src/polodb_core/action/aggregate.rs
+++ b/src/polodb_core/action/aggregate.rs
@@ -43,7 +43,7 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Aggregate<'a, 'b, T> {
         let txn = match self.txn {
             Some(txn) => txn.clone(),
             None => {
-                db.start_transaction()?
+                db.start_read_transaction()?
             }
         };
         db.aggregate_with_owned_session(self.name, self.pipeline, txn.clone())
diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index c6ff9f8..636aac2 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -64,7 +64,7 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
         let txn = match self.txn {
             Some(txn) => txn.clone(),
             None => {
-                db.start_transaction()?
+                db.start_read_transaction()?
             }
         };
         match (self.skip.as_ref(), self.limit.as_ref(), self.sort.as_ref()) {
diff --git a/src/polodb_core/coll/collection.rs b/src/polodb_core/coll/collection.rs
index 0ecd56e..1e34594 100644
--- a/src/polodb_core/coll/collection.rs
+++ b/src/polodb_core/coll/collection.rs
@@ -146,7 +146,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn count_documents(&self) -> Result<u64> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let txn = db.start_read_transaction()?;
         let count = db.count_documents(&self.name, &txn)?;
         Ok(count)
     }
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index db215b2..20a64f3 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -93,6 +93,14 @@ impl DatabaseInner {
         Ok(TransactionInner::new(self.rocksdb.begin_transaction()?))
     }
 
+    /// A transaction to read the state of the database at one moment,
+    /// whatever other transactions commit while the results are consumed.
+    pub fn start_read_transaction(&self) -> Result<TransactionInner> {
+        let txn = self.start_transaction()?;
+        txn.rocksdb_txn.set_snapshot();
+        Ok(txn)
+    }
+
     fn internal_get_collection_id_by_name(&self, txn: &TransactionInner, name: &str) -> Result<CollectionSpecification> {
         let mut cursor =  {
             let kv_cursor = txn.rocksdb_txn.new_iterator();
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index fc4cf78..0d17223 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -98,6 +98,12 @@ impl RocksDBReadOptions {
         self.inner
     }
 
+    pub(crate) fn set_snapshot(&self, snapshot: *const ffi::rocksdb_snapshot_t) {
+        unsafe {
+            ffi::rocksdb_readoptions_set_snapshot(self.inner, snapshot)
+        }
+    }
+
 }
 
 impl Drop for RocksDBReadOptions {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index dbc3532..793aa14 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -52,6 +52,12 @@ impl RocksDBTransaction {
         })
     }
 
+    /// All the iterators of the transaction read the same state of the database.
+    pub(crate) fn set_snapshot(&self) {
+        let mut inner = self.inner.lock().unwrap();
+        inner.set_snapshot()
+    }
+
     pub fn new_iterator(&self) -> RocksDBIterator {
         let mut inner = self.inner.lock().unwrap();
         RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner)
@@ -97,6 +103,7 @@ pub(crate) struct RocksDBTransactionInner {
     _write_options: RocksDBWriteOptions,
     _txn_options: RocksDBTransactionOptions,
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
+    snapshot: *const ffi::rocksdb_snapshot_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
 }
@@ -125,12 +132,23 @@ impl RocksDBTransactionInner {
                 _write_options: write_options,
                 _txn_options: txn_options,
                 inner,
+                snapshot: ptr::null(),
                 db_inner,
                 iter_count: AtomicU64::new(0),
             })
         }
     }
 
+    fn set_snapshot(&mut self) {
+        if !self.snapshot.is_null() {
+            return;
+        }
+        unsafe {
+            self.snapshot = ffi::rocksdb_transactiondb_create_snapshot((*self.db_inner).inner);
+        }
+        self.read_options.set_snapshot(self.snapshot);
+    }
+
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
@@ -246,6 +264,9 @@ impl Drop for RocksDBTransactionInner {
                 panic!("there are still iterators opened")
             }
             ffi::rocksdb_transaction_destroy(self.inner);
+            if !self.snapshot.is_null() {
+                ffi::rocksdb_transactiondb_release_snapshot((*self.db_inner).inner, self.snapshot);
+            }
             _ = self.db_inner.as_mut().unwrap().txn_count.fetch_sub(1, Ordering::SeqCst)
         }
     }
-- 
2.43.0


From 0c43d5cff98cdf62789e2d1ad59b56ae8774a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 33/74] fix: report an error which ends an iterator, instead of
 fewer documents

---
 src/polodb_core/cursor.rs              | 6 +++++-
 src/polodb_core/db/rocksdb_iterator.rs | 1 -
 src/polodb_core/index/index_helper.rs  | 1 +
 src/polodb_core/vm/vm.rs               | 1 +
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 21f690e..1a69ceb 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -64,6 +64,8 @@ impl Cursor {
 
         if self.kv_cursor.valid() {
             self.current_key = Some(self.kv_cursor.copy_key_arc()?);
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(())
@@ -102,6 +104,7 @@ impl Cursor {
             }
         }
 
+        self.kv_cursor.error()?;
         Ok(false)
     }
 
@@ -121,6 +124,7 @@ impl Cursor {
             }
         }
 
+        self.kv_cursor.error()?;
         Ok(false)
     }
 
@@ -147,7 +151,7 @@ impl Cursor {
         self.kv_cursor.next();
         if !self.kv_cursor.valid() {
             self.current_key = None;
-            return Ok(());
+            return self.kv_cursor.error();
         }
         self.current_key = Some(self.kv_cursor.copy_key_arc()?);
         Ok(())
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..10950b7 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -54,7 +54,6 @@ impl RocksDBIterator {
         self.inner.prev()
     }
 
-    #[allow(dead_code)]
     pub fn error(&self) -> Result<()> {
         self.inner.error()
     }
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 4d08246..c190b43 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -150,6 +150,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         cursor.seek(&index_key_tester);
 
         if !cursor.valid() {
+            cursor.error()?;
             return Ok(());
         }
         let current_key = cursor.copy_key_arc()?;
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index fd9a657..264ec96 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -223,6 +223,7 @@ impl VM {
         db_iter.seek(pkey_in_kv.as_slice());
 
         if !db_iter.valid() {
+            db_iter.error()?;
             return Ok(None);
         }
         let current_key = db_iter.copy_key()?;
-- 
2.43.0


From 6d3b6c794d4b64b63ea908575e2fa8d860658abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 34/74] fix: creating a collection must not wait for its
 writers, nor deadlock with them

---
 src/polodb_core/db/db_inner.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 20a64f3..6e4eddc 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -40,6 +40,8 @@ use crate::transaction::TransactionInner;
 use crate::vm::VM;
 
 const TABLE_META_PREFIX: &str = "$TABLE_META";
+const META_LOCK_PREFIX: &str = "$META_LOCK";
+const CREATION_LOCK_PREFIX: &str = "$CREATION_LOCK";
 
 /**
  * API for all platforms
@@ -150,8 +152,20 @@ impl DatabaseInner {
     /// The writers of documents share the lock on the meta of the collection,
     /// which its indexes depend on. Changing the meta takes an exclusive lock.
     fn lock_collection_meta(&self, txn: &TransactionInner, name: &str, exclusive: bool) -> Result<()> {
+        self.lock_collection(txn, META_LOCK_PREFIX, name, exclusive)
+    }
+
+    /// Those who are about to create a collection wait for each other here.
+    /// They share the lock on its meta with the writers of documents: the
+    /// exclusive one would have to wait for a moment without any of them.
+    fn lock_collection_creation(&self, txn: &TransactionInner, name: &str) -> Result<()> {
+        self.lock_collection(txn, CREATION_LOCK_PREFIX, name, true)
+    }
+
+    /// The keys of these locks have no values.
+    fn lock_collection(&self, txn: &TransactionInner, prefix: &str, name: &str, exclusive: bool) -> Result<()> {
         let stacked_key = crate::utils::bson::stacked_key(&[
-            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(prefix.to_string()),
             Bson::String(name.to_string()),
         ])?;
 
@@ -163,12 +177,18 @@ impl DatabaseInner {
     /// Get the meta of the collection to change its documents.
     /// The meta can not be changed until the end of the transaction.
     fn get_collection_meta_for_write(&self, txn: &TransactionInner, name: &str, create_if_not_exist: bool) -> Result<Option<CollectionSpecification>> {
-        let exist = self.check_collection_exist(txn, name)?;
-        if !exist && !create_if_not_exist {
-            return Ok(None);
+        if !self.check_collection_exist(txn, name)? {
+            if !create_if_not_exist {
+                return Ok(None);
+            }
+            self.lock_collection_creation(txn, name)?;
         }
 
-        self.lock_collection_meta(txn, name, !exist)?;
+        self.lock_collection_meta(txn, name, false)?;
+        if create_if_not_exist && !self.check_collection_exist(txn, name)? {
+            // it may have been dropped since
+            self.lock_collection_creation(txn, name)?;
+        }
         self.get_collection_meta_by_name_advanced(txn, name, create_if_not_exist, &self.node_id)
     }
 
@@ -203,7 +223,8 @@ impl DatabaseInner {
         }
         let mut exist = self.check_collection_exist(txn, name)?;
         if !exist {
-            self.lock_collection_meta(txn, name, true)?;
+            self.lock_collection_creation(txn, name)?;
+            self.lock_collection_meta(txn, name, false)?;
             exist = self.check_collection_exist(txn, name)?;
         }
         if exist {
-- 
2.43.0


From 4dc537fa8b61c4a6609203edc90e0e12a77b0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 35/74] fix: the flags of a reply must be zero, not a part of
 its length

---
 src/polodb/reply.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..7b40a22 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -26,13 +26,12 @@ pub(crate) struct Reply {
 impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
+        const FLAGS: u32 = 0;
         const SINGLE_DOC_KIND: u8 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
+        std::io::Write::write_all(&mut payload, FLAGS.to_le_bytes().as_slice()).unwrap();
         std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
 
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
-
         payload.extend_from_slice(doc.as_bytes());
 
         Reply { response_to, doc, payload }
-- 
2.43.0


From bc28ac8d008de5bab6a38055f410568b1516dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 36/74] fix: the reply to a find must name the request which it
 answers

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 6a522352ef00b3f9d1b7b7eec7ef6c42fb5c41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 37/74] fix: report a document of a message with an impossible
 length instead of panicking

---
 src/polodb/bson_util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..c77bf6e 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -149,7 +149,11 @@ fn num_decimal_digits(mut n: usize) -> usize {
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    if length < 4 {
+        return Err(anyhow!("Invalid document length: {}", length));
+    }
+
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
-- 
2.43.0


From 51835faf20da1d89df3bf964a14ae861084c8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 38/74] fix: report a delete command without deletes instead of
 panicking

---
 src/polodb/handlers/delete_handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..86fb970 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,7 +65,9 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes_arr = doc.get("deletes")?
+            .and_then(|val| val.as_array())
+            .ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-- 
2.43.0


From 3abda70aa1b8985086eb2bf08cabafd52312c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 39/74] fix: abortTransaction must accept the 32-bit integer
 which the drivers send

---
 src/polodb/handlers/abort_transaction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..aca9aa1 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,13 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => {
+                match r {
+                    bson::RawBsonRef::Int32(i) => Ok(i == 1),
+                    bson::RawBsonRef::Int64(i) => Ok(i == 1),
+                    _ => Ok(false),
+                }
+            },
             None => Ok(false),
         }
     }
-- 
2.43.0


From 950ee32fd8efbd5409388377527646f7fb4954ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 40/74] fix: the id of a new cursor must not be that of another
 open cursor

---
 src/polodb/app_context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..152d42f 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,8 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        // cursor_id starts from 1
+        let cursor_id = self.inner.cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -99,6 +99,7 @@ struct AppContextInner {
     db: Arc<Database>,
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
+    cursor_id: AtomicI64,
     conn_id: AtomicU64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
@@ -110,6 +111,7 @@ impl AppContextInner {
             db: Arc::new(db),
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
+            cursor_id: AtomicI64::new(1),
             conn_id: AtomicU64::new(0),
             session_ctx: Mutex::new(HashMap::new()),
         }
-- 
2.43.0


From 33680048e58beb8ac9538686deb01337671d97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 41/74] fix: a cursor which is read to its end in the first
 batch must not stay open

---
 src/polodb/handlers/aggregate_handler.rs |  9 ++-----
 src/polodb/handlers/find_handler.rs      | 31 +++++++++++++-----------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index e2a78c4..ea1f651 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
 use async_trait::async_trait;
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawDocumentBuf};
@@ -63,12 +63,7 @@ impl Handler for AggregateHandle {
             collection.aggregate(pipeline_arr).run()?
         };
 
-        let cursor = Arc::new(Mutex::new(cursor));
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size)?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..c294ec7 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -30,7 +30,8 @@ impl FindHandler {
     }
 
     fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>) -> Result<Reply> {
-        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, cursor, -1)?;
+        let (first_batch, _) = FindHandler::consume_first_batch(cursor, -1)?;
+        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, first_batch);
         let body = rawdoc! {
             "ok": 1,
             "cursor": cursor_doc,
@@ -40,19 +41,27 @@ impl FindHandler {
         Ok(reply)
     }
 
-    pub(crate) fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+    /// Reads the first batch, and saves the cursor when there may be more to read.
+    pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+        let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size)?;
+        let cursor_id = if has_more {
+            ctx.app_context.save_cursor(Arc::new(Mutex::new(cursor)))
+        } else {
+            0
+        };
+        Ok(FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, first_batch))
+    }
+
+    fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, first_batch: RawArrayBuf) -> RawDocumentBuf {
         let mut doc = rawdoc! {};
 
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, batch_size)?;
         doc.append("firstBatch", RawBson::Array(first_batch));
-        if cursor_id >= 0 {
-            doc.append("id", RawBson::from(cursor_id));
-        }
+        doc.append("id", RawBson::from(cursor_id));
 
         let ns = format!("{}.{}", db_name, col_name);
         doc.append("ns", RawBson::from(ns));
 
-        Ok(doc)
+        doc
     }
 
     fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
@@ -164,13 +173,7 @@ impl Handler for FindHandler {
         if single_batch {
             return FindHandler::handle_single_batch(ctx, db_name, collection_name, &mut cursor);
         }
-        let cursor = Arc::new(Mutex::new(cursor));
-
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, collection_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, collection_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
-- 
2.43.0


From cbdeaaaa1d7c1b66719ff6e320a136790cb285dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 42/74] fix: a batch size of zero must not return a document

---
 src/polodb/handlers/find_handler.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index c294ec7..c2dfde0 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -69,15 +69,18 @@ impl FindHandler {
         let mut has_more = false;
         let mut count: isize = 0;
 
-        while cursor.advance()? {
-            let doc = cursor.deserialize_current()?;
-            let doc_bytes = bson::to_vec(&doc)?;
-            raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
-            count += 1;
+        loop {
             if batch_size >= 0 && count >= batch_size {
                 has_more = true;
                 break;
             }
+            if !cursor.advance()? {
+                break;
+            }
+            let doc = cursor.deserialize_current()?;
+            let doc_bytes = bson::to_vec(&doc)?;
+            raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
+            count += 1;
         }
 
         Ok((raw_arr, has_more))
-- 
2.43.0


From 436108da933ace2300eb242d482098960626e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 43/74] fix: a limit of zero in a find command means no limit,
 a negative one is an error

---
 src/polodb/handlers/find_handler.rs | 36 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index c2dfde0..3457fac 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -64,6 +64,16 @@ impl FindHandler {
         doc
     }
 
+    fn non_negative(doc: &RawDocumentBuf, key: &str) -> Result<Option<u64>> {
+        match doc.get(key)? {
+            None => Ok(None),
+            Some(RawBsonRef::Int32(val)) if val >= 0 => Ok(Some(val as u64)),
+            Some(RawBsonRef::Int64(val)) if val >= 0 => Ok(Some(val as u64)),
+            Some(RawBsonRef::Double(val)) if val >= 0.0 && val.fract() == 0.0 => Ok(Some(val as u64)),
+            Some(_) => Err(anyhow!("{} is not a non-negative integer", key)),
+        }
+    }
+
     fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
         let mut raw_arr = RawArrayBuf::new();
         let mut has_more = false;
@@ -126,21 +136,9 @@ impl Handler for FindHandler {
             },
         };
 
-        let limit = doc.get("limit")?.map( |val| {
-            match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
-            }
-        });
-
-        let skip = doc.get("skip")?.map( |val| {
-            match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
-            }
-        });
+        // a limit of zero is none
+        let limit = FindHandler::non_negative(doc, "limit")?.filter(|limit| *limit > 0);
+        let skip = FindHandler::non_negative(doc, "skip")?;
 
         let batch_size = match doc.get("batchSize")? {
             Some(val) => {
@@ -156,20 +154,20 @@ impl Handler for FindHandler {
             let collection = txn.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
             if let Some(limit) = limit {
-                find = find.limit(limit as u64)
+                find = find.limit(limit)
             };
             if let Some(skip) = skip {
-                find = find.skip(skip as u64)
+                find = find.skip(skip)
             };
             find.run()?
         } else {
             let collection = db.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
             if let Some(limit) = limit {
-                find = find.limit(limit as u64)
+                find = find.limit(limit)
             };
             if let Some(skip) = skip {
-                find = find.skip(skip as u64)
+                find = find.skip(skip)
             };
             find.run()?
         };
-- 
2.43.0


From 95c0506eaecad8133593c5119ff3a00c394f8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 44/74] fix: a find command must not ignore its sort

---
 src/polodb/handlers/find_handler.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 3457fac..1954c6c 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -136,6 +136,14 @@ impl Handler for FindHandler {
             },
         };
 
+        let sort = match doc.get("sort")? {
+            Some(val) => {
+                let doc = val.as_document().ok_or(anyhow!("sort is not a document"))?;
+                Some(bson::from_slice::<bson::Document>(doc.as_bytes())?).filter(|doc| !doc.is_empty())
+            },
+            None => None,
+        };
+
         // a limit of zero is none
         let limit = FindHandler::non_negative(doc, "limit")?.filter(|limit| *limit > 0);
         let skip = FindHandler::non_negative(doc, "skip")?;
@@ -153,6 +161,9 @@ impl Handler for FindHandler {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not started"))?;
             let collection = txn.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
+            if let Some(sort) = &sort {
+                find = find.sort(sort.clone())
+            };
             if let Some(limit) = limit {
                 find = find.limit(limit)
             };
@@ -163,6 +174,9 @@ impl Handler for FindHandler {
         } else {
             let collection = db.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
+            if let Some(sort) = &sort {
+                find = find.sort(sort.clone())
+            };
             if let Some(limit) = limit {
                 find = find.limit(limit)
             };
-- 
2.43.0


From f56d0baa0e27ec0afc2fbe8917a6c3b7207848e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 45/74] fix: accept the statements of a command in its body as
 well as in a document sequence

---
 src/polodb/handlers/delete_handler.rs |  7 +------
 src/polodb/handlers/insert_handler.rs |  8 +-------
 src/polodb/handlers/update_handler.rs |  7 ++-----
 src/polodb/wire/message.rs            | 27 ++++++++++++++++++++++++++-
 4 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index 86fb970..cc2fe31 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,15 +65,10 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?
-            .and_then(|val| val.as_array())
-            .ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-        for delete_doc in deletes_arr.into_iter() {
-            let doc_ref = delete_doc?.as_document().ok_or(anyhow!("delete document is not a document"))?;
-            let doc = bson::from_slice(doc_ref.as_bytes())?;
+        for doc in ctx.message.get_documents("deletes")? {
             DeleteHandler::handle_delete(ctx.app_context.clone(), &session_opt, collection_name, doc, &mut delete_result)?;
         }
 
diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..b3c0f19 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -51,13 +51,7 @@ impl Handler for InsertHandler {
 
         let db = ctx.app_context.db();
 
-        let mut batch_insert = Vec::<bson::Document>::new();
-        for doc_seq in ctx.message.document_sequences.as_slice() {
-            for doc in doc_seq.documents.as_slice() {
-                let d = bson::from_slice::<bson::Document>(doc.as_bytes())?;
-                batch_insert.push(d);
-            }
-        }
+        let batch_insert = ctx.message.get_documents("documents")?;
 
         // insert could be blocking, so we spawn a blocking task
         debug!("inserted {} documents, start_transaction: {}", batch_insert.len(), auto_commit);
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..8ef2647 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -65,11 +65,8 @@ impl Handler for UpdateHandler {
 
         let mut update_result = UpdateResult::default();
 
-        let updates = doc.get_array("updates")?;
-        for update in updates.into_iter() {
-            let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
-            let d = bson::from_slice::<Document>(update.as_bytes())?;
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+        for update in ctx.message.get_documents("updates")? {
+            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, update, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..114f99a 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,31 @@ impl Message {
         command
     }
 
+    /// Gets the documents of an argument of the command. A client is free to send them
+    /// in a document sequence or in an array in the body of the command.
+    pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
+        let mut result = Vec::new();
+        for document_sequence in self.document_sequences.iter().filter(|seq| seq.identifier == name) {
+            for document in &document_sequence.documents {
+                result.push(bson::from_slice::<Document>(document.as_bytes())?);
+            }
+        }
+        match self.document_payload.get(name)? {
+            Some(val) => {
+                let array = val.as_array().ok_or(anyhow!("{} field is not an array", name))?;
+                for item in array.into_iter() {
+                    let document = item?.as_document().ok_or(anyhow!("an element of {} is not a document", name))?;
+                    result.push(bson::from_slice::<Document>(document.as_bytes())?);
+                }
+            }
+            None if !self.document_sequences.iter().any(|seq| seq.identifier == name) => {
+                return Err(anyhow!("{} field is missing", name));
+            }
+            None => (),
+        }
+        Ok(result)
+    }
+
     /// Reads bytes from `reader` and deserializes them into a Message.
     pub(crate) async fn read_from<T: AsyncRead + Unpin + Send>(
         mut reader: T,
@@ -434,12 +459,12 @@ impl MessageSection {
         let mut identifier = Vec::<u8>::new();
         loop {
             let c: u8 = reader.read_u8_sync()?;
-            identifier.push(c);
             length_remaining -= 1;
 
             if c == 0 {
                 break;
             }
+            identifier.push(c);
         }
 
         let mut documents = Vec::new();
-- 
2.43.0


From 6068705c0212edcc9659f979df5dbd023815f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 46/74] fix: an update command must honour its transaction,
 multi and upsert, and count the matches

---
 src/polodb/handlers/update_handler.rs | 38 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 8ef2647..09d7995 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -19,9 +19,11 @@ use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
 use polodb_core::results::UpdateResult;
+use polodb_core::options::UpdateOptions;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,22 +33,36 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
+        let filter = update.get_document("q")?.clone();
+        let update_doc = update.get_document("u")?.clone();
+        let multi = update.get_bool("multi").unwrap_or(false);
+        let options = UpdateOptions::builder()
+            .upsert(update.get_bool("upsert").unwrap_or(false))
+            .build();
 
-        let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
-        let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
-
-        let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
-        let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
-
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
+            UpdateHandler::update_collection(txn.collection::<Document>(col_name), multi, filter, update_doc, options)?
+        } else {
+            let db = ctx.db();
+            UpdateHandler::update_collection(db.collection::<Document>(col_name), multi, filter, update_doc, options)?
+        };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
     }
 
+    fn update_collection<C: CollectionT<Document>>(collection: C, multi: bool, filter: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
+        let result = if multi {
+            collection.update_many_with_options(filter, update, options)?
+        } else {
+            collection.update_one_with_options(filter, update, options)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
@@ -66,7 +82,7 @@ impl Handler for UpdateHandler {
         let mut update_result = UpdateResult::default();
 
         for update in ctx.message.get_documents("updates")? {
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, update, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &ctx.session, collection_name, update, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From 84f4130aad529b8b2ce56944f367d74a41c0c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 47/74] fix: a delete command with a limit of one must delete
 one document

---
 src/polodb/handlers/delete_handler.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index cc2fe31..631cd59 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
+use crate::bson_util;
 use crate::reply::Reply;
 use crate::session_context::SessionContext;
 
@@ -35,13 +36,18 @@ impl DeleteHandler {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
 
+        let limit = delete_doc.get("limit").and_then(bson_util::get_int).unwrap_or(0);
+        let only_one = match limit {
+            0 => false,
+            1 => true,
+            _ => return Err(anyhow!("the limit of a delete must be 0 or 1")),
+        };
+
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
-            let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete_from(txn.collection::<Document>(col_name), only_one, filter.clone())?
         } else {
-            let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete_from(db.collection::<Document>(col_name), only_one, filter.clone())?
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -49,6 +55,15 @@ impl DeleteHandler {
         Ok(())
     }
 
+    fn delete_from<C: CollectionT<Document>>(collection: C, only_one: bool, filter: Document) -> Result<DeleteResult> {
+        let result = if only_one {
+            collection.delete_one(filter)?
+        } else {
+            collection.delete_many(filter)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
-- 
2.43.0


From 8106085e5b9a38350bbb95f14d4750fa7aa923ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 48/74] fix: only the commands of a transaction belong to it,
 and no longer when it is over

Every command of a driver names a session. A command without
"autocommit: false" was executed in the last transaction of its session:
lost after a commit, refused after an abort. A command of a transaction which
is not there was executed without one, and errors of this kind closed the
connection.
---
 src/polodb/handlers/commit_transaction.rs |  1 +
 src/polodb/main.rs                        | 76 ++++++++++++-----------
 2 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..cb86c08 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -41,7 +41,9 @@ mod session_context;
 
 use std::net::SocketAddr;
 use polodb_core::Database;
-use bson::{rawdoc, Document, RawBsonRef};
+use std::sync::Arc;
+use bson::{rawdoc, Document};
+use bson::uuid::Uuid;
 use clap::{Arg, Command as App};
 use anyhow::{Result, anyhow};
 use tokio::io::{AsyncRead, AsyncWrite};
@@ -51,7 +53,7 @@ use tokio::task::JoinHandle;
 use tokio_util::sync::CancellationToken;
 use reply::Reply;
 use crate::app_context::AppContext;
-use crate::handlers::{make_handlers, HandleContext};
+use crate::handlers::{make_handlers, HandleContext, Handler};
 use crate::utils::uuid_from_bson;
 
 #[tokio::main]
@@ -194,39 +196,7 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
-        let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
-        let session = if start_transaction {
-            let lsid = message.document_payload.get_document("lsid")?;
-            let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
-            let id = uuid_from_bson(
-                lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
-            ).ok_or(anyhow!("lsid missing id field"))?;
-            info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
-            let txn = ctx.db().start_transaction()?;
-            Some(ctx.create_session(id, txn))
-        } else {
-            let lsid_opt = message.document_payload.get("lsid")?;
-            match lsid_opt {
-                Some(RawBsonRef::Document(lsid_doc)) => {
-                    let lsid_doc = bson::from_slice::<Document>(lsid_doc.as_bytes())?;
-                    let id = uuid_from_bson(
-                        lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
-                    ).ok_or(anyhow!("lsid missing id field"))?;
-                    ctx.get_session(&id)
-                }
-                _ => None
-            }
-        };
-        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
-
-        let ctx = HandleContext {
-            app_context: ctx.clone(),
-            conn_id,
-            message: &message,
-            session,
-            auto_commit,
-        };
-        let reply_result = handler.handle(&ctx).await;
+        let reply_result = run_handler(ctx, conn_id, &message, handler).await;
         match reply_result {
             Ok(reply) => {
                 reply.write_to(stream).await?;
@@ -254,6 +224,42 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
     Ok(())
 }
 
+async fn run_handler(ctx: AppContext, conn_id: u64, message: &wire::Message, handler: Arc<dyn Handler>) -> Result<Reply> {
+    let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
+    let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
+    let session = if start_transaction {
+        let id = session_id(message)?;
+        info!("=== start transaction: {:?}", id);
+        let txn = ctx.db().start_transaction()?;
+        Some(ctx.create_session(id, txn))
+    } else if auto_commit {
+        // every command of a driver names a session, but only the commands with
+        // `autocommit: false` belong to its transaction
+        None
+    } else {
+        let id = session_id(message)?;
+        let session = ctx.get_session(&id).ok_or(anyhow!("transaction not found"))?;
+        Some(session)
+    };
+
+    let ctx = HandleContext {
+        app_context: ctx.clone(),
+        conn_id,
+        message,
+        session,
+        auto_commit,
+    };
+    handler.handle(&ctx).await
+}
+
+fn session_id(message: &wire::Message) -> Result<Uuid> {
+    let lsid = message.document_payload.get_document("lsid")?;
+    let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
+    uuid_from_bson(
+        lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
+    ).ok_or(anyhow!("lsid missing id field"))
+}
+
 #[cfg(test)]
 mod tests {
     use async_trait::async_trait;
-- 
2.43.0


From 2579e34913a521db922f5e84bfdb36b97fc649c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 49/74] fix: accept messages of the size which the server tells
 its clients

---
 src/polodb/handlers/hello_handler.rs | 2 +-
 src/polodb/main.rs                   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/hello_handler.rs b/src/polodb/handlers/hello_handler.rs
index a966d93..7d7d68f 100644
--- a/src/polodb/handlers/hello_handler.rs
+++ b/src/polodb/handlers/hello_handler.rs
@@ -48,7 +48,7 @@ impl Handler for HelloHandler {
             "minWireVersion": 7,
             "maxWireVersion": 21,
             "maxBsonObjectSize": 16 * 1024 * 1024,
-            "maxMessageSizeBytes": 48000000,
+            "maxMessageSizeBytes": crate::MAX_MESSAGE_SIZE,
             "logicalSessionTimeoutMinutes": 30,
         };
         let reply = Reply::new(req_id, body);
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index cb86c08..2433b46 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -181,12 +181,13 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
     Ok((addr, fut))
 }
 
-const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
+// also told to the clients as maxMessageSizeBytes
+pub(crate) const MAX_MESSAGE_SIZE: i32 = 48_000_000;
 
 async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext, conn_id: u64, mut stream: W) -> Result<()> {
     loop {
         let ctx = ctx.clone();
-        let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE as i32)).await?;
+        let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE)).await?;
         debug!("received: {:?}", message);
 
         handle_message(ctx, conn_id, &mut stream, message).await?;
-- 
2.43.0


From a6e25b75ff0da7779e7832d4185c928a81a7690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 50/74] fix: a message with the flag moreToCome must not be
 replied to

---
 src/polodb/main.rs     | 12 +++++++++++-
 src/polodb/wire/mod.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 2433b46..1b8bbfd 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -196,14 +196,21 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
     let handler = ctx.get_handlers(&message.document_payload)?;
+    // the sender of such a message does not read a reply
+    let no_reply = message.flags.contains(wire::MessageFlags::MORE_TO_COME);
     if let Some(handler) = handler {
         let reply_result = run_handler(ctx, conn_id, &message, handler).await;
         match reply_result {
             Ok(reply) => {
-                reply.write_to(stream).await?;
+                if !no_reply {
+                    reply.write_to(stream).await?;
+                }
             }
             Err(e) => {
                 log::error!("handler error: {:?}", e);
+                if no_reply {
+                    return Ok(());
+                }
                 let doc = rawdoc! {
                     "ok": 0,
                     "errmsg": e.to_string(),
@@ -215,6 +222,9 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
         }
     } else {
         log::error!("no handler found for message: {:?}", message);
+        if no_reply {
+            return Ok(());
+        }
         let doc = rawdoc! {
             "ok": 0,
             "errmsg": "no handler found",
diff --git a/src/polodb/wire/mod.rs b/src/polodb/wire/mod.rs
index 9bb7873..289532c 100644
--- a/src/polodb/wire/mod.rs
+++ b/src/polodb/wire/mod.rs
@@ -5,5 +5,5 @@ mod util;
 
 pub(crate) use util::next_request_id;
 pub(crate) use header::{Header, OpCode};
-pub(crate) use message::Message;
+pub(crate) use message::{Message, MessageFlags};
 
-- 
2.43.0


From 43f657db4301ba087e27c6b1b36addffec6b3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 51/74] fix: a batch must not grow beyond the size of the
 messages which a client accepts

---
 src/polodb/handlers/find_handler.rs     | 4 ++--
 src/polodb/handlers/get_more_handler.rs | 4 ++--
 src/polodb/handlers/mod.rs              | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 1954c6c..93173b5 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::{Arc, Mutex};
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawBsonRef, RawDocumentBuf};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use crate::reply::Reply;
 use async_trait::async_trait;
 use log::debug;
@@ -80,7 +80,7 @@ impl FindHandler {
         let mut count: isize = 0;
 
         loop {
-            if batch_size >= 0 && count >= batch_size {
+            if (batch_size >= 0 && count >= batch_size) || raw_arr.as_bytes().len() >= MAX_BATCH_BYTES {
                 has_more = true;
                 break;
             }
diff --git a/src/polodb/handlers/get_more_handler.rs b/src/polodb/handlers/get_more_handler.rs
index a78c293..98c2a16 100644
--- a/src/polodb/handlers/get_more_handler.rs
+++ b/src/polodb/handlers/get_more_handler.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 use anyhow::{anyhow, Result};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
@@ -24,7 +24,7 @@ impl GetMoreHandler {
             let doc_bytes = bson::to_vec(&doc)?;
             next_batch_arr.push(bson::raw::RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
             count += 1;
-            if batch_size >= 0 && count >= batch_size {
+            if (batch_size >= 0 && count >= batch_size) || next_batch_arr.as_bytes().len() >= MAX_BATCH_BYTES {
                 has_more = true;
                 break;
             }
diff --git a/src/polodb/handlers/mod.rs b/src/polodb/handlers/mod.rs
index 6c95493..23d6527 100644
--- a/src/polodb/handlers/mod.rs
+++ b/src/polodb/handlers/mod.rs
@@ -33,6 +33,9 @@ use crate::session_context::SessionContext;
 
 pub(crate) const DEFAULT_BATCH_SIZE: i32 = 101;
 
+/// A batch ends when its documents have reached this size, so that it fits in a message.
+pub(crate) const MAX_BATCH_BYTES: usize = 16 * 1024 * 1024;
+
 pub(crate) struct HandleContext<'a> {
     pub(crate) app_context: AppContext,
     pub(crate) conn_id: u64,
-- 
2.43.0


From 3a771fe92cf82d2efedae589668c84c686aa9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 52/74] fix: a deeply nested document in a message must not end
 the server

The functions which read documents are recursive: one message with a few
hundred levels overflowed the stack of its thread, and all clients lost their
server.
---
 src/polodb/bson_util.rs    | 35 +++++++++++++++++++++++++++++++++++
 src/polodb/main.rs         | 15 +++++++++++++--
 src/polodb/wire/message.rs | 10 ++++------
 3 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index c77bf6e..d8e9bac 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -20,6 +20,7 @@ use bson:: {
     RawArrayBuf,
     RawBson,
     RawBsonRef,
+    RawDocument,
     RawDocumentBuf,
 };
 
@@ -161,6 +162,40 @@ pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     Ok(bytes)
 }
 
+/// The levels of documents and arrays in each other which a message may have.
+/// They are read by recursive functions.
+const MAX_NESTING: usize = 200;
+
+/// Reads a document of a message.
+pub(crate) fn read_raw_document<R: Read>(reader: R) -> Result<RawDocumentBuf> {
+    let document = RawDocumentBuf::from_bytes(read_document_bytes(reader)?)?;
+    check_nesting(&document)?;
+    Ok(document)
+}
+
+fn check_nesting(document: &RawDocument) -> Result<()> {
+    let mut open = vec![document.iter()];
+    while let Some(iter) = open.last_mut() {
+        let inner = match iter.next() {
+            None => {
+                open.pop();
+                continue;
+            }
+            Some(item) => match item?.1 {
+                RawBsonRef::Document(doc) => doc,
+                RawBsonRef::Array(array) => RawDocument::from_bytes(array.as_bytes())?,
+                RawBsonRef::JavaScriptCodeWithScope(code) => code.scope,
+                _ => continue,
+            },
+        };
+        if open.len() >= MAX_NESTING {
+            return Err(anyhow!("a document has more than {} levels", MAX_NESTING));
+        }
+        open.push(inner.iter());
+    }
+    Ok(())
+}
+
 pub(crate) fn extend_raw_document_buf(
     this: &mut RawDocumentBuf,
     other: RawDocumentBuf,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 1b8bbfd..7f6a75c 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -56,8 +56,19 @@ use crate::app_context::AppContext;
 use crate::handlers::{make_handlers, HandleContext, Handler};
 use crate::utils::uuid_from_bson;
 
-#[tokio::main]
-async fn main() {
+// documents are read by recursive functions
+const THREAD_STACK_SIZE: usize = 16 * 1024 * 1024;
+
+fn main() {
+    tokio::runtime::Builder::new_multi_thread()
+        .enable_all()
+        .thread_stack_size(THREAD_STACK_SIZE)
+        .build()
+        .unwrap()
+        .block_on(run());
+}
+
+async fn run() {
     env_logger::init();
     let version = Database::get_version();
     let app = App::new("PoloDB")
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index 114f99a..499ddb6 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -196,12 +196,12 @@ impl Message {
             ));
         }
 
-        let query = bson_util::read_document_bytes(&mut buf)?;
+        let query = bson_util::read_raw_document(&mut buf)?;
 
         Ok(Message {
             response_to: header.response_to,
             flags: MessageFlags::empty(),
-            document_payload: RawDocumentBuf::from_bytes(query)?,
+            document_payload: query,
             document_sequences: Vec::new(),
             checksum: None,
             request_id: Some(header.request_id),
@@ -439,8 +439,7 @@ impl MessageSection {
         let payload_type = reader.read_u8_sync()?;
 
         if payload_type == 0 {
-            let bytes = bson_util::read_document_bytes(reader)?;
-            let document = RawDocumentBuf::from_bytes(bytes)?;
+            let document = bson_util::read_raw_document(reader)?;
             return Ok(MessageSection::Document(document));
         }
 
@@ -471,8 +470,7 @@ impl MessageSection {
         let mut count_reader = SyncCountReader::new(reader);
 
         while length_remaining.get()? > count_reader.bytes_read() {
-            let bytes = bson_util::read_document_bytes(&mut count_reader)?;
-            let document = RawDocumentBuf::from_bytes(bytes)?;
+            let document = bson_util::read_raw_document(&mut count_reader)?;
             documents.push(document);
         }
 
-- 
2.43.0


From 6ae3003aa8342bdccf42fe89b5d9389d9ab6061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 53/74] fix: a difference in the first lines must be reported

---
 src/polodb_line_diff/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 02b371a..615196b 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -82,12 +82,14 @@ pub fn diff(a: &str, b: &str, splitter: &str) -> Vec<Diff> {
 
     let mut matrix: Vec<Vec<Item>> = make_matrix(a_lines.len() + 1, b_lines.len() + 1);
 
-    for (i, item) in matrix.iter_mut().enumerate().take(a_lines.len() + 1) {
+    for (i, item) in matrix.iter_mut().enumerate().take(a_lines.len() + 1).skip(1) {
         item[0].distance = i;
+        item[0].op = DiffOp::Delete;
     }
 
-    for j in 0..=b_lines.len() {
+    for j in 1..=b_lines.len() {
         matrix[0][j].distance = j;
+        matrix[0][j].op = DiffOp::Insert;
     }
 
     for i in 1..=a_lines.len() {
@@ -183,7 +185,7 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
-    while i > 0 && j > 0 {
+    while i > 0 || j > 0 {
         match matrix[i][j].op {
             DiffOp::Preserve => {
                 i -= 1;
-- 
2.43.0


From 3fee987acfdce330cb4ed9a1c1152ea752d46eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 54/74] fix: the lines of a replacement must not be swapped

---
 src/polodb_line_diff/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 615196b..b2281c4 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -193,8 +193,8 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
             }
 
             DiffOp::Replace => {
-                let in_line = Line::new(i - 1,a_lines[i - 1].into());
-                let de_line = Line::new(j - 1, b_lines[j - 1].into());
+                let in_line = Line::new(j - 1, b_lines[j - 1].into());
+                let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
                     if last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
-- 
2.43.0


From 45b1a0a1a93185951b052293d7bab0520811a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 55/74] fix: changes which are not next to each other must not
 be one difference

---
 src/polodb_line_diff/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index b2281c4..46296a9 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -185,18 +185,22 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
+    // the last difference ends at the current position
+    let mut adjacent = false;
     while i > 0 || j > 0 {
         match matrix[i][j].op {
             DiffOp::Preserve => {
+                adjacent = false;
                 i -= 1;
                 j -= 1;
+                continue;
             }
 
             DiffOp::Replace => {
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Replace {
+                    if adjacent && last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
                         last.de_lines.push_front(de_line);
 
@@ -227,7 +231,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Insert {
+                    if adjacent && last.op == DiffOp::Insert {
                         last.in_lines.push_front(in_line);
                         j -= 1;
                         continue;
@@ -251,7 +255,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Delete {
+                    if adjacent && last.op == DiffOp::Delete {
                         last.de_lines.push_front(de_line);
                         i -= 1;
                         continue;
@@ -272,6 +276,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
             }
 
         }
+        adjacent = true;
     }
     result.reverse();
     result
-- 
2.43.0


From 930bad80b7f9b3c642f9c26859adc5c09a10e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 56/74] fix: the Python binding accepts None

It reads a stored null as None, but refused to write it.
---
 py-polodb/src/helper_type_translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3574c77..e2894f0 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -29,7 +29,9 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
 }
 
 pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
-    if let Ok(rust_string) = py_obj.extract::<String>() {
+    if py_obj.is_none() {
+        Ok(Bson::Null)
+    } else if let Ok(rust_string) = py_obj.extract::<String>() {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
-- 
2.43.0


From c467e8561d03ddde41405fa7cb26e3f361b07460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 57/74] fix: a Python int beyond 64 bits is an error

It was stored as a float, with another value.
---
 py-polodb/src/helper_type_translator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index e2894f0..3ff4517 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,5 +1,6 @@
 use polodb_core::bson::{Bson, Document};
 use polodb_core::results;
+use pyo3::exceptions::PyOverflowError;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
 use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
@@ -35,7 +36,7 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
-    } else if let Ok(rust_int) = py_obj.extract::<i64>() {
+    } else if let Some(rust_int) = extract_i64(py_obj)? {
         Ok(Bson::Int64(rust_int))
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
         Ok(Bson::Double(rust_float))
@@ -60,6 +61,15 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
     }
 }
 
+/// None if the object is no integer, an error if it's one which doesn't fit into 64 bits.
+fn extract_i64(py_obj: &Bound<'_, PyAny>) -> PyResult<Option<i64>> {
+    match py_obj.extract::<i64>() {
+        Ok(value) => Ok(Some(value)),
+        Err(err) if err.is_instance_of::<PyOverflowError>(py_obj.py()) => Err(err),
+        Err(_) => Ok(None),
+    }
+}
+
 pub fn delete_result_to_pydict(
     py: Python<'_>,
     delete_result: results::DeleteResult,
-- 
2.43.0


From 265b01142a6495017ea9e53c19b6e4c1701adb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 58/74] fix: a document with a date can be read from Python

datetime.datetime was called with a number of seconds, which is no
valid argument: every read of a document with a date panicked. Other
values which Python can't represent raise an error, too, instead of a
panic.
---
 py-polodb/src/helper_type_translator.rs | 40 +++++++++++++++----------
 py-polodb/src/py_database.rs            |  8 ++---
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3ff4517..25d3e2e 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -97,17 +97,17 @@ pub fn update_result_to_pydict(
 pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>> {
     let py_dict = PyDict::new(py);
     for (key, value) in doc {
-        let py_value = bson_to_py_obj(py, &value);
+        let py_value = bson_to_py_obj(py, &value)?;
         py_dict.set_item(key, py_value)?;
     }
     Ok(py_dict.into())
 }
 
-pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
-    match bson {
+pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    let py_obj = match bson {
         Bson::Null => py.None(),
-        Bson::Int32(i) => i.into_py_any(py).unwrap(),
-        Bson::Int64(i) => i.into_py_any(py).unwrap(),
+        Bson::Int32(i) => i.into_py_any(py)?,
+        Bson::Int64(i) => i.into_py_any(py)?,
         Bson::Double(f) => PyFloat::new(py, *f).into_any().unbind(),
         Bson::String(s) => PyString::new(py, s).into_any().unbind(),
         Bson::Boolean(b) => PyBool::new(py, *b).to_owned().into_any().unbind(),
@@ -115,34 +115,43 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)).unwrap();
+                py_list.append(bson_to_py_obj(py, item)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)).unwrap();
+                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
             }
             py_dict.into_any().unbind()
         }
         Bson::RegularExpression(regex) => {
-            let re_module = py.import("re").unwrap();
+            let re_module = py.import("re")?;
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))
-                .unwrap()
+                .call_method1("compile", (regex.pattern.as_str(),))?
                 .into_any()
                 .unbind()
         }
         // Handle JavaScript code
         Bson::JavaScriptCode(code) => PyString::new(py, code).into_any().unbind(),
-        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py).unwrap(),
+        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py)?,
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
-            let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime").unwrap().getattr("datetime").unwrap();
-            datetime.call1((timestamp,)).unwrap().into_any().unbind()
+            let datetime_module = py.import("datetime")?;
+            let utc = datetime_module.getattr("timezone")?.getattr("utc")?;
+            let epoch = datetime_module
+                .getattr("datetime")?
+                .call1((1970, 1, 1, 0, 0, 0, 0, utc))?;
+            let millis = dt.timestamp_millis();
+            let offset = datetime_module.getattr("timedelta")?.call1((
+                millis.div_euclid(86_400_000),
+                0,
+                0,
+                millis.rem_euclid(86_400_000),
+            ))?;
+            epoch.add(offset)?.unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -156,5 +165,6 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::MinKey => py.None(),
 
         _ => py.None(), // Handle other BSON types as needed
-    }
+    };
+    Ok(py_obj)
 }
diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 160142f..643bcf3 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -76,7 +76,7 @@ impl PyCollection {
             Ok(result) => {
                 let dict = PyDict::new(py);
                 for (key, value) in &result.inserted_ids {
-                    dict.set_item(key, bson_to_py_obj(py, value))?;
+                    dict.set_item(key, bson_to_py_obj(py, value)?)?;
                 }
                 Ok(dict.into_any().unbind())
             }
@@ -101,7 +101,7 @@ impl PyCollection {
         };
         match self.inner.insert_one(bson_doc) {
             Ok(result) => {
-                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id);
+                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id)?;
                 let dict = PyDict::new(py);
                 dict.set_item("inserted_id", py_inserted_id)?;
                 Ok(dict.into_any().unbind())
@@ -162,7 +162,7 @@ impl PyCollection {
         match self.inner.find_one(filter_doc) {
             Ok(Some(result_doc)) => {
                 // Convert BSON Document to Python Dict
-                let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_any()))
             }
             Ok(None) => Ok(None), // Return None if no document is found
@@ -183,7 +183,7 @@ impl PyCollection {
                 let py_result: Vec<Py<PyDict>> = result_doc
                     .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
                     .collect();
-                // let py_result = document_to_pydict(py, result_doc).unwrap();
+                // let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_py_any(py)?))
             }
             // Ok(None) => Ok(None), // Return None if no document is found
-- 
2.43.0


From 96ecd31bbdb28ada06207a6c934b31a26bfffee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 59/74] fix: an error while reading a cursor is an exception in
 Python

It was a panic, which even 'except Exception' doesn't catch.
---
 py-polodb/src/py_database.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 643bcf3..3c61ca3 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -3,7 +3,7 @@ use crate::helper_type_translator::{
     delete_result_to_pydict, document_to_pydict, update_result_to_pydict,
 };
 use polodb_core::bson::Document;
-use polodb_core::{Collection, CollectionT, Database};
+use polodb_core::{ClientCursor, Collection, CollectionT, Database};
 use pyo3::exceptions::PyOSError;
 use pyo3::exceptions::PyRuntimeError; // Import PyRuntimeError for error handling
 use pyo3::prelude::*;
@@ -143,9 +143,7 @@ impl PyCollection {
         let pipeline_documents = convert_py_list_to_vec_document(pipeline.bind(py))?;
         match self.inner.aggregate(pipeline_documents).run() {
             Ok(agg_cursor) => {
-                let vec_res: Vec<Py<PyDict>> = agg_cursor
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let vec_res = cursor_to_pydicts(py, agg_cursor)?;
                 vec_res.into_py_any(py)
             }
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -180,9 +178,7 @@ impl PyCollection {
         match self.inner.find(filter_doc).run() {
             Ok(result_doc) => {
                 // Convert BSON Document to Python Dict
-                let py_result: Vec<Py<PyDict>> = result_doc
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let py_result = cursor_to_pydicts(py, result_doc)?;
                 // let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_py_any(py)?))
             }
@@ -194,6 +190,19 @@ impl PyCollection {
         }
     }
 }
+
+fn cursor_to_pydicts(
+    py: Python<'_>,
+    cursor: ClientCursor<Document>,
+) -> PyResult<Vec<Py<PyDict>>> {
+    cursor
+        .map(|item| match item {
+            Ok(doc) => document_to_pydict(py, doc),
+            Err(err) => Err(PyRuntimeError::new_err(format!("Cursor error: {}", err))),
+        })
+        .collect()
+}
+
 impl From<Collection<Document>> for PyCollection {
     fn from(collection: Collection<Document>) -> PyCollection {
         PyCollection {
-- 
2.43.0


From b94c5f023a2543e8f860c8da27124c88c5494db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 60/74] fix: an error of create_collection is an exception in
 Python

It was dropped, and the collection doesn't exist.
---
 py-polodb/src/py_database.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 3c61ca3..243f69b 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -240,8 +240,11 @@ impl PyDatabase {
     }
 
     pub fn create_collection(&self, name: &str) -> PyResult<()> {
-        let _ = self.inner.lock().unwrap().create_collection(name);
-        Ok(())
+        self.inner
+            .lock()
+            .unwrap()
+            .create_collection(name)
+            .map_err(|e| PyRuntimeError::new_err(format!("Create collection error: {}", e)))
     }
 
     fn collection(&self, name: &str) -> PyResult<PyCollection> {
-- 
2.43.0


From b34431c29e26946b9e6feeff631f82647a7a9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 61/74] fix: 'with PoloDB(path)' works

It opened the database a second time, which failed always, because it
is locked by the first.
---
 py-polodb/polodb/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py-polodb/polodb/core.py b/py-polodb/polodb/core.py
index e0de4ec..79e8b89 100644
--- a/py-polodb/polodb/core.py
+++ b/py-polodb/polodb/core.py
@@ -9,7 +9,6 @@ class PoloDB:
         self.__rust_db = PyDatabase(self._path)
 
     def __enter__(self):
-        self.__rust_db = PyDatabase(self._path)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From a97bc7b12fcb85c9ab71cf0298d0138c366c008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 62/74] fix: Python values nested too deeply are an error

A list which contains itself crashed the interpreter by a stack overflow.
---
 py-polodb/src/helper_type_translator.rs | 43 +++++++++++++++----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 25d3e2e..d5a6f89 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,6 +1,6 @@
 use polodb_core::bson::{Bson, Document};
 use polodb_core::results;
-use pyo3::exceptions::PyOverflowError;
+use pyo3::exceptions::{PyOverflowError, PyRecursionError};
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
 use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
@@ -13,15 +13,12 @@ pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<
         .collect()
 }
 
+/// Values which contain each other would never end.
+const MAX_NESTING_DEPTH: usize = 200;
+
 pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Document> {
     if let Ok(dict) = py_obj.cast::<PyDict>() {
-        let mut doc = Document::new();
-        for (key, value) in dict.iter() {
-            let key: String = key.extract()?;
-            let bson_value = convert_py_obj_to_bson(&value)?;
-            doc.insert(key, bson_value);
-        }
-        Ok(doc)
+        convert_py_dict_to_document(dict, 1)
     } else {
         Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
             "Unsupported Python type for BSON conversion",
@@ -29,7 +26,22 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
     }
 }
 
-pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
+fn convert_py_dict_to_document(dict: &Bound<'_, PyDict>, depth: usize) -> PyResult<Document> {
+    let mut doc = Document::new();
+    for (key, value) in dict.iter() {
+        let key: String = key.extract()?;
+        let bson_value = convert_py_obj_to_bson(&value, depth)?;
+        doc.insert(key, bson_value);
+    }
+    Ok(doc)
+}
+
+fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<Bson> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(PyRecursionError::new_err(
+            "the value is nested too deeply for BSON conversion",
+        ));
+    }
     if py_obj.is_none() {
         Ok(Bson::Null)
     } else if let Ok(rust_string) = py_obj.extract::<String>() {
@@ -41,17 +53,14 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
         Ok(Bson::Double(rust_float))
     } else if let Ok(dict) = py_obj.cast::<PyDict>() {
-        let mut bson_doc = Document::new();
-        for (key, value) in dict.iter() {
-            let key_str: String = key.extract::<String>()?;
-            let bson_value = convert_py_obj_to_bson(&value)?;
-            bson_doc.insert(key_str, bson_value);
-        }
-        Ok(Bson::Document(bson_doc))
+        Ok(Bson::Document(convert_py_dict_to_document(
+            dict,
+            depth + 1,
+        )?))
     } else if let Ok(list) = py_obj.cast::<PyList>() {
         let mut bson_array = Vec::new();
         for item in list.iter() {
-            bson_array.push(convert_py_obj_to_bson(&item)?);
+            bson_array.push(convert_py_obj_to_bson(&item, depth + 1)?);
         }
         Ok(Bson::Array(bson_array))
     } else {
-- 
2.43.0


From ad9b7aa24f472b51817f542ec199afd63f174f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 63/74] fix: a batch size may be any type of number

---
 src/polodb/handlers/find_handler.rs     |  9 ++-------
 src/polodb/handlers/get_more_handler.rs |  9 ++-------
 src/polodb/handlers/mod.rs              | 10 ++++++++--
 3 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 93173b5..90c05cf 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::{Arc, Mutex};
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawBsonRef, RawDocumentBuf};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
+use crate::handlers::{get_batch_size, HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use crate::reply::Reply;
 use async_trait::async_trait;
 use log::debug;
@@ -148,12 +148,7 @@ impl Handler for FindHandler {
         let limit = FindHandler::non_negative(doc, "limit")?.filter(|limit| *limit > 0);
         let skip = FindHandler::non_negative(doc, "skip")?;
 
-        let batch_size = match doc.get("batchSize")? {
-            Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
-            },
-            None => DEFAULT_BATCH_SIZE,
-        };
+        let batch_size = get_batch_size(doc)?.unwrap_or(DEFAULT_BATCH_SIZE);
 
         let session_opt = ctx.session.clone();
         debug!("find collection: {}, auto commit: {}", collection_name, ctx.auto_commit);
diff --git a/src/polodb/handlers/get_more_handler.rs b/src/polodb/handlers/get_more_handler.rs
index 98c2a16..30f3ad6 100644
--- a/src/polodb/handlers/get_more_handler.rs
+++ b/src/polodb/handlers/get_more_handler.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 use anyhow::{anyhow, Result};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
+use crate::handlers::{get_batch_size, HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
@@ -70,12 +70,7 @@ impl Handler for GetMoreHandler {
             },
         };
 
-        let batch_size = match doc.get("batchSize")? {
-            Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
-            },
-            None => DEFAULT_BATCH_SIZE,
-        };
+        let batch_size = get_batch_size(doc)?.unwrap_or(DEFAULT_BATCH_SIZE);
 
         let cursor_id = match doc.get("getMore")? {
             Some(v) => {
diff --git a/src/polodb/handlers/mod.rs b/src/polodb/handlers/mod.rs
index 23d6527..ee16f62 100644
--- a/src/polodb/handlers/mod.rs
+++ b/src/polodb/handlers/mod.rs
@@ -11,7 +11,7 @@ mod aggregate_handler;
 mod ping_handler;
 
 use std::sync::Arc;
-use bson::RawDocumentBuf;
+use bson::{RawDocument, RawDocumentBuf};
 use anyhow::Result;
 use crate::reply::Reply;
 use crate::wire;
@@ -29,13 +29,19 @@ pub(crate) use abort_transaction::AbortTransactionHandler;
 pub(crate) use aggregate_handler::AggregateHandle;
 pub(crate) use ping_handler::PingHandler;
 use crate::app_context::AppContext;
+use crate::bson_util;
 use crate::session_context::SessionContext;
 
-pub(crate) const DEFAULT_BATCH_SIZE: i32 = 101;
+pub(crate) const DEFAULT_BATCH_SIZE: i64 = 101;
 
 /// A batch ends when its documents have reached this size, so that it fits in a message.
 pub(crate) const MAX_BATCH_BYTES: usize = 16 * 1024 * 1024;
 
+/// The number of documents which a client wants in a batch. The drivers send it as different types of numbers.
+pub(crate) fn get_batch_size(doc: &RawDocument) -> Result<Option<i64>> {
+    Ok(doc.get("batchSize")?.and_then(bson_util::get_int_raw))
+}
+
 pub(crate) struct HandleContext<'a> {
     pub(crate) app_context: AppContext,
     pub(crate) conn_id: u64,
-- 
2.43.0


From 687c37f205bb79ab80f4299b988e4eb2cd7c3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 64/74] fix: an aggregate command must not ignore its batch
 size

---
 src/polodb/handlers/aggregate_handler.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index ea1f651..c004bd5 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -3,7 +3,7 @@ use async_trait::async_trait;
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawDocumentBuf};
 use polodb_core::CollectionT;
-use crate::handlers::{FindHandler, HandleContext, Handler};
+use crate::handlers::{get_batch_size, FindHandler, HandleContext, Handler};
 use crate::reply::Reply;
 
 pub(crate) struct AggregateHandle;
@@ -30,9 +30,12 @@ impl Handler for AggregateHandle {
         let req_id = ctx.message.request_id.unwrap();
         let col_name = ctx.message.document_payload.get_str("aggregate")?;
 
-        let batch_size = -1;
-
         let doc = &ctx.message.document_payload;
+        // all documents, unless the client wants less
+        let batch_size = match doc.get("cursor")?.and_then(|cursor| cursor.as_document()) {
+            Some(cursor) => get_batch_size(cursor)?.unwrap_or(-1),
+            None => -1,
+        };
         let db_name = match doc.get("$db")? {
             Some(val) => {
                 val.as_str().ok_or(anyhow!("$db is not a string"))?
@@ -63,7 +66,7 @@ impl Handler for AggregateHandle {
             collection.aggregate(pipeline_arr).run()?
         };
 
-        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size)?;
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
-- 
2.43.0


From ca8c822d7cbccaec9a2634f360ed052138f5e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 65/74] fix: a cursor must not be used after the end of its
 transaction

---
 src/polodb_core/db/rocksdb_iterator.rs    | 86 +++++++++++++++--------
 src/polodb_core/db/rocksdb_transaction.rs | 14 ++--
 src/polodb_core/errors.rs                 |  2 +
 3 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 10950b7..286a9f0 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::ptr::null_mut;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, MutexGuard};
 use std::sync::atomic::Ordering;
 use libc::c_char;
 use crate::db::rocksdb_transaction::RocksDBTransactionInner;
@@ -26,8 +26,8 @@ pub(crate) struct RocksDBIterator {
 }
 
 impl RocksDBIterator {
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIterator {
-        let inner = RocksDBIteratorInner::new(txn_inner);
+    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIterator {
+        let inner = RocksDBIteratorInner::new(txn);
         RocksDBIterator {
             inner: Arc::new(inner),
         }
@@ -73,7 +73,10 @@ impl RocksDBIterator {
 
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
-    txn_inner: *mut RocksDBTransactionInner,
+    /// An iterator also reads the writes of its transaction, so it must not be
+    /// used while the transaction is, and not after its end.
+    txn: Arc<Mutex<RocksDBTransactionInner>>,
+    end_count: u64,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -81,50 +84,74 @@ unsafe impl Sync for RocksDBIteratorInner {}
 
 impl RocksDBIteratorInner {
 
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIteratorInner {
-        unsafe {
-            let txn_ptr = (*txn_inner).inner;
-            let read_options = &(*txn_inner).read_options;
-            let iter = ffi::rocksdb_transaction_create_iterator(txn_ptr, read_options.get());
-            _ = (*txn_inner).iter_count.fetch_add(1, Ordering::SeqCst);
-            RocksDBIteratorInner {
-                inner: iter,
-                txn_inner,
-            }
+    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIteratorInner {
+        let (iter, end_count) = {
+            let txn_inner = txn.lock().unwrap();
+            let iter = unsafe {
+                ffi::rocksdb_transaction_create_iterator(txn_inner.inner, txn_inner.read_options.get())
+            };
+            (iter, txn_inner.end_count.load(Ordering::SeqCst))
+        };
+        RocksDBIteratorInner {
+            inner: iter,
+            txn,
+            end_count,
+        }
+    }
+
+    fn lock_txn(&self) -> Result<MutexGuard<RocksDBTransactionInner>> {
+        let txn = self.txn.lock().unwrap();
+        if txn.end_count.load(Ordering::SeqCst) != self.end_count {
+            return Err(crate::Error::CursorOfEndedTransaction);
         }
+        Ok(txn)
     }
 
     pub fn seek_to_first(&self) {
-        unsafe {
-            ffi::rocksdb_iter_seek_to_first(self.inner);
+        if let Ok(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_seek_to_first(self.inner);
+            }
         }
     }
 
     pub fn seek(&self, key: &[u8]) {
-        unsafe {
-            ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+        if let Ok(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+            }
         }
     }
 
     pub fn valid(&self) -> bool {
-        unsafe {
-            ffi::rocksdb_iter_valid(self.inner) != 0
+        match self.lock_txn() {
+            Ok(_txn) => unsafe { ffi::rocksdb_iter_valid(self.inner) != 0 },
+            Err(_) => false,
         }
     }
 
     pub fn next(&self) {
-        unsafe {
-            ffi::rocksdb_iter_next(self.inner);
+        if let Ok(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_next(self.inner);
+            }
         }
     }
 
     pub fn prev(&self) {
-        unsafe {
-            ffi::rocksdb_iter_prev(self.inner);
+        if let Ok(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_prev(self.inner);
+            }
         }
     }
 
     pub fn error(&self) -> Result<()> {
+        let _txn = self.lock_txn()?;
+        self.get_error()
+    }
+
+    fn get_error(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
@@ -142,7 +169,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_key(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let _txn = self.lock_txn()?;
+        self.get_error()?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -152,7 +180,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_key_arc(&self) -> Result<Arc<[u8]>> {
-        self.error()?;
+        let _txn = self.lock_txn()?;
+        self.get_error()?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -162,7 +191,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_data(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let _txn = self.lock_txn()?;
+        self.get_error()?;
         unsafe {
             let mut len: usize = 0;
             let data = ffi::rocksdb_iter_value(self.inner, &mut len);
@@ -175,9 +205,9 @@ impl RocksDBIteratorInner {
 
 impl Drop for RocksDBIteratorInner {
     fn drop(&mut self) {
+        let _txn = self.txn.lock();
         unsafe {
             ffi::rocksdb_iter_destroy(self.inner);
-            _ = (*self.txn_inner).iter_count.fetch_sub(1, Ordering::SeqCst);
         }
     }
 }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 793aa14..5048ab4 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::ops::DerefMut;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::{Arc, Mutex};
@@ -59,8 +58,7 @@ impl RocksDBTransaction {
     }
 
     pub fn new_iterator(&self) -> RocksDBIterator {
-        let mut inner = self.inner.lock().unwrap();
-        RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner)
+        RocksDBIterator::new(self.inner.clone())
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
@@ -105,7 +103,8 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     snapshot: *const ffi::rocksdb_snapshot_t,
     db_inner: *mut RocksDBWrapperInner,
-    pub(crate) iter_count: AtomicU64,
+    /// Counts the commits and rollbacks. RocksDB frees what the iterators of before point to.
+    pub(crate) end_count: AtomicU64,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -134,7 +133,7 @@ impl RocksDBTransactionInner {
                 inner,
                 snapshot: ptr::null(),
                 db_inner,
-                iter_count: AtomicU64::new(0),
+                end_count: AtomicU64::new(0),
             })
         }
     }
@@ -236,6 +235,7 @@ impl RocksDBTransactionInner {
     pub fn rollback(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
+            self.end_count.fetch_add(1, Ordering::SeqCst);
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
             check_err!(err);
@@ -247,6 +247,7 @@ impl RocksDBTransactionInner {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
+            self.end_count.fetch_add(1, Ordering::SeqCst);
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
@@ -260,9 +261,6 @@ impl Drop for RocksDBTransactionInner {
 
     fn drop(&mut self) {
         unsafe {
-            if self.iter_count.load(Ordering::SeqCst) != 0 {
-                panic!("there are still iterators opened")
-            }
             ffi::rocksdb_transaction_destroy(self.inner);
             if !self.snapshot.is_null() {
                 ffi::rocksdb_transactiondb_release_snapshot((*self.db_inner).inner, self.snapshot);
diff --git a/src/polodb_core/errors.rs b/src/polodb_core/errors.rs
index 053a4b1..548c29a 100644
--- a/src/polodb_core/errors.rs
+++ b/src/polodb_core/errors.rs
@@ -186,6 +186,8 @@ pub enum Error {
     DecodeEOF,
     #[error("the document was changed by another transaction")]
     WriteConflict,
+    #[error("the transaction of the cursor has ended")]
+    CursorOfEndedTransaction,
     #[error("data overflow")]
     DataOverflow,
     #[error("item with primary key exists, key: '{0}'")]
-- 
2.43.0


From 553c64964d53a8609c1aab27fe94789923d9942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 66/74] fix: a new transaction of a session ends the former one

---
 src/polodb/app_context.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index 152d42f..cea2c6b 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -20,6 +20,7 @@ use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
 use crate::handlers::Handler;
 use anyhow::Result;
+use log::error;
 use crate::session_context::SessionContext;
 
 #[derive(Clone)]
@@ -84,8 +85,16 @@ impl AppContext {
 
     pub(crate) fn create_session(&self, uuid: Uuid, txn: Transaction) -> SessionContext {
         let result = SessionContext::new(txn);
-        let mut session_ctx = self.inner.session_ctx.lock().unwrap();
-        session_ctx.insert(uuid, result.clone());
+        let former = {
+            let mut session_ctx = self.inner.session_ctx.lock().unwrap();
+            session_ctx.insert(uuid, result.clone())
+        };
+        // its open cursors would keep the former transaction and its locks
+        if let Some(txn) = former.and_then(|session| session.get_transaction()) {
+            if let Err(err) = txn.rollback() {
+                error!("rollback error: {:?}", err);
+            }
+        }
         result
     }
 
-- 
2.43.0


From d05956f7ae970e00d6e4cdd4cd59e5d48a9c44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 67/74] fix: error messages and values of RocksDB must be freed

---
 src/polodb_core/db/rocksdb_iterator.rs    |  9 ++------
 src/polodb_core/db/rocksdb_transaction.rs | 13 ++++--------
 src/polodb_core/db/rocksdb_wrapper.rs     | 26 +++++++++++------------
 3 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 286a9f0..9c8340c 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -17,6 +17,7 @@ use std::sync::{Arc, Mutex, MutexGuard};
 use std::sync::atomic::Ordering;
 use libc::c_char;
 use crate::db::rocksdb_transaction::RocksDBTransactionInner;
+use crate::db::rocksdb_wrapper::take_err;
 use polodb_librocksdb_sys as ffi;
 use super::db::Result;
 
@@ -156,13 +157,7 @@ impl RocksDBIteratorInner {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
             if !err.is_null() {
-                let c_str = std::ffi::CStr::from_ptr(err);
-
-                // Convert the &CStr to a &str
-                let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
-
-                // Convert the &str to a String and return
-                return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+                return Err(crate::Error::RocksDbErr(take_err(err)))
             }
             Ok(())
         }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 5048ab4..b25ff0a 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -26,13 +26,7 @@ use super::db::Result;
 macro_rules! check_err {
     ($err:expr) => {
         if !$err.is_null() {
-            let c_str = std::ffi::CStr::from_ptr($err);
-
-            // Convert the &CStr to a &str
-            let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
-
-            // Convert the &str to a String and return
-            return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+            return Err(crate::Error::RocksDbErr(crate::db::rocksdb_wrapper::take_err($err)))
         }
     };
 }
@@ -185,8 +179,9 @@ impl RocksDBTransactionInner {
                 return Ok(None);
             }
 
-            let value = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
-            Ok(Some(value))
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
         }
     }
 
diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..33f1d8a 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -15,7 +15,7 @@
 use std::ops::DerefMut;
 use std::path::{Path, PathBuf};
 use std::{env, ptr};
-use std::ffi::CString;
+use std::ffi::{CStr, CString};
 use libc::c_char;
 use polodb_librocksdb_sys as ffi;
 use super::db::Result;
@@ -27,17 +27,18 @@ use crate::db::rocksdb_transaction::RocksDBTransaction;
 macro_rules! check_err {
     ($err:expr) => {
         if !$err.is_null() {
-            let c_str = std::ffi::CStr::from_ptr($err);
-
-            // Convert the &CStr to a &str
-            let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
-
-            // Convert the &str to a String and return
-            return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
+            return Err(crate::Error::RocksDbErr(crate::db::rocksdb_wrapper::take_err($err)))
         }
     };
 }
 
+/// Copies an error message of RocksDB, and frees it.
+pub(crate) unsafe fn take_err(err: *mut c_char) -> String {
+    let message = CStr::from_ptr(err).to_string_lossy().into_owned();
+    ffi::rocksdb_free(err.cast());
+    message
+}
+
 #[derive(Clone)]
 pub(crate) struct RocksDBWrapper {
     inner: Arc<Mutex<RocksDBWrapperInner>>,
@@ -108,17 +109,14 @@ impl Drop for RocksDBWrapperInner {
                 wait_for_compact_options.set_flush(true);
                 ffi::rocksdb_wait_for_compact(self.inner.cast(), wait_for_compact_options.get(), &mut err);
                 if !err.is_null() {
-                    let c_str = std::ffi::CStr::from_ptr(err);
-                    let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
-                    eprintln!("wait for compact error: {}", str_slice);
+                    eprintln!("wait for compact error: {}", take_err(err));
+                    err = ptr::null_mut();
                 }
             }
 
             ffi::rocksdb_transactiondb_flush_wal(self.inner, 1, &mut err);
             if !err.is_null() {
-                let c_str = std::ffi::CStr::from_ptr(err);
-                let str_slice = c_str.to_str().expect("C string is not valid UTF-8");
-                eprintln!("flush wal error: {}", str_slice);
+                eprintln!("flush wal error: {}", take_err(err));
             }
 
             ffi::rocksdb_transactiondb_close(self.inner);
-- 
2.43.0


From 18e7b69ea8fc548b10ff5aa77249efc70ad991f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 68/74] fix: a database which cannot be opened must release its
 options

---
 src/polodb_core/db/rocksdb_wrapper.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index 33f1d8a..070d0e5 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -24,14 +24,6 @@ use std::sync::{Arc, Mutex};
 use crate::db::rocksdb_options::RocksDBWaitForCompactOptions;
 use crate::db::rocksdb_transaction::RocksDBTransaction;
 
-macro_rules! check_err {
-    ($err:expr) => {
-        if !$err.is_null() {
-            return Err(crate::Error::RocksDbErr(crate::db::rocksdb_wrapper::take_err($err)))
-        }
-    };
-}
-
 /// Copies an error message of RocksDB, and frees it.
 pub(crate) unsafe fn take_err(err: *mut c_char) -> String {
     let message = CStr::from_ptr(err).to_string_lossy().into_owned();
@@ -83,7 +75,11 @@ impl RocksDBWrapperInner {
             let mut err: *mut c_char = ptr::null_mut();
             let path_c = CString::new(path.clone()).unwrap();
             let db = ffi::rocksdb_transactiondb_open(options, txn_db_opts, path_c.as_ptr(), &mut err);
-            check_err!(err);
+            if !err.is_null() {
+                ffi::rocksdb_options_destroy(options);
+                ffi::rocksdb_transactiondb_options_destroy(txn_db_opts);
+                return Err(crate::Error::RocksDbErr(take_err(err)));
+            }
             Ok(RocksDBWrapperInner {
                 path,
                 options,
-- 
2.43.0


From 16c78257c1b3367d2ef8de97d547eb795f8c0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 69/74] fix: compare integers with floats exactly

Different 64-bit integers which become the same double were both equal to
it, so that the order was not transitive: a sort of such values panicked,
and comparisons disagreed with $in.
---
 src/polodb_core/utils/bson.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 3b4bcc1..eb61497 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -195,18 +195,12 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
             let f = *d2 as f64;
             Ok(d1.total_cmp(&f))
         },
-        (Bson::Double(d1), Bson::Int64(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
+        (Bson::Double(d1), Bson::Int64(i2)) => Ok(cmp_i64_with_f64(*i2, *d1).reverse()),
         (Bson::Int32(i1), Bson::Double(d2)) => {
             let f = *i1 as f64;
             Ok(f.total_cmp(d2))
         }
-        (Bson::Int64(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
+        (Bson::Int64(i1), Bson::Double(d2)) => Ok(cmp_i64_with_f64(*i1, *d2)),
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
         (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
@@ -223,6 +217,20 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     }
 }
 
+// Not every 64-bit integer is a double. Different integers which become the same
+// double must not be equal to it, otherwise the order is not transitive.
+fn cmp_i64_with_f64(integer: i64, double: f64) -> Ordering {
+    const I64_LOWER_BOUND: f64 = -9_223_372_036_854_775_808.0;
+    const I64_UPPER_BOUND: f64 = 9_223_372_036_854_775_808.0;
+
+    if (I64_LOWER_BOUND..I64_UPPER_BOUND).contains(&double) {
+        let truncated = double as i64;
+        integer.cmp(&truncated).then_with(|| (truncated as f64).total_cmp(&double))
+    } else {
+        (integer as f64).total_cmp(&double).then(Ordering::Less)
+    }
+}
+
 // The numbers are compared by value, so they must be on the same side of the
 // values of other types. Otherwise, the order is not transitive.
 fn type_rank(value: &Bson) -> u8 {
-- 
2.43.0


From b7a0e76c0f175cd546c728355ee418e851bed791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 70/74] fix: index keys must tell a NUL in a string from the
 end of the string

With a NUL in an indexed string or in the id of an indexed document, a find
through the index failed with an unknown element type, or the key was taken
for one of another value.
---
 src/polodb_core/index/index_helper.rs |  4 +--
 src/polodb_core/utils/bson.rs         | 44 +++++++++++++++++++++------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index c190b43..a216da3 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -40,7 +40,7 @@ pub(crate) struct IndexHelper<'b, 'c, 'd, 'e> {
 
 pub(crate) fn make_index_key_with_query_key(prefix_bytes: &[u8], query_value: &Bson) -> Result<Vec<u8>> {
     let mut key_buffer = prefix_bytes.to_vec();
-    let primary_key_buffer = crate::utils::bson::stacked_key([
+    let primary_key_buffer = crate::utils::bson::stacked_index_key([
         query_value,
     ])?;
 
@@ -182,7 +182,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             buf.push(pkey);
         }
 
-        crate::utils::bson::stacked_key(buf)
+        crate::utils::bson::stacked_index_key(buf)
     }
 
 }
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index eb61497..57de211 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -32,6 +32,28 @@ pub fn stacked_key<'a, T: IntoIterator<Item = &'a Bson>>(keys: T) -> Result<Vec<
     Ok(result)
 }
 
+/// Takes the place of a NUL in the strings of index keys. It's in no UTF-8 string.
+const INDEX_KEY_NUL: u8 = 0xff;
+
+/// The values of an index key are read from it again, so a NUL in a string
+/// must not be taken for the end of the string.
+pub fn stacked_index_key<'a, T: IntoIterator<Item = &'a Bson>>(keys: T) -> Result<Vec<u8>> {
+    let mut result = Vec::<u8>::new();
+
+    for key in keys {
+        match key {
+            Bson::String(str) | Bson::Symbol(str) if str.contains('\0') => {
+                result.write_u8(key.element_type() as u8)?;
+                result.extend(str.bytes().map(|byte| if byte == 0 { INDEX_KEY_NUL } else { byte }));
+                result.write_u8(0)?;
+            }
+            _ => stacked_key_bytes(&mut result, key)?,
+        }
+    }
+
+    Ok(result)
+}
+
 pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
     match key {
         Bson::Double(dbl) => {
@@ -124,11 +146,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let val = reader.read_f64::<BigEndian>()?;
             result.push(Bson::Double(val));
         } else if ch == ElementType::String as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            // remove last byte of bytes
-            bytes.pop();
-            result.push(Bson::String(String::from_utf8(bytes)?));
+            result.push(Bson::String(read_index_key_string(&mut reader)?));
         } else if ch == ElementType::Boolean as u8 {
             let val = reader.read_u8()?;
             result.push(Bson::Boolean(val != 0));
@@ -156,10 +174,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let datetime = DateTime::from_millis(val);
             result.push(Bson::DateTime(datetime));
         } else if ch == ElementType::Symbol as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            bytes.pop();
-            result.push(Bson::Symbol(String::from_utf8(bytes)?));
+            result.push(Bson::Symbol(read_index_key_string(&mut reader)?));
         } else if ch == ElementType::Decimal128 as u8 {
             let mut bytes = [0u8; 16];
             reader.read_exact(&mut bytes)?;
@@ -174,6 +189,17 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     Ok(result)
 }
 
+fn read_index_key_string(reader: &mut &[u8]) -> Result<String> {
+    let mut bytes = Vec::<u8>::new();
+    reader.read_until(0, &mut bytes)?;
+    // remove last byte of bytes
+    bytes.pop();
+    for byte in bytes.iter_mut().filter(|byte| **byte == INDEX_KEY_NUL) {
+        *byte = 0;
+    }
+    Ok(String::from_utf8(bytes)?)
+}
+
 pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     match (a, b) {
         (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
-- 
2.43.0


From fcaede93c5f1d2cf5d0c9f2c350066670c96216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 71/74] fix: zero and negative zero are the same number

The comparisons and the keys of indexes told them apart, while $in did not:
a document whose value became -0.0 (a negative number times 0) was not found
by 0, nor by $gte: 0.
---
 src/polodb_core/index/index_helper.rs | 16 ++++++++++++++--
 src/polodb_core/utils/bson.rs         | 23 ++++++++++++++++++-----
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index a216da3..0264429 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::borrow::Cow;
 use bson::{Bson, Document};
 use bson::spec::ElementType;
 use crate::Result;
@@ -21,6 +22,7 @@ use crate::coll::collection_info::{
 };
 use crate::errors::DuplicateKeyError;
 use crate::transaction::TransactionInner;
+use crate::utils::bson::positive_zero;
 
 pub(crate) const INDEX_PREFIX: &str = "$I";
 
@@ -38,10 +40,18 @@ pub(crate) struct IndexHelper<'b, 'c, 'd, 'e> {
     pkey: &'e Bson,
 }
 
+/// Equal numbers must have one key.
+fn index_value(value: &Bson) -> Cow<Bson> {
+    match value {
+        Bson::Double(double) => Cow::Owned(Bson::Double(positive_zero(*double))),
+        _ => Cow::Borrowed(value),
+    }
+}
+
 pub(crate) fn make_index_key_with_query_key(prefix_bytes: &[u8], query_value: &Bson) -> Result<Vec<u8>> {
     let mut key_buffer = prefix_bytes.to_vec();
     let primary_key_buffer = crate::utils::bson::stacked_index_key([
-        query_value,
+        index_value(query_value).as_ref(),
     ])?;
 
     key_buffer.extend_from_slice(&primary_key_buffer);
@@ -171,11 +181,13 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         let b_col_name = Bson::String(col_name.to_string());
         let b_index_name = &Bson::String(index_name.to_string());
 
+        let value = index_value(value);
+
         let mut buf: Vec<&Bson> = vec![
             &b_prefix,
             &b_col_name,
             &b_index_name,
-            value,
+            value.as_ref(),
         ];
 
         if let Some(pkey) = pkey {
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 57de211..2d88f02 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -216,15 +216,15 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
             let i1_64 = *i1 as i64;
             Ok(i1_64.cmp(i2))
         },
-        (Bson::Double(d1), Bson::Double(d2)) => Ok(d1.total_cmp(d2)),
+        (Bson::Double(d1), Bson::Double(d2)) => Ok(cmp_f64(*d1, *d2)),
         (Bson::Double(d1), Bson::Int32(d2)) => {
             let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
+            Ok(cmp_f64(*d1, f))
         },
         (Bson::Double(d1), Bson::Int64(i2)) => Ok(cmp_i64_with_f64(*i2, *d1).reverse()),
         (Bson::Int32(i1), Bson::Double(d2)) => {
             let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
+            Ok(cmp_f64(f, *d2))
         }
         (Bson::Int64(i1), Bson::Double(d2)) => Ok(cmp_i64_with_f64(*i1, *d2)),
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
@@ -243,6 +243,19 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     }
 }
 
+fn cmp_f64(a: f64, b: f64) -> Ordering {
+    positive_zero(a).total_cmp(&positive_zero(b))
+}
+
+/// Zero and negative zero are the same number.
+pub fn positive_zero(value: f64) -> f64 {
+    if value == 0.0 {
+        0.0
+    } else {
+        value
+    }
+}
+
 // Not every 64-bit integer is a double. Different integers which become the same
 // double must not be equal to it, otherwise the order is not transitive.
 fn cmp_i64_with_f64(integer: i64, double: f64) -> Ordering {
@@ -251,9 +264,9 @@ fn cmp_i64_with_f64(integer: i64, double: f64) -> Ordering {
 
     if (I64_LOWER_BOUND..I64_UPPER_BOUND).contains(&double) {
         let truncated = double as i64;
-        integer.cmp(&truncated).then_with(|| (truncated as f64).total_cmp(&double))
+        integer.cmp(&truncated).then_with(|| cmp_f64(truncated as f64, double))
     } else {
-        (integer as f64).total_cmp(&double).then(Ordering::Less)
+        cmp_f64(integer as f64, double).then(Ordering::Less)
     }
 }
 
-- 
2.43.0


From ca9aaa2b79eb6b939e6fdf2e8911c7619c4d9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 72/74] fix: an index must find equal numbers of every type

The keys of an index contain the type of a number, so { a: 1 } did not find
the documents whose indexed a is 1.0 or an Int64, as it does without an index.
---
 src/polodb_core/cursor.rs      | 12 +++++++
 src/polodb_core/db/db_inner.rs | 10 ++++--
 src/polodb_core/utils/bson.rs  | 22 +++++++++++++
 src/polodb_core/vm/vm.rs       | 57 ++++++++++++++--------------------
 4 files changed, 66 insertions(+), 35 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 1a69ceb..6352337 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -128,6 +128,18 @@ impl Cursor {
         Ok(false)
     }
 
+    /// Moves to the next key, which may have another index value.
+    pub fn next_by_index_value(&mut self, index_value: &Bson) -> Result<bool> {
+        self.next()?;
+
+        let key_buffer = make_index_key_with_query_key(
+            self.prefix_bytes.as_slice(),
+            index_value,
+        )?;
+
+        Ok(self.current_key.as_ref().map_or(false, |key| key.starts_with(key_buffer.as_slice())))
+    }
+
     pub fn peek_key(&self) -> Option<Arc<[u8]>> {
         self.current_key.clone()
     }
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 6e4eddc..05c182a 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -37,6 +37,7 @@ use crate::index::{IndexHelper, IndexHelperOperation};
 use crate::metrics::Metrics;
 use crate::db::rocksdb_wrapper::RocksDBWrapper;
 use crate::transaction::TransactionInner;
+use crate::utils::bson::equal_values;
 use crate::vm::VM;
 
 const TABLE_META_PREFIX: &str = "$TABLE_META";
@@ -906,10 +907,15 @@ impl DatabaseInner {
 
     /// The scan of an index ends at the first entry which fails the rest of
     /// the query. This is right for a unique index, which has one entry at most
-    /// for a value, but other indexes can only serve a query on their key alone.
+    /// for a value (and a type, so not for a number which has several types), but
+    /// other indexes can only serve a query on their key alone.
     fn retain_usable_indexes(mut col_spec: CollectionSpecification, query: &Document) -> CollectionSpecification {
         if query.len() > 1 {
-            col_spec.indexes.retain(|_, index_info| index_info.is_unique());
+            col_spec.indexes.retain(|_, index_info| {
+                index_info.is_unique() && index_info.keys.keys().all(|key| {
+                    query.get(key).map_or(true, |value| equal_values(value).len() == 1)
+                })
+            });
         }
         col_spec
     }
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 2d88f02..56e0db1 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -270,6 +270,28 @@ fn cmp_i64_with_f64(integer: i64, double: f64) -> Ordering {
     }
 }
 
+/// The values which are equal to the given one. The keys of an index contain the
+/// type of a number, so the same number can have several of them.
+pub fn equal_values(value: &Bson) -> Vec<Bson> {
+    let integer = match value {
+        Bson::Int32(int) => i64::from(*int),
+        Bson::Int64(int) => *int,
+        Bson::Double(double) => *double as i64,
+        _ => return vec![value.clone()],
+    };
+
+    let mut result = vec![
+        Bson::Int64(integer),
+        Bson::Int32(integer as i32),
+        Bson::Double(integer as f64),
+    ];
+    result.retain(|other| matches!(value_cmp(value, other), Ok(Ordering::Equal)));
+    if !result.iter().any(|other| other.element_type() == value.element_type()) {
+        result.push(value.clone());
+    }
+    result
+}
+
 // The numbers are compared by value, so they must be on the same side of the
 // values of other types. Otherwise, the order is not transitive.
 fn type_rank(value: &Bson) -> u8 {
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 264ec96..9360b73 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -14,7 +14,7 @@
 
 use crate::cursor::Cursor;
 use crate::errors::{FieldTypeUnexpectedStruct, UnexpectedTypeForOpStruct};
-use crate::index::{make_index_key_with_query_key, IndexHelper, IndexHelperOperation};
+use crate::index::{IndexHelper, IndexHelperOperation};
 use crate::transaction::TransactionInner;
 use crate::vm::op::{generic_cmp, DbOp};
 use crate::vm::query_matcher::{field_path_value, matches_all, matches_in, matches_regex};
@@ -76,6 +76,8 @@ pub(crate) struct VM {
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
     index_value: Option<Bson>,
+    // the values which are looked up in the index after this one
+    index_values: Vec<Bson>,
     current_data: Vec<u8>, // the document under the cursor, as it was read
     metrics: Metrics,
 }
@@ -107,6 +109,7 @@ impl VM {
             program,
             global_vars,
             index_value: None,
+            index_values: Vec::new(),
             current_data: Vec::new(),
             metrics,
         }
@@ -182,28 +185,14 @@ impl VM {
     fn find_by_index(&mut self) -> Result<bool> {
         let stack_len = self.stack.len();
         // let col_name = self.stack[stack_len - 1].as_str().expect("col_name must be string").to_string();
-        let query_value = &self.stack[stack_len - 2];
+        self.index_values = crate::utils::bson::equal_values(&self.stack[stack_len - 2]);
+        self.index_value = None;
 
-        let cursor = self.r1.as_mut().unwrap();
-        let result = cursor.reset_by_index_value(query_value)?;
-        self.index_value = Some(query_value.clone());
-
-        if !result {
+        self.next_index_value()?;
+        if self.r0 == 0 {
             return Ok(false);
         }
 
-        let key = cursor.peek_key().expect("key must exist");
-
-        match self.read_index_value_by_index_key(key.as_ref())? {
-            Some(index_value) => self.stack.push(index_value),
-            None => {
-                self.next_index_value()?;
-                if self.r0 == 0 {
-                    return Ok(false);
-                }
-            }
-        }
-
         self.metrics.add_find_by_index_count();
 
         Ok(true)
@@ -269,23 +258,25 @@ impl VM {
 
         loop {
             let cursor = self.r1.as_mut().unwrap();
-            cursor.next()?;
-
-            let current_key = match cursor.peek_key() {
-                Some(current_key) => current_key,
-                None => return Ok(()),
+            let found = match &self.index_value {
+                Some(index_value) => cursor.next_by_index_value(index_value)?,
+                None => match self.index_values.pop() {
+                    Some(index_value) => {
+                        let found = cursor.reset_by_index_value(&index_value)?;
+                        self.index_value = Some(index_value);
+                        found
+                    }
+                    None => return Ok(()),
+                },
             };
-
-            let index_value = self.index_value.as_ref().expect("index_value must exist");
-
-            let key_buffer =
-                make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
-
-            if !current_key.starts_with(key_buffer.as_slice()) {
-                return Ok(());
+            if !found {
+                self.index_value = None;
+                continue;
             }
 
-            if let Some(value) = self.read_index_value_by_index_key(current_key.as_ref())? {
+            let key = cursor.peek_key().expect("key must exist");
+
+            if let Some(value) = self.read_index_value_by_index_key(key.as_ref())? {
                 self.stack.push(value);
                 self.r0 = 1;
                 return Ok(());
-- 
2.43.0


From 07ab2975ddcbeaa3a6794ec61ac94a7439ea88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 73/74] fix: $addFields must compute each field from the
 document it receives

A field which another one of the same stage replaced was read with its new
value by "$field", and with the old one by $abs.
---
 src/polodb_core/vm/vm_add_fields.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 1d231d9..741854a 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -72,17 +72,19 @@ impl VmExternalFunc for VmFuncAddFields {
         if arg0.as_null().is_some() {  // complete
             return Ok(VmExternalFuncStatus::Continue);
         }
-        let mut doc = match arg0 {
-            Bson::Document(doc) => doc.clone(),
+        let input = match arg0 {
+            Bson::Document(doc) => doc,
             _ => return Err(Error::UnknownAggregationOperation("Invalid argument for $addFields".to_string())),
         };
+        // every field is computed from the document as it was received
+        let mut doc = input.clone();
         for (k, v) in &self.fields {
             let value = match v {
                 OperatorExpr::Expr(op) => op.next(arg0),
                 OperatorExpr::Constant(v) => v.clone(),
                 OperatorExpr::Alias(alias) => {
                     let alias = alias.as_str();
-                    doc.get(alias).cloned().unwrap_or(Bson::Null)
+                    input.get(alias).cloned().unwrap_or(Bson::Null)
                 }
             };
             doc.insert(k.clone(), value);
-- 
2.43.0


From 743a1e0217bb0fb096a71549422098bad2aaf92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 74/74] fix: $abs must take a Double as it takes other numbers

---
 src/polodb_core/vm/operators/abs_operator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 2a05f40..da47138 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -52,6 +52,9 @@ impl AbsOperator {
             Bson::Int64(v) => {
                 OperatorExpr::Constant(Self::bson_abs(Bson::Int64(*v)))
             }
+            Bson::Double(v) => {
+                OperatorExpr::Constant(Self::bson_abs(Bson::Double(*v)))
+            }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
                     OperatorExpr::Alias(stripped_field_name.to_string())
-- 
2.43.0

