From 3f99c6baf14aa4d0ea416ba1588a522046ff3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 01/24] fix: string default on a char/varchar/bit/varbit column
 without length panicked

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..b57ec58 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 6d31359a466bcd31cdca50e047c1def40af6b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 02/24] fix: length of a string default was measured in bytes
 instead of characters

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b57ec58..70808dd 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.chars().count() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From d18a84110486cf0374730fba017dc40ce225baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 03/24] fix: the largest bigint default was rejected as
 exceeding its type

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 70808dd..b923930 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From a9c39860809fb122739e470c8ccb7168215edc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 04/24] fix: a many-to-many relation was accepted with only one
 side a key

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..348bfed 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,7 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 4374d398673cc58541bc19d280f12553a8015e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 05/24] fix: mismatched foreign key type message showed the
 column name as the left type

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 348bfed..aafc607 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From 03378f4dc0c5c0545a6824c99495046cfc1bc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/24] fix: enums of the same name in different schemas were
 taken for the same column type

---
 src/analyzer/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b923930..b032e08 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -292,6 +292,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
 
+                  let enum_type = ColumnTypeName::Enum(format!(
+                    "{}.{}",
+                    enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA),
+                    enum_name
+                  ));
+
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
                       let default_value_span = attributes.iter()
@@ -305,11 +311,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => enum_type
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      enum_type
                     }
                   }
                 }
-- 
2.43.0


From 8bbfc6eacd15d8c86cbc4068c7c01f6772ca7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 07/24] fix: a null default on a nullable enum column was
 rejected as a missing enum value

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b032e08..3e0cfd9 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -299,7 +299,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   ));
 
                   match &col.settings {
-                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
+                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) if *default_value != Value::Null => {
                       let default_value_span = attributes.iter()
                         .find_map(|attr| {
                           (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
-- 
2.43.0


From 675bb5b0f313497acaa40b7ef7b538b20531bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 08/24] fix: expression columns were dropped when comparing the
 keys of indexes

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 3e0cfd9..8c8153a 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -150,18 +150,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(expr) => expr.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -194,7 +192,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From bba4eea3f3a941920c700dcfb99019c8ed19d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 09/24] fix: a unique index over a part of another unique index
 was rejected as its duplicate

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 8c8153a..5c05699 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -192,7 +192,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
+                .any(|uniq_item| uniq_item == &ident_strings.iter().cloned().collect())
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 045b95e7b0e7b0321d4950026930f91bf5654a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 10/24] fix: a plain index was rejected as duplicate of an
 earlier index of another type

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 5c05699..797b4d0 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -220,7 +220,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
             if tmp_table_indexer
               .indexed_list
               .iter()
-              .any(|(idx_item, _)| idx_item == &ident_strings)
+              .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type.is_none())
             {
               throw_err(Err::DuplicateIndexKey, &def.span_range, input)?;
             }
-- 
2.43.0


From 379744c0254386b2424ec61015ccdaf2eac0d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 11/24] fix: a table group item with an explicit schema was not
 checked for existence

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index aafc607..288b210 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From 6da4d0c72a61e4cdc2cea36f5c5ced6bf98b18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 12/24] fix: duplicate keys in table group settings were not
 rejected

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 288b210..401243b 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -146,6 +146,10 @@ impl Indexer {
   /// - `DuplicateTableGroupItem`
   pub(super) fn index_table_groups(&mut self, table_groups: &Vec<&TableGroupBlock>, input: &str) -> AnalyzerResult<()> {
     for table_group in table_groups {
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       if self.table_group_map.get(&table_group.ident.to_string).is_some() {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
-- 
2.43.0


From 847c9fbf6cbacf060cef893f39178ce26762f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 13/24] fix: a reference by alias or by the explicit default
 schema did not find its table

---
 src/analyzer/helper.rs  | 5 +++++
 src/analyzer/indexer.rs | 4 ++--
 src/analyzer/mod.rs     | 2 +-
 src/utils/mod.rs        | 3 ++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/analyzer/helper.rs b/src/analyzer/helper.rs
index 663fa15..e48af85 100644
--- a/src/analyzer/helper.rs
+++ b/src/analyzer/helper.rs
@@ -34,6 +34,11 @@ pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> A
   Ok(())
 }
 
+/// Gets the schema name, which is the default one if not specified.
+pub(crate) fn schema_name(schema: &Option<Ident>) -> &str {
+  schema.as_ref().map(|s| s.to_string.as_str()).unwrap_or(DEFAULT_SCHEMA)
+}
+
 pub(super) fn eq_elements<T: Eq + Ord>(lhs: impl Iterator<Item = T>, rhs: impl Iterator<Item = T>) -> bool {
   BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
 }
diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 401243b..e9d1097 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -357,7 +357,7 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          schema_name(&table.ident.schema) == schema_name(&ref_ident.schema)
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
@@ -478,7 +478,7 @@ impl IndexedRef {
   /// Should use after calling `validate_ref_type`.
   pub fn occupy_same_column(&self, other: &Self, indexer: &Indexer) -> bool {
     let eq_ident = |lhs: &RefIdent, rhs: &RefIdent| -> bool {
-      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
+      schema_name(&lhs.schema) == schema_name(&rhs.schema)
         && lhs.table.to_string == rhs.table.to_string
         && eq_elements(
           lhs.compositions.iter().map(|s| &s.to_string),
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 797b4d0..ced6f78 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -8,7 +8,7 @@ use crate::ast::*;
 use crate::DEFAULT_SCHEMA;
 
 mod err;
-mod helper;
+pub(crate) mod helper;
 mod indexer;
 
 use helper::*;
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..77a26dc 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,3 +1,4 @@
+use crate::analyzer::helper::schema_name;
 use crate::analyzer::*;
 use crate::ast::*;
 
@@ -35,7 +36,7 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    schema_name(&table_ident.schema) == schema_name(&ref_ident.schema)
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From ad84b81643b1dc7c6a56eb750513420c97fd61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 14/24] fix: a table was replaced by another one whose alias
 equals its name in references

---
 src/analyzer/indexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index e9d1097..08a21a7 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -283,6 +283,11 @@ impl Indexer {
 
   /// Gets a new ref block if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
+    // a qualified name is never an alias, and a table takes precedence over an alias
+    if ident.schema.is_some() || self.contains_table(&DEFAULT_SCHEMA.to_string(), &ident.table.to_string) {
+      return ident.clone();
+    }
+
     match self.resolve_alias(&ident.table.to_string) {
       Some((schema, table)) => {
         RefIdent {
-- 
2.43.0


From 70e11229383661995516f36c3a47c8d6c82a995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 15/24] fix: an unresolved reference into a missing default
 schema was reported at the start of the input

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 08a21a7..13319ec 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -247,7 +247,7 @@ impl Indexer {
     fields: &Vec<Ident>,
     input: &str,
   ) -> AnalyzerResult<()> {
-    let schema_span = schema.clone().map(|s| s.span_range).unwrap_or_default();
+    let schema_span = schema.as_ref().unwrap_or(table).span_range.clone();
     let schema = schema
       .clone()
       .map(|s| s.to_string)
-- 
2.43.0


From 213bcd205cf705924f1ad80d2b21b4c013bc77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 16/24] fix: a single-column key declared in the indexes block
 did not count as a key for references

---
 src/analyzer/indexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 13319ec..6bca0e0 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -397,6 +397,11 @@ impl IndexedRef {
         .unwrap_or_default()
     };
 
+    let is_key = |col: &TableColumn, table: &TableBlock| -> bool {
+      col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+        || is_valid_composite(&vec![col.name.clone()], &table.indexes)
+    };
+
     let lhs_table = find_ref_table(&lhs_ident)?;
     let rhs_table = find_ref_table(&rhs_ident)?;
 
@@ -422,8 +427,8 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          is_key(&l_col, lhs_table),
+          is_key(&r_col, rhs_table),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
-- 
2.43.0


From aa9059ee37b335670484e5db7db33ef231bab32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 17/24] fix: a bare value starting with true, false or null was
 rejected

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..854e348 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From 3bd7f072f8f35f68d9dd9e7e3e03246e2ab168a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 18/24] fix: comment markers at the start of quoted text, and
 leading spaces of quoted names, were dropped

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 854e348..6f555de 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'"}
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From 707957d7da8a4da1e80c160365198eeacd7af069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 19/24] fix: spaces between the arguments of a column type were
 rejected

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 6f555de..c4f8b15 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -71,7 +71,7 @@ enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
 // table block
 col_attribute = { ref_inline | attribute }
 col_settings = { "[" ~ (col_attribute ~ ("," ~ col_attribute)*)? ~ "]" }
-col_type_arg = { "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
+col_type_arg = !{ "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
 col_type_array = { "[" ~ integer? ~ "]" }
 col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array* }
 col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\"" ~ col_type_array* }
-- 
2.43.0


From c619db8f936ff22cc22192d7dfe2a11d069c0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 20/24] hook: export the analyzer's index under cfg(dbml_verif)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..5a6838e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,6 +22,8 @@ pub(crate) mod utils;
 pub mod utils;
 
 use analyzer::*;
+#[cfg(dbml_verif)]
+pub use analyzer::{analyze, AnalyzedIndexer, TableRef};
 pub use parser::parse as parse_dbml_unchecked;
 
 /// Default database schema if not specified in a DBML file.
-- 
2.43.0


From 12aa0a11a896f8b4ffa2c2ff1e3adf10dce4639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 21/24] fix: resolve the enum of a column type whose schema
 name contains a dot

---
 src/analyzer/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index ced6f78..805a5ca 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -282,12 +282,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   type_name
                 }
                 Err(_) => {
-                  let splited: Vec<_> = raw_type.split('.').collect();
-
-                  let (enum_schema, enum_name) = match splited.len() {
-                    1 => (None, raw_type),
-                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
-                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
+                  // a type name has no dot in it, but the name of its schema may
+                  let (enum_schema, enum_name) = match raw_type.rsplit_once('.') {
+                    None => (None, raw_type),
+                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
                   };
 
                   let enum_type = ColumnTypeName::Enum(format!(
-- 
2.43.0


From b37e25a67b906d08ec89774fb3a7fd187120282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 22/24] fix: one-to-one and many-to-many relations conflict
 only if both endpoints agree

---
 src/analyzer/indexer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 6bca0e0..3c72742 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -498,14 +498,10 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let [self_lhs, self_rhs, other_lhs, other_rhs] = [&self.lhs, &self.rhs, &other.lhs, &other.rhs].map(|ident| indexer.resolve_ref_alias(ident));
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+        (eq_ident(&self_lhs, &other_lhs) && eq_ident(&self_rhs, &other_rhs))
+          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs))
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0


From 67bd07bd1ba2bd20a4be98a57aab8401d709176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 23/24] fix: an index with an expression counted as a key over
 a reference's repeated columns

---
 src/analyzer/indexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 3c72742..215a3c7 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -384,8 +384,8 @@ impl IndexedRef {
             compositions.len() == def_item.cols.len()
               && def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
               && eq_elements(
-                compositions.iter().map(|s| &s.to_string),
-                def_item.cols.iter().filter_map(|s| {
+                compositions.iter().map(|s| Some(&s.to_string)),
+                def_item.cols.iter().map(|s| {
                   match s {
                     IndexesColumnType::String(s) => Some(&s.to_string),
                     _ => None,
-- 
2.43.0


From a7663fe1fe348393a9153386ea4d8febd98e0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:32 +0000
Subject: [PATCH 24/24] fix: a table was replaced by another one whose alias
 equals its name in table groups

---
 src/analyzer/indexer.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 215a3c7..7ce9170 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -165,15 +165,16 @@ impl Indexer {
             (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
           }
           None => {
-            match self.resolve_alias(&group_item.ident_alias.to_string) {
-              Some(ident) => ident.clone(),
-              None => {
-                let has_table = self
-                  .schema_map
-                  .get(DEFAULT_SCHEMA)
-                  .iter()
-                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));
+            let has_table = self
+              .schema_map
+              .get(DEFAULT_SCHEMA)
+              .iter()
+              .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));
 
+            match self.resolve_alias(&group_item.ident_alias.to_string) {
+              // a table takes precedence over an alias
+              Some(ident) if !has_table => ident.clone(),
+              _ => {
                 if !has_table {
                   throw_err(Err::TableNotFound, &group_item.span_range, input)?;
                 }
-- 
2.43.0

