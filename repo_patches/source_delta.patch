From e56cca344a643cea4fe0636040ce43b91ba8dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 01/54] fix: place Excel notes on their own cell (umya
 coordinates start from 1)

---
 src/target/excel/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..3ad82a1 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -103,9 +103,14 @@ impl<'a> Excel<'a> {
         let rt = comment.get_text_mut();
         rt.set_text(note);
 
+        // umya's coordinates start from 1 where ours start from 0
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord.set_row_num(
+            u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"),
+        );
 
         worksheet.add_comments(comment);
     }
-- 
2.43.0


From f313bcb78ce6c1baea12c110f679ca644fe79154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 02/54] fix: draw every side in Google Sheets when a cell asks
 for border=all

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..3a2b4f7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.side_has_border(side) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From 0bfc6b27f1d2f839aff577729c4138bf53445ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 03/54] fix: send the alignment and wrap values which the
 Google Sheets API defines

---
 src/target/google_sheets/google_sheets_cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 3a2b4f7..5fd6c62 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 6f153557c9823d8cbd5831a87c2b71ec8d5b875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 04/54] fix: build Google Sheets validations from the API's own
 condition types and values

---
 .../google_sheets/google_sheets_cell.rs       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 5fd6c62..e9a095f 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -32,7 +32,7 @@ macro_rules! build_boolean_condition {
 
 macro_rules! validate_date {
     ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
+        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
     };
 }
 
@@ -85,14 +85,14 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
+                DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
                 DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
                     validate_date!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
                     validate_date!("DATE_NOT_BETWEEN", da, db)
                 }
@@ -104,34 +104,34 @@ impl<'a> GoogleSheetsCell<'a> {
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +141,7 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From c9a17c0dfb195c46d41a9165ecdfd312de9625f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 05/54] fix: apply the border color of a cell in Excel

---
 src/target/excel/excel_cell.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..62e1a61 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(bc) = self.0.border_color.clone() {
+            border_style.set_color(bc.into());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From 5128fea874c06dd5aca9f85e4aea25319728127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 06/54] fix: apply the x offset to columns and the y offset to
 rows in Google Sheets

---
 src/target/google_sheets/batch_update_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..0b6a7aa 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -97,11 +97,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.0)
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.1)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From f9a5e96ce80552775d1c68458154484200f51661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 07/54] fix: start each Google Sheets request at the row after
 the previous one's

---
 src/target/google_sheets/batch_update_builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 0b6a7aa..991bf99 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -40,8 +40,9 @@ impl<'a> BatchUpdateBuilder<'a> {
         // split the rows into requests with 1000 per
         all_rows
             .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                 ..Default::default()
             })
             .collect()
@@ -91,7 +92,7 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(&self, start_row: usize, rows: &[api::RowData]) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
@@ -101,7 +102,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.1 as usize + start_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From d8ac3bfbf43da11683d2963ddb869a568651aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 08/54] fix: merge with the existing Google Sheets cells at the
 offset being written

---
 src/target/google_sheets/batch_update_builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 991bf99..2d4509e 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -81,8 +81,14 @@ impl<'a> BatchUpdateBuilder<'a> {
             .iter()
             .enumerate()
             .map(|(i, row)| {
-                let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
+                // the existing cells this row will be written over
+                let (x_offset, y_offset) = self.compiler.config.offset;
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(i + y_offset as usize)
+                    .and_then(|row| row.get(x_offset as usize..))
+                    .unwrap_or_default();
                 let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
-- 
2.43.0


From fb90c3aa9326b7f89c1a36094c704a8c631be67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 09/54] fix: keep the whole file name in the name of a backup

---
 src/target/file_backer_upper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..4f3d608 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -50,7 +50,9 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
 
         let mut new_file = file_parent.to_path_buf();
         new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        // not `set_extension`, which would replace what follows the last dot of the stem
+        new_file.as_mut_os_string().push(".");
+        new_file.as_mut_os_string().push(file_extension);
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 830f3d67c615451437e20fe689d1f278812f0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 10/54] fix: keep existing CSV values to the right of the
 compiled rows

---
 src/target/csv/compilation_target.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..2839662 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -10,7 +11,11 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
+        let widest_row = existing_values
+            .cells
+            .iter()
+            .map(Vec::len)
+            .fold(module.spreadsheet.widest_row(), cmp::max);
 
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
-- 
2.43.0


From 2d6a04653dd2f14b307aa554f935683105d8a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 11/54] fix: keep existing CSV rows below the compiled ones

---
 src/target/csv/compilation_target.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index 2839662..be0e5aa 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -25,13 +25,14 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
+        let rows = &module.spreadsheet.rows;
+        for index in 0..cmp::max(existing_values.cells.len(), rows.len()) {
             let mut output_row: Vec<String> = merge_rows(
                 existing_values
                     .cells
                     .get(index)
                     .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+                rows.get(index).map_or(&[], |row| row.cells.as_slice()),
                 &self.compiler.config,
             )
             .iter()
-- 
2.43.0


From 8ab4f4eb4b565d4067305ff1216488a804152d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 12/54] fix: apply the x and y offsets to Excel files

---
 src/target/excel/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 3ad82a1..340baab 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -42,10 +42,14 @@ impl<'a> Excel<'a> {
     /// depending on the merge strategy).
     fn build_worksheet(&self, module: &Module, worksheet: &mut u::Worksheet) {
         let mut cell_validations = Vec::with_capacity(module.spreadsheet.rows.len());
+        let (x_offset, y_offset) = self.compiler.config.offset;
 
         for (row_index, row) in module.spreadsheet.rows.iter().enumerate() {
             for (cell_index, cell) in row.cells.iter().enumerate() {
-                let position = a1::Address::new(cell_index, row_index);
+                let position = a1::Address::new(
+                    cell_index + x_offset as usize,
+                    row_index + y_offset as usize,
+                );
 
                 let merged_cell = merge_cell(
                     &Self::get_existing_cell(position, worksheet),
-- 
2.43.0


From a6016c67c2bdf3a67ea387049141c9eda6b61893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 13/54] fix: accept the documented number_* aliases of the
 number validations

---
 src/parser/cell_parser/validate.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..396b08b 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -45,18 +45,20 @@ impl CellParser<'_, '_> {
             "date_nbtwn" | "date_not_between" => self.validate_date_not_between(),
             "date_gte" | "date_on_or_after" => self.validate_date_on_or_after(),
             "date_lte" | "date_on_or_before" => self.validate_date_on_or_before(),
-            "num_btwn" | "number_between" => self.validate_number_between(),
-            "num_eq" | "number_equal_to" => self.validate_number_equal_to(),
-            "num_gt" | "number_greater_than" => self.validate_number_greater_than(),
-            "num_gte" | "number_greater_than_or_equal_to" => {
+            "num_btwn" | "number_btwn" | "number_between" => self.validate_number_between(),
+            "num_eq" | "number_eq" | "number_equal_to" => self.validate_number_equal_to(),
+            "num_gt" | "number_gt" | "number_greater_than" => self.validate_number_greater_than(),
+            "num_gte" | "number_gte" | "number_greater_than_or_equal_to" => {
                 self.validate_number_greater_than_or_equal_to()
             }
-            "num_lt" | "number_less_than" => self.validate_number_less_than(),
-            "num_lte" | "number_less_than_or_equal_to" => {
+            "num_lt" | "number_lt" | "number_less_than" => self.validate_number_less_than(),
+            "num_lte" | "number_lte" | "number_less_than_or_equal_to" => {
                 self.validate_number_less_than_or_equal_to()
             }
-            "num_nbtwn" | "number_not_between" => self.validate_number_not_between(),
-            "num_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
+            "num_nbtwn" | "number_nbtwn" | "number_not_between" => {
+                self.validate_number_not_between()
+            }
+            "num_neq" | "number_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
             "text_contains" => self.validate_text_contains(),
             "text_does_not_contain" => self.validate_text_does_not_contain(),
             "text_eq" | "text_equal_to" => self.validate_text_equal_to(),
-- 
2.43.0


From 0b08abfbac3472058d02a7c50635ae467c7083a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 14/54] fix: expand calls nested in the arguments of a call to
 the same function

---
 src/ast/eval.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..ee0db6f 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -122,9 +122,10 @@ impl Ast {
                         }
 
                         let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
+                        for (resolved_arg, arg) in resolved_args.iter().zip(args) {
+                            // the argument itself might contain calls to the same function
+                            evaled_body = evaled_body
+                                .replace_variable(resolved_arg, arg.call_function(fn_id, fn_ast)?);
                         }
 
                         evaled_body
-- 
2.43.0


From 67ba8d7da386d59872ae238f19d8ef9a1da94584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 15/54] fix: stop evaluating mutually recursive definitions

---
 src/ast/eval.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index ee0db6f..e943679 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -9,18 +9,18 @@ use std::collections;
 
 impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
-    /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
+    /// progress means that `.extract_references()` returns a non-empty result which we have not
+    /// seen before (if we have, the definitions are cyclic).
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
+        let mut seen_refs: Vec<AstReferences> = vec![];
 
         loop {
             let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
+            if refs.is_empty() || seen_refs.contains(&refs) {
                 break;
             }
-            last_round_refs = refs.clone();
+            seen_refs.push(refs.clone());
 
             evaled_ast = evaled_ast
                 .eval_variables(Self::resolve_variables(
-- 
2.43.0


From a40e1459c96fd0cb4dffdbd9b39c2877397d3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 16/54] fix: substitute all arguments of a function call at
 once

---
 src/ast/eval.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index e943679..521ff21 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -23,7 +23,7 @@ impl Ast {
             seen_refs.push(refs.clone());
 
             evaled_ast = evaled_ast
-                .eval_variables(Self::resolve_variables(
+                .eval_variables(&Self::resolve_variables(
                     scope,
                     refs.variables.into_iter(),
                     position,
@@ -76,13 +76,8 @@ impl Ast {
 
     /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
     /// it's given replacement.
-    fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
-
-        evaled_ast
+    fn eval_variables(&self, variable_values: &Variables) -> Self {
+        self.replace_variables(variable_values)
     }
 
     /// Do a depth-first-search on the AST, "calling" the function wherever we see a
@@ -121,14 +116,13 @@ impl Ast {
                             ));
                         }
 
-                        let mut evaled_body = body;
-                        for (resolved_arg, arg) in resolved_args.iter().zip(args) {
+                        let mut arg_values = Variables::with_capacity(args.len());
+                        for (resolved_arg, arg) in resolved_args.into_iter().zip(args) {
                             // the argument itself might contain calls to the same function
-                            evaled_body = evaled_body
-                                .replace_variable(resolved_arg, arg.call_function(fn_id, fn_ast)?);
+                            arg_values.insert(resolved_arg, arg.call_function(fn_id, fn_ast)?);
                         }
 
-                        evaled_body
+                        body.replace_variables(&arg_values)
                     }
 
                     // otherwise the function resolved to a non-function.  just treat that as
@@ -178,8 +172,9 @@ impl Ast {
         })
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
+    /// Depth-first-search replacing each `Node::Reference` which has a value in `replacements`.
+    /// They're all replaced at once because a replacement can itself contain references.
+    fn replace_variables(&self, replacements: &Variables) -> Self {
         let inner = (**self).clone();
         Ast::new(match inner {
             Node::FunctionCall { args, name } => {
@@ -187,7 +182,7 @@ impl Ast {
                     // recursively call for each arg to a function
                     args: args
                         .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
+                        .map(|a| a.replace_variables(replacements))
                         .collect(),
                     name,
                 }
@@ -196,7 +191,7 @@ impl Ast {
             Node::Function { args, body, name } => Node::Function {
                 name,
                 args,
-                body: body.replace_variable(var_id, replacement.clone()),
+                body: body.replace_variables(replacements),
             },
 
             Node::InfixFunctionCall {
@@ -204,20 +199,23 @@ impl Ast {
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
+                left: left.replace_variables(replacements),
                 operator,
-                right: right.replace_variable(var_id, replacement.clone()),
+                right: right.replace_variables(replacements),
             },
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+            // a reference matching one of our variables - take the replacement
+            Node::Reference(r) => match replacements.get(&r) {
+                Some(replacement) => replacement.clone().into_inner(),
+                None => Node::Reference(r),
+            },
 
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
+                value: VariableValue::Ast(ast.replace_variables(replacements)),
             },
 
             // otherwise keep the Node unmodified
-- 
2.43.0


From 93f2e86136ff44b689ce0d3eeb2bec66ab868b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 17/54] fix: function arguments shadow variables of the same
 name

---
 src/ast/eval.rs       | 16 +++++++++++-----
 src/ast/references.rs | 12 +++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 521ff21..43cc13a 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -188,11 +188,17 @@ impl Ast {
                 }
             }
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variables(replacements),
-            },
+            Node::Function { args, body, name } => {
+                // the arguments of the function shadow any variables with the same name
+                let mut unshadowed = replacements.clone();
+                unshadowed.retain(|var_id, _| !args.contains(var_id));
+
+                Node::Function {
+                    name,
+                    body: body.replace_variables(&unshadowed),
+                    args,
+                }
+            }
 
             Node::InfixFunctionCall {
                 left,
diff --git a/src/ast/references.rs b/src/ast/references.rs
index 0abca64..da1a9dd 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -29,9 +29,15 @@ impl AstReferences {
                 }
             }
 
-            Node::Function { body, .. } => {
-                // just the body can be an AST so recure on that
-                self.extract_dfs(body, scope);
+            Node::Function { args, body, .. } => {
+                // just the body can be an AST so recure on that.  the arguments of the function
+                // shadow any variables with the same name
+                let mut body_references = Self::default();
+                body_references.extract_dfs(body, scope);
+                body_references.variables.retain(|v| !args.contains(v));
+
+                self.functions.extend(body_references.functions);
+                self.variables.extend(body_references.variables);
             }
 
             Node::InfixFunctionCall { left, right, .. } => {
-- 
2.43.0


From 300b4e87e5986da1b4be9952eba7345888a099a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 18/54] fix: report the expected and received number of
 arguments the right way around

---
 src/ast/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 43cc13a..040266c 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -110,8 +110,8 @@ impl Ast {
                                 fn_ast.to_string(),
                                 format!(
                                     "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
+                                    resolved_args.len(),
+                                    args.len()
                                 ),
                             ));
                         }
-- 
2.43.0


From fad351658ac33e4d7b1a62030793b71460fe614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 19/54] fix: combine the signs of a number with multiple prefix
 operators

---
 src/ast/node.rs          | 11 +++++++++++
 src/parser/ast_parser.rs | 12 ++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ast/node.rs b/src/ast/node.rs
index 85e1087..5bbfb23 100644
--- a/src/ast/node.rs
+++ b/src/ast/node.rs
@@ -8,6 +8,17 @@ pub enum NumberSign {
     Positive,
 }
 
+impl NumberSign {
+    /// The sign of a number which already has `sign`, prefixed by this one (i.e., `--1` is `+1`)
+    pub(crate) fn apply_to(self, sign: Option<Self>) -> Self {
+        match (self, sign) {
+            (Self::Negative, Some(Self::Negative)) => Self::Positive,
+            (Self::Positive, Some(s)) => s,
+            (s, _) => s,
+        }
+    }
+}
+
 /// The most basic building block of our language AST.  The AST is made recursive by the fact that
 /// function calls and infix function calls can be composed.
 #[derive(Clone, Debug, PartialEq, serde::Deserialize, serde::Serialize)]
diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..6abfa90 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -129,19 +129,23 @@ impl<'a> AstParser<'a> {
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
-- 
2.43.0


From dc7753476b5540a6e029484f85a7f9cee8536a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 20/54] fix: report input after the end of a formula instead of
 dropping it

---
 src/parser/ast_parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 6abfa90..5fe9790 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,15 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let ast = AstParser::new(&lexer, single_expr).expr_bp(0)?;
+
+        // the entire input has to be the expression, otherwise we'd silently drop the rest of it
+        let t = lexer.next();
+        match t.token {
+            Token::Eof => Ok(ast),
+            _ => Err(t.into_parse_error("Expected the end of the expression")),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From 0034a9f4762f01171ef12accf6e284c0458bb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 21/54] fix: keep empty function arguments instead of shifting
 the ones after them

---
 src/parser/ast_parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 5fe9790..2dc0740 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -209,18 +209,30 @@ impl<'a> AstParser<'a> {
                     };
 
                     let mut args = vec![];
+                    let mut expecting_arg = false;
 
-                    // consume arguments (expressions) until we see a close paren
+                    // consume arguments (expressions) until we see a close paren.  an argument can
+                    // be left empty (i.e., `IF(A1,,3)`)
                     loop {
                         match self.lexer.peek().token {
                             Token::CloseParen => {
+                                if expecting_arg {
+                                    args.push(Node::reference("").into());
+                                }
                                 self.lexer.next();
                                 break;
                             }
                             Token::Comma => {
+                                if expecting_arg || args.is_empty() {
+                                    args.push(Node::reference("").into());
+                                }
                                 self.lexer.next();
+                                expecting_arg = true;
+                            }
+                            _ => {
+                                args.push(self.expr_bp(0)?);
+                                expecting_arg = false;
                             }
-                            _ => args.push(self.expr_bp(0)?),
                         }
                     }
 
-- 
2.43.0


From eebf9ad095733a9112efffa57ea24ebe60984665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 22/54] fix: only match the keywords true, false and use as
 whole words

---
 src/parser/ast_lexer/token_library.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..1cb4d4e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -54,7 +54,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From 23e5a772801de2ccc42b5c945ca4554afa919f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 23/54] fix: consume quoted option strings by bytes instead of
 by characters

---
 src/parser/cell_lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..8d82748 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
-- 
2.43.0


From 6f77a1f4232f57aaee5e5a36d048c4036b67f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 24/54] fix: handle non-ASCII input when skipping whitespace
 and shortening bad input in errors

---
 src/parser/ast_lexer/unknown_token.rs | 3 +--
 src/parser/token_matcher.rs           | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
-- 
2.43.0


From c678a9ee95a78f79d756a99c994989859c8c9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 25/54] fix: end the record at a newline after a quoted field

---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..b370182 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From 5b7a910f1d9df72721e5143c93ceb33d15b8e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 26/54] fix: parse CSV fields in a loop so that long cells do
 not overflow the stack

---
 csvp/src/parser.rs | 70 ++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index b370182..2cf0967 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -164,7 +164,7 @@ impl<'a> Parser<'a> {
                 self.parse_field(fb)
             }
             // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
+            Some('"') => Ok(self.parse_quoted_field(fb)?),
             Some(c) => {
                 fb.push(c, &mut *self);
                 Ok(self.parse_unquoted_field(fb)?)
@@ -174,54 +174,38 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::last(fb)),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume
+                        // any trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::some(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From 8216c643a0d163a236dd32e6f2478585e2a71629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 27/54] fix: count lexer offsets in characters so that errors
 in non-ASCII cells can be positioned

---
 src/parser/ast_lexer/mod.rs  | 9 +++++++--
 src/parser/cell_lexer/mod.rs | 6 ++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..40475c7 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -86,7 +86,11 @@ impl<'a> AstLexer<'a> {
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (
+                                line_offset + p[..m.len_leading_whitespace].chars().count(),
+                                line_number,
+                            )
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
@@ -96,7 +100,8 @@ impl<'a> AstLexer<'a> {
                         // move line_offset back to the beginning
                         line_offset = 0;
                     } else {
-                        line_offset += m.len_full_match;
+                        // positions are in characters but the match's length is in bytes
+                        line_offset += p[..m.len_full_match].chars().count();
                     }
 
                     // move the input past the match
diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 8d82748..d7818d4 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -340,8 +340,10 @@ impl<'a> CellLexer<'a> {
     }
 
     fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
+        let (consumed, rest) = self.input.split_at(amount);
+        // `amount` is in bytes but the field tracks the position of each of its characters
+        self.cell_offset += consumed.chars().count();
+        self.input = rest;
     }
 
     fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
-- 
2.43.0


From d2bd273f3208f3d5dcd847313c95c8975ad7a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 28/54] fix: columns of characters on lines after the first
 were off by one

---
 csvp/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 2cf0967..d96dbe4 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -26,6 +26,7 @@ pub struct Parser<'a> {
     chars: iter::Peekable<str::Chars<'a>>,
     source_line: usize,
     source_offset: isize,
+    last_was_newline: bool,
 }
 
 #[derive(Debug)]
@@ -74,6 +75,7 @@ impl<'a> Parser<'a> {
             source_line: 0,
             // -1 because we're going to increment as we consume characters
             source_offset: -1,
+            last_was_newline: false,
         }
     }
 
@@ -231,12 +233,14 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
-            if is_record_terminator(c) {
+            // a newline is the last character of its line so the next line starts after it
+            if self.last_was_newline {
                 self.source_line += 1;
                 self.source_offset = 0;
             } else {
                 self.source_offset += 1;
             }
+            self.last_was_newline = is_record_terminator(c);
             Some(c)
         } else {
             None
-- 
2.43.0


From f236b9ab5532c73876d80e750eddeb7d713652e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 29/54] fix: expand calls in the bodies of the functions of
 dependencies

---
 src/ast/eval.rs          |  8 ++++++++
 src/module_loader/mod.rs | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 040266c..d27214d 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -146,6 +146,14 @@ impl Ast {
                 .into()
             }
 
+            // the body of a function (of a module we depend on) can call other functions
+            Node::Function { args, body, name } => Node::Function {
+                args,
+                body: body.call_function(fn_id, fn_ast)?,
+                name,
+            }
+            .into(),
+
             // also recurse for infix functions
             Node::InfixFunctionCall {
                 left,
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..e82dde9 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,11 +34,11 @@ pub(super) struct ModuleLoader {
 
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
-    ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
+    ($scope:expr, $functions_or_variables:ident, $eval_scope:expr, $source_code:expr) => {{
         for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
             $scope.$functions_or_variables.insert(
                 name,
-                ast.eval(&$scope, None)
+                ast.eval(&$eval_scope, None)
                     .map_err(|e| $source_code.eval_error(e, None))?,
             );
         }
@@ -263,8 +263,17 @@ impl ModuleLoader {
                 to_resolve.scope.merge(dep_scope);
             }
 
-            eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
-            eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
+            let source_code = &to_resolve.source_code;
+            eval_ast!(to_resolve.scope, variables, to_resolve.scope, source_code);
+
+            // the variables in the bodies of all functions have to be resolved before any of them
+            // is expanded in the body of another one, whose arguments would capture them
+            let only_variables = Scope {
+                variables: to_resolve.scope.variables.clone(),
+                ..Scope::default()
+            };
+            eval_ast!(to_resolve.scope, functions, only_variables, source_code);
+            eval_ast!(to_resolve.scope, functions, to_resolve.scope, source_code);
 
             // now that we've evaled it that's the last step, write the csvpo file
             if self.use_cache {
-- 
2.43.0


From 572915be1d9233f00e50a40bb7754d87492c87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 30/54] fix: do not cut the range of a fill at row 1000, which
 its rows are not cut at

---
 src/cell_options/fill/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
-- 
2.43.0


From d2275007de84b43d37e19d09e74565c1cc450b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 31/54] fix: do not include the rows after an infinite fill in
 its range

---
 src/spreadsheet/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..3782814 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -39,8 +39,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                // an infinite fill does not cover the rows that come after it
+                let new_fill = Fill {
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From f183074c2375c6d751c29a83ae0dd2ea0212952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 32/54] fix: object files written by older compiler versions
 were used instead of recompiled

---
 src/module/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..a9c5a02 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -255,8 +255,8 @@ impl Module {
         // if the version is less than ours, don't use it and recompile instead.  otherwise we can
         // trust that it's ok to use
         self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
+            cmp::Ordering::Equal | cmp::Ordering::Less => false,
+            cmp::Ordering::Greater => true,
         };
 
         Ok(())
-- 
2.43.0


From cf2b9cad4f2d1d3d7f62a7ed7f9b294984dde9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 33/54] fix: a missing module which a dependency uses crashed
 the compiler instead of being reported

---
 src/module_loader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index e82dde9..a036ad0 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -83,7 +83,10 @@ impl ModuleLoader {
             }
         }
 
-        module_loader.eval_dependencies()?;
+        // the dependencies can only be evaluated once all of them have been loaded
+        if !module_loader.has_failures() {
+            module_loader.eval_dependencies()?;
+        }
 
         let mut main = module_loader.merge_direct_dependencies()?;
         main.is_dirty = were_any_deps_dirty;
-- 
2.43.0


From 2ba4bc0d265f4debc5db387e3d11e44b32063179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 34/54] fix: using the same module twice crashed the compiler

---
 src/module_loader/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index a036ad0..d5d7ce7 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -104,13 +104,12 @@ impl ModuleLoader {
                     .into_inner()?,
             ))
         } else {
-            let mut loaded = self.loaded.write()?;
+            let loaded = self.loaded.read()?;
             let mut main_module = self.main_module;
 
             for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
+                // it has been loaded, otherwise there would have been a failure
+                main_module.scope.merge(&loaded[req_path].scope);
             }
 
             Ok(main_module)
@@ -130,7 +129,11 @@ impl ModuleLoader {
 
         // load all of the direct dependencies
         for p in &self.main_module.required_modules {
-            let direct_dep_node = dep_graph.add_node(p.clone());
+            // the same module can be required more than once
+            let direct_dep_node = loaded_nodes
+                .get(p)
+                .copied()
+                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
             loaded_nodes.insert(p, direct_dep_node);
             dep_graph.add_edge(main_node, direct_dep_node, ());
         }
-- 
2.43.0


From e52db864bd373d3ea40608e39c0b85f583cb521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 35/54] fix: --no-cache and key/values used the main module's
 object file

---
 src/compiler/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..a990be3 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,8 +44,14 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        // what is compiled with key/values is only valid for those
+        let use_object_file = self.config.use_cache && self.config.key_values.is_empty();
+
+        let main_module = if use_object_file {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
@@ -56,7 +62,7 @@ impl Compiler {
             main_module = self.eval(main_module)?;
             main_module.needs_eval = false;
 
-            if self.config.use_cache {
+            if use_object_file {
                 debug!(
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
-- 
2.43.0


From 73678143e5c96eac99b860676f525ff273133c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 36/54] fix: object files compiled from another directory made
 the compilation fail

---
 src/module/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index a9c5a02..ef58824 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -74,11 +74,11 @@ impl Module {
         let filename = loader_root
             .as_ref()
             .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
+        Self::load_from_object_code_from_filename(&filename)
     }
 
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
+    fn load_from_object_code_from_filename(source_filename: &path::Path) -> Option<Self> {
+        let filename = source_filename.with_extension("csvpo");
 
         if !filename.exists() {
             return None;
@@ -89,7 +89,7 @@ impl Module {
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok(loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -99,6 +99,12 @@ impl Module {
             return None;
         };
 
+        // it could have been compiled from another directory or from a file which only differs in
+        // its extension
+        if loaded_module.source_code.filename != source_filename {
+            return None;
+        }
+
         Some(loaded_module)
     }
 
@@ -148,8 +154,7 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
-        {
+        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(&filename) {
             loaded_module.check_if_is_dirty()?;
 
             // if we have a clean cache read we can just return that, otherwise we'll need to
-- 
2.43.0


From e27955a1cf66e77cf3422a55801c018a420dc039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 37/54] fix: object files were used although a module they
 depend on has changed, or made the loader hang

---
 src/module/mod.rs        | 55 +++++++++++++++++++++-------------
 src/module_loader/mod.rs | 65 +++++++++++++++++++++-------------------
 2 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index ef58824..811f201 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -158,8 +158,9 @@ impl Module {
             loaded_module.check_if_is_dirty()?;
 
             // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
+            // reload below.  (the object file of a dependency has not been evaluated as a main
+            // module)
+            if !loaded_module.is_dirty && !loaded_module.needs_eval {
                 return Ok(loaded_module);
             }
         }
@@ -176,14 +177,21 @@ impl Module {
             Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
         {
             loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
+
+            // the object file of a main module has variables and functions which are not evaluated
+            // on their own, and the object file of a dependency always has it's spreadsheet left
+            // to be evaluated
+            if !loaded_module.is_dirty && loaded_module.needs_eval {
+                loaded_module.needs_eval = false;
+                return Ok(loaded_module);
+            }
         }
+
+        Self::load_from_source_relative(
+            module_path,
+            relative_to,
+            loader_root.as_ref().to_path_buf().clone(),
+        )
     }
 
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
@@ -208,15 +216,8 @@ impl Module {
         Ok(())
     }
 
-    /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
-    /// the original source code could possibly have any updates that we don't have.  In other
-    /// words does the source code have changes since this was compiled?
-    ///
-    /// # Errors
-    ///
-    /// * `Error::SourceCodeError` - if unable to stat the source code file
-    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
-    pub fn check_if_is_dirty(&mut self) -> Result<()> {
+    /// Has the source code of `dependency` changed since the object file of `self` was written?
+    pub(crate) fn is_outdated_by(&self, dependency: &Self) -> Result<bool> {
         let object_code_filename = self.source_code.object_code_filename();
 
         let obj_file_modified = fs::metadata(&object_code_filename)
@@ -226,16 +227,28 @@ impl Module {
                 message: format!("Unable to stat object code: {e}"),
             })?;
 
-        let source_file_modified = fs::metadata(&self.source_code.filename)
+        let source_file_modified = fs::metadata(&dependency.source_code.filename)
             .and_then(|s| s.modified())
             .map_err(|e| Error::SourceCodeError {
-                filename: self.source_code.filename.clone(),
+                filename: dependency.source_code.filename.clone(),
                 message: format!("Unable to stat source code: {e}"),
             })?;
 
+        Ok(source_file_modified > obj_file_modified)
+    }
+
+    /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
+    /// the original source code could possibly have any updates that we don't have.  In other
+    /// words does the source code have changes since this was compiled?
+    ///
+    /// # Errors
+    ///
+    /// * `Error::SourceCodeError` - if unable to stat the source code file
+    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
+    pub fn check_if_is_dirty(&mut self) -> Result<()> {
         // is the object code more recent than the source? (i.e., no changes since it was last
         // written)
-        if source_file_modified > obj_file_modified {
+        if self.is_outdated_by(self)? {
             self.is_dirty = true;
             self.needs_eval = true;
             return Ok(());
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index d5d7ce7..cc64fa8 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -7,7 +7,7 @@
 // * make it so that `---` is not required for dependent modules
 use crate::{compiler_error, Error, Module, ModulePath, Result, Scope};
 use log::debug;
-use petgraph::{algo, graph};
+use petgraph::{algo, graph, visit};
 use std::collections;
 use std::path;
 use std::sync;
@@ -163,40 +163,44 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
+    /// The modules which were loaded from an object file even though the source code of a module
+    /// which they (maybe indirectly) require has changed since that was written.
+    fn dirty_nodes(&self) -> Result<collections::HashSet<ModulePath>> {
+        let loaded = self.loaded.read()?;
         let dep_graph = self.load_dependency_graph();
+        // just assume that the main module is at index 0
+        let main_node = graph::NodeIndex::new(0);
 
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
+        let mut dirty_nodes = collections::HashSet::default();
+        for node in dep_graph.node_indices() {
+            let main_module = (node == main_node).then_some(&self.main_module);
 
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
+            for module in loaded.get(&dep_graph[node]).into_iter().chain(main_module) {
+                // it has just been loaded from source
+                if module.needs_eval {
+                    continue;
+                }
+
+                let mut required = visit::Dfs::new(&dep_graph, node);
+                while let Some(required_node) = required.next(&dep_graph) {
+                    if let Some(required_module) = loaded.get(&dep_graph[required_node]) {
+                        if module.is_outdated_by(required_module)? {
+                            dirty_nodes.insert(dep_graph[node].clone());
+                        }
                     }
                 }
             }
         }
 
-        dirty_nodes
+        Ok(dirty_nodes)
     }
 
     fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
+        let dirty_nodes = self.dirty_nodes()?;
         let mut loaded = sync::Arc::try_unwrap(self.loaded)
             .expect("Unable to access loaded")
             .into_inner()?;
+        let mut main_module = self.main_module;
 
         let is_dirty = !dirty_nodes.is_empty();
 
@@ -204,26 +208,27 @@ impl ModuleLoader {
             if let Some(n) = loaded.get_mut(&mp) {
                 n.is_dirty = true;
             }
+            if mp == main_module.module_path {
+                main_module.is_dirty = true;
+            }
         }
 
         Ok(Self {
             loaded: sync::Arc::new(sync::RwLock::new(loaded)),
             is_dirty,
+            main_module,
             ..self
         })
     }
 
     fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
+        let mut loaded = self.loaded.write()?;
+        for module in loaded.values_mut().chain([&mut self.main_module]) {
             if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
+                *module = Module::load_from_source_from_filename(
+                    module.module_path.clone(),
+                    module.source_code.filename.clone(),
+                )?;
             }
         }
 
-- 
2.43.0


From 4e783813f1efe6d3b90d852f72113b26868baf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 38/54] fix: errors in the command line arguments were not
 printed

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e6eabbd..7a739d5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,6 @@
 //! # csv+++
 //!
 use csvpp::{Compiler, Result};
-use log::error;
 use std::process;
 
 fn compile_from_cli() -> Result<()> {
@@ -19,7 +18,8 @@ fn compile_from_cli() -> Result<()> {
 
 fn main() {
     if let Err(e) = compile_from_cli() {
-        error!("{e}");
+        // the logger is only set up once the arguments have been read
+        eprintln!("{e}");
         process::exit(1)
     }
 }
-- 
2.43.0


From 7fb690033ea064df5b5d2f33b3a35aa6e1b1f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 39/54] fix: ids of Google sheets with - or _ were rejected

---
 src/output/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..bbdac57 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,15 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        // ids in the URLs of Google Sheets are URL-safe base64
+        if sheet_id
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+        {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, `-` and `_`.".to_string(),
             ))
         }
     }
-- 
2.43.0


From 75ca9612d125fc835fb34472adad5700047270fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 40/54] fix: report an output extension that is not UTF-8
 instead of panicking

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index bbdac57..1a30882 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From 3664edb3b01f6e2564d7e8ec3705c09562ecd814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 41/54] fix: the lock of the loaded modules was taken twice by
 the same thread

---
 src/module_loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index cc64fa8..1b7ffcc 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -166,8 +166,8 @@ impl ModuleLoader {
     /// The modules which were loaded from an object file even though the source code of a module
     /// which they (maybe indirectly) require has changed since that was written.
     fn dirty_nodes(&self) -> Result<collections::HashSet<ModulePath>> {
-        let loaded = self.loaded.read()?;
         let dep_graph = self.load_dependency_graph();
+        let loaded = self.loaded.read()?;
         // just assume that the main module is at index 0
         let main_node = graph::NodeIndex::new(0);
 
-- 
2.43.0


From ff12f055757413c3da294ad00fc70276c6336fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 42/54] fix: colors with non-ASCII characters panicked instead
 of being reported

---
 src/rgb/try_from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From 00b1f68a921ce04d986599ad7094387c41b5fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:54 +0000
Subject: [PATCH 43/54] fix: a doubled quote in the text of a cell option ended
 the text

---
 src/parser/cell_lexer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index d7818d4..d4d29e1 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -277,7 +277,8 @@ impl<'a> CellLexer<'a> {
 
         self.take_whitespace();
 
-        for c in self.input.chars() {
+        let mut chars = self.input.chars().peekable();
+        while let Some(c) = chars.next() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
             consumed += c.len_utf8();
@@ -288,6 +289,9 @@ impl<'a> CellLexer<'a> {
                     escape_mode = false;
                 } else if c == '\\' {
                     escape_mode = true;
+                } else if c == '\'' && chars.peek() == Some(&'\'') {
+                    // a doubled quote stands for the quote itself
+                    escape_mode = true;
                 } else if c == '\'' {
                     end_quote = true;
                     break;
-- 
2.43.0


From cc5b04990ea88056feaf38892fc56a7d7934d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 44/54] fix: the value of cyclic definitions differed from run
 to run

---
 src/ast/references.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/references.rs b/src/ast/references.rs
index da1a9dd..a9de788 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -2,8 +2,8 @@ use super::{Ast, Node, VariableValue};
 use crate::Scope;
 use std::collections;
 
-type References = collections::HashSet<String>;
-pub(super) type ReferencesIter = collections::hash_set::IntoIter<String>;
+type References = collections::BTreeSet<String>;
+pub(super) type ReferencesIter = collections::btree_set::IntoIter<String>;
 
 #[derive(Clone, Debug, Default, PartialEq)]
 pub(super) struct AstReferences {
-- 
2.43.0


From 54ac87db88062ff9d248ba593f37b96553d97328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 45/54] fix: modules were evaluated and their errors listed in
 a different order each run

---
 src/error/mod.rs         | 2 +-
 src/module_loader/mod.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error/mod.rs b/src/error/mod.rs
index 7fdc602..56b2a6c 100644
--- a/src/error/mod.rs
+++ b/src/error/mod.rs
@@ -65,7 +65,7 @@ pub enum Error {
 
     ModuleLoadError(String),
 
-    ModuleLoadErrors(collections::HashMap<ModulePath, Error>),
+    ModuleLoadErrors(collections::BTreeMap<ModulePath, Error>),
 
     /// An error encountered reading or doing an initial parse of the source code.
     SourceCodeError {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 1b7ffcc..d3d3d79 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -15,11 +15,11 @@ use std::thread;
 
 type ArcRwLock<T> = sync::Arc<sync::RwLock<T>>;
 
-type LoadedModules = collections::HashMap<ModulePath, Module>;
+type LoadedModules = collections::BTreeMap<ModulePath, Module>;
 
 type Attempted = ArcRwLock<collections::HashSet<ModulePath>>;
 type Loaded = ArcRwLock<LoadedModules>;
-type Failed = ArcRwLock<collections::HashMap<ModulePath, Error>>;
+type Failed = ArcRwLock<collections::BTreeMap<ModulePath, Error>>;
 
 #[derive(Debug)]
 pub(super) struct ModuleLoader {
-- 
2.43.0


From bbd4a4ef7dcb626fc12e14d3c095dad4cb1409fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 46/54] fix: which error of several definitions of a module is
 reported differed from run to run

---
 src/module_loader/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index d3d3d79..191a649 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -35,7 +35,11 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $eval_scope:expr, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // in the order of their names, rather than a different one each time
+        let definitions =
+            collections::BTreeMap::from_iter($scope.$functions_or_variables.clone().into_iter());
+
+        for (name, ast) in definitions {
             $scope.$functions_or_variables.insert(
                 name,
                 ast.eval(&$eval_scope, None)
-- 
2.43.0


From d23de1fad7d9e818709bcad0004cb438caffeed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 47/54] fix: which error of several rows is reported depended
 on the threads

---
 src/module/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 811f201..897121d 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -54,6 +54,9 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            .collect::<Vec<_>>()
+            // the first error, rather than the one which has been found first
+            .into_iter()
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
-- 
2.43.0


From 75338b3ddcb548e9fdd20c2456afd1f7d99b6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 48/54] fix: a damaged object file no longer exhausts memory

The lengths in an object file were trusted when allocating, so a damaged one
(or one written by another version) aborted the compiler.  Decode from a slice,
where lengths are checked against the data there is; object code which can't be
read is treated like object code which can't be decoded.
---
 src/module/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 897121d..27c3f75 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -87,12 +87,13 @@ impl Module {
             return None;
         }
 
-        let obj_file_reader = match fs::File::open(&filename) {
-            Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
-        };
+        // read the whole file before decoding: the lengths in a damaged file can't be trusted, and they
+        // are only checked against how much data there is when decoding from a slice
+        let loaded_module = fs::read(&filename)
+            .map_err(bincode::Error::from)
+            .and_then(|object_code| bincode::deserialize::<Self>(&object_code));
 
-        let Ok(loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
+        let Ok(loaded_module) = loaded_module else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
-- 
2.43.0


From 86746fdeeb369b2aa4842617dc3dc7b3d3b5b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 49/54] fix: report that .ods files can't be written instead of
 crashing

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..dac9d42 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing .ods files is not supported yet"))
     }
 }
 
-- 
2.43.0


From 49b08c1dbc98ae6ee0b708918c2392acdf396d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:37 +0000
Subject: [PATCH 50/54] fix: report cells which don't fit on an Excel worksheet
 instead of crashing

---
 src/target/excel/compilation_target.rs |  2 ++
 src/target/excel/mod.rs                | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..58b10c6 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -10,6 +10,8 @@ impl CompilationTarget for Excel<'_> {
     }
 
     fn write(&self, module: &Module) -> Result<()> {
+        self.check_size(module)?;
+
         let mut spreadsheet = self.open_spreadsheet()?;
 
         self.create_worksheet(&mut spreadsheet)?;
diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 340baab..7069e64 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -22,6 +22,10 @@ pub(crate) struct Excel<'a> {
     compiler: &'a Compiler,
 }
 
+// the size of a worksheet
+const MAX_COLUMNS: usize = 16_384;
+const MAX_ROWS: usize = 1_048_576;
+
 impl<'a> Excel<'a> {
     pub(crate) fn new<P: Into<path::PathBuf>>(compiler: &'a Compiler, path: P) -> Self {
         Self {
@@ -37,6 +41,21 @@ impl<'a> Excel<'a> {
             || os_str.eq_ignore_ascii_case("xltm")
     }
 
+    /// There is no cell at a position outside of the worksheet
+    fn check_size(&self, module: &Module) -> Result<()> {
+        let (x_offset, y_offset) = self.compiler.config.offset;
+        let rows = &module.spreadsheet.rows;
+        let columns = rows.iter().map(|r| r.cells.len()).max().unwrap_or(0);
+
+        if columns + x_offset as usize > MAX_COLUMNS || rows.len() + y_offset as usize > MAX_ROWS {
+            return Err(self.compiler.output_error(format!(
+                "The cells don't fit on a worksheet, which has {MAX_COLUMNS} columns and {MAX_ROWS} rows"
+            )));
+        }
+
+        Ok(())
+    }
+
     /// Since the excel library allows us to modify the speadsheet in place, the strategy here is
     /// to be as light-touch as possible and just loop through our values and set them (or not
     /// depending on the merge strategy).
-- 
2.43.0


From da799b97370b9ff1b0056bde0489ae9301c94448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 51/54] fix: object code with a malformed version is recompiled
 instead of crashing

---
 src/module/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 27c3f75..f9f0871 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -266,12 +266,10 @@ impl Module {
             )),
         };
 
-        let loaded_version = match semver::Version::parse(&self.compiler_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse loaded module version `{}`: {e}",
-                &self.compiler_version
-            )),
+        let Ok(loaded_version) = semver::Version::parse(&self.compiler_version) else {
+            // whatever wrote it, it wasn't this version
+            self.is_dirty = true;
+            return Ok(());
         };
 
         // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-- 
2.43.0


From 716aaa367b9b5711c5e1ddc43cdd995427384af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:04 +0000
Subject: [PATCH 52/54] fix: don't overwrite a source file called .csvpo with
 its object code

---
 src/module/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index f9f0871..a4e481b 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -201,6 +201,11 @@ impl Module {
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
         let object_code_filename = self.source_code.object_code_filename();
 
+        // a source file which is itself called `.csvpo` would be overwritten
+        if object_code_filename == self.source_code.filename {
+            return Ok(());
+        }
+
         debug!("Serializing {}", self.module_path);
         let encoded = bincode::serialize(&self).map_err(|e| Error::SourceCodeError {
             filename: object_code_filename.clone(),
-- 
2.43.0


From b1846a3e2a203ac5e9d7ecb7617fd75c1bf5b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:00 +0000
Subject: [PATCH 53/54] fix: field positions match the trimmed value's
 characters

---
 csvp/src/field_builder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..182624c 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -9,10 +9,23 @@ pub(crate) struct FieldBuilder {
 
 impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
+        let value = pf.value.trim().to_string();
+        let leading_whitespace = pf
+            .value
+            .chars()
+            .take_while(|c| c.is_whitespace())
+            .count();
+
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            // one for each character of the trimmed value
+            positions: pf
+                .positions
+                .into_iter()
+                .skip(leading_whitespace)
+                .take(value.chars().count())
+                .collect(),
+            value,
         }
     }
 }
-- 
2.43.0


From ff8574c841dbfaabc11d02b4b4ccc8429dc69fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:00 +0000
Subject: [PATCH 54/54] fix: error positions after a string spanning lines or a
 cell's options

---
 src/parser/ast_lexer/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 40475c7..651610c 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -60,7 +60,13 @@ impl<'a> AstLexer<'a> {
     ) -> ParseResult<AstLexer<'a>> {
         let token_library = TokenLibrary::library();
         let mut line_number = 0;
-        let mut line_offset = 0;
+        // in a field there can be options before the formula
+        let mut line_offset = field.as_ref().map_or(0, |f| {
+            f.value
+                .chars()
+                .count()
+                .saturating_sub(input.chars().count())
+        });
 
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
@@ -77,10 +83,7 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
                         tokens.push(TokenMatch {
@@ -96,12 +99,16 @@ impl<'a> AstLexer<'a> {
                         });
                     }
 
-                    if token == Token::Newline {
-                        // move line_offset back to the beginning
-                        line_offset = 0;
-                    } else {
-                        // positions are in characters but the match's length is in bytes
-                        line_offset += p[..m.len_full_match].chars().count();
+                    // positions are in characters but the match's length is in bytes
+                    let consumed = &p[..m.len_full_match];
+                    match consumed.rsplit_once('\n') {
+                        // a newline, or a token (i.e. a string) which spans lines.  a field has the
+                        // position of each of its characters so there we just count them
+                        Some((_, last_line)) if field.is_none() => {
+                            line_number += consumed.matches('\n').count();
+                            line_offset = last_line.chars().count();
+                        }
+                        _ => line_offset += consumed.chars().count(),
                     }
 
                     // move the input past the match
-- 
2.43.0

