From fca45f2c6d86bfec5d195e33d5a9d0f982f4db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 01/86] fix: escape characters that XML does not allow in
 attributes and text

Control characters, U+FFFE and U+FFFF were written as is in attributes (for
example in a worksheet name), and U+FFFE/U+FFFF in text, giving files that
aren't well-formed XML. Tabs and carriage returns in attributes were read back
as spaces.
---
 src/xmlwriter.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..366f73e 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -168,6 +168,15 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
         '\n' => Some("&#xA;"),
+
+        // Literal tabs and carriage returns are converted to spaces when an XML
+        // attribute is read.
+        '\t' => Some("&#x9;"),
+        '\r' => Some("&#xD;"),
+
+        // Other control and non-characters aren't allowed in XML.
+        '\x00'..='\x1F' | '\u{FFFE}' | '\u{FFFF}' => match_xml_char(ch),
+
         _ => None,
     }
 }
@@ -221,6 +230,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // The only other non-surrogate characters that aren't allowed in XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From 7d8678001186f013c99fcc10aa037f666e4ff014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 02/86] fix: escape literal _xHHHH_ text in rich strings

Text like "_x0041_" in a rich string segment was read back as "A".
---
 src/worksheet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..21ba3c7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15481,6 +15481,9 @@ impl Worksheet {
                 vec![]
             };
 
+            // Escape any literal _xHHHH_ strings, as for plain strings.
+            let string = &xmlwriter::escape_xml_escapes(string);
+
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-- 
2.43.0


From 7667461e5d5b72e883e7b203fca902460b9f76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 03/86] fix: write plain strings that look like rich string
 markup as text

A plain string such as "<r>text</r>" was written to the shared string table as
raw XML, and shared the entry of a rich string with the same markup.
---
 src/shared_strings.rs       | 13 +++++++------
 src/shared_strings_table.rs | 14 ++++++++++++++
 src/worksheet.rs            | 12 +++++++++---
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..5722030 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -62,20 +62,21 @@ impl SharedStrings {
     }
 
     // Write the <sst> string elements.
-    #[allow(clippy::from_iter_instead_of_collect)] // from_iter() is faster than collect() here.
     fn write_sst_strings(&mut self, string_table: &Arc<Mutex<SharedStringsTable>>) {
         let string_table = string_table.lock().unwrap();
 
-        let mut insertion_order_strings = Vec::from_iter(string_table.strings.iter());
-        insertion_order_strings.sort_by_key(|x| x.1);
+        let plain_strings = string_table.strings.iter().map(|x| (x, false));
+        let rich_strings = string_table.rich_strings.iter().map(|x| (x, true));
+
+        let mut insertion_order_strings: Vec<_> = plain_strings.chain(rich_strings).collect();
+        insertion_order_strings.sort_by_key(|((_, index), _)| *index);
         let whitespace = ['\t', '\n', ' '];
 
-        for (string, _) in insertion_order_strings {
+        for ((string, _), is_rich_string) in insertion_order_strings {
             let preserve_whitespace =
                 string.starts_with(whitespace) || string.ends_with(whitespace);
 
-            // Check if the string is a rich text element.
-            if string.starts_with("<r>") && string.ends_with("</r>") {
+            if is_rich_string {
                 xml_rich_si_element(&mut self.writer, string);
             } else {
                 xml_si_element(&mut self.writer, string, preserve_whitespace);
diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 0a23358..fa81857 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -19,6 +19,7 @@ pub struct SharedStringsTable {
     pub count: u32,
     pub unique_count: u32,
     pub strings: HashMap<Arc<str>, u32>,
+    pub rich_strings: HashMap<Arc<str>, u32>,
 }
 
 impl SharedStringsTable {
@@ -32,6 +33,7 @@ impl SharedStringsTable {
             count: 0,
             unique_count: 0,
             strings: HashMap::new(),
+            rich_strings: HashMap::new(),
         }
     }
 
@@ -46,6 +48,18 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of a rich string in the Shared String table. These are stored
+    // as XML so they are kept apart from plain strings with the same text.
+    pub(crate) fn shared_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        let index = *self.rich_strings.entry(key).or_insert_with(|| {
+            let index = self.unique_count;
+            self.unique_count += 1;
+            index
+        });
+        self.count += 1;
+        index
+    }
+
     // Add a string to the Shared String table to get a consistent ordering with
     // files generated by Excel, when testing. This doesn't increment the count.
     pub(crate) fn populate_string_index(&mut self, key: Arc<str>, index: u32) {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 21ba3c7..cbdc061 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15139,7 +15139,7 @@ impl Worksheet {
 
         if self.has_workbook_global_sst {
             let mut string_table = self.string_table.lock().unwrap();
-            string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
+            string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
 
         let cell = CellType::RichString {
@@ -18408,12 +18408,18 @@ impl Worksheet {
                 match cell {
                     CellType::String {
                         string, string_id, ..
+                    } => {
+                        if string_id.is_none() {
+                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            *string_id = Some(string_index);
+                        }
                     }
-                    | CellType::RichString {
+                    CellType::RichString {
                         string, string_id, ..
                     } => {
                         if string_id.is_none() {
-                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            let string_index =
+                                string_table.shared_rich_string_index(Arc::clone(string));
                             *string_id = Some(string_index);
                         }
                     }
-- 
2.43.0


From 02ebad4e654fd8096c2d92eef38a9c744a7d2460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 04/86] fix: apply the string length limit to the text of rich
 strings

The limit was applied to the internal XML markup so valid strings were rejected.
---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index cbdc061..843f7c5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15122,7 +15122,7 @@ impl Worksheet {
         }
 
         //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From 25cee2ceb6981208a22dea84be0d86c4d90aca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 05/86] fix: write note authors in the order of their ids

The authors were written in alphabetical order, so a note could refer to and
show the name of another author.
---
 src/packager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index bdda890..61f057b 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -897,7 +897,11 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The comments refer to the authors by id.
+                let mut note_authors: Vec<_> = worksheet.note_authors.iter().collect();
+                note_authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = note_authors.into_iter().map(|x| x.0.clone()).collect();
 
                 comment.assemble_xml_file();
 
-- 
2.43.0


From b4f11308691e4683cdce0cc945ad835cc5bfdb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 06/86] fix: return an error for empty defined names and
 malformed sheet names

Workbook::define_name() panicked for names like "" and "Sheet1!" and a sheet
name of a single apostrophe panicked on saving.
---
 src/utility.rs  | 2 +-
 src/workbook.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 4796619..88e12f2 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -731,7 +731,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
 
 // Unquote an Excel single quoted string.
 pub(crate) fn unquote_sheetname(sheetname: &str) -> String {
-    if sheetname.starts_with('\'') && sheetname.ends_with('\'') {
+    if sheetname.len() > 1 && sheetname.starts_with('\'') && sheetname.ends_with('\'') {
         let sheetname = sheetname[1..sheetname.len() - 1].to_string();
         sheetname.replace("''", "'")
     } else {
diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..0bdf7f4 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1552,7 +1552,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From 928a085291e6475770b87f9b3e34fea907e696be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 07/86] fix: use the right attribute name for the two digit
 text year ignore error

The attribute is "twoDigitTextYear": Excel reports a file with another attribute
as corrupt.
---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 843f7c5..d7dfadc 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20801,7 +20801,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From c2b538122edd59ab41f000fe43cabd58d47f6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 08/86] fix: check merge and table ranges for overlaps before
 changing any cells

A rejected merge_range() or add_table() had already overwritten the cells and
left stale overlap entries, which could make a later valid request fail or
panic. Also reject merged ranges that overlap tables, which Excel treats as
file corruption.
---
 src/worksheet.rs | 125 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 79 insertions(+), 46 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d7dfadc..aca0c12 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4972,8 +4972,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -4988,6 +4988,37 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Check the string length before any of the cells are changed.
+        if string.chars().count() > MAX_STRING_LEN {
+            return Err(XlsxError::MaxStringLengthExceeded);
+        }
+
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range or table.
+        // This is a major error in Excel so it is checked before any of the
+        // cells are changed. Note, the ranges are stored in a separate Vec to
+        // the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                let previous_cell_range = match self.merged_cells.get(&(row, col)) {
+                    Some(index) => self.merged_ranges.get(*index),
+                    None => match self.table_cells.get(&(row, col)) {
+                        Some(index) => self.table_ranges.get(*index),
+                        None => None,
+                    },
+                };
+
+                if let Some(previous_cell_range) = previous_cell_range {
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5006,25 +5037,11 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the merged range for overlap testing.
         let new_index = self.merged_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
 
@@ -8783,6 +8800,48 @@ impl Worksheet {
         table.cell_range = CellRange::new(first_row, first_col, last_row, last_col);
         table.initialize_columns(&default_headers)?;
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range or merged
+        // range. This is a major error in Excel so it is checked before any of
+        // the cells are changed. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                let previous_cell_range = match self.table_cells.get(&(row, col)) {
+                    Some(index) => self.table_ranges.get(*index),
+                    None => match self.merged_cells.get(&(row, col)) {
+                        Some(index) => self.merged_ranges.get(*index),
+                        None => None,
+                    },
+                };
+
+                if let Some(previous_cell_range) = previous_cell_range {
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((filter_type, filter_range)) = filter_data {
+                    if *filter_type == FilterType::Worksheet {
+                        return Err(XlsxError::AutofilterRangeOverlaps(
+                            table.cell_range.to_error_string(),
+                            filter_range.to_error_string(),
+                        ));
+                    }
+                }
+            }
+        }
+
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
@@ -8848,43 +8907,17 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the table for overlap testing.
         let new_index = self.table_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
+                self.table_cells.insert((row, col), new_index);
             }
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
-- 
2.43.0


From 4e86a1d30759f382eab8c6411b1ead942d1cffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 09/86] fix: a replaced or rejected autofilter leaves no stale
 cells or state behind

---
 src/worksheet.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index aca0c12..8a66ae5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8447,23 +8447,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Store the defined name information.
-        self.autofilter_defined_name.in_use = true;
-        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
-        self.autofilter_defined_name.first_row = first_row;
-        self.autofilter_defined_name.first_col = first_col;
-        self.autofilter_defined_name.last_row = last_row;
-        self.autofilter_defined_name.last_col = last_col;
-
         let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
 
-        // Clear any previous filters.
-        self.filter_conditions = BTreeMap::new();
-
-        // Store the cells with the autofilter dropdown for the autofit calc.
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
             let filter_data = self.cells_with_autofilter.get(&(first_row, col));
             if let Some((filter_type, filter_range)) = filter_data {
                 if *filter_type == FilterType::Table {
@@ -8473,7 +8461,25 @@ impl Worksheet {
                     ));
                 }
             }
+        }
 
+        // Store the defined name information.
+        self.autofilter_defined_name.in_use = true;
+        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
+        self.autofilter_defined_name.first_row = first_row;
+        self.autofilter_defined_name.first_col = first_col;
+        self.autofilter_defined_name.last_row = last_row;
+        self.autofilter_defined_name.last_col = last_col;
+
+        // Clear any previous filters.
+        self.filter_conditions = BTreeMap::new();
+
+        // Clear the cells of any previous worksheet autofilter.
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type != FilterType::Worksheet);
+
+        // Store the cells with the autofilter dropdown for the autofit calc.
+        for col in first_col..=last_col {
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From 6baadded39d26b068f411de135d95c994a3ddc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 10/86] fix: rejected writes leave the worksheet dimensions
 alone, and out-of-range empty strings are rejected

---
 src/worksheet.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8a66ae5..d48c61c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15081,6 +15081,11 @@ impl Worksheet {
         string: String,
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check row and col are in the allowed range.
+        if !self.check_dimensions_only(row, col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Empty strings are ignored by Excel unless they have a format in which
         // case they are treated as a blank cell.
         if string.is_empty() {
@@ -15090,16 +15095,14 @@ impl Worksheet {
             };
         }
 
-        // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
-            return Err(XlsxError::RowColumnLimitError);
-        }
-
         //  Check that the string is < Excel limit of 32767 chars.
         if string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store the cell in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15146,6 +15149,11 @@ impl Worksheet {
         raw_string: &str,
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check row and col are in the allowed range.
+        if !self.check_dimensions_only(row, col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Empty strings are ignored by Excel unless they have a format in which
         // case they are treated as a blank cell.
         if string.is_empty() {
@@ -15155,16 +15163,14 @@ impl Worksheet {
             };
         }
 
-        // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
-            return Err(XlsxError::RowColumnLimitError);
-        }
-
         //  Check that the string is < Excel limit of 32767 chars.
         if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store the cell in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15253,8 +15259,8 @@ impl Worksheet {
         is_dynamic: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -15264,6 +15270,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
-- 
2.43.0


From e310e202efb14a05ad913b2f958f73eaf620a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 11/86] fix: set_row_format() and set_column_format() on a
 changed row or column keep the format for cell intersections

---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d48c61c..a387c57 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6608,7 +6608,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8071,7 +8074,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From aefcfbfec9ef8a48af15490d3bb6dcf911070afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 12/86] fix: the last number format set on a Format wins, and
 merging keeps it

---
 src/format.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..1d08d32 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -828,6 +828,7 @@ impl Format {
     ///
     pub fn set_num_format(mut self, num_format: impl Into<String>) -> Format {
         self.num_format = num_format.into();
+        self.num_format_index = 0;
         self
     }
 
@@ -2528,11 +2529,8 @@ impl Format {
         self.quote_prefix |= other.quote_prefix;
         self.locked &= other.locked;
 
-        if self.num_format.is_empty() {
+        if self.num_format.is_empty() && self.num_format_index == 0 {
             self.num_format.clone_from(&other.num_format);
-        }
-
-        if self.num_format_index == 0 {
             self.num_format_index = other.num_format_index;
         }
 
-- 
2.43.0


From 7450cc4d26f8949946c5475c6f7483ed7125da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 13/86] fix: set_range_format() records the range in the
 worksheet dimensions

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a387c57..32d2ef8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10395,6 +10395,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object.
         let xf_index = self.format_xf_index(format);
 
-- 
2.43.0


From 1e86d78d2062abab41dd8a3d12fdeb1d97ea01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 14/86] fix: dynamic functions written with a format keep the
 format

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 32d2ef8..fb924ca 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15223,7 +15223,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From 03e0f9cf267c779a6acb4fa0237333053a59755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 15/86] fix: reject date and time strings and seconds that
 aren't valid

---
 src/datetime.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 32b9f0d..aa14854 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,37 +243,41 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
-        let date_parts: Vec<&str> = datetime.trim().split(&['-', 'T', 'Z', ' ', ':']).collect();
+        let date_parts: Vec<&str> = datetime
+            .trim()
+            .trim_end_matches(['T', 'Z'])
+            .split(&['-', 'T', ' ', ':'])
+            .collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
             let year = match date_parts.get(0) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u16>(token, datetime)?,
                 None => 0,
             };
 
             let month = match date_parts.get(1) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u8>(token, datetime)?,
                 None => 0,
             };
 
             let day = match date_parts.get(2) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u8>(token, datetime)?,
                 None => 0,
             };
 
             let hour = match date_parts.get(3) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u16>(token, datetime)?,
                 None => 0,
             };
 
             let min = match date_parts.get(4) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u8>(token, datetime)?,
                 None => 0,
             };
 
             let sec = match date_parts.get(5) {
-                Some(token) => token.parse::<f64>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<f64>(token, datetime)?,
                 None => 0.0,
             };
 
@@ -282,17 +286,17 @@ impl ExcelDateTime {
         // Match time only.
         else if datetime.contains(':') {
             let hour = match date_parts.get(0) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u16>(token, datetime)?,
                 None => 0,
             };
 
             let min = match date_parts.get(1) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<u8>(token, datetime)?,
                 None => 0,
             };
 
             let sec = match date_parts.get(2) {
-                Some(token) => token.parse::<f64>().unwrap_or_default(),
+                Some(token) => Self::parse_token::<f64>(token, datetime)?,
                 None => 0.0,
             };
 
@@ -931,6 +935,13 @@ impl ExcelDateTime {
         self
     }
 
+    // Parse one of the numeric parts of a date/time string.
+    fn parse_token<T: std::str::FromStr>(token: &str, datetime: &str) -> Result<T, XlsxError> {
+        token
+            .parse::<T>()
+            .map_err(|_| XlsxError::DateTimeParseError(datetime.to_string()))
+    }
+
     // Common validation routine for year, month, day methods.
     fn validate_ymd(year: u16, month: u8, day: u8) -> Result<(), XlsxError> {
         let mut months = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
@@ -976,7 +987,7 @@ impl ExcelDateTime {
         }
 
         // Excel only supports milli-seconds.
-        if sec > 59.999 {
+        if !(0.0..=59.999).contains(&sec) {
             return Err(XlsxError::DateTimeRangeError(format!(
                 "Seconds: '{sec}' outside Excel range of 0-59.999"
             )));
-- 
2.43.0


From f8ab27572357bcd369cd4992612a603d61cb8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 16/86] fix: write valid UTC dates for serial, time only and
 fractional datetimes in document properties

---
 src/datetime.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index aa14854..a106535 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1289,10 +1289,24 @@ impl ExcelDateTime {
     // Convert to UTC date in RFC 3339 format. This is used in custom
     // properties.
     pub(crate) fn to_rfc3339(&self) -> String {
-        format!(
-            "{}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-            self.year, self.month, self.day, self.hour, self.min, self.sec
-        )
+        // Convert the Excel serial datetime to whole seconds relative to the Unix
+        // epoch. This normalizes serial datetimes, times without dates, and
+        // times greater than 24 hours.
+        let milliseconds = (self.to_excel() * 24.0 * 60.0 * 60.0 * 1000.0).round();
+        let mut timestamp = (milliseconds / 1000.0).floor() as i64;
+
+        // Adjust for the 1900-02-29 date, in the Excel epoch, that doesn't exist.
+        if timestamp < 60 * DAY_SECONDS as i64 {
+            timestamp += DAY_SECONDS as i64;
+        }
+        timestamp -= 25_569 * DAY_SECONDS as i64;
+
+        // Shift the epoch by 400 years to handle dates before 1970.
+        let timestamp = (UNIX_EPOCH_PLUS_400 + timestamp) as u64;
+        let (year, month, day, hour, min, sec) = Self::unix_time_to_date_parts(timestamp);
+        let year = year - 400;
+
+        format!("{year}-{month:02}-{day:02}T{hour:02}:{min:02}:{sec:02}Z")
     }
 
     // Chrono date handling functions.
-- 
2.43.0


From 1a9e20336dad8b0a816cf536b46780f97f2b8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 17/86] fix: don't panic when quoting sheet names like 'A.1'

---
 src/utility.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.rs b/src/utility.rs
index 88e12f2..e3531f0 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -670,6 +670,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
         // Excel row and column limits.
         // --------------------------------------------------------------------
         else if (1..=3).contains(&string_part.len())
+            && string_part.chars().all(|c| c.is_ascii_uppercase())
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-- 
2.43.0


From e26d598bdd2afa2f86d5c69596cbe91fb0b598b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 18/86] fix: read chart ranges with quoted sheet names and
 reject long column names

---
 src/chart.rs   | 23 +++++++++--------------
 src/utility.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..445713a 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8366,18 +8366,23 @@ impl ChartRange {
     pub fn new_from_string(range_string: &str) -> ChartRange {
         // Default values. If the string parsing fails these values will remain
         // the same and it will flag an invalid result.
-        let mut sheet_name = "";
+        let mut sheet_name = String::new();
         let mut first_row = 0;
         let mut first_col = 0;
         let mut last_row = 0;
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        // The sheet name can also contain a '!' so split on the last one.
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
-                sheet_name = &range_string[..position];
+                // Clean up the sheet name and strip the quotes (and the doubled
+                // up quotes) from quoted sheet names.
+                let name = &range_string[..position];
+                sheet_name = utility::unquote_sheetname(name.strip_prefix('=').unwrap_or(name));
+
                 match range.find(':') {
                     // Multi-cell range like A1:A5.
                     Some(position) => {
@@ -8414,18 +8419,8 @@ impl ChartRange {
             }
         }
 
-        // Clean up the sheet name.
-        if sheet_name.starts_with('=') {
-            sheet_name = &sheet_name[1..];
-        }
-
-        // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
-
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
diff --git a/src/utility.rs b/src/utility.rs
index e3531f0..ecf8b5b 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -834,6 +834,14 @@ pub(crate) fn is_valid_range(range: &str) -> bool {
         return false;
     }
 
+    // The cells in the range should have a column of at most 3 letters.
+    if range.split(':').any(|cell| {
+        let column = cell.trim_end_matches(|c: char| c.is_ascii_digit());
+        column.is_empty() || column.len() > 3 || column.contains(|c: char| c.is_ascii_digit())
+    }) {
+        return false;
+    }
+
     true
 }
 
-- 
2.43.0


From 25da58c881fef03e6edb6ffba3b380c0c3af8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 19/86] fix: reject tables without a data row

---
 src/worksheet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index fb924ca..56502db 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8798,8 +8798,9 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Check that the table has at least one valid row.
-        if first_row == last_row && table.show_header_row {
+        // Check that the table has at least one valid data row.
+        let num_non_data_rows = u32::from(table.show_header_row) + u32::from(table.show_total_row);
+        if last_row - first_row < num_non_data_rows {
             return Err(XlsxError::TableError(
                 "Table must have at least one row".to_string(),
             ));
-- 
2.43.0


From 36ae2640bc2be5b04694b61af7497ce76f71d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 20/86] fix: allow a workbook with tables to be changed and
 resaved

---
 src/table.rs     | 22 +++++++++++++++-------
 src/workbook.rs  |  8 +++++---
 src/worksheet.rs | 10 ++++------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..5e55ced 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1165,6 +1165,16 @@ impl Table {
         Ok(())
     }
 
+    // Get the user defined table name or the default name based on the table
+    // index.
+    pub(crate) fn display_name(&self) -> String {
+        if self.name.is_empty() {
+            format!("Table{}", self.index)
+        } else {
+            self.name.clone()
+        }
+    }
+
     // Get the first row that can be used to write data.
     pub(crate) fn first_data_row(&self) -> RowNum {
         if self.show_header_row {
@@ -1213,11 +1223,7 @@ impl Table {
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = if self.name.is_empty() {
-            format!("Table{}", self.index)
-        } else {
-            self.name.clone()
-        };
+        let name = self.display_name();
 
         let mut attributes = vec![
             ("xmlns", schema),
@@ -1277,8 +1283,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1420,6 +1426,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1433,6 +1440,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            dxf_index: 0,
         }
     }
 
diff --git a/src/workbook.rs b/src/workbook.rs
index 0bdf7f4..e45e9b4 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2364,11 +2364,13 @@ impl Workbook {
         // Check for duplicate table names.
         for worksheet in &self.worksheets {
             for table in &worksheet.tables {
-                if seen_table_names.contains(&table.name.to_lowercase()) {
-                    return Err(XlsxError::TableNameReused(table.name.to_string()));
+                let table_name = table.display_name();
+
+                if seen_table_names.contains(&table_name.to_lowercase()) {
+                    return Err(XlsxError::TableNameReused(table_name));
                 }
 
-                seen_table_names.insert(table.name.to_lowercase());
+                seen_table_names.insert(table_name.to_lowercase());
             }
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56502db..a69dee8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16599,14 +16599,12 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
-                table.name = format!("Table{table_id}");
-            }
 
-            // Change any column format local index from local to global.
+            // Set the global index for any column format. The local index is
+            // kept since it is required again if the workbook is resaved.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From 373753bb4913cac8349ce4001569bf3798e97023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 21/86] fix: escape literal Excel escapes in table column names
 and labels

---
 src/table.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 5e55ced..5584254 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -12,7 +12,8 @@ use std::io::Cursor;
 use std::{collections::HashSet, fmt};
 
 use crate::xmlwriter::{
-    xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag, xml_start_tag,
+    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag,
+    xml_start_tag,
 };
 use crate::{utility::ToXmlBoolean, CellRange, Format, Formula, RowNum, XlsxError};
 
@@ -1275,10 +1276,18 @@ impl Table {
 
     // Write the <tableColumn> element.
     fn write_column(&mut self, index: usize, column: &TableColumn) {
-        let mut attributes = vec![("id", index.to_string()), ("name", column.name.clone())];
+        // The column strings must match the strings in the worksheet cells so
+        // any literal Excel style "_xHHHH_" escapes are also escaped.
+        let mut attributes = vec![
+            ("id", index.to_string()),
+            ("name", escape_xml_escapes(&column.name).to_string()),
+        ];
 
         if !column.total_label.is_empty() {
-            attributes.push(("totalsRowLabel", column.total_label.clone()));
+            attributes.push((
+                "totalsRowLabel",
+                escape_xml_escapes(&column.total_label).to_string(),
+            ));
         } else if column.total_function != TableFunction::None {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
-- 
2.43.0


From 91df56ed456aa3d00e194b6a20cb2b5e4d54ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 22/86] fix: use the current default height for rows without a
 user defined height

---
 src/worksheet.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a69dee8..b09f567 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6454,10 +6454,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.height = height,
+            Some(row_options) => row_options.height = Some(height),
             None => {
                 let row_options = RowOptions {
-                    height,
+                    height: Some(height),
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -6614,7 +6614,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index,
                     hidden: false,
                     level: 0,
@@ -7637,7 +7637,7 @@ impl Worksheet {
             Some(row_options) => row_options.hidden = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: true,
                     level: 0,
@@ -16837,7 +16837,9 @@ impl Worksheet {
                     // the "object_movement" is MoveAndSizeWithCellsAfter.
                     0u32
                 } else {
-                    (row_options.height * 4.0 / 3.0) as u32
+                    let height = row_options.height.unwrap_or(self.user_default_row_height);
+
+                    (height * 4.0 / 3.0) as u32
                 }
             }
             None => (self.user_default_row_height * 4.0 / 3.0) as u32,
@@ -17234,7 +17236,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: collapsed,
                     level: 1,
@@ -17261,7 +17263,7 @@ impl Worksheet {
             Some(row_options) => row_options.collapsed = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -18971,12 +18973,15 @@ impl Worksheet {
                 attributes.push(("customFormat", "1".to_string()));
             }
 
+            // Use the default row height if the user hasn't set a height.
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
+
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
-                attributes.push(("ht", row_options.height.to_string()));
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -18984,8 +18989,8 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
                 attributes.push(("customHeight", "1".to_string()));
@@ -19033,12 +19038,15 @@ impl Worksheet {
                 attributes.push(("customFormat", "1".to_string()));
             }
 
+            // Use the default row height if the user hasn't set a height.
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
+
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
-                attributes.push(("ht", row_options.height.to_string()));
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -19046,8 +19054,8 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
                 attributes.push(("customHeight", "1".to_string()));
@@ -20536,7 +20544,7 @@ impl Default for CellRange {
 
 #[derive(Clone)]
 struct RowOptions {
-    height: f64,
+    height: Option<f64>,
     xf_index: u32,
     level: u8,
     hidden: bool,
-- 
2.43.0


From 5ca6e7b9df799ce9527254a26d39412d4d7e348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 23/86] fix: set the worksheet outline level for first level
 groups

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b09f567..50938a5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17244,6 +17244,7 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_rows.insert(row, row_options);
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
             }
         }
 
@@ -17343,6 +17344,7 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_cols.insert(column, col_options);
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
             }
         }
 
-- 
2.43.0


From d990a723ed30fe48cb03cc67b2e465af7b470efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 24/86] fix: leave the worksheet unchanged when a group of rows
 or columns is rejected

---
 src/worksheet.rs | 70 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 50938a5..ac36281 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -7008,10 +7008,16 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        // The row after the collapsed group must also be in the allowed range.
+        let next_row = last_row.saturating_add(1);
+        if !self.check_dimensions_only(next_row, 0) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_rows(first_row, last_row, true)
+        self.set_grouped_rows(first_row, last_row, true)?;
+
+        // Set the collapsed property to the row after the collapsed group.
+        self.set_collapsed_row(next_row)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7382,10 +7388,16 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        // The column after the collapsed group must also be in the allowed range.
+        let next_col = last_col.saturating_add(1);
+        if !self.check_dimensions_only(0, next_col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        self.set_grouped_columns(first_col, last_col, true)?;
 
-        self.set_grouped_columns(first_col, last_col, true)
+        // Set the collapsed property to the column after the collapsed group.
+        self.set_collapsed_column(next_col)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
@@ -17187,11 +17199,8 @@ impl Worksheet {
         last_row: RowNum,
         collapsed: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Get a suitable minimum value for the dimension check/set.
-        let min_col = self.get_min_col();
-
         // Check rows are in the allowed range.
-        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+        if !self.check_dimensions_only(first_row, 0) || !self.check_dimensions_only(last_row, 0) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17200,6 +17209,24 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits, before changing
+        // any of the rows.
+        for row in first_row..=last_row {
+            if let Some(row_options) = self.changed_rows.get(&row) {
+                if row_options.level >= 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
+        // Get a suitable minimum value for the dimension check/set.
+        let min_col = self.get_min_col();
+
+        // Check and store the row dimensions.
+        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17286,11 +17313,8 @@ impl Worksheet {
         last_col: ColNum,
         collapsed: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Get a suitable minimum value for the dimension check/set.
-        let min_row = self.get_min_row();
-
         // Check columns are in the allowed range.
-        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+        if !self.check_dimensions_only(0, first_col) || !self.check_dimensions_only(0, last_col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17299,6 +17323,24 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits, before changing
+        // any of the columns.
+        for column in first_col..=last_col {
+            if let Some(column_options) = self.changed_cols.get(&column) {
+                if column_options.level >= 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
+        // Get a suitable minimum value for the dimension check/set.
+        let min_row = self.get_min_row();
+
+        // Check and store the column dimensions.
+        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 1b26a5e923c90829775c2e3f6f443a5dfca78c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 25/86] fix: allow local defined names for sheet names that
 contain a '!'

---
 src/workbook.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index e45e9b4..b13331f 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1538,7 +1538,8 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        // The sheet name can also contain a '!' so split on the last one.
+        match name.rfind('!') {
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
-- 
2.43.0


From 5e2707048e190328bc6f11cf4b363c36c407b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 26/86] fix: write the outline level of rows in constant memory
 worksheets

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ac36281..2d5ca36 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19104,6 +19104,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 6ca4963d8b8e878ed161505ca9777ddae99f7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 27/86] fix: report truncated image data as an error instead of
 panicking

---
 src/image.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..48202aa 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -897,10 +897,11 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
-        let png_marker = &data[1..4];
+        // Image data that is too short for a marker is of an unknown type.
+        let png_marker = data.get(1..4).unwrap_or_default();
         let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
-        let bmp_marker = &data[0..2];
-        let gif_marker = &data[0..4];
+        let bmp_marker = data.get(0..2).unwrap_or_default();
+        let gif_marker = data.get(0..4).unwrap_or_default();
 
         if png_marker == "PNG".as_bytes() {
             self.process_png(&data);
@@ -942,7 +943,7 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
+            let marker = data.get(offset + 4..offset + 8).unwrap_or_default();
             let length = unpack_u32_from_be_bytes(data, offset);
 
             // Read the image dimensions.
@@ -953,7 +954,7 @@ impl Image {
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
+                let units = data.get(offset + 16).unwrap_or(&0);
                 let x_density = unpack_u32_from_be_bytes(data, offset + 8);
                 let y_density = unpack_u32_from_be_bytes(data, offset + 12);
 
@@ -968,7 +969,7 @@ impl Image {
                 break;
             }
 
-            offset = offset + length as usize + 12;
+            offset = offset.saturating_add(length as usize).saturating_add(12);
         }
 
         self.width = f64::from(width);
@@ -1006,7 +1007,7 @@ impl Image {
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
+                let units = data.get(offset + 11).unwrap_or(&0);
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
 
@@ -1185,19 +1186,32 @@ impl XlsxImageType {
     }
 }
 
-// Some helper functions to extract 2 and 4 byte integers from image data.
+// Some helper functions to extract 2 and 4 byte integers from image data. Values
+// beyond the end of truncated data are read as 0.
 fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+    match data.get(offset..offset + 2) {
+        Some(bytes) => u16::from_be_bytes(bytes.try_into().unwrap()),
+        None => 0,
+    }
 }
 
 fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+    match data.get(offset..offset + 2) {
+        Some(bytes) => u16::from_le_bytes(bytes.try_into().unwrap()),
+        None => 0,
+    }
 }
 
 fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+    match data.get(offset..offset + 4) {
+        Some(bytes) => u32::from_be_bytes(bytes.try_into().unwrap()),
+        None => 0,
+    }
 }
 
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+    match data.get(offset..offset + 4) {
+        Some(bytes) => u32::from_le_bytes(bytes.try_into().unwrap()),
+        None => 0,
+    }
 }
-- 
2.43.0


From 7205f055139064d97ff140eacea269c638db76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 28/86] fix: read the height of top-down BMP images

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index 48202aa..b27f6e8 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1053,6 +1053,9 @@ impl Image {
         let width = unpack_u32_from_le_bytes(data, 18);
         let height = unpack_u32_from_le_bytes(data, 22);
 
+        // The height is a signed value that is negative for top-down bitmaps.
+        let height = (height as i32).unsigned_abs();
+
         self.width = f64::from(width);
         self.height = f64::from(height);
         self.width_dpi = width_dpi;
-- 
2.43.0


From 766ba44ce46776ddee99227b0da79378d0d41813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 29/86] fix: skip the fill bytes between JPEG segments

---
 src/image.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index b27f6e8..442b470 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -994,6 +994,12 @@ impl Image {
             let marker = unpack_u16_from_be_bytes(data, offset);
             let length = unpack_u16_from_be_bytes(data, offset + 2);
 
+            // Skip the optional fill bytes before a marker.
+            if marker == 0xFFFF {
+                offset += 1;
+                continue;
+            }
+
             // Read the height and width in the 0xFFCn elements (except C4, C8
             // and CC which aren't SOF markers).
             if (marker & 0xFFF0) == 0xFFC0
-- 
2.43.0


From d47801ef1c3beb5624f05c26150b1b6562cc7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 30/86] fix: don't keep rows hidden by an autofilter hidden in
 later saves

---
 src/workbook.rs  | 14 +++++++++++++-
 src/worksheet.rs | 45 +++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index b13331f..b0d834d 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2030,11 +2030,23 @@ impl Workbook {
         }
     }
 
+    // Internal function to save the workbook and clean up afterwards.
+    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        let result = self.save_workbook(writer);
+
+        // Undo the row changes due to autofilters, between saves.
+        for worksheet in &mut self.worksheets {
+            worksheet.unhide_autofilter_rows();
+        }
+
+        result
+    }
+
     // Internal function to prepare the workbook and other component files for
     // writing to the xlsx file.
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
-    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+    fn save_workbook<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2d5ca36..7b1db27 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1559,6 +1559,8 @@ pub struct Worksheet {
     global_xf_indices: Vec<u32>,
     global_dxf_indices: Vec<u32>,
     changed_rows: HashMap<RowNum, RowOptions>,
+    autofilter_hidden_rows: Vec<(RowNum, bool)>,
+    autofilter_dimensions: Option<CellRange>,
     changed_cols: HashMap<ColNum, ColOptions>,
     page_setup_changed: bool,
     tab_color: Color,
@@ -1762,6 +1764,8 @@ impl Worksheet {
             global_xf_indices: vec![],
             global_dxf_indices: vec![],
             changed_rows: HashMap::new(),
+            autofilter_hidden_rows: vec![],
+            autofilter_dimensions: None,
             changed_cols: HashMap::new(),
             page_setup_changed: false,
             fit_to_page: false,
@@ -14791,6 +14795,10 @@ impl Worksheet {
             return;
         }
 
+        // Store the dimensions so that the hidden rows can be undone after the
+        // save.
+        self.autofilter_dimensions = Some(self.dimensions.clone());
+
         // Get the range that the autofilter applies to.
         let first_row = self.autofilter_defined_name.first_row + 1; // Skip header.
         let last_row = self.autofilter_defined_name.last_row;
@@ -14802,18 +14810,51 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide a row that is filtered out, and keep track of it if it wasn't already
+    // hidden by the user.
+    fn hide_autofilter_row(&mut self, row_num: RowNum) {
+        let row_options = self.changed_rows.get(&row_num);
+        let is_hidden = row_options.is_some_and(|row_options| row_options.hidden);
+        let has_options = row_options.is_some();
+
+        if !is_hidden {
+            self.autofilter_hidden_rows.push((row_num, has_options));
+        }
+
+        self.set_row_hidden(row_num).unwrap();
+    }
+
+    // Undo the changes made by hide_autofilter_rows() after the file has been
+    // saved, so that the user can change the filters, or the data, and save the
+    // workbook again.
+    pub(crate) fn unhide_autofilter_rows(&mut self) {
+        for (row_num, has_options) in mem::take(&mut self.autofilter_hidden_rows) {
+            if has_options {
+                if let Some(row_options) = self.changed_rows.get_mut(&row_num) {
+                    row_options.hidden = false;
+                }
+            } else {
+                self.changed_rows.remove(&row_num);
+            }
+        }
+
+        if let Some(dimensions) = self.autofilter_dimensions.take() {
+            self.dimensions = dimensions;
+        }
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
-- 
2.43.0


From 9b1764b898f889848c19d4c61544b01a0f356c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 31/86] fix: renumber chart axis ids when a workbook is saved
 again

---
 src/chart.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 445713a..9746e79 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -824,6 +824,7 @@ pub struct Chart {
     scale_height: f64,
     axis_ids: (u32, u32),
     axis2_ids: (u32, u32),
+    has_custom_axis_ids: bool,
     category_has_num_format: bool,
     chart_type: ChartType,
     chart_group_type: ChartType,
@@ -944,6 +945,7 @@ impl Chart {
 
             axis_ids: (0, 0),
             axis2_ids: (0, 0),
+            has_custom_axis_ids: false,
             series: vec![],
             category_has_num_format: false,
             chart_type,
@@ -2792,6 +2794,7 @@ impl Chart {
     #[doc(hidden)]
     pub fn set_axis_ids(&mut self, axis_id1: u32, axis_id2: u32) {
         self.axis_ids = (axis_id1, axis_id2);
+        self.has_custom_axis_ids = true;
     }
 
     /// Set default values for the secondary chart axis ids.
@@ -2815,7 +2818,8 @@ impl Chart {
 
     // Set chart unique axis ids.
     pub(crate) fn add_axis_ids(&mut self, chart_id: u32) {
-        if self.axis_ids.0 != 0 {
+        // The ids are regenerated on each save since the chart ids can change.
+        if self.has_custom_axis_ids {
             return;
         }
 
-- 
2.43.0


From 60ba488a5ab40ae4e70e4fd2433334549d3899fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 32/86] fix: close the ext element of data bars in a worksheet
 with sparklines

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7b1db27..9c3e435 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19850,6 +19850,7 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19863,10 +19864,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
-        xml_end_tag(&mut self.writer, "ext");
-
         xml_end_tag(&mut self.writer, "extLst");
     }
 
-- 
2.43.0


From 4d47cbba566d7792ab8b31b146c6c6e840136d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 33/86] fix: don't keep the content types of replaced images in
 later saves

---
 src/worksheet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9c3e435..c7d21c0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16923,6 +16923,12 @@ impl Worksheet {
         self.table_relationships.clear();
         self.vml_drawing_relationships.clear();
         self.background_relationships.clear();
+
+        // The image types are set again for the images used in the next save.
+        self.image_types = [false; NUM_IMAGE_FORMATS];
+        for image in &self.embedded_images {
+            self.image_types[image.image_type.clone() as usize] = true;
+        }
     }
 
     // Check if any external relationships are required.
-- 
2.43.0


From 975658a9f53b31a59693a7b7ea81d93dad2de8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 34/86] fix: don't keep the default active worksheet active in
 later saves

---
 src/workbook.rs  | 20 +++++++++++++++++++-
 src/worksheet.rs | 15 +++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index b0d834d..831a985 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -344,6 +344,7 @@ pub struct Workbook {
     dxf_indices: HashMap<Format, u32>,
     active_tab: u16,
     first_sheet: u16,
+    default_active_tab: bool,
     defined_names: Vec<DefinedName>,
     user_defined_names: Vec<DefinedName>,
     read_only_mode: u8,
@@ -411,6 +412,7 @@ impl Workbook {
             active_tab: 0,
             fill_count: 0,
             first_sheet: 0,
+            default_active_tab: false,
             border_count: 0,
             num_formats: vec![],
             read_only_mode: 0,
@@ -2034,6 +2036,13 @@ impl Workbook {
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         let result = self.save_workbook(writer);
 
+        // Undo the default active worksheet, so that the user can activate
+        // another worksheet before the next save.
+        if self.default_active_tab {
+            self.worksheets[self.active_tab as usize].unset_default_active();
+            self.default_active_tab = false;
+        }
+
         // Undo the row changes due to autofilters, between saves.
         for worksheet in &mut self.worksheets {
             worksheet.unhide_autofilter_rows();
@@ -2218,16 +2227,25 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        let mut has_active = false;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
                 active_index = i;
+                has_active = true;
             }
             if worksheet.first_sheet {
                 self.first_sheet = i as u16;
             }
         }
-        self.worksheets[active_index].set_active(true);
+
+        if has_active {
+            self.worksheets[active_index].set_active(true);
+        } else {
+            self.worksheets[active_index].set_default_active();
+            self.default_active_tab = true;
+        }
         self.active_tab = active_index as u16;
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index c7d21c0..360bb6e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1495,6 +1495,7 @@ pub struct Worksheet {
     pub(crate) active: bool,
     pub(crate) selected: bool,
     pub(crate) visible: Visible,
+    default_active_state: (bool, Visible),
     pub(crate) first_sheet: bool,
     pub(crate) has_local_string_table: bool,
     pub(crate) has_dynamic_arrays: bool,
@@ -1741,6 +1742,7 @@ impl Worksheet {
             active: false,
             selected: false,
             visible: Visible::Default,
+            default_active_state: (false, Visible::Default),
             first_sheet: false,
             has_local_string_table: false,
             has_vml: false,
@@ -14788,6 +14790,19 @@ impl Worksheet {
         }
     }
 
+    // Activate the worksheet as the default for the workbook, for one save.
+    pub(crate) fn set_default_active(&mut self) {
+        self.default_active_state = (self.selected, self.visible);
+        self.set_active(true);
+    }
+
+    // Undo the changes made by set_default_active() after the file has been
+    // saved.
+    pub(crate) fn unset_default_active(&mut self) {
+        self.active = false;
+        (self.selected, self.visible) = self.default_active_state;
+    }
+
     // Hide any rows in the autofilter range that don't match the autofilter
     // conditions, like Excel does at runtime.
     pub(crate) fn hide_autofilter_rows(&mut self) {
-- 
2.43.0


From aaab4fa5bec695ae9d3674326542f6c1329581a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 35/86] fix: don't keep note authors and visibility from
 previous saves

---
 src/worksheet.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 360bb6e..4e0aefb 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16516,14 +16516,12 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Clear any author names, apart from the default, from previous saves.
+        self.note_authors.retain(|_, id| *id == 0);
+
+        // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16554,6 +16552,11 @@ impl Worksheet {
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
 
+                // Set all notes visible if required.
+                if self.show_all_notes && note.is_visible.is_none() {
+                    vml_info.is_visible = true;
+                }
+
                 // Store the note vml data.
                 self.comments_vml_info.push(vml_info);
 
@@ -16933,6 +16936,8 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From 33051926a2d2d53b7f0bb0bef3bbd68e86d630e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 36/86] fix: use the current worksheet order for default vba
 names in later saves

---
 src/workbook.rs  | 4 +---
 src/worksheet.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 831a985..f322c16 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2175,9 +2175,7 @@ impl Workbook {
             // SheetN and not on the actual sheet name.
             if self.is_xlsm_file {
                 let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
-                    worksheet.vba_codename = Some(codename);
-                }
+                worksheet.default_vba_codename = Some(codename);
             }
 
             // Chartsheets shouldn't use constant memory mode.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4e0aefb..5eb8159 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1522,6 +1522,7 @@ pub struct Worksheet {
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) default_vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1841,6 +1842,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            default_vba_codename: None,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -17760,6 +17762,7 @@ impl Worksheet {
             && !self.fit_to_page
             && (self.tab_color == Color::Default || self.tab_color == Color::Automatic)
             && self.vba_codename.is_none()
+            && self.default_vba_codename.is_none()
             && !self.is_chartsheet
             && !self.outline_symbols_above
             && !self.outline_symbols_left
@@ -17768,7 +17771,11 @@ impl Worksheet {
         }
 
         let mut attributes = vec![];
-        if let Some(codename) = &self.vba_codename {
+        if let Some(codename) = self
+            .vba_codename
+            .as_ref()
+            .or(self.default_vba_codename.as_ref())
+        {
             attributes.push(("codeName", codename.clone()));
         }
         if !self.filter_conditions.is_empty() {
-- 
2.43.0


From 1323c2ecf51cbee5e8700b54a3101478e62be8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 37/86] fix: number header and footer images together with all
 other images

---
 src/workbook.rs  | 6 +-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index f322c16..a72aa38 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2368,11 +2368,7 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 5eb8159..7dc114a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16458,16 +16458,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From b963f09cdf3233377210a974e6bc44b393259164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 38/86] fix: number shape hyperlinks after the charts in a
 drawing's relationships

---
 src/worksheet.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7dc114a..63f8eac 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16409,7 +16409,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16621,7 +16621,6 @@ impl Worksheet {
         }
 
         let mut rel_id = self.drawing_relationships.len() as u32;
-        self.drawing_rel_ids.insert("Chart".to_string(), rel_id);
 
         for (cell, chart) in &mut self.charts.clone() {
             let row = cell.0;
-- 
2.43.0


From 11eb9e3602bea600b2003b798ed4c004e71fc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 39/86] fix: don't escape URLs again that contain any %xx
 escapes

---
 src/url.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..7ace07a 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -532,22 +532,9 @@ impl Url {
             return false;
         }
 
-        url.as_bytes().windows(3).any(|w| {
-            matches!(
-                w,
-                b"%25"
-                    | b"%22"
-                    | b"%20"
-                    | b"%3c"
-                    | b"%3e"
-                    | b"%5b"
-                    | b"%5d"
-                    | b"%5e"
-                    | b"%60"
-                    | b"%7b"
-                    | b"%7d"
-            )
-        })
+        url.as_bytes()
+            .windows(3)
+            .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
     }
 }
 
-- 
2.43.0


From 9a9e34285d978b3a5fd1e91c722e9cbe0b223292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 40/86] fix: keep the anchor of shape hyperlinks

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..37d44c9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -560,6 +560,7 @@ impl Shape {
     ///
     pub fn set_url(mut self, link: impl Into<Url>) -> Result<Shape, XlsxError> {
         let mut url = link.into();
+        url.is_object_link = true;
         url.initialize()?;
 
         self.url = Some(url);
-- 
2.43.0


From a1d5bec8c966f8cc46fafdf975fc3b6987e1c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 41/86] fix: keep the anchor of relative file hyperlinks in
 images

---
 src/url.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/url.rs b/src/url.rs
index 7ace07a..f15b459 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -451,6 +451,10 @@ impl Url {
             if self.is_object_link {
                 if is_relative_path {
                     self.relationship_link = self.link.replace('\\', "/");
+
+                    if !self.anchor.is_empty() {
+                        self.relationship_link = format!("{}#{}", self.relationship_link, self.anchor);
+                    }
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
                 }
-- 
2.43.0


From 0dd68f871a84f41c1da1d1641175df0ad2858887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 42/86] fix: don't share the relationship of image hyperlinks
 that differ in their anchor

---
 src/worksheet.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 63f8eac..d03ee00 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16315,11 +16315,12 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&hyperlink.relationship_link) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_rel_ids.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids
+                            .insert(hyperlink.relationship_link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16406,11 +16407,12 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&hyperlink.relationship_link) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids
+                            .insert(hyperlink.relationship_link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From 292e1f762c6e2d202081ab44ef9486a50387461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 43/86] fix: don't repeat the anchor in the hyperlinks of
 embedded images

---
 src/url.rs       |  3 ++-
 src/worksheet.rs | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index f15b459..5d32087 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -453,7 +453,8 @@ impl Url {
                     self.relationship_link = self.link.replace('\\', "/");
 
                     if !self.anchor.is_empty() {
-                        self.relationship_link = format!("{}#{}", self.relationship_link, self.anchor);
+                        self.relationship_link =
+                            format!("{}#{}", self.relationship_link, self.anchor);
                     }
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d03ee00..6916859 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15539,7 +15539,16 @@ impl Worksheet {
 
         // Store the image hyperlink, if any.
         if let Some(url) = &image.url {
-            self.hyperlinks.insert((row, col), url.clone());
+            let mut hyperlink = url.clone();
+
+            // The anchor is stored separately in a cell hyperlink.
+            hyperlink.link.clone_from(&url.original_url);
+            hyperlink.relationship_link.clone_from(&url.original_url);
+            hyperlink.is_object_link = false;
+            hyperlink.initialize()?;
+            hyperlink.is_object_link = true;
+
+            self.hyperlinks.insert((row, col), hyperlink);
         }
 
         // Get the index of the format object, if any.
-- 
2.43.0


From 1c479c1ee978fd642604db940dcddd5a28aa9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 44/86] fix: unhide a worksheet that is set as the first
 visible tab

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6916859..8afdcbd 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12550,7 +12550,7 @@ impl Worksheet {
         self.first_sheet = enable;
 
         // First visible worksheet cannot be hidden.
-        if self.selected {
+        if self.first_sheet {
             self.visible = Visible::Default;
         }
         self
-- 
2.43.0


From 5d1f5cbb99ce48706df83675ee7b532396dd52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 45/86] fix: allow the top left cell to be set back to the
 default

---
 src/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8afdcbd..403eab7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10063,8 +10063,9 @@ impl Worksheet {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-        // Ignore cell (0, 0) since that is the default top-left cell.
+        // Cell (0, 0) is the default top-left cell.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
-- 
2.43.0


From 03986861fff7d1b9adaac1ae46926871dc75a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 46/86] fix: don't hide numbers that satisfy a not equal filter
 on a string

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 403eab7..e167057 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15040,6 +15040,10 @@ impl Worksheet {
                                 }
                                 _ => {}
                             }
+                        } else if filter.criteria == FilterCriteria::NotEqualTo {
+                            // Numbers match "non-blanks", explained below, and
+                            // any other string that isn't equal to them.
+                            return number.to_string() != filter.string.trim();
                         }
                     }
                     CellType::Blank { .. } => {
-- 
2.43.0


From 8e441fb48bf6c48ef4ee91cca402e8da3cf23b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 47/86] fix: apply custom number filters to dates

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e167057..4a7773d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15025,7 +15025,7 @@ impl Worksheet {
                             }
                         }
                     }
-                    CellType::Number { number, .. } => {
+                    CellType::Number { number, .. } | CellType::DateTime { number, .. } => {
                         if filter.data_type == FilterDataType::Number {
                             match filter.criteria {
                                 FilterCriteria::EqualTo => return *number == filter.number,
-- 
2.43.0


From f8504df90d08651a1ff6ed514d99db694dd7f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 48/86] fix: reject custom filters without a condition

---
 src/worksheet.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4a7773d..7287696 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8652,10 +8652,13 @@ impl Worksheet {
         }
 
         // Check the filter condition have been set up correctly.
-        if filter_condition.list.is_empty()
-            && filter_condition.custom1.is_none()
-            && !filter_condition.should_match_blanks
-        {
+        let has_condition = if filter_condition.is_list_filter {
+            !filter_condition.list.is_empty() || filter_condition.should_match_blanks
+        } else {
+            filter_condition.custom1.is_some()
+        };
+
+        if !has_condition {
             let error =
                 "The 'filter_condition' doesn't have a data value or condition set.".to_string();
             return Err(XlsxError::ParameterError(error));
-- 
2.43.0


From e1eb40c5bc0182e5044b316b11a6193db3c7fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 49/86] fix: don't panic when writing after an embedded image
 in constant memory mode

---
 src/workbook.rs  | 24 +++++++++++++++++++++++-
 src/worksheet.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index a72aa38..08b11eb 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -332,6 +332,8 @@ pub struct Workbook {
     pub(crate) num_formats: Vec<String>,
     pub(crate) has_hyperlink_style: bool,
     pub(crate) embedded_images: Vec<Image>,
+    #[cfg(feature = "constant_memory")]
+    constant_memory_images: Arc<Mutex<Vec<Image>>>,
     pub(crate) vba_project: Vec<u8>,
     pub(crate) vba_signature: Vec<u8>,
     pub(crate) vba_codename: Option<String>,
@@ -426,6 +428,8 @@ impl Workbook {
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
             dxf_indices: HashMap::new(),
             embedded_images: vec![],
+            #[cfg(feature = "constant_memory")]
+            constant_memory_images: Arc::new(Mutex::new(vec![])),
             is_xlsm_file: false,
             vba_project: vec![],
             vba_signature: vec![],
@@ -571,6 +575,7 @@ impl Workbook {
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
@@ -644,6 +649,7 @@ impl Workbook {
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
@@ -692,6 +698,7 @@ impl Workbook {
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
@@ -734,6 +741,7 @@ impl Workbook {
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
@@ -2283,10 +2291,18 @@ impl Workbook {
     // map these local references to a workbook/global id that takes into
     // account duplicate images.
     fn prepare_embedded_images(&mut self) {
-        let mut embedded_images = vec![];
+        let mut embedded_images: Vec<Image> = vec![];
         let mut image_ids: HashMap<String, u32> = HashMap::new();
         let mut global_image_id = 0;
 
+        // The images in constant memory worksheets already have a fixed id.
+        #[cfg(feature = "constant_memory")]
+        for image in self.constant_memory_images.lock().unwrap().iter() {
+            global_image_id += 1;
+            embedded_images.push(image.clone());
+            image_ids.insert(image.hash.clone(), global_image_id);
+        }
+
         for worksheet in &mut self.worksheets {
             if worksheet.embedded_images.is_empty() {
                 continue;
@@ -2855,6 +2871,12 @@ impl Workbook {
             }
         }
 
+        // Set the image types of any embedded images in constant memory
+        // worksheets that aren't part of the workbook.
+        for image in &self.embedded_images {
+            package_options.image_types[image.image_type.clone() as usize] = true;
+        }
+
         // Map the sheet name and associated index so that we can map a sheet
         // reference in a Local/Sheet defined name to a worksheet index.
         for defined_name in &mut defined_names {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7287696..6cfe765 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1521,6 +1521,8 @@ pub struct Worksheet {
     pub(crate) has_embedded_image_descriptions: bool,
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
+    #[cfg(feature = "constant_memory")]
+    pub(crate) constant_memory_images: Arc<Mutex<Vec<Image>>>,
     pub(crate) vba_codename: Option<String>,
     pub(crate) default_vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
@@ -1838,6 +1840,8 @@ impl Worksheet {
             embedded_images: vec![],
             embedded_image_ids: HashMap::new(),
             global_embedded_image_indices: vec![],
+            #[cfg(feature = "constant_memory")]
+            constant_memory_images: Arc::new(Mutex::new(vec![])),
             has_embedded_image_descriptions: false,
             has_sparklines: false,
             sparklines: vec![],
@@ -15533,6 +15537,15 @@ impl Worksheet {
                 let image_id = self.embedded_image_ids.len() as u32;
                 self.embedded_image_ids.insert(image.hash.clone(), image_id);
                 self.embedded_images.push(image.clone());
+
+                // In constant memory mode the cell may be written before the
+                // workbook is saved so it requires a workbook level id now.
+                #[cfg(feature = "constant_memory")]
+                if self.use_constant_memory {
+                    let global_id = self.constant_memory_image_id(image);
+                    self.global_embedded_image_indices.push(global_id);
+                }
+
                 image_id
             }
         };
@@ -15650,6 +15663,22 @@ impl Worksheet {
         Ok((got, raw_string))
     }
 
+    // Get the workbook level id of an embedded image in constant memory mode.
+    #[cfg(feature = "constant_memory")]
+    fn constant_memory_image_id(&mut self, image: &Image) -> u32 {
+        let mut images = self.constant_memory_images.lock().unwrap();
+
+        let index = match images.iter().position(|other| other.hash == image.hash) {
+            Some(index) => index,
+            None => {
+                images.push(image.clone());
+                images.len() - 1
+            }
+        };
+
+        index as u32 + 1
+    }
+
     // Insert a cell value into the worksheet data table structure.
     fn insert_cell(&mut self, row: RowNum, col: ColNum, cell: CellType) {
         if self.use_constant_memory {
-- 
2.43.0


From c0682bda8e3133ac9dc57dabcc4b11720bf8843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 50/86] fix: write every row, once, when saving in constant
 memory mode

---
 src/worksheet.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6cfe765..c965e91 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18822,29 +18822,30 @@ impl Worksheet {
         let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
 
         // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
-            }
-        }
+        remaining_rows.extend(
+            self.changed_rows
+                .keys()
+                .filter(|row_num| **row_num >= self.current_row),
+        );
 
-        // Add the current row.
-        remaining_rows.push(self.current_row);
+        // Add the current row, if it has data.
+        if self.data_table.contains_key(&self.current_row) {
+            remaining_rows.push(self.current_row);
+        }
 
         // Remove any duplicate rows.
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
+        // If there are rows to write we move the final row ahead by one. This
+        // will start any subsequent write() on the next row, after a resave.
+        if let Some(last_row) = remaining_rows.last() {
+            remaining_rows.push(last_row + 1);
         }
 
+        // Each row is written when moving on from it to the next one.
+        remaining_rows.retain(|row_num| *row_num > self.current_row);
+
         // Flush all the remaining rows.
         for remaining_row in remaining_rows {
             self.flush_data_row(remaining_row);
-- 
2.43.0


From a323204e9951b4134e1b25cf209454e61e932129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 51/86] fix: read the dimensions of bmp images with an OS/2
 header

---
 src/image.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 442b470..7784c50 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1056,11 +1056,18 @@ impl Image {
         let width_dpi: f64 = 96.0;
         let height_dpi: f64 = 96.0;
 
-        let width = unpack_u32_from_le_bytes(data, 18);
-        let height = unpack_u32_from_le_bytes(data, 22);
+        let header_size = unpack_u32_from_le_bytes(data, 14);
+        let mut width = unpack_u32_from_le_bytes(data, 18);
+        let mut height = unpack_u32_from_le_bytes(data, 22);
 
         // The height is a signed value that is negative for top-down bitmaps.
-        let height = (height as i32).unsigned_abs();
+        height = (height as i32).unsigned_abs();
+
+        // The older OS/2 style header has 16 bit dimensions.
+        if header_size == 12 {
+            width = u32::from(unpack_u16_from_le_bytes(data, 18));
+            height = u32::from(unpack_u16_from_le_bytes(data, 20));
+        }
 
         self.width = f64::from(width);
         self.height = f64::from(height);
-- 
2.43.0


From 1c106fc1291efdf6dd4f6c177e8f80ee26ce7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 52/86] fix: keep the position of large objects within the
 worksheet

---
 src/worksheet.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c965e91..c2408da 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16819,28 +16819,30 @@ impl Worksheet {
         let width = object.width_scaled(); // Width of object frame.
         let height = object.height_scaled(); // Height of object frame.
 
-        let mut x_abs: u32 = 0; // Absolute distance to left side of object.
-        let mut y_abs: u32 = 0; // Absolute distance to top  side of object.
+        let mut x_abs: u64 = 0; // Absolute distance to left side of object.
+        let mut y_abs: u64 = 0; // Absolute distance to top  side of object.
 
         // Calculate the absolute x offset of the top-left vertex.
         for col in 0..col_start {
-            x_abs += self.column_pixel_width(col, object.object_movement());
+            x_abs += u64::from(self.column_pixel_width(col, object.object_movement()));
         }
-        x_abs += x1;
+        x_abs += u64::from(x1);
 
         // Calculate the absolute y offset of the top-left vertex.
         for row in 0..row_start {
-            y_abs += self.row_pixel_height(row, object.object_movement());
+            y_abs += u64::from(self.row_pixel_height(row, object.object_movement()));
         }
-        y_abs += y1;
+        y_abs += u64::from(y1);
 
-        // Adjust start col for offsets that are greater than the col width.
+        // Adjust start col for offsets that are greater than the col width. The
+        // vertices can't be outside the worksheet so they stop at the last cell.
         loop {
             let col_size = self.column_pixel_width(col_start, object.object_movement());
-            if x1 >= col_size {
+            if x1 >= col_size && col_start < COL_MAX - 1 {
                 x1 -= col_size;
                 col_start += 1;
             } else {
+                x1 = x1.min(col_size);
                 break;
             }
         }
@@ -16848,10 +16850,11 @@ impl Worksheet {
         // Adjust start row for offsets that are greater than the row height.
         loop {
             let row_size = self.row_pixel_height(row_start, object.object_movement());
-            if y1 >= row_size {
+            if y1 >= row_size && row_start < ROW_MAX - 1 {
                 y1 -= row_size;
                 row_start += 1;
             } else {
+                y1 = y1.min(row_size);
                 break;
             }
         }
@@ -16867,10 +16870,11 @@ impl Worksheet {
         // Subtract the underlying cell widths to find the end cell.
         loop {
             let col_size = f64::from(self.column_pixel_width(col_end, object.object_movement()));
-            if x2 >= col_size {
+            if x2 >= col_size && col_end < COL_MAX - 1 {
                 x2 -= col_size;
                 col_end += 1;
             } else {
+                x2 = x2.min(col_size);
                 break;
             }
         }
@@ -16878,10 +16882,11 @@ impl Worksheet {
         //Subtract the underlying cell heights to find the end cell.
         loop {
             let row_size = f64::from(self.row_pixel_height(row_end, object.object_movement()));
-            if y2 >= row_size {
+            if y2 >= row_size && row_end < ROW_MAX - 1 {
                 y2 -= row_size;
                 row_end += 1;
             } else {
+                y2 = y2.min(row_size);
                 break;
             }
         }
@@ -16904,8 +16909,8 @@ impl Worksheet {
         DrawingInfo {
             from,
             to,
-            col_absolute: u64::from(x_abs),
-            row_absolute: u64::from(y_abs),
+            col_absolute: x_abs,
+            row_absolute: y_abs,
             width,
             height,
             name: object.name(),
-- 
2.43.0


From 0cbddaf4676d83592b42046e46b614ff4498ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:42 +0000
Subject: [PATCH 53/86] fix: only remove the file:// prefix from file links

---
 src/url.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 5d32087..fb40794 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -426,8 +426,10 @@ impl Url {
         } else if self.link.starts_with("file://") {
             // Handle links to other files or cells in other Excel files.
             self.link_type = HyperlinkType::File;
-            let link_path = self.link.replacen("file:///", "", 1);
-            let link_path = link_path.replacen("file://", "", 1);
+            let link_path = match self.link.strip_prefix("file:///") {
+                Some(link_path) => link_path.to_string(),
+                None => self.link.replacen("file://", "", 1),
+            };
 
             // Links to relative file paths should be stored without file:///.
             let is_relative_path = Self::relative_path(&link_path);
-- 
2.43.0


From 77e564efb0e6f4be863bdd2bdd5e50b3cc558670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 54/86] fix: write theme colors in color scales and data bars

---
 src/conditional_format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..56e106f 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3771,7 +3771,7 @@ impl ConditionalFormat2ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, "color", &attributes);
     }
@@ -4308,7 +4308,7 @@ impl ConditionalFormat3ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, "color", &attributes);
     }
@@ -5363,7 +5363,7 @@ impl ConditionalFormatDataBar {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color_tag: &str, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, color_tag, &attributes);
     }
-- 
2.43.0


From bb5d60ed9bf344f520a4375b754c16d326b9cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 55/86] fix: order of the sheetPr child elements

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c2408da..6fb8b50 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17841,15 +17841,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From a5fe147e4842d45fa60c61c840dd52e630351fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 56/86] fix: tab color set to automatic in fit to page
 worksheets

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6fb8b50..327aa72 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17869,7 +17869,7 @@ impl Worksheet {
 
     // Write the <tabColor> element.
     fn write_tab_color(&mut self) {
-        if self.tab_color == Color::Default {
+        if self.tab_color.is_auto_or_default() {
             return;
         }
 
-- 
2.43.0


From 8dd8b55f43dce058e1a8bf23abf05404bc4ec3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 57/86] fix: handle automatic colors in solid fills like
 default colors

---
 src/styles.rs   | 4 ++--
 src/workbook.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index ea15555..eb5b897 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -377,8 +377,8 @@ impl<'a> Styles<'a> {
         let mut background_color_attributes = fill.background_color.attributes();
         if !dxf_format
             && fill.pattern == FormatPattern::Solid
-            && fill.background_color != Color::Default
-            && fill.foreground_color != Color::Default
+            && !fill.background_color.is_auto_or_default()
+            && !fill.foreground_color.is_auto_or_default()
         {
             mem::swap(
                 &mut foreground_color_attributes,
diff --git a/src/workbook.rs b/src/workbook.rs
index 08b11eb..61cb056 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2654,8 +2654,8 @@ impl Workbook {
             // pattern they probably wanted a solid fill, so we fill in the
             // defaults.
             if (fill.pattern == FormatPattern::None || fill.pattern == FormatPattern::Solid)
-                && fill.background_color != Color::Default
-                && fill.foreground_color == Color::Default
+                && !fill.background_color.is_auto_or_default()
+                && fill.foreground_color.is_auto_or_default()
             {
                 fill.foreground_color = fill.background_color;
                 fill.background_color = Color::Default;
@@ -2663,8 +2663,8 @@ impl Workbook {
             }
 
             if (fill.pattern == FormatPattern::None || fill.pattern == FormatPattern::Solid)
-                && fill.background_color == Color::Default
-                && fill.foreground_color != Color::Default
+                && fill.background_color.is_auto_or_default()
+                && !fill.foreground_color.is_auto_or_default()
             {
                 fill.background_color = Color::Default;
                 fill.pattern = FormatPattern::Solid;
-- 
2.43.0


From f594d42386d27042ab1b1d38a2a6919aaf1ace50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 58/86] fix: reject signs in color strings

---
 src/color.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 2206662..b168c26 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -508,15 +508,11 @@ impl From<u32> for Color {
 /// Convert from a Html style color string line "#6495ED" into a [`Color`] enum value.
 impl From<&str> for Color {
     fn from(value: &str) -> Color {
-        let color = if let Some(hex_string) = value.strip_prefix('#') {
-            u32::from_str_radix(hex_string, 16)
-        } else {
-            u32::from_str_radix(value, 16)
-        };
-
-        match color {
-            Ok(color) => Color::RGB(color),
-            Err(_) => {
+        let hex_string = value.strip_prefix('#').unwrap_or(value);
+
+        match u32::from_str_radix(hex_string, 16) {
+            Ok(color) if !hex_string.starts_with('+') => Color::RGB(color),
+            _ => {
                 eprintln!("Error parsing '{value}' to RGB color.");
                 Color::Default
             }
-- 
2.43.0


From 72057f5663e19567edc8aca37a6fc372073b092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 59/86] fix: keep the default colors of rules and sparklines
 for unset colors

---
 src/conditional_format.rs | 20 ++++++++++----------
 src/sparkline.rs          | 14 +++++++-------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 56e106f..869fbfc 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3669,7 +3669,7 @@ impl ConditionalFormat2ColorScale {
     ///
     pub fn set_minimum_color(mut self, color: impl Into<Color>) -> ConditionalFormat2ColorScale {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.min_color = color;
         }
 
@@ -3688,7 +3688,7 @@ impl ConditionalFormat2ColorScale {
     ///
     pub fn set_maximum_color(mut self, color: impl Into<Color>) -> ConditionalFormat2ColorScale {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.max_color = color;
         }
 
@@ -4185,7 +4185,7 @@ impl ConditionalFormat3ColorScale {
     ///
     pub fn set_minimum_color(mut self, color: impl Into<Color>) -> ConditionalFormat3ColorScale {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.min_color = color;
         }
 
@@ -4204,7 +4204,7 @@ impl ConditionalFormat3ColorScale {
     ///
     pub fn set_midpoint_color(mut self, color: impl Into<Color>) -> ConditionalFormat3ColorScale {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.mid_color = color;
         }
 
@@ -4223,7 +4223,7 @@ impl ConditionalFormat3ColorScale {
     ///
     pub fn set_maximum_color(mut self, color: impl Into<Color>) -> ConditionalFormat3ColorScale {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.max_color = color;
         }
 
@@ -4663,7 +4663,7 @@ impl ConditionalFormatDataBar {
     ///
     pub fn set_fill_color(mut self, color: impl Into<Color>) -> ConditionalFormatDataBar {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.fill_color = color;
             self.border_color = color;
         }
@@ -4725,7 +4725,7 @@ impl ConditionalFormatDataBar {
     ///
     pub fn set_border_color(mut self, color: impl Into<Color>) -> ConditionalFormatDataBar {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.border_color = color;
         }
 
@@ -4786,7 +4786,7 @@ impl ConditionalFormatDataBar {
     ///
     pub fn set_negative_fill_color(mut self, color: impl Into<Color>) -> ConditionalFormatDataBar {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.negative_fill_color = color;
             self.negative_border_color = color;
         }
@@ -4852,7 +4852,7 @@ impl ConditionalFormatDataBar {
         color: impl Into<Color>,
     ) -> ConditionalFormatDataBar {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.negative_border_color = color;
         }
 
@@ -5212,7 +5212,7 @@ impl ConditionalFormatDataBar {
     ///
     pub fn set_axis_color(mut self, color: impl Into<Color>) -> ConditionalFormatDataBar {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.axis_color = color;
         }
 
diff --git a/src/sparkline.rs b/src/sparkline.rs
index 762efd7..e7d461d 100644
--- a/src/sparkline.rs
+++ b/src/sparkline.rs
@@ -806,7 +806,7 @@ impl Sparkline {
     ///
     pub fn set_sparkline_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.series_color = color;
         }
         self
@@ -821,7 +821,7 @@ impl Sparkline {
     ///
     pub fn set_high_point_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.high_point_color = color;
             self.show_high_point = true;
         }
@@ -837,7 +837,7 @@ impl Sparkline {
     ///
     pub fn set_low_point_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.low_point_color = color;
             self.show_low_point = true;
         }
@@ -853,7 +853,7 @@ impl Sparkline {
     ///
     pub fn set_first_point_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.first_point_color = color;
             self.show_first_point = true;
         }
@@ -869,7 +869,7 @@ impl Sparkline {
     ///
     pub fn set_last_point_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.last_point_color = color;
             self.show_last_point = true;
         }
@@ -885,7 +885,7 @@ impl Sparkline {
     ///
     pub fn set_negative_points_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.negative_points_color = color;
             self.show_negative_points = true;
         }
@@ -901,7 +901,7 @@ impl Sparkline {
     ///
     pub fn set_markers_color(mut self, color: impl Into<Color>) -> Sparkline {
         let color = color.into();
-        if color.is_valid() {
+        if color.is_valid() && !color.is_auto_or_default() {
             self.markers_color = color;
             self.show_markers = true;
         }
-- 
2.43.0


From 8b8cf593af4ecb0a68684c7b06f37cb8259c1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 60/86] fix: don't panic when the only page break is 0

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 327aa72..37e8826 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12906,7 +12906,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
+        if breaks.iter().any(|&row| row >= ROW_MAX) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -12946,7 +12946,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
+        if breaks.iter().any(|&col| col >= u32::from(COL_MAX)) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15082,7 +15082,7 @@ impl Worksheet {
         breaks.sort_unstable();
 
         // Remove invalid 0 row/col.
-        if breaks[0] == 0 {
+        if breaks.first() == Some(&0) {
             breaks.remove(0);
         }
 
-- 
2.43.0


From d858f454c7986f96b603582fabf6e4c173fd4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 61/86] fix: write the number of the first printed page

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 37e8826..f8ee65a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18503,6 +18503,11 @@ impl Worksheet {
             attributes.push(("pageOrder", "overThenDown".to_string()));
         }
 
+        // The first page number attribute has a default value of 1.
+        if self.first_page_number > 1 {
+            attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+        }
+
         if self.is_portrait {
             attributes.push(("orientation", "portrait".to_string()));
         } else {
@@ -18510,7 +18515,7 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From 15af2b0a0fc14f4a2136d3ff23b8d7a1785ff30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 62/86] fix: replace a print area by the entire worksheet

---
 src/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f8ee65a..6d51dd2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14136,8 +14136,9 @@ impl Worksheet {
         }
 
         // The print range is the entire worksheet, therefore it is the same
-        // as the default, so we can ignore it.
+        // as the default, so we only need to remove any previous print area.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name = DefinedName::new();
             return Ok(self);
         }
 
-- 
2.43.0


From e36eeaab0683be380a4c0213c4d0698ec9ea8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 63/86] fix: sort the names of print areas and autofilters by
 their names

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6d51dd2..d7200b5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20902,8 +20902,8 @@ impl DefinedName {
     // and modified versions of the actual defined name.
     pub(crate) fn set_sort_name(&mut self) {
         let mut sort_name = match self.name_type {
-            DefinedNameType::PrintArea => "Print_Area{}".to_string(),
-            DefinedNameType::Autofilter => "_FilterDatabase{}".to_string(),
+            DefinedNameType::PrintArea => "Print_Area".to_string(),
+            DefinedNameType::Autofilter => "_FilterDatabase".to_string(),
             DefinedNameType::PrintTitles => "Print_Titles".to_string(),
             _ => self.name.clone(),
         };
-- 
2.43.0


From deec2899234cfedfe409bed05bbbbdffb65cebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 64/86] fix: return an error for a local defined name with an
 empty sheet name

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 61cb056..06f9e88 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2882,7 +2882,7 @@ impl Workbook {
         for defined_name in &mut defined_names {
             let sheet_name = utility::unquote_sheetname(&defined_name.quoted_sheet_name);
 
-            if !sheet_name.is_empty() {
+            if !matches!(defined_name.name_type, DefinedNameType::Global) {
                 match sheet_names.get(&sheet_name) {
                     Some(index) => defined_name.index = *index,
                     None => {
-- 
2.43.0


From 7661e82ea32000467bad43e6acb2b8ced98a0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 65/86] fix: match extended conditional formats to their rules

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d7200b5..9ae8434 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18205,12 +18205,17 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // The guid and priority must match those of the standard conditional
+        // formats so the ranges are iterated in the same order.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From 79951d1ae554f5c7a4aa6c75c21294d698b23ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 66/86] fix: use the length in characters in text conditional
 formats

---
 src/conditional_format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 869fbfc..30df829 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3013,12 +3013,12 @@ impl ConditionalFormatText {
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From 7f63d460d66dd9bd6d1280191a3651b15d08150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 67/86] fix: escape quotes in the formulas of text conditional
 formats

---
 src/conditional_format.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 30df829..d654c42 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3006,20 +3006,24 @@ impl ConditionalFormatText {
         let formula = match rule {
             ConditionalFormatTextRule::Contains(text) => {
                 attributes.push(("type", "containsText".to_string()));
+                let text = text.replace('"', "\"\"");
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
             ConditionalFormatTextRule::DoesNotContain(text) => {
                 attributes.push(("type", "notContainsText".to_string()));
+                let text = text.replace('"', "\"\"");
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
                 let length = text.encode_utf16().count();
                 attributes.push(("type", "beginsWith".to_string()));
+                let text = text.replace('"', "\"\"");
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
                 let length = text.encode_utf16().count();
                 attributes.push(("type", "endsWith".to_string()));
+                let text = text.replace('"', "\"\"");
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
         };
-- 
2.43.0


From 1a32db7e04a0c27a84ff3cffced880b70bd21100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:17 +0000
Subject: [PATCH 68/86] fix: compare the border colors of data bars with each
 other

---
 src/conditional_format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index d654c42..73e1707 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5416,7 +5416,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.fill_color != self.negative_border_color {
+        if self.has_negative_border_color() {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5434,6 +5434,14 @@ impl ConditionalFormatDataBar {
         cursor_to_string(&writer)
     }
 
+    // Check if the negative border has a color that differs from the fill and
+    // border colors.
+    fn has_negative_border_color(&self) -> bool {
+        !self.border_off
+            && (self.fill_color != self.negative_border_color
+                || self.border_color != self.negative_border_color)
+    }
+
     // Write the <x14:dataBar> element.
     fn write_data_bar(writer: &mut Cursor<Vec<u8>>, data_bar: ConditionalFormatDataBar) {
         let mut attributes = vec![
@@ -5463,7 +5471,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.fill_color != data_bar.negative_border_color {
+        if data_bar.has_negative_border_color() {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
-- 
2.43.0


From 539562b061e37ca811a264dda1c292ee5c2b37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:19 +0000
Subject: [PATCH 69/86] fix: write the options of extended icon sets

---
 src/conditional_format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 73e1707..05e9333 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6176,6 +6176,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
-- 
2.43.0


From 17022c9c10a8da6db25cbe18e53540c2c0e5d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 70/86] fix: write a value for every icon of an extended icon
 set

---
 src/conditional_format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 05e9333..f2b997e 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6256,16 +6256,16 @@ impl ConditionalFormatIconSet {
         let value = icon.value.value.as_ref();
 
         match icon.rule_type {
-            ConditionalFormatType::Automatic
-            | ConditionalFormatType::Lowest
-            | ConditionalFormatType::Highest => {}
             ConditionalFormatType::Number => {
                 attributes.push(("type", "num".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
-            ConditionalFormatType::Percent => {
+            ConditionalFormatType::Lowest
+            | ConditionalFormatType::Highest
+            | ConditionalFormatType::Automatic
+            | ConditionalFormatType::Percent => {
                 attributes.push(("type", "percent".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
-- 
2.43.0


From 6c26e6591daf15896aa965a0797c463aee3373eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 71/86] fix: write the greater than option of extended icon
 sets

---
 src/conditional_format.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index f2b997e..1bed6d6 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6253,37 +6253,32 @@ impl ConditionalFormatIconSet {
     // Write the <x14:cfvo> element.
     fn write_x14_type(writer: &mut Cursor<Vec<u8>>, icon: &ConditionalFormatCustomIcon) {
         let mut attributes = vec![];
-        let value = icon.value.value.as_ref();
 
         match icon.rule_type {
-            ConditionalFormatType::Number => {
-                attributes.push(("type", "num".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
             ConditionalFormatType::Lowest
             | ConditionalFormatType::Highest
             | ConditionalFormatType::Automatic
             | ConditionalFormatType::Percent => {
                 attributes.push(("type", "percent".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
+            }
+            ConditionalFormatType::Number => {
+                attributes.push(("type", "num".to_string()));
             }
             ConditionalFormatType::Formula => {
                 attributes.push(("type", "formula".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
                 attributes.push(("type", "percentile".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
             }
         }
+
+        if icon.greater_than {
+            attributes.push(("gte", "0".to_string()));
+        }
+
+        xml_start_tag(writer, "x14:cfvo", &attributes);
+        xml_data_element_only(writer, "xm:f", &icon.value.value);
+        xml_end_tag(writer, "x14:cfvo");
     }
 }
 
-- 
2.43.0


From 9a1b0d8a24443d35719f1fe5c954d03cffb235da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 72/86] fix: write the stop if true option of extended icon
 sets

---
 src/conditional_format.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 1bed6d6..e7f285f 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6161,12 +6161,18 @@ impl ConditionalFormatIconSet {
     // Return an extended x14 rule for conditional formats that support it.
     pub(crate) fn x14_rule(&self, priority: u32, guid: &str) -> String {
         let mut writer = Cursor::new(Vec::with_capacity(2048));
-        let attributes = [
+        let mut attributes = vec![
             ("type", "iconSet".to_string()),
             ("priority", priority.to_string()),
-            ("id", guid.to_string()),
         ];
 
+        // Set the "Stop if True" property.
+        if self.stop_if_true {
+            attributes.push(("stopIfTrue", "1".to_string()));
+        }
+
+        attributes.push(("id", guid.to_string()));
+
         // Write the rule.
         xml_start_tag(&mut writer, "x14:cfRule", &attributes);
 
-- 
2.43.0


From 22ce68e33a9c7ead0118242463e6d44f5d4d32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 73/86] fix: quote a single double quote in conditional formats

---
 src/conditional_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index e7f285f..ae84d96 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6640,7 +6640,7 @@ impl ConditionalFormatValue {
         }
 
         // Ignore already quoted strings.
-        if self.value.starts_with('"') && self.value.ends_with('"') {
+        if self.value.len() > 1 && self.value.starts_with('"') && self.value.ends_with('"') {
             return;
         }
 
-- 
2.43.0


From 612eaca58a00320bcaf0567d3f2cfd038224162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 74/86] fix: quote empty strings in conditional formats

---
 src/conditional_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index ae84d96..b8efbfa 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6635,7 +6635,7 @@ impl ConditionalFormatValue {
     // Cell formats are quoted.
     pub(crate) fn quote_string(&mut self) {
         // Only quote string values.
-        if !self.is_string || self.value.is_empty() {
+        if !self.is_string {
             return;
         }
 
-- 
2.43.0


From e0d0addea2d4fba7c9e5433f23f81fda5e82a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 75/86] fix: ignore icon rules that Excel doesn't have

---
 src/conditional_format.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index b8efbfa..1a21a26 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6417,8 +6417,11 @@ impl ConditionalFormatCustomIcon {
                 }
             }
         }
-        // The highest option cannot be set for the minimum.
-        if rule_type != ConditionalFormatType::Highest {
+        // The highest, lowest and automatic options don't apply to icons.
+        if rule_type != ConditionalFormatType::Lowest
+            && rule_type != ConditionalFormatType::Highest
+            && rule_type != ConditionalFormatType::Automatic
+        {
             self.rule_type = rule_type;
             self.value = value;
         }
-- 
2.43.0


From 77602f1b7cdd0840c1166f02dc1f5f031ef2a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 76/86] fix: display images with their own resolution at the
 width and height set

---
 src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 7784c50..25aaeb8 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -330,7 +330,7 @@ impl Image {
         }
 
         // Set the scale width rather than the actual height.
-        self.scale_width = f64::from(width) / self.width;
+        self.scale_width = (f64::from(width) / self.width) * (self.width_dpi / 96.0);
         self
     }
 
@@ -351,7 +351,7 @@ impl Image {
         }
 
         // Set the scale height rather than the actual height.
-        self.scale_height = f64::from(height) / self.height;
+        self.scale_height = (f64::from(height) / self.height) * (self.height_dpi / 96.0);
         self
     }
 
-- 
2.43.0


From c5612a00be8d78878fe8d00437b6d7c1d1877d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 77/86] fix: keep the closing brace of an array constant at the
 end of a formula

---
 src/formula.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..8f82df3 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -750,17 +750,15 @@ impl Formula {
     /// `formula` - A string like type representing an Excel formula.
     ///
     pub fn new(formula: impl AsRef<str>) -> Formula {
-        // Remove array formula braces and the leading = if they exist.
+        // Remove array formula braces and the leading = if they exist. A closing
+        // brace without an opening one is part of an array constant.
         let mut formula = formula.as_ref();
         if let Some(stripped) = formula.strip_prefix('{') {
-            formula = stripped;
+            formula = stripped.strip_suffix('}').unwrap_or(stripped);
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // We need to escape future functions in a formula string. If the user
         // has already done this we simply copy the string. In both cases we
-- 
2.43.0


From 157fecd7b62a39d8418281fde11eff116850ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 78/86] fix: add function prefixes only to functions, not to
 names, sheet names or references that contain them

---
 src/formula.rs | 223 +++++++++++++++++++++----------------------------
 1 file changed, 93 insertions(+), 130 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 8f82df3..0c154a9 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -760,16 +760,9 @@ impl Formula {
             formula = stripped;
         }
 
-        // We need to escape future functions in a formula string. If the user
-        // has already done this we simply copy the string. In both cases we
-        // need to determine if it contains dynamic functions.
-        let (formula_string, has_dynamic_function) = if formula.contains("_xlfn.") {
-            // Already escaped.
-            Self::copy_escaped_formula(formula)
-        } else {
-            // Needs escaping.
-            Self::escape_formula(formula)
-        };
+        // Escape any future functions in the formula string, unless the user
+        // has already done it, and determine if it contains dynamic functions.
+        let (formula_string, has_dynamic_function) = Self::escape_formula(formula);
 
         Formula {
             formula_string,
@@ -833,160 +826,85 @@ impl Formula {
     }
 
     // Prefix any "future" functions in a formula with "_xlfn.". We parse the
-    // string to avoid replacements in string literal within the formula.
+    // string to avoid replacements in string literals, quoted sheet names and
+    // table references within the formula.
     fn escape_formula(formula: &str) -> (String, bool) {
-        let mut start_position = 0;
-        let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut scanner = FormulaScanner::default();
+        let mut token = String::new();
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
-        for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
+        for char in formula.chars() {
+            let is_quoted = scanner.is_quoted(char);
 
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
+            // Accumulate the possible function names. These contain the same
+            // characters as user defined names, such as "MY_SORT".
+            if !is_quoted && Self::is_name_char(char) {
+                token.push(char);
                 continue;
             }
 
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
-
-            // Simple state machine where we are either accumulating possible
-            // function names in a buffer for evaluation, or copying non-function
-            // name characters.
-            if in_function {
-                if !is_function_char {
-                    let token = &formula[start_position..current_position];
-
-                    // If the first non function char is an opening bracket then we
-                    // have found a function name.
-                    if char == '(' {
-                        // Check if function is an Excel "future" function.
-                        if let Some(function_type) = Self::future_functions(token) {
-                            // Add the future function prefix.
-                            escaped_formula.push_str("_xlfn.");
-
-                            // Some functions have an additional prefix.
-                            if *function_type == 2 {
-                                escaped_formula.push_str("_xlws.");
-                            }
+            // If the first non name char is an opening bracket then we have
+            // found a function name.
+            if char == '(' && !is_quoted {
+                if let Some(function) = token.strip_prefix("_xlfn.") {
+                    // The user has already escaped the function.
+                    let function = function.strip_prefix("_xlws.").unwrap_or(function);
+                    if let Some(function_type) = Self::future_functions(function) {
+                        has_dynamic_function |= *function_type > 0;
+                    }
+                } else if let Some(function_type) = Self::future_functions(&token) {
+                    // Add the future function prefix.
+                    escaped_formula.push_str("_xlfn.");
 
-                            // Check if the function is "dynamic".
-                            has_dynamic_function |= *function_type > 0;
-                        }
+                    // Some functions have an additional prefix.
+                    if *function_type == 2 {
+                        escaped_formula.push_str("_xlws.");
                     }
 
-                    // Copy the token, whether it is a function name or not.
-                    escaped_formula.push_str(token);
-                    escaped_formula.push(char);
-                    in_function = false;
+                    // Check if the function is "dynamic".
+                    has_dynamic_function |= *function_type > 0;
                 }
-            } else if is_function_char {
-                // Match the start of a possible function name.
-                start_position = current_position;
-                in_function = true;
-            } else {
-                escaped_formula.push(char);
             }
-        }
 
-        // Clean up any trailing buffer that wasn't a function.
-        if in_function {
-            escaped_formula.push_str(&formula[start_position..]);
+            // Copy the token, whether it is a function name or not.
+            escaped_formula.push_str(&token);
+            escaped_formula.push(char);
+            token.clear();
         }
 
+        // Clean up any trailing token that wasn't a function.
+        escaped_formula.push_str(&token);
+
         (escaped_formula, has_dynamic_function)
     }
 
-    // This is a version of the previous escape_formula() function that only
-    // checks to see if a user escaped string contains a dynamic function and
-    // returns a clone of the string.
-    fn copy_escaped_formula(formula: &str) -> (String, bool) {
-        let mut start_position = 0;
-        let mut in_function = false;
-        let mut in_string_literal = false;
-        let mut has_dynamic_function = false;
-
-        for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Ignore the string literal.
-            if in_string_literal {
-                continue;
-            }
-
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
-            let is_function_start_char = char.is_ascii_uppercase() || char.is_ascii_digit();
-
-            // Simple state machine where we accumulate possible function names
-            // in a buffer for evaluation.
-            if in_function {
-                if !is_function_char {
-                    let token = &formula[start_position..current_position];
-
-                    // If the first non function char is an opening bracket then we
-                    // have found a function name.
-                    if char == '(' {
-                        // Check if function is an Excel "future" function.
-                        if let Some(function_type) = Self::future_functions(token) {
-                            has_dynamic_function |= *function_type > 0;
-                        }
-                    }
-
-                    in_function = false;
-                }
-            } else if is_function_start_char {
-                // Match the start of a possible function name.
-                start_position = current_position;
-                in_function = true;
-            }
-        }
-
-        (formula.to_string(), has_dynamic_function)
+    // The characters that can be part of a function name or a defined name.
+    fn is_name_char(char: char) -> bool {
+        char.is_alphanumeric() || char == '.' || char == '_' || char == '\\' || char == '?'
     }
 
     // Escape/expand table functions. This mainly involves converting Excel 2010
     // "@" table ref to 2007 "[#This Row],". We parse the string to avoid
-    // replacements in string literals within the formula.
+    // replacements in string literals and quoted sheet names.
     pub(crate) fn escape_table_functions(mut self) -> Formula {
         if !self.formula_string.contains('@') {
             // No escaping required.
             return self;
         }
 
-        let mut in_string_literal = false;
+        let mut scanner = FormulaScanner::default();
         let mut escaped_formula = String::with_capacity(self.formula_string.len());
 
         for char in self.formula_string.chars() {
-            // Match the start/end of string literals to avoid escaping
-            // references in strings.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
-                continue;
-            }
+            // Skip string literals, sheet names and characters escaped with a
+            // single quote.
+            let is_escaped = scanner.is_escaped;
+            scanner.is_quoted(char);
+            let is_text = scanner.in_string_literal || scanner.in_sheet_name || is_escaped;
 
             // Replace table reference.
-            if char == '@' {
+            if char == '@' && !is_text {
                 escaped_formula.push_str("[#This Row],");
             } else {
                 escaped_formula.push(char);
@@ -1178,6 +1096,51 @@ impl Formula {
     }
 }
 
+// A scanner for the parts of a formula that contain user defined text: string
+// literals, quoted sheet names and bracketed table/workbook references.
+#[derive(Default)]
+struct FormulaScanner {
+    in_string_literal: bool,
+    in_sheet_name: bool,
+    bracket_depth: usize,
+    is_escaped: bool,
+}
+
+impl FormulaScanner {
+    // Move to the next character of the formula and return whether it is part
+    // of (or the delimiter of) some user defined text. In Excel the quotes in
+    // string literals and sheet names are doubled, so toggling the state will
+    // also match those. In bracketed references they are escaped with a single
+    // quote.
+    fn is_quoted(&mut self, char: char) -> bool {
+        if self.in_string_literal {
+            self.in_string_literal = char != '"';
+        } else if self.in_sheet_name {
+            self.in_sheet_name = char != '\'';
+        } else if self.bracket_depth > 0 {
+            if self.is_escaped {
+                self.is_escaped = false;
+            } else if char == '\'' {
+                self.is_escaped = true;
+            } else if char == '[' {
+                self.bracket_depth += 1;
+            } else if char == ']' {
+                self.bracket_depth -= 1;
+            }
+        } else if char == '"' {
+            self.in_string_literal = true;
+        } else if char == '\'' {
+            self.in_sheet_name = true;
+        } else if char == '[' {
+            self.bracket_depth = 1;
+        } else {
+            return false;
+        }
+
+        true
+    }
+}
+
 impl From<&str> for Formula {
     fn from(value: &str) -> Formula {
         Formula::new(value)
-- 
2.43.0


From 3ac3b7a2df4ecf72fb0fea4a20e404b3e7c41ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 79/86] fix: write formula results such as NaN and Infinity as
 text

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9ae8434..618360f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19390,7 +19390,7 @@ impl Worksheet {
         };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
@@ -19445,7 +19445,7 @@ impl Worksheet {
         let cm = if is_dynamic { r#" cm="1""# } else { "" };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-- 
2.43.0


From 3f312a645ad690c360a9f7aaf2c55684ee27532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:43 +0000
Subject: [PATCH 80/86] fix: escape formula results that look like escape
 sequences

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 618360f..782837c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19408,7 +19408,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19463,7 +19464,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
-- 
2.43.0


From e26dd68ebec3af6e13a72f94e06c2737b2725cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 81/86] fix: let autofit narrow columns without a width set by
 the user, and keep the widths that they set

---
 src/worksheet.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 782837c..a162a4d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8105,6 +8105,7 @@ impl Worksheet {
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
+                    user_width: 0.0,
                     xf_index,
                     hidden: false,
                     level: 0,
@@ -8176,6 +8177,7 @@ impl Worksheet {
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
+                    user_width: 0.0,
                     xf_index: 0,
                     hidden: true,
                     level: 0,
@@ -16089,20 +16091,23 @@ impl Worksheet {
             Some(col_options) => {
                 // Note, autofit() will only update a user defined value if is
                 // greater than it. All other conditions are simple updates.
-                if autofit && !col_options.autofit {
-                    if width > col_options.width {
-                        col_options.width = width;
-                        col_options.autofit = true;
-                    }
-                } else {
+                if !autofit {
                     col_options.width = width;
-                    col_options.autofit = autofit;
+                    col_options.user_width = width;
+                    col_options.autofit = false;
+                } else if width > col_options.user_width {
+                    col_options.width = width;
+                    col_options.autofit = true;
+                } else {
+                    col_options.width = col_options.user_width;
+                    col_options.autofit = false;
                 }
             }
             None => {
                 // Create a new column metadata object.
                 let col_options = ColOptions {
                     width,
+                    user_width: if autofit { 0.0 } else { width },
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -17500,6 +17505,7 @@ impl Worksheet {
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
+                    user_width: 0.0,
                     xf_index: 0,
                     hidden: collapsed,
                     level: 1,
@@ -17529,6 +17535,7 @@ impl Worksheet {
             None => {
                 let column_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
+                    user_width: 0.0,
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -20747,6 +20754,8 @@ struct RowOptions {
 #[derive(Clone, PartialEq)]
 struct ColOptions {
     width: f64,
+    // The width set by the user, or 0.0 if they didn't set one.
+    user_width: f64,
     xf_index: u32,
     level: u8,
     hidden: bool,
-- 
2.43.0


From c485c70975fe6aaf36acbd84e73787064265943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 82/86] fix: autofit long strings of narrow characters to their
 own width

---
 src/utility.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index ecf8b5b..208a881 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -1058,12 +1058,12 @@ pub fn cell_autofit_width(string: &str) -> u16 {
 pub(crate) fn pixel_width(string: &str) -> u16 {
     let mut length = 0;
 
-    // Limit the autofit width to Excel's limit of 1790 pixels.
-    if string.chars().count() > 233 {
-        return MAX_AUTOFIT_WIDTH_PIXELS;
-    }
-
     for char in string.chars() {
+        // Limit the autofit width to Excel's limit of 1790 pixels.
+        if length >= MAX_AUTOFIT_WIDTH_PIXELS {
+            break;
+        }
+
         match char {
             ' ' | '\'' => length += 3,
 
-- 
2.43.0


From 978318e13d88c1114375685345ceace9492ace3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 83/86] fix: autofit formula results of several lines to the
 widest line

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a162a4d..c63dd53 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17251,7 +17251,12 @@ impl Worksheet {
                                 if result.as_ref() == "0" || result.is_empty() {
                                     0
                                 } else {
-                                    utility::pixel_width(result)
+                                    let mut max = 0;
+                                    for segment in result.lines() {
+                                        let length = utility::pixel_width(segment);
+                                        max = cmp::max(max, length);
+                                    }
+                                    max
                                 }
                             }
 
-- 
2.43.0


From 6e3e88cae7ace570eb5e1524109f2e5748968159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 84/86] fix: unset_hyperlink_style() removes the hyperlink
 style

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index 1d08d32..d90fa31 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2416,7 +2416,7 @@ impl Format {
 
     /// Unset the hyperlink style. Doesn't reset the other properties.
     pub fn unset_hyperlink_style(mut self) -> Format {
-        self.font.is_hyperlink = true;
+        self.font.is_hyperlink = false;
 
         self
     }
-- 
2.43.0


From 5238d15a43f67ccfa528e368c0f283093aa8b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:09 +0000
Subject: [PATCH 85/86] fix: don't keep number format indices of dxf formats in
 later saves

---
 src/workbook.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 06f9e88..a0f69d0 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2167,6 +2167,13 @@ impl Workbook {
 
         drop(xf_indices);
 
+        // Do the same for the DXF Formats so that the properties that are set
+        // when the file is written aren't kept in later saves.
+        let mut dxf_indices_vec: Vec<(&Format, &u32)> = self.dxf_indices.iter().collect();
+        dxf_indices_vec.sort_by(|a, b| a.1.cmp(b.1));
+
+        self.dxf_formats = dxf_indices_vec.iter().map(|x| x.0.clone()).collect();
+
         // Map worksheet/local format indices to the workbook/global values.
         for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
             worksheet.set_global_xf_indices(&worksheet_xf_indices[i]);
-- 
2.43.0


From d0d99d6633a88b7ea5884bb46be04e3f68a81bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 86/86] fix: check the length of table strings before changing
 any cells

---
 src/worksheet.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c63dd53..367dc42 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8887,6 +8887,17 @@ impl Worksheet {
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
+        // Check that the header and total row strings are < Excel limit of 32767
+        // chars before any of the cells are changed.
+        for column in &table.columns {
+            let writes_header = table.show_header_row && !table.is_serde_table;
+            if (writes_header && column.name.chars().count() > MAX_STRING_LEN)
+                || (table.show_total_row && column.total_label.chars().count() > MAX_STRING_LEN)
+            {
+                return Err(XlsxError::MaxStringLengthExceeded);
+            }
+        }
+
         // Write the worksheet information required for each column.
         for (offset, column) in table.columns.iter_mut().enumerate() {
             let col = first_col + offset as u16;
-- 
2.43.0

