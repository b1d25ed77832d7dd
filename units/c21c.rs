// C21: the sections of a worksheet, in the order the file format requires.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@item src/worksheet.rs struct Worksheet keep=writer,is_chartsheet,has_sheet_data,data_table,notes,changed_rows,protection_on,unprotected_ranges,autofilter_area,merged_ranges,has_conditional_formats,data_validations,hyperlinks,print_options_changed,page_setup_changed,head_footer_changed,horizontal_breaks,vertical_breaks,ignored_errors,drawing,has_vml,header_footer_images,background_image,tables,use_x14_extensions derive= sub=Cursor<Vec<u8>>=>Writer;(data_table|notes|changed_rows|unprotected_ranges|autofilter_area|merged_ranges|data_validations|hyperlinks|horizontal_breaks|vertical_breaks|ignored_errors|tables):\s*\w+(?:<[^:]*>)?=>\1:VpAny;header_footer_images:\s*\[[^\]]*\]=>header_footer_images:VpImages;background_image:\s*Option<Image>=>background_image:Option<VpAny>
/// any collection
#[verifier::external_body] pub struct VpAny { }
impl VpAny { pub uninterp spec fn none(&self) -> bool; #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { true } }
pub struct Drawing { pub drawings: VpAny }
#[verifier::external_body] pub struct VpImages { }
pub uninterp spec fn hf(i: VpImages) -> bool;
/// the writer as the names of the sections written to it; a closing tag has a leading '/'
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn log(&self) -> Seq<Seq<char>>; }
#[verifier::external_body] pub fn xml_declaration(w: &mut Writer) ensures final(w).log() == old(w).log() { }
#[verifier::external_body] pub fn xml_empty_tag_only(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(tag@ + "/"@) { }
#[verifier::external_body] pub fn xml_start_tag_only(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(tag@) { }
#[verifier::external_body] pub fn xml_end_tag(w: &mut Writer, tag: &str) ensures final(w).log() == put(old(w).log(), true, "/"@ + tag@) { }
#[verifier::opaque] pub open spec fn put(l: Seq<Seq<char>>, b: bool, n: Seq<char>) -> Seq<Seq<char>> { if b { l.push(n) } else { l } }
pub open spec fn no_data(w: Worksheet) -> bool { !w.has_sheet_data && w.data_table.none() && w.notes.none() && w.changed_rows.none() }
/// the sections up to the cell data, added to those in l
pub open spec fn before(l: Seq<Seq<char>>, w: Worksheet) -> Seq<Seq<char>> { put(put(put(put(put(put(l, true, "worksheet"@), true, "sheetPr"@), true, "dimension"@), true, "sheetViews"@), true, "sheetFormatPr"@), true, "cols"@).push(if no_data(w) { "sheetData"@ + "/"@ } else { "sheetData"@ }) }
/// the sections after the cell data
pub open spec fn after(l: Seq<Seq<char>>, w: Worksheet) -> Seq<Seq<char>> { put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(put(l, w.has_sheet_data, "/"@ + "sheetData"@), w.protection_on, "sheetProtection"@), !w.unprotected_ranges.none(), "protectedRanges"@), !w.autofilter_area.none(), "autoFilter"@), !w.merged_ranges.none(), "mergeCells"@), w.has_conditional_formats, "conditionalFormatting"@), !w.data_validations.none(), "dataValidations"@), !w.hyperlinks.none(), "hyperlinks"@), w.print_options_changed, "printOptions"@), true, "pageMargins"@), w.page_setup_changed, "pageSetup"@), w.head_footer_changed, "headerFooter"@), !w.horizontal_breaks.none(), "rowBreaks"@), !w.vertical_breaks.none(), "colBreaks"@), !w.ignored_errors.none(), "ignoredErrors"@), !w.drawing.drawings.none(), "drawing"@), w.has_vml, "legacyDrawing"@), hf(w.header_footer_images), "legacyDrawingHF"@), w.background_image is Some, "picture"@), !w.tables.none(), "tableParts"@), w.use_x14_extensions, "extLst"@), true, "/"@ + "worksheet"@) }
pub open spec fn chartsheet(l: Seq<Seq<char>>, w: Worksheet) -> Seq<Seq<char>> { put(put(put(put(put(put(put(put(put(put(put(put(l, true, "chartsheet"@), true, "sheetPr"@), true, "sheetViews"@), w.protection_on, "sheetProtection"@), !w.unprotected_ranges.none(), "protectedRanges"@), w.print_options_changed, "printOptions"@), true, "pageMargins"@), w.page_setup_changed, "pageSetup"@), w.head_footer_changed, "headerFooter"@), !w.drawing.drawings.none(), "drawing"@), hf(w.header_footer_images), "legacyDrawingHF"@), true, "/"@ + "chartsheet"@) }
/// what the cell data writer writes between the two (unit c07)
pub uninterp spec fn cells(w: Worksheet) -> Seq<Seq<char>>;
impl Worksheet {
#[verifier::external_body] fn write_worksheet(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "worksheet"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_sheet_pr(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "sheetPr"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_dimension(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "dimension"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_sheet_views(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "sheetViews"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_sheet_format_pr(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "sheetFormatPr"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_cols(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "cols"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_sheet_protection(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "sheetProtection"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_protected_ranges(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "protectedRanges"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_auto_filter(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "autoFilter"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_merge_cells(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "mergeCells"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_conditional_formats(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "conditionalFormatting"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_data_validations(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "dataValidations"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_hyperlinks(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "hyperlinks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_print_options(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "printOptions"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_page_margins(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "pageMargins"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_page_setup(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "pageSetup"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_header_footer(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "headerFooter"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_row_breaks(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "rowBreaks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_col_breaks(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "colBreaks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_ignored_errors(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "ignoredErrors"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_drawing(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "drawing"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_legacy_drawing(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "legacyDrawing"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_legacy_drawing_hf(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "legacyDrawingHF"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_picture(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "picture"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_table_parts(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "tableParts"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_extensions(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "extLst"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_chartsheet(&mut self) ensures final(self).writer.log() == put(old(self).writer.log(), true, "chartsheet"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn write_data_table(&mut self) ensures final(self).writer.log() == old(self).writer.log() + cells(*old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { }
#[verifier::external_body] fn has_header_footer_images(&self) -> (r: bool) ensures r == hf(self.header_footer_images) { true }
/// the conditional calls `if c { self.write_x(); }` of the extracted functions
fn vp_write_worksheet(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "worksheet"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_worksheet(); } }
fn vp_write_sheet_pr(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "sheetPr"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_sheet_pr(); } }
fn vp_write_dimension(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "dimension"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_dimension(); } }
fn vp_write_sheet_views(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "sheetViews"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_sheet_views(); } }
fn vp_write_sheet_format_pr(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "sheetFormatPr"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_sheet_format_pr(); } }
fn vp_write_cols(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "cols"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_cols(); } }
fn vp_write_sheet_protection(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "sheetProtection"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_sheet_protection(); } }
fn vp_write_protected_ranges(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "protectedRanges"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_protected_ranges(); } }
fn vp_write_auto_filter(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "autoFilter"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_auto_filter(); } }
fn vp_write_merge_cells(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "mergeCells"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_merge_cells(); } }
fn vp_write_conditional_formats(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "conditionalFormatting"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_conditional_formats(); } }
fn vp_write_data_validations(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "dataValidations"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_data_validations(); } }
fn vp_write_hyperlinks(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "hyperlinks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_hyperlinks(); } }
fn vp_write_print_options(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "printOptions"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_print_options(); } }
fn vp_write_page_margins(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "pageMargins"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_page_margins(); } }
fn vp_write_page_setup(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "pageSetup"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_page_setup(); } }
fn vp_write_header_footer(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "headerFooter"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_header_footer(); } }
fn vp_write_row_breaks(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "rowBreaks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_row_breaks(); } }
fn vp_write_col_breaks(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "colBreaks"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_col_breaks(); } }
fn vp_write_ignored_errors(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "ignoredErrors"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_ignored_errors(); } }
fn vp_write_drawing(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "drawing"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_drawing(); } }
fn vp_write_legacy_drawing(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "legacyDrawing"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_legacy_drawing(); } }
fn vp_write_legacy_drawing_hf(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "legacyDrawingHF"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_legacy_drawing_hf(); } }
fn vp_write_picture(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "picture"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_picture(); } }
fn vp_write_table_parts(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "tableParts"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_table_parts(); } }
fn vp_write_extensions(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "extLst"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_extensions(); } }
fn vp_write_chartsheet(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "chartsheet"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { self.write_chartsheet(); } }
fn vp_sheet_data(&mut self, b: bool) ensures final(self).writer.log() == put(old(self).writer.log(), b, "/"@ + "sheetData"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { proof { reveal(put); } if b { xml_end_tag(&mut self.writer, "sheetData"); } }
//@fn src/worksheet.rs assemble_xml_file impl="impl Worksheet"
| ensures old(self).is_chartsheet ==> final(self).writer.log() == chartsheet(old(self).writer.log(), *old(self)),
|   !old(self).is_chartsheet ==> exists|w: Worksheet| (w == Worksheet { writer: w.writer, has_sheet_data: !no_data(*old(self)), ..*old(self) }) && final(self).writer.log() == after(before(old(self).writer.log(), *old(self)) + #[trigger] cells(w), w),
//@rewrite return self\.assemble_chartsheet\(\); => self.assemble_chartsheet(); return;
//@before /self\.write_data_table\(\);/
| let ghost w = *self;
| assert(w == Worksheet { writer: w.writer, has_sheet_data: !no_data(*old(self)), ..*old(self) });
//@after /self\.assemble_xml_file_end\(\);/
| assert(cells(w) == cells(w));
//@end
//@fn src/worksheet.rs assemble_xml_file_start impl="impl Worksheet"
| ensures final(self).writer.log() == before(old(self).writer.log(), *old(self)), *final(self) == (Worksheet { writer: final(self).writer, has_sheet_data: !no_data(*old(self)), ..*old(self) }),
//@end
//@fn src/worksheet.rs assemble_xml_file_end impl="impl Worksheet"
| ensures final(self).writer.log() == after(old(self).writer.log(), *old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite if self\.has_sheet_data \{\s*xml_end_tag\(&mut self\.writer, "sheetData"\);\s*\} => self.vp_sheet_data(self.has_sheet_data);
//@rewrite self\.background_image\.is_some\(\) => matches!(self.background_image, Some(_))
//@rewrite if ([^{}]*?) \{\s*self\.(write_\w+)\(\);\s*\} => { let b = \1; self.vp_\2(b); }
//@rewrite self\.vp_sheet_data\(self\.has_sheet_data\) => let b = self.has_sheet_data; self.vp_sheet_data(b)
//@before /\{ let b = !?self\.merged_ranges/
| assert(*self == Worksheet { writer: self.writer, ..*old(self) });
//@before /\{ let b = !?self\.print_options_changed/
| assert(*self == Worksheet { writer: self.writer, ..*old(self) });
//@before /\{ let b = !?self\.vertical_breaks/
| assert(*self == Worksheet { writer: self.writer, ..*old(self) });
//@before /\{ let b = !?self\.has_vml/
| assert(*self == Worksheet { writer: self.writer, ..*old(self) });
//@end
//@fn src/worksheet.rs assemble_chartsheet impl="impl Worksheet"
| ensures final(self).writer.log() == chartsheet(old(self).writer.log(), *old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite if ([^{}]*?) \{\s*self\.(write_\w+)\(\);\s*\} => { let b = \1; self.vp_\2(b); }
//@end
}
} // verus!
fn main() {}
