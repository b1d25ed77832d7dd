// C15: protection.  Extracted from /repo/src/{utility,worksheet,protection,styles}.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/protection.rs struct ProtectionOptions derive=Clone,Copy
//@item src/worksheet.rs struct Worksheet keep=writer,protection_on,protection_hash,protection_options,unprotected_ranges,is_chartsheet derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/styles.rs struct Styles keep=writer derive= sub=Cursor<Vec<u8>>=>Writer;<'a>=>
//@item src/format.rs struct Format keep=locked,hidden derive=
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, Other }
// ---------------------------------------------------------------- specification
/// the bytes of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// rotate left by one in 15 bits
pub open spec fn rot(h: u16) -> u16 { ((h >> 14) & 1) | ((h << 1) & 0x7FFF) }
/// the hash before length and constant of the bytes from i on: the last byte first
pub open spec fn mix(b: Seq<u8>, i: int) -> u16 decreases b.len() - i { if i < 0 || i >= b.len() { 0 } else { rot(mix(b, i + 1)) ^ (b[i] as u16) } }
/// the legacy hash of the file format (ECMA-376 Part 4, 3.2.29 and [MS-OFFCRYPTO]); none for an empty password
pub open spec fn legacy(b: Seq<u8>) -> u16 { if b.len() == 0 { 0 } else { rot(mix(b, 0)) ^ (b.len() as u16) ^ 0xCE4B } }
proof fn small(b: Seq<u8>, i: int) ensures mix(b, i) < 0x8000 decreases b.len() - i {
    if !(i < 0 || i >= b.len()) { small(b, i + 1); let h = mix(b, i + 1); let x = b[i] as u16; assert((((h >> 14) & 1) | ((h << 1) & 0x7FFF)) ^ x < 0x8000u16) by (bit_vector) requires x < 256; }
}
/// a password always leaves a hash, so it is always recorded
pub proof fn a_password_is_recorded(b: Seq<u8>) requires 0 < b.len() < 0x8000 ensures legacy(b) != 0 {
    let h = mix(b, 0); let n = b.len() as u16;
    assert(((((h >> 14) & 1) | ((h << 1) & 0x7FFF)) ^ n ^ 0xCE4B) != 0u16) by (bit_vector) requires n < 0x8000;
}
/// the last byte counts: two passwords that differ in one byte have different hashes
pub proof fn one_byte_matters(h: u16, x: u16, y: u16) requires h < 0x8000, x != y ensures h ^ x != h ^ y { assert(x != y ==> h ^ x != h ^ y) by (bit_vector); }
#[verifier::opaque] pub open spec fn flag(b: bool, k: Seq<char>, v: Seq<char>, a: Attrs) -> Attrs { if b { a.push((k, v)) } else { a } }
pub open spec fn password(h: u16) -> Attrs { if h != 0 { seq![("password"@, hex4(h))] } else { seq![] } }
/// what is locked is 1: objects and scenarios are not unless said, selecting is not unless said, the rest is unless said
pub open spec fn sheet_locks(o: ProtectionOptions, h: u16) -> Attrs {
    let a = password(h).push(("sheet"@, "1"@));
    let a = flag(!o.edit_objects, "objects"@, "1"@, a); let a = flag(!o.edit_scenarios, "scenarios"@, "1"@, a);
    let a = flag(o.format_cells, "formatCells"@, "0"@, a); let a = flag(o.format_columns, "formatColumns"@, "0"@, a); let a = flag(o.format_rows, "formatRows"@, "0"@, a);
    let a = flag(o.insert_columns, "insertColumns"@, "0"@, a); let a = flag(o.insert_rows, "insertRows"@, "0"@, a); let a = flag(o.insert_links, "insertHyperlinks"@, "0"@, a);
    let a = flag(o.delete_columns, "deleteColumns"@, "0"@, a); let a = flag(o.delete_rows, "deleteRows"@, "0"@, a);
    let a = flag(!o.select_locked_cells, "selectLockedCells"@, "1"@, a); let a = flag(o.sort, "sort"@, "0"@, a); let a = flag(o.use_autofilter, "autoFilter"@, "0"@, a);
    let a = flag(o.use_pivot_tables, "pivotTables"@, "0"@, a); flag(!o.select_unlocked_cells, "selectUnlockedCells"@, "1"@, a)
}
pub open spec fn chart_locks(o: ProtectionOptions, h: u16) -> Attrs { flag(o.edit_objects, "objects"@, "1"@, flag(o.contents, "content"@, "1"@, password(h))) }
/// the documented defaults
pub open spec fn defaults() -> ProtectionOptions {
    ProtectionOptions { select_locked_cells: true, select_unlocked_cells: true, format_cells: false, format_columns: false, format_rows: false, insert_columns: false, insert_rows: false, insert_links: false, delete_columns: false, delete_rows: false, sort: false, use_autofilter: false, use_pivot_tables: false, edit_scenarios: false, edit_objects: false, contents: true }
}
pub type Open = (Seq<char>, Seq<char>, u16);
pub open spec fn ov(v: Seq<(String, String, u16)>) -> Seq<Open> { v.map_values(|p: (String, String, u16)| (p.0@, p.1@, p.2)) }
pub broadcast proof fn ov_push(s: Seq<(String, String, u16)>, x: (String, String, u16)) ensures #[trigger] ov(s.push(x)) == ov(s).push((x.0@, x.1@, x.2)) { assert(ov(s.push(x)) =~= ov(s).push((x.0@, x.1@, x.2))); }
pub open spec fn open_tag(o: Open) -> Tag { Tag::Empty("protectedRange"@, password(o.2).push(("sqref"@, o.0)).push(("name"@, o.1))) }
pub open spec fn open_tags(s: Seq<Open>) -> Seq<Tag> { s.map_values(|o: Open| open_tag(o)) }
// ---------------------------------------------------------------- trusted
pub uninterp spec fn hex4(h: u16) -> Seq<char>;
#[verifier::external_body] pub fn vp_hex4(h: u16) -> (r: String) ensures r@ == hex4(h) { format!("{h:04X}") }
#[verifier::external_body] pub fn vp_bytes(s: &str) -> (r: Vec<u8>) ensures r@ == utf8(s@), (s@.len() == 0) == (r@.len() == 0) { s.as_bytes().to_vec() }
#[verifier::external_body] pub fn vp_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0), r == (utf8(s@).len() == 0) { s.is_empty() }
/// a str in memory is shorter than the 65,536 bytes for which the length is kept whole, see the assumptions
#[verifier::external_body] pub fn vp_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
#[verifier::external_body] pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
pub uninterp spec fn range_text(r: u32, c: u16, r2: u32, c2: u16) -> Seq<char>;
/// unit c01
#[verifier::external_body] pub fn cell_range(r: u32, c: u16, r2: u32, c2: u16) -> (s: String) ensures s@ == range_text(r, c, r2, c2) { String::new() }
impl Worksheet {
    /// unit c07
    #[verifier::external_body] pub fn check_dimensions_only(&mut self, row: RowNum, col: ColNum) -> (r: bool) ensures r == (row < 1048576 && col < 16384), *final(self) == *old(self) { true }
}
// ---------------------------------------------------------------- code under contract
/// `if b { attributes.push((k, v.to_string())); }`
pub fn vp_flag(a: &mut Vec<(&'static str, String)>, b: bool, k: &'static str, v: &'static str) ensures av(final(a)@) == flag(b, k@, v@, av(old(a)@)) { broadcast use av_push; if b { a.push((k, v.vp_text())); } proof { reveal(flag); } }
//@fn src/utility.rs hash_password ret=r
| requires utf8(password@).len() < 0x8000
| ensures r == legacy(utf8(password@))
//@rewrite password\.len\(\) => vp_len(password)
//@rewrite password\.is_empty\(\) => vp_empty(password)
//@rewrite for byte in password\.as_bytes\(\)\.iter\(\)\.rev\(\) \{ => let vp_b = vp_bytes(password); let mut vp_i = vp_b.len(); while vp_i > 0 { vp_i = vp_i - 1; let byte = &vp_b[vp_i];
//@rewrite u16::from\(\*byte\) => (*byte as u16)
//@loop 1
| invariant vp_b@ == utf8(password@), vp_i <= vp_b@.len(), hash == mix(vp_b@, vp_i as int),
| decreases vp_i
//@end
impl ProtectionOptions {
//@fn src/protection.rs new impl="impl ProtectionOptions" ret=r
| ensures r == defaults()
//@end
}
impl Worksheet {
//@fn src/worksheet.rs protect impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { protection_on: true, ..*old(self) })
//@end
//@fn src/worksheet.rs protect_with_password impl="impl Worksheet" ret=r
| requires utf8(password@).len() < 0x8000
| ensures *final(self) == *final(r), *r == (Worksheet { protection_on: true, protection_hash: legacy(utf8(password@)), ..*old(self) })
//@rewrite utility::hash_password => hash_password
//@end
//@fn src/worksheet.rs protect_with_options impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { protection_on: true, protection_options: *options, ..*old(self) })
//@rewrite options\.clone\(\) => *options
//@end
//@fn src/worksheet.rs unprotect_range_with_options impl="impl Worksheet" ret=r
| requires utf8(password@).len() < 0x8000, old(self).unprotected_ranges@.len() < 0xFFFF_FFFF
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && first_row <= last_row < 1048576 && first_col <= last_col < 16384 && *p == (Worksheet { unprotected_ranges: p.unprotected_ranges, ..*old(self) })
|     && ov(p.unprotected_ranges@) == ov(old(self).unprotected_ranges@).push((range_text(first_row, first_col, last_row, last_col), if name@.len() == 0 { "Range"@ + dec((old(self).unprotected_ranges@.len() + 1) as nat) } else { name@ }, legacy(utf8(password@)))),
|   Err(_) => *final(self) == *old(self) && !(first_row <= last_row < 1048576 && first_col <= last_col < 16384) }
//@rewrite utility::(hash_password|cell_range) => \1
//@rewrite name\.to_string\(\) => vp_string(name)
//@rewrite name\.is_empty\(\) => vp_empty(name.as_str())
//@at body-start
| broadcast use ov_push;
//@end
//@fn src/worksheet.rs unprotect_range impl="impl Worksheet" ret=r
| requires utf8(""@).len() == 0, old(self).unprotected_ranges@.len() < 0xFFFF_FFFF
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && first_row <= last_row < 1048576 && first_col <= last_col < 16384 && *p == (Worksheet { unprotected_ranges: p.unprotected_ranges, ..*old(self) })
|     && ov(p.unprotected_ranges@) == ov(old(self).unprotected_ranges@).push((range_text(first_row, first_col, last_row, last_col), "Range"@ + dec((old(self).unprotected_ranges@.len() + 1) as nat), 0)),
|   Err(_) => *final(self) == *old(self) && !(first_row <= last_row < 1048576 && first_col <= last_col < 16384) }
//@at body-start
| proof { reveal_strlit(""); }
//@end
//@fn src/worksheet.rs write_sheet_protection impl="impl Worksheet" strlits
| ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() == old(self).writer.log().push(Tag::Empty("sheetProtection"@, if old(self).is_chartsheet { chart_locks(old(self).protection_options, old(self).protection_hash) } else { sheet_locks(old(self).protection_options, old(self).protection_hash) }))
//@rewrite format!\("\{:04X\}", self\.protection_hash\) => vp_hex4(self.protection_hash)
//@rewrite if (!?self\.protection_options\.\w+) \{\s*attributes\.push\(\(("\w+"), "(\d)"\.to_string\(\)\)\);\s*\} => vp_flag(&mut attributes, \1, \2, "\3");
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_none;
//@before /if self.is_chartsheet/
| proof { assert(av(attributes@) =~= password(self.protection_hash)) by { broadcast use av_push; } }
//@after /attributes.push\(\("sheet", [^;]*;/
| proof { broadcast use av_push; assert(av(attributes@) == password(self.protection_hash).push(("sheet"@, "1"@))); }
//@end
//@fn src/worksheet.rs write_protected_range impl="impl Worksheet" strlits
| ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() == old(self).writer.log().push(open_tag((range@, name@, hash)))
//@rewrite format!\("\{hash:04X\}"\) => vp_hex4(hash)
//@at body-start
| broadcast use av_push, av_none;
//@before /attributes.push\(\("sqref"/
| proof { assert(av(attributes@) =~= password(hash)); }
//@end
//@fn src/worksheet.rs write_protected_ranges impl="impl Worksheet" strlits
| ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() == old(self).writer.log().push(Tag::Open("protectedRanges"@, seq![])) + open_tags(ov(old(self).unprotected_ranges@)) + seq![Tag::Close("protectedRanges"@)]
//@rewrite for \(range, name, hash\) in self\.unprotected_ranges\.clone\(\) \{ => for vp_i in 0..self.unprotected_ranges.len() { let range = vp_copy(&self.unprotected_ranges[vp_i].0); let name = vp_copy(&self.unprotected_ranges[vp_i].1); let hash = self.unprotected_ranges[vp_i].2;
//@loop 1
| invariant *self == (Worksheet { writer: self.writer, ..*old(self) }), self.writer.log() =~= old(self).writer.log().push(Tag::Open("protectedRanges"@, seq![])) + open_tags(ov(old(self).unprotected_ranges@).take(vp_i as int)),
//@at loop 1 end
| proof { let s = ov(old(self).unprotected_ranges@); let k = vp_i as int; assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(open_tags(s.take(k + 1)) =~= open_tags(s.take(k)).push(open_tag(s[k]))); }
//@at after-loop 1
| proof { let s = ov(old(self).unprotected_ranges@); assert(s.take(s.len() as int) =~= s); }
//@end
}
impl Styles {
//@fn src/styles.rs write_protection impl="Styles" strlits
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("protection"@, flag(xf_format.hidden, "hidden"@, "1"@, flag(!xf_format.locked, "locked"@, "0"@, seq![]))))
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_push, av_none; reveal(flag);
//@end
}
}
fn main() {}
