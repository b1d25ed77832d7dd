// C24: the order and priorities of conditional formats.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs ROW_MAX
//@item src/worksheet.rs struct Worksheet keep=writer,sheet_index,conditional_formats,conditional_format_order,global_dxf_indices,use_x14_extensions,has_x14_conditional_formats,has_conditional_formats,dxf_formats,dxf_indices,has_hyperlink_style derive= sub=HashMap<Format,\s*u32>=>VpDxfs;Cursor<Vec<u8>>=>Writer;BTreeMap<String,\s*Vec<Box<dyn[^>]*>>>=>VpFormats
//@item src/format.rs struct Font keep=is_hyperlink derive=
//@item src/format.rs struct Format keep=font,dxf_index,is_dxf_format derive=
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, ConditionalFormatError(String) }

// ---------------------------------------------------------------- specification
pub open spec fn legal(r: u32, c: u16) -> bool { r < 1048576 && c < 16384 }
pub uninterp spec fn range_text(r: u32, c: u16, r2: u32, c2: u16) -> Seq<char>;
/// "{DA7ABA51-AAAA-BBBB-<sheet>-<index>}"
pub uninterp spec fn guid_text(sheet: int, index: int) -> Seq<char>;
/// a conditional format seen through its trait (unit c24c proves the rules of each kind)
#[verifier::external_body] pub struct VpRule {}
impl VpRule {
    pub uninterp spec fn ext(&self) -> bool;
    pub uninterp spec fn only(&self) -> bool;
    pub uninterp spec fn valid(&self) -> bool;
    pub uninterp spec fn multi(&self) -> Seq<char>;
    pub uninterp spec fn format(&self) -> Option<Format>;
    pub uninterp spec fn with(&self, i: u32) -> VpRule;
    #[verifier::external_body] pub fn vp_format(&self) -> (r: Option<Format>) ensures r == self.format() { unimplemented!() }
    #[verifier::external_body] pub fn vp_set_index(&mut self, i: u32) ensures *final(self) == old(self).with(i), final(self).dxf() == Some(i), final(self).ext() == old(self).ext(), final(self).only() == old(self).only() { unimplemented!() }
    pub uninterp spec fn dxf(&self) -> Option<u32>;
    pub uninterp spec fn xml(&self, dxf: Option<u32>, priority: int, range: Seq<char>, guid: Seq<char>) -> Seq<char>;
    pub uninterp spec fn x14(&self, priority: int, guid: Seq<char>) -> Seq<char>;
    #[verifier::external_body] pub fn box_clone(&self) -> (r: VpRule) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn multi_range(&self) -> (r: String) ensures r@ == self.multi() { unimplemented!() }
    #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), XlsxError>) ensures r is Ok <==> self.valid() { unimplemented!() }
    #[verifier::external_body] pub fn has_x14_extensions(&self) -> (r: bool) ensures r == self.ext() { unimplemented!() }
    #[verifier::external_body] pub fn has_x14_only(&self) -> (r: bool) ensures r == self.only() { unimplemented!() }
    #[verifier::external_body] pub fn format_index(&self) -> (r: Option<u32>) ensures r == self.dxf() { unimplemented!() }
    #[verifier::external_body] pub fn rule(&self, dxf_index: Option<u32>, priority: u32, range: &str, guid: &str) -> (r: String) ensures r@ == self.xml(dxf_index, priority as int, range@, guid@) { unimplemented!() }
    #[verifier::external_body] pub fn x14_rule(&self, priority: u32, guid: &str) -> (r: String) ensures r@ == self.x14(priority as int, guid@) { unimplemented!() }
}
pub open spec fn rules(w: Worksheet, k: int) -> Seq<VpRule> { w.conditional_formats.map()[w.conditional_format_order@[k]@] }
/// the number of rules, and of those with an extended part, before range k
pub open spec fn before(w: Worksheet, k: int) -> int decreases k { if k <= 0 { 0 } else { before(w, k - 1) + rules(w, k - 1).len() } }
pub open spec fn exts(r: Seq<VpRule>, j: int) -> int decreases j { if j <= 0 { 0 } else { exts(r, j - 1) + (if r[j - 1].ext() { 1int } else { 0 }) } }
pub open spec fn exts_before(w: Worksheet, k: int) -> int decreases k { if k <= 0 { 0 } else { exts_before(w, k - 1) + exts(rules(w, k - 1), rules(w, k - 1).len() as int) } }
pub open spec fn all_only(r: Seq<VpRule>) -> bool { forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).only() }
pub open spec fn any_ext(r: Seq<VpRule>) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ext() }
/// the priority and the id of rule j of range k: its position among all the rules, and among those with an extended part
pub open spec fn rank(w: Worksheet, k: int, j: int) -> int { 1 + before(w, k) + j }
pub open spec fn gid(w: Worksheet, k: int, j: int) -> Seq<char> { guid_text(w.sheet_index + 1, 1 + exts_before(w, k) + exts(rules(w, k), j)) }
pub open spec fn global(w: Worksheet, r: VpRule) -> Option<u32> { match r.dxf() { Some(i) => Some(w.global_dxf_indices@[i as int]), None => None } }
pub open spec fn one(w: Worksheet, k: int, j: int) -> Seq<Tag> {
    let r = rules(w, k)[j];
    if r.only() { seq![] } else { seq![Tag::Raw(r.xml(global(w, r), rank(w, k, j), w.conditional_format_order@[k]@, if r.ext() { gid(w, k, j) } else { seq![] }))] }
}
#[verifier::opaque] pub open spec fn body(w: Worksheet, k: int, j: int) -> Seq<Tag> decreases j { if j <= 0 { seq![] } else { body(w, k, j - 1) + one(w, k, j - 1) } }
pub open spec fn block(w: Worksheet, k: int) -> Seq<Tag> {
    if all_only(rules(w, k)) { body(w, k, rules(w, k).len() as int) } else { seq![Tag::Open("conditionalFormatting"@, seq![("sqref"@, w.conditional_format_order@[k]@)])] + body(w, k, rules(w, k).len() as int) + seq![Tag::Close("conditionalFormatting"@)] }
}
#[verifier::opaque] pub open spec fn blocks(w: Worksheet, k: int) -> Seq<Tag> decreases k { if k <= 0 { seq![] } else { blocks(w, k - 1) + block(w, k - 1) } }
pub open spec fn one14(w: Worksheet, k: int, j: int) -> Seq<Tag> {
    let r = rules(w, k)[j];
    if r.ext() { seq![Tag::Raw(r.x14(rank(w, k, j), gid(w, k, j)))] } else { seq![] }
}
#[verifier::opaque] pub open spec fn body14(w: Worksheet, k: int, j: int) -> Seq<Tag> decreases j { if j <= 0 { seq![] } else { body14(w, k, j - 1) + one14(w, k, j - 1) } }
pub open spec fn xm() -> Attrs { seq![("xmlns:xm"@, "http://schemas.microsoft.com/office/excel/2006/main"@)] }
pub open spec fn block14(w: Worksheet, k: int) -> Seq<Tag> {
    if !any_ext(rules(w, k)) { seq![] } else { seq![Tag::Open("x14:conditionalFormatting"@, xm())] + body14(w, k, rules(w, k).len() as int) + seq![Tag::Data("xm:sqref"@, seq![], w.conditional_format_order@[k]@), Tag::Close("x14:conditionalFormatting"@)] }
}
#[verifier::opaque] pub open spec fn blocks14(w: Worksheet, k: int) -> Seq<Tag> decreases k { if k <= 0 { seq![] } else { blocks14(w, k - 1) + block14(w, k - 1) } }
proof fn body_0(w: Worksheet, k: int) ensures body(w, k, 0) =~= Seq::<Tag>::empty(), body14(w, k, 0) =~= Seq::<Tag>::empty() { reveal(body); reveal(body14); }
proof fn blocks_0(w: Worksheet) ensures blocks(w, 0) =~= Seq::<Tag>::empty(), blocks14(w, 0) =~= Seq::<Tag>::empty() { reveal(blocks); reveal(blocks14); }
proof fn body_step(w: Worksheet, k: int, j: int) requires j >= 0 ensures body(w, k, j + 1) == body(w, k, j) + one(w, k, j), body14(w, k, j + 1) == body14(w, k, j) + one14(w, k, j) { reveal(body); reveal(body14); }
proof fn blocks_step(w: Worksheet, k: int) requires k >= 0 ensures blocks(w, k + 1) == blocks(w, k) + block(w, k), blocks14(w, k + 1) == blocks14(w, k) + block14(w, k) { reveal(blocks); reveal(blocks14); }
proof fn counted(w: Worksheet, k: int, n: int) requires 0 <= k <= n ensures 0 <= before(w, k) <= before(w, n), 0 <= exts_before(w, k) <= exts_before(w, n), exts_before(w, n) <= before(w, n) decreases n
{
    if k < n { counted(w, k, n - 1); exts_le(rules(w, n - 1), rules(w, n - 1).len() as int); }
    else if n > 0 { counted(w, k - 1, n - 1); exts_le(rules(w, n - 1), rules(w, n - 1).len() as int); }
}
proof fn exts_le(r: Seq<VpRule>, j: int) requires 0 <= j ensures 0 <= exts(r, j) <= j decreases j { if j > 0 { exts_le(r, j - 1); } }
proof fn no_exts(r: Seq<VpRule>, j: int) requires 0 <= j <= r.len(), !any_ext(r) ensures exts(r, j) == 0 decreases j { if j > 0 { no_exts(r, j - 1); } }
/// priorities are distinct and rise in the order of the rules
proof fn distinct(w: Worksheet, k: int, j: int, k2: int, j2: int)
    requires 0 <= k, 0 <= k2, 0 <= j < rules(w, k).len(), 0 <= j2 < rules(w, k2).len(), k < k2 || (k == k2 && j < j2)
    ensures rank(w, k, j) < rank(w, k2, j2)
{ if k < k2 { counted(w, k + 1, k2); } }
/// what the functions below rely on: each range in the order has rules, and the formats have been given their global index
pub open spec fn wf(w: Worksheet) -> bool {
    &&& forall|k: int| 0 <= k < w.conditional_format_order@.len() ==> w.conditional_formats.map().contains_key((#[trigger] w.conditional_format_order@[k])@)
    &&& w.sheet_index < usize::MAX
}
pub open spec fn indexed(w: Worksheet) -> bool {
    &&& forall|k: int, j: int| 0 <= k < w.conditional_format_order@.len() && 0 <= j < rules(w, k).len() ==> ((#[trigger] rules(w, k)[j]).dxf() matches Some(i) ==> i < w.global_dxf_indices@.len())
    &&& before(w, w.conditional_format_order@.len() as int) < 0x7fff_ffff
}
/// every known format is in the list at its index
pub open spec fn listed(w: Worksheet) -> bool { w.dxf_formats@.len() < 0x7fff_ffff && forall|f: int| #[trigger] w.dxf_indices.map().contains_key(f) ==> w.dxf_indices.map()[f] < w.dxf_formats@.len() && look(w.dxf_formats@[w.dxf_indices.map()[f] as int]) == f }
pub open spec fn grown(a: Worksheet, b: Worksheet) -> bool { a.dxf_formats@.is_prefix_of(b.dxf_formats@) && b.dxf_formats@.len() <= a.dxf_formats@.len() + 1 && (a.dxf_formats@.len() < 0x7fff_fffe ==> listed(b)) }
/// the formats, rules and order after a conditional format is added under a key
pub open spec fn added(a: Worksheet, b: Worksheet, key: Seq<char>, rule: VpRule) -> bool {
    &&& b.conditional_formats.map() == a.conditional_formats.map().insert(key, (if a.conditional_formats.map().contains_key(key) { a.conditional_formats.map()[key] } else { seq![] }).push(rule))
    &&& b.conditional_format_order@.map_values(|s: String| s@) == (if a.conditional_formats.map().contains_key(key) { a.conditional_format_order@.map_values(|s: String| s@) } else { a.conditional_format_order@.map_values(|s: String| s@).push(key) })
}
pub open spec fn key_of(c: VpRule, t: Seq<char>) -> Seq<char> { if c.multi().len() > 0 { c.multi() } else { t } }
/// the rule is the one given, with the index of its own format in the list
pub open spec fn owns(b: Worksheet, given: VpRule, rule: VpRule) -> bool {
    match given.format() { None => rule == given, Some(f) => rule.dxf() matches Some(i) && i < b.dxf_formats@.len() && look(b.dxf_formats@[i as int]) == look(f) && rule == given.with(i) }
}
// ---------------------------------------------------------------- trusted: std collections and strings
#[verifier::external_body] pub struct VpFormats {}
impl VpFormats {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<VpRule>>;
    #[verifier::external_body] pub fn vp_has(&self, k: &String) -> (r: bool) ensures r == self.map().contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_push(&mut self, k: &String, v: VpRule) requires old(self).map().contains_key(k@) ensures final(self).map() == old(self).map().insert(k@, old(self).map()[k@].push(v)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_insert(&mut self, k: &String, v: Vec<VpRule>) ensures final(self).map() == old(self).map().insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_rules(&self, k: &String) -> (r: &Vec<VpRule>) requires self.map().contains_key(k@) ensures r@ == self.map()[k@] { unimplemented!() }
}
/// what a format writes as a differential format (its index and dxf flag aside)
pub uninterp spec fn look(f: Format) -> int;
#[verifier::external_body] pub fn vp_format(f: &Format) -> (r: Format) ensures r == *f { unimplemented!() }
pub broadcast axiom fn look_of_flag(f: Format, b: bool) ensures #[trigger] look(Format { is_dxf_format: b, ..f }) == look(f);
/// HashMap<Format, u32>: formats are equal when they look the same
#[verifier::external_body] pub struct VpDxfs {}
impl VpDxfs {
    pub uninterp spec fn map(&self) -> Map<int, u32>;
    #[verifier::external_body] pub fn get_mut(&mut self, f: &Format) -> (r: Option<&mut u32>) ensures match r { Some(i) => old(self).map().contains_pair(look(*f), *i) && (*final(i) == *i ==> *final(self) == *old(self)), None => !old(self).map().contains_key(look(*f)) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, f: Format, i: u32) ensures final(self).map() == old(self).map().insert(look(f), i) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r == *s { s.clone() }
#[verifier::external_body] pub fn vp_none(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_cell_range(r: u32, c: u16, r2: u32, c2: u16) -> (s: String) ensures s@ == range_text(r, c, r2, c2) { String::new() }
#[verifier::external_body] pub fn vp_guid(sheet: usize, index: u32) -> (r: String) ensures r@ == guid_text(sheet as int, index as int) { String::new() }
#[verifier::external_body] pub fn vp_all_only(r: &Vec<VpRule>) -> (b: bool) ensures b == all_only(r@) { true }
#[verifier::external_body] pub fn vp_any_ext(r: &Vec<VpRule>) -> (b: bool) ensures b == any_ext(r@) { true }
proof fn guid_none() ensures ""@ =~= Seq::<char>::empty() { reveal_strlit(""); }
impl Worksheet {
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=r
| ensures r == legal(row, col), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs format_dxf_index impl="impl Worksheet" ret=r
| requires listed(*old(self)),
| ensures grown(*old(self), *final(self)), r < final(self).dxf_formats@.len(), look(final(self).dxf_formats@[r as int]) == look(*format),
|   *final(self) == (Worksheet { dxf_formats: final(self).dxf_formats, dxf_indices: final(self).dxf_indices, has_hyperlink_style: final(self).has_hyperlink_style, ..*old(self) }),
//@rewrite (\w+)\.clone\(\) => vp_format(&\1)
//@rewrite vp_format\(&format\) => vp_format(format)
//@at body-start
| broadcast use look_of_flag;
//@before /self\.dxf_formats\.push/
| assert(dxf_format == (Format { is_dxf_format: true, ..*format }) && look(Format { is_dxf_format: true, ..*format }) == look(*format));
//@end
//@fn src/worksheet.rs add_conditional_format impl="impl Worksheet" ret=r attr=#[verifier::rlimit(60)]
| requires wf(*old(self)), listed(*old(self)),
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && legal(last_row, last_col) && first_row <= last_row && first_col <= last_col && conditional_format.valid() && wf(*p) && grown(*old(self), *p)
|     && *p == (Worksheet { conditional_formats: p.conditional_formats, conditional_format_order: p.conditional_format_order, dxf_formats: p.dxf_formats, dxf_indices: p.dxf_indices, has_hyperlink_style: p.has_hyperlink_style, use_x14_extensions: old(self).use_x14_extensions || conditional_format.ext(), has_x14_conditional_formats: old(self).has_x14_conditional_formats || conditional_format.ext(), has_conditional_formats: old(self).has_conditional_formats || !conditional_format.only(), ..*old(self) })
|     && exists|rule: VpRule| owns(*p, *conditional_format, rule) && rule.ext() == conditional_format.ext() && rule.only() == conditional_format.only() && #[trigger] added(*old(self), *p, key_of(*conditional_format, range_text(first_row, first_col, last_row, last_col)), rule),
|   Err(_) => *final(self) == *old(self) && !(legal(last_row, last_col) && first_row <= last_row && first_col <= last_col && conditional_format.valid()) },
//@at body-start
| let ghost old_format = conditional_format;
//@rewrite sig:<T> =>
//@rewrite sig:&T => &VpRule
//@rewrite sig:(?s)where\s*T: ConditionalFormat \+ Send \+ Sync,? =>
//@rewrite utility::cell_range => vp_cell_range
//@rewrite !multi_range\.is_empty\(\) => !vp_none(&multi_range)
//@rewrite (?s)if let Some\(format\) = conditional_format\.format_as_mut\(\) \{\s*format\.dxf_index = self\.format_dxf_index\(format\);\s*\} => if let Some(format) = conditional_format.vp_format() { let vp_i = self.format_dxf_index(&format); conditional_format.vp_set_index(vp_i); }
//@rewrite (?s)match self\.conditional_formats\.entry\(cell_range\.clone\(\)\) \{\s*Entry::Occupied\(mut entry\) =. \{\s*let rules = entry\.get_mut\(\);\s*rules\.push\(conditional_format\); => match self.conditional_formats.vp_has(&cell_range) { true => { self.conditional_formats.vp_push(&cell_range, conditional_format);
//@rewrite Entry::Vacant\(entry\) =. \{ => false => {
//@rewrite entry\.insert\(rules\) => self.conditional_formats.vp_insert(&cell_range, rules)
//@before /match self\.conditional_formats\.vp_has/
| let ghost vp_rule = conditional_format; let ghost vp_key = cell_range@; let ghost vp_a = *self;
| assert(owns(*self, *old_format, vp_rule));
| assert(vp_key == key_of(*old_format, range_text(first_row, first_col, last_row, last_col)));
//@before /self\.conditional_formats\.vp_insert/
| assert(rules@ =~= Seq::<VpRule>::empty().push(vp_rule));
//@before /Ok\(self\)/
| proof {
|   let o = old(self).conditional_format_order@;
|   assert(vp_a.conditional_formats == old(self).conditional_formats && vp_a.conditional_format_order == old(self).conditional_format_order);
|   assert(!old(self).conditional_formats.map().contains_key(vp_key) ==> self.conditional_format_order@.map_values(|s: String| s@) =~= o.map_values(|s: String| s@).push(vp_key));
|   assert(!old(self).conditional_formats.map().contains_key(vp_key) ==> seq![vp_rule] =~= Seq::<VpRule>::empty().push(vp_rule));
|   assert(added(*old(self), *self, vp_key, vp_rule));
|   assert(owns(*self, *old_format, vp_rule));
|   assert forall|k: int| 0 <= k < self.conditional_format_order@.len() implies self.conditional_formats.map().contains_key((#[trigger] self.conditional_format_order@[k])@) by { if k < o.len() { assert(self.conditional_format_order@[k]@ == o[k]@); } }
| }
//@end
//@fn src/worksheet.rs write_conditional_formats impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires wf(*old(self)), indexed(*old(self))
| ensures final(self).writer.log() =~= old(self).writer.log() + blocks(*old(self), old(self).conditional_format_order@.len() as int), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?s)format!\(\s*"\{\{DA7ABA51-AAAA-BBBB-\{:04X\}-\{:012X\}\}\}",\s*(self\.sheet_index \+ 1),\s*(guid_index)\s*\) => vp_guid(\1, \2)
//@rewrite let mut (guid_index|priority) = 1; => let mut \1: u32 = 1;
//@rewrite self\.conditional_formats\.get\(cell_range\)\.unwrap\(\) => self.conditional_formats.vp_rules(cell_range)
//@rewrite (?s)conditionals_for_range\s*\.iter\(\)\s*\.all\(\|rule\| rule\.has_x14_only\(\)\) => vp_all_only(conditionals_for_range)
//@rewrite \[\("sqref", cell_range\.as_str\(\)\)\] => [("sqref", cell_range.vp_text())]
//@rewrite for cell_range in &self\.conditional_format_order \{ => let vp_n = self.conditional_format_order.len(); for vp_k in 0..vp_n { let cell_range = &self.conditional_format_order[vp_k];
//@rewrite for conditional_format in conditionals_for_range \{ => let vp_m = conditionals_for_range.len(); for vp_j in 0..vp_m { let conditional_format = &conditionals_for_range[vp_j];
//@rewrite (priority|guid_index) \+= 1; => \1 = \1 + 1;
//@before /let vp_n = /
| proof { blocks_0(*self); }
| let ghost vp_w = *old(self);
//@loop 1
| invariant vp_n == vp_w.conditional_format_order@.len(), *self == (Worksheet { writer: self.writer, ..vp_w }), wf(vp_w), indexed(vp_w),
|   priority == 1 + before(vp_w, vp_k as int), guid_index == 1 + exts_before(vp_w, vp_k as int),
|   self.writer.log() =~= old(self).writer.log() + blocks(vp_w, vp_k as int),
//@at loop 1 start
| proof { counted(vp_w, vp_k + 1, vp_n as int); counted(vp_w, vp_k as int, vp_n as int); counted(vp_w, vp_k as int, vp_k as int); blocks_step(vp_w, vp_k as int); body_0(vp_w, vp_k as int);  }
| let ghost vp_log = self.writer.log();
//@before /let vp_m = /
| let ghost vp_open = if has_x14_only { Seq::<Tag>::empty() } else { seq![Tag::Open("conditionalFormatting"@, seq![("sqref"@, cell_range@)])] };
| assert(self.writer.log() =~= vp_log + vp_open);
//@loop 2
| invariant vp_m == rules(vp_w, vp_k as int).len(), *self == (Worksheet { writer: self.writer, ..vp_w }), vp_k < vp_n, vp_n == vp_w.conditional_format_order@.len(), wf(vp_w), indexed(vp_w),
|   conditionals_for_range@ == rules(vp_w, vp_k as int), cell_range == vp_w.conditional_format_order@[vp_k as int],
|   before(vp_w, vp_k + 1) <= before(vp_w, vp_n as int), before(vp_w, vp_k + 1) == before(vp_w, vp_k as int) + vp_m,
|   0 <= exts_before(vp_w, vp_k as int) <= before(vp_w, vp_k as int),
|   priority == rank(vp_w, vp_k as int, vp_j as int), guid_index == 1 + exts_before(vp_w, vp_k as int) + exts(rules(vp_w, vp_k as int), vp_j as int),
|   self.writer.log() =~= vp_log + vp_open + body(vp_w, vp_k as int, vp_j as int),
//@at loop 2 start
| proof { body_step(vp_w, vp_k as int, vp_j as int); exts_le(rules(vp_w, vp_k as int), vp_j as int); guid_none(); assert(rules(vp_w, vp_k as int)[vp_j as int] == conditionals_for_range@[vp_j as int]); }
//@after /let attributes = [^;]*;/
| assert(av(attributes@) =~= seq![("sqref"@, cell_range@)]);
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_log + block(vp_w, vp_k as int)); }
//@end
//@fn src/worksheet.rs write_conditional_formattings impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires wf(*old(self)), indexed(*old(self))
| ensures final(self).writer.log() =~= old(self).writer.log() + (seq![Tag::Open("x14:conditionalFormattings"@, seq![])] + blocks14(*old(self), old(self).conditional_format_order@.len() as int) + seq![Tag::Close("x14:conditionalFormattings"@)]), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?s)format!\(\s*"\{\{DA7ABA51-AAAA-BBBB-\{:04X\}-\{:012X\}\}\}",\s*(self\.sheet_index \+ 1),\s*(guid_index)\s*\) => vp_guid(\1, \2)
//@rewrite let mut (guid_index|priority) = 1; => let mut \1: u32 = 1;
//@rewrite self\.conditional_formats\.get\(cell_range\)\.unwrap\(\) => self.conditional_formats.vp_rules(cell_range)
//@rewrite (?s)conditionals_for_range\s*\.iter\(\)\s*\.any\(\|rule\| rule\.has_x14_extensions\(\)\) => vp_any_ext(conditionals_for_range)
//@rewrite (?s)let attributes = \[\(\s*("xmlns:xm"),\s*("[^"]*"),?\s*\)\]; => let attributes = [(\1, \2.vp_text())];
//@rewrite for cell_range in &self\.conditional_format_order \{ => let vp_n = self.conditional_format_order.len(); for vp_k in 0..vp_n { let cell_range = &self.conditional_format_order[vp_k];
//@rewrite for conditional_format in conditionals_for_range \{ => let vp_m = conditionals_for_range.len(); for vp_j in 0..vp_m { let conditional_format = &conditionals_for_range[vp_j];
//@rewrite (priority|guid_index) \+= ([^;]*); => \1 = \1 + \2;
//@rewrite (?s)continue;\s*\} => } else {
//@rewrite (xml_end_tag\(&mut self\.writer, "x14:conditionalFormatting"\);) => \1 }
//@before /let vp_n = /
| proof { blocks_0(*old(self)); }
| let ghost vp_w = *old(self);
//@loop 1
| invariant vp_n == vp_w.conditional_format_order@.len(), *self == (Worksheet { writer: self.writer, ..vp_w }), wf(vp_w), indexed(vp_w),
|   priority == 1 + before(vp_w, vp_k as int), guid_index == 1 + exts_before(vp_w, vp_k as int),
|   self.writer.log() =~= old(self).writer.log() + seq![Tag::Open("x14:conditionalFormattings"@, seq![])] + blocks14(vp_w, vp_k as int),
//@at loop 1 start
| proof { counted(vp_w, vp_k + 1, vp_n as int); counted(vp_w, vp_k as int, vp_n as int); counted(vp_w, vp_k as int, vp_k as int); blocks_step(vp_w, vp_k as int); body_0(vp_w, vp_k as int); if !any_ext(rules(vp_w, vp_k as int)) { no_exts(rules(vp_w, vp_k as int), rules(vp_w, vp_k as int).len() as int); } }
| let ghost vp_log = self.writer.log();
//@before /let vp_m = /
| let ghost vp_open = seq![Tag::Open("x14:conditionalFormatting"@, xm())];
| assert(self.writer.log() =~= vp_log + vp_open);
//@loop 2
| invariant vp_m == rules(vp_w, vp_k as int).len(), *self == (Worksheet { writer: self.writer, ..vp_w }), vp_k < vp_n, vp_n == vp_w.conditional_format_order@.len(), wf(vp_w), indexed(vp_w),
|   conditionals_for_range@ == rules(vp_w, vp_k as int), cell_range == vp_w.conditional_format_order@[vp_k as int],
|   before(vp_w, vp_k + 1) <= before(vp_w, vp_n as int), before(vp_w, vp_k + 1) == before(vp_w, vp_k as int) + vp_m,
|   0 <= exts_before(vp_w, vp_k as int) <= before(vp_w, vp_k as int),
|   priority == rank(vp_w, vp_k as int, vp_j as int), guid_index == 1 + exts_before(vp_w, vp_k as int) + exts(rules(vp_w, vp_k as int), vp_j as int),
|   self.writer.log() =~= vp_log + vp_open + body14(vp_w, vp_k as int, vp_j as int),
//@at loop 2 start
| proof { body_step(vp_w, vp_k as int, vp_j as int); exts_le(rules(vp_w, vp_k as int), vp_j as int); guid_none(); assert(rules(vp_w, vp_k as int)[vp_j as int] == conditionals_for_range@[vp_j as int]); }
//@after /let attributes = [^;]*;/
| assert(av(attributes@) =~= xm());
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_log + block14(vp_w, vp_k as int)); }
//@end
}
} // verus!
fn main() {}
