// C21: page setup.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs enum PageView derive=Clone,Copy
//@item src/worksheet.rs enum DefinedNameType derive=Clone,Copy
//@item src/worksheet.rs struct DefinedName derive=
//@item src/worksheet.rs struct Worksheet keep=writer,page_setup_changed,print_area_defined_name,repeat_row_cols_defined_name,fit_to_page,fit_width,fit_height,paper_size,default_page_order,is_portrait,page_view,print_scale,print_options_changed,center_horizontally,center_vertically,screen_gridlines,print_gridlines,print_black_and_white,print_draft,print_headings,first_page_number,horizontal_breaks,vertical_breaks derive= sub=Cursor<Vec<u8>>=>Writer
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, ParameterError(String) }

// ---------------------------------------------------------------- specification
pub open spec fn inside(r: u32, c: u16) -> bool { r < ROW_MAX && c < COL_MAX }
/// the page breaks recorded for a list: its distinct non-zero values in ascending order
pub open spec fn is_breaks(list: Seq<u32>, v: Seq<u32>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j]
    &&& forall|k: u32| #[trigger] v.contains(k) <==> (k != 0 && list.contains(k))
}
pub open spec fn break_count(list: Seq<u32>) -> nat { list.to_set().remove(0).len() }
pub open spec fn has_ge(list: Seq<u32>, n: u32) -> bool { exists|i: int| 0 <= i < list.len() && #[trigger] list[i] >= n }
pub open spec fn breaks_ok(list: Seq<u32>, n: u32) -> bool { break_count(list) <= 1023 && !has_ge(list, n) }
pub uninterp spec fn col_letters(c: int) -> Seq<char>;
pub uninterp spec fn abs_range(r: int, c: int, r2: int, c2: int) -> Seq<char>;
pub open spec fn rows_ref(r: int, r2: int) -> Seq<char> { "$"@ + dec((r + 1) as nat) + ":$"@ + dec((r2 + 1) as nat) }
pub open spec fn cols_ref(c: int, c2: int) -> Seq<char> { "$"@ + col_letters(c) + ":$"@ + col_letters(c2) }
/// the area named: whole rows and whole columns in their short forms
pub open spec fn area_ref(d: DefinedName) -> Seq<char> {
    if d.first_col == 0 && d.last_col == COL_MAX - 1 { rows_ref(d.first_row as int, d.last_row as int) }
    else if d.first_row == 0 && d.last_row == ROW_MAX - 1 { cols_ref(d.first_col as int, d.last_col as int) }
    else { abs_range(d.first_row as int, d.first_col as int, d.last_row as int, d.last_col as int) }
}
pub open spec fn titles_ref(d: DefinedName) -> Seq<char> {
    let c = d.quoted_sheet_name@ + "!"@ + cols_ref(d.first_col as int, d.last_col as int);
    let r = d.quoted_sheet_name@ + "!"@ + rows_ref(d.first_row as int, d.last_row as int);
    let (hc, hr) = (d.first_col != COL_MAX || d.last_col != 0, d.first_row != ROW_MAX || d.last_row != 0);
    if hc && hr { c + ","@ + r } else if hc { c } else if hr { r } else { seq![] }
}
pub open spec fn range_of(d: DefinedName) -> Seq<char> {
    match d.name_type { DefinedNameType::Autofilter | DefinedNameType::PrintArea => d.quoted_sheet_name@ + "!"@ + area_ref(d), DefinedNameType::PrintTitles => titles_ref(d), _ => d.range@ }
}
/// no range recorded
pub open spec fn unset(d: DefinedName) -> bool { !d.in_use && d.first_row == ROW_MAX && d.first_col == COL_MAX && d.last_row == 0 && d.last_col == 0 }
pub open spec fn flags(w: Worksheet) -> Attrs {
    let a = add(Seq::empty(), w.center_horizontally, "horizontalCentered"@, "1"@);
    let a = add(a, w.center_vertically, "verticalCentered"@, "1"@);
    let a = add(a, w.print_headings, "headings"@, "1"@);
    add(a, w.print_gridlines, "gridLines"@, "1"@)
}
/// the attributes of the page: only what is not the default
#[verifier::opaque] pub open spec fn page1(w: Worksheet) -> Attrs { add(add(Seq::empty(), w.paper_size > 0, "paperSize"@, dec(w.paper_size as nat)), w.print_scale != 100, "scale"@, dec(w.print_scale as nat)) }
#[verifier::opaque] pub open spec fn page2(w: Worksheet) -> Attrs { add(add(page1(w), w.fit_to_page && w.fit_width != 1, "fitToWidth"@, dec(w.fit_width as nat)), w.fit_to_page && w.fit_height != 1, "fitToHeight"@, dec(w.fit_height as nat)) }
#[verifier::opaque] pub open spec fn page3(w: Worksheet) -> Attrs { add(add(page2(w), !w.default_page_order, "pageOrder"@, "overThenDown"@), w.first_page_number > 1, "firstPageNumber"@, dec(w.first_page_number as nat)) }
#[verifier::opaque] pub open spec fn page4(w: Worksheet) -> Attrs { add(page3(w).push(("orientation"@, if w.is_portrait { "portrait"@ } else { "landscape"@ })), w.first_page_number > 0, "useFirstPageNumber"@, "1"@) }
#[verifier::opaque] pub open spec fn page5(w: Worksheet) -> Attrs { add(add(page4(w), w.print_black_and_white, "blackAndWhite"@, "1"@), w.print_draft, "draft"@, "1"@) }
pub open spec fn page(w: Worksheet) -> Attrs { page5(w).push(("horizontalDpi"@, "200"@)).push(("verticalDpi"@, "200"@)) }
pub open spec fn brk(n: u32, max: Seq<char>) -> Tag { Tag::Empty("brk"@, seq![("id"@, dec(n as nat)), ("max"@, max), ("man"@, "1"@)]) }
pub open spec fn brks(v: Seq<u32>, max: Seq<char>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { brks(v, max, n - 1).push(brk(v[n - 1], max)) } }
#[verifier::opaque] pub open spec fn cat(a: Seq<Tag>, b: Seq<Tag>) -> Seq<Tag> { a + b }
pub proof fn cat_none(a: Seq<Tag>) ensures cat(a, seq![]) == a { reveal(cat); assert(cat(a, seq![]) =~= a); }
pub proof fn cat_push(a: Seq<Tag>, b: Seq<Tag>, x: Tag) ensures cat(a, b.push(x)) == cat(a, b).push(x), cat(a, b) + seq![x] == cat(a, b.push(x)) { reveal(cat); assert(cat(a, b.push(x)) =~= cat(a, b).push(x)); assert(cat(a, b) + seq![x] =~= cat(a, b.push(x))); }
pub open spec fn breaks_start(tag: Seq<char>, n: nat) -> Tag { Tag::Open(tag, seq![("count"@, dec(n)), ("manualBreakCount"@, dec(n))]) }
pub open spec fn break_tags(tag: Seq<char>, v: Seq<u32>, max: Seq<char>) -> Seq<Tag> {
    cat(seq![breaks_start(tag, v.len())], brks(v, max, v.len() as int)).push(Tag::Close(tag))
}
/// nothing is left unwritten: the <pageSetup>, <printOptions> and <headerFooter> elements are written when any of their settings is not the default
pub open spec fn complete(w: Worksheet) -> bool {
    &&& !w.page_setup_changed ==> w.paper_size == 0 && w.print_scale == 100 && !w.fit_to_page && w.default_page_order && w.is_portrait && w.first_page_number == 0 && !w.print_black_and_white && !w.print_draft
    &&& !w.print_options_changed ==> !w.center_horizontally && !w.center_vertically && !w.print_headings && !w.print_gridlines
}
// ---------------------------------------------------------------- trusted: std collections, strings and floats
/// trusted: collecting into a HashSet keeps each value once
#[verifier::external_body] pub fn vp_unique(s: &[u32]) -> (r: Vec<u32>) ensures r@.no_duplicates(), forall|k: u32| #[trigger] r@.contains(k) <==> s@.contains(k) { let h: std::collections::HashSet<u32> = s.iter().copied().collect(); h.into_iter().collect() }
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<u32>) ensures old(v)@.no_duplicates() ==> final(v)@.no_duplicates(), forall|k: u32| #[trigger] final(v)@.contains(k) <==> old(v)@.contains(k), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] final(v)@[i] <= #[trigger] final(v)@[j] { v.sort_unstable() }
#[verifier::external_body] pub fn vp_first_is(v: &Vec<u32>, n: u32) -> (r: bool) ensures r == (v@.len() > 0 && v@[0] == n) { v.first() == Some(&n) }
#[verifier::external_body] pub fn vp_any_ge(v: &Vec<u32>, n: u32) -> (r: bool) ensures r == has_ge(v@, n) { v.iter().any(|&x| x >= n) }
#[verifier::external_body] pub fn vp_copy(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@ { v.clone() }
pub trait VpStr { spec fn vs(&self) -> Seq<char>; fn vp_none(&self) -> (r: bool) ensures r == (self.vs().len() == 0); }
impl VpStr for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_none(&self) -> (r: bool) { self.is_empty() } }
#[verifier::external_body] pub fn column_number_to_name(c: u16) -> (r: String) ensures r@ == col_letters(c as int) { String::new() }
#[verifier::external_body] pub fn cell_range_absolute(r: u32, c: u16, r2: u32, c2: u16) -> (t: String) ensures t@ == abs_range(r as int, c as int, r2 as int, c2 as int) { String::new() }
pub fn vp_flag(a: &mut Vec<(&'static str, String)>, b: bool, k: &'static str, v: &'static str) ensures av(final(a)@) == add(av(old(a)@), b, k@, v@) { broadcast use av_push; if b { a.push((k, v.vp_text())); } }
pub proof fn lemma_count(list: Seq<u32>, v: Seq<u32>) requires v.no_duplicates(), forall|k: u32| #[trigger] v.contains(k) <==> (k != 0 && list.contains(k)) ensures v.len() == break_count(list)
{ v.unique_seq_to_set(); assert(v.to_set() =~= list.to_set().remove(0)); }
impl DefinedName {
//@fn src/worksheet.rs new impl="impl DefinedName" ret=r
| ensures unset(r), r.name@.len() == 0, r.name_type is Global,
//@rewrite String::new\(\) => "".vp_text()
//@before /DefinedName \{/
| proof { reveal_strlit(""); }
//@end
//@fn src/worksheet.rs set_range impl="impl DefinedName"
| requires old(self).first_row < 0xffff_ffff, old(self).last_row < 0xffff_ffff,
| ensures final(self).range@ == range_of(*old(self)), *final(self) == (DefinedName { range: final(self).range, ..*old(self) }),
//@rewrite utility:: =>
//@rewrite String::new\(\) => "".vp_text()
//@rewrite range\.is_empty\(\) => range.vp_none()
//@at body-start
| proof { lits(); }
//@at body-end
| assert(self.range@ =~= range_of(*old(self)));
//@end
}
pub proof fn lits() ensures ""@ == Seq::<char>::empty(), "$"@ == seq!['$'], ":$"@ == seq![':', '$'], "!"@ == seq!['!'], "!$"@ == seq!['!', '$'], ","@ == seq![','] { reveal_strlit(""); reveal_strlit("$"); reveal_strlit(":$"); reveal_strlit("!"); reveal_strlit("!$"); reveal_strlit(",");
 assert(""@ =~= Seq::<char>::empty()); assert("$"@ =~= seq!['$']); assert(":$"@ =~= seq![':', '$']); assert("!"@ =~= seq!['!']); assert("!$"@ =~= seq!['!', '$']); assert(","@ =~= seq![',']); }
impl Worksheet {
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=r
| ensures r == inside(row, col), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs process_pagebreaks impl="impl Worksheet" ret=r
| ensures match r { Ok(v) => is_breaks(breaks@, v@) && break_count(breaks@) <= 1023, Err(_) => break_count(breaks@) > 1023 },
//@rewrite let unique_breaks[^;]*; => let unique_breaks = vp_unique(breaks);
//@rewrite let mut breaks[^;]*; => let mut breaks = unique_breaks;
//@rewrite breaks\.sort_unstable\(\) => vp_sort(&mut breaks)
//@rewrite breaks\.first\(\) == Some\(&0\) => vp_first_is(&breaks, 0)
//@rewrite (?s)"Maximum.*?to_string\(\) => "".vp_text()
//@before /let unique_breaks/
| let ghost list = breaks@;
//@after /vp_sort\([^;]*;/
| let ghost s = breaks@;
| assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] < #[trigger] s[j] by { assert(s[i] != s[j]); }
//@before /if breaks\.len\(\) > /
| assert forall|k: u32| #[trigger] breaks@.contains(k) <==> (k != 0 && list.contains(k)) by {
|   assert(s.contains(k) <==> list.contains(k));
|   if breaks@.len() < s.len() {
|     if breaks@.contains(k) { let i = choose|i: int| 0 <= i < breaks@.len() && breaks@[i] == k; assert(s[i + 1] == k); assert(s[0] < s[i + 1]); assert(s.contains(k)); }
|     if k != 0 && s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(i > 0); assert(breaks@[i - 1] == k); }
|   } else { if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if k == 0 && i > 0 { assert(s[0] < s[i]); } } }
| }
| assert(breaks@.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < breaks@.len() && 0 <= j < breaks@.len() && i != j implies breaks@[i] != breaks@[j] by { let d = s.len() - breaks@.len(); assert(breaks@[i] == s[i + d] && breaks@[j] == s[j + d]); } }
| proof { lemma_count(list, breaks@); }
//@end
//@fn src/worksheet.rs set_page_breaks impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => *final(self) == *final(p) && breaks_ok(breaks@, ROW_MAX as u32) && (if breaks@.len() == 0 { *p == *old(self) } else { is_breaks(breaks@, p.horizontal_breaks@) && *p == (Worksheet { horizontal_breaks: p.horizontal_breaks, ..*old(self) }) }), Err(_) => !breaks_ok(breaks@, ROW_MAX as u32) && *final(self) == *old(self) },
//@rewrite breaks\.is_empty\(\) => breaks.len() == 0
//@rewrite breaks\.iter\(\)\.any\(\|&\w+\| \w+ >= ([^)]*(?:\)(?=\)))?)\) => vp_any_ge(&breaks, \1)
//@rewrite (?#opt)u32::from\(COL_MAX\) => (COL_MAX as u32)
//@at body-start
| let ghost list = breaks@;
| proof { if list.len() == 0 { assert(list.to_set() =~= Set::<u32>::empty()); assert(list.to_set().remove(0) =~= Set::<u32>::empty()); } }
//@before /if vp_any_ge/
| assert(has_ge(breaks@, ROW_MAX as u32) == has_ge(list, ROW_MAX as u32)) by {
|   if has_ge(list, ROW_MAX as u32) { let i = choose|i: int| 0 <= i < list.len() && #[trigger] list[i] >= ROW_MAX as u32; assert(list.contains(list[i])); assert(breaks@.contains(list[i])); let j = choose|j: int| 0 <= j < breaks@.len() && breaks@[j] == list[i]; assert(breaks@[j] >= ROW_MAX as u32); }
|   if has_ge(breaks@, ROW_MAX as u32) { let i = choose|i: int| 0 <= i < breaks@.len() && #[trigger] breaks@[i] >= ROW_MAX as u32; assert(breaks@.contains(breaks@[i])); assert(list.contains(breaks@[i])); let j = choose|j: int| 0 <= j < list.len() && list[j] == breaks@[i]; assert(list[j] >= ROW_MAX as u32); }
| }
//@end
//@fn src/worksheet.rs set_vertical_page_breaks impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => *final(self) == *final(p) && breaks_ok(breaks@, COL_MAX as u32) && (if breaks@.len() == 0 { *p == *old(self) } else { is_breaks(breaks@, p.vertical_breaks@) && *p == (Worksheet { vertical_breaks: p.vertical_breaks, ..*old(self) }) }), Err(_) => !breaks_ok(breaks@, COL_MAX as u32) && *final(self) == *old(self) },
//@rewrite breaks\.is_empty\(\) => breaks.len() == 0
//@rewrite breaks\.iter\(\)\.any\(\|&\w+\| \w+ >= ([^)]*(?:\)(?=\)))?)\) => vp_any_ge(&breaks, \1)
//@rewrite (?#opt)u32::from\(COL_MAX\) => (COL_MAX as u32)
//@at body-start
| let ghost list = breaks@;
| proof { if list.len() == 0 { assert(list.to_set() =~= Set::<u32>::empty()); assert(list.to_set().remove(0) =~= Set::<u32>::empty()); } }
//@before /if vp_any_ge/
| assert(has_ge(breaks@, COL_MAX as u32) == has_ge(list, COL_MAX as u32)) by {
|   if has_ge(list, COL_MAX as u32) { let i = choose|i: int| 0 <= i < list.len() && #[trigger] list[i] >= COL_MAX as u32; assert(list.contains(list[i])); assert(breaks@.contains(list[i])); let j = choose|j: int| 0 <= j < breaks@.len() && breaks@[j] == list[i]; assert(breaks@[j] >= COL_MAX as u32); }
|   if has_ge(breaks@, COL_MAX as u32) { let i = choose|i: int| 0 <= i < breaks@.len() && #[trigger] breaks@[i] >= COL_MAX as u32; assert(breaks@.contains(breaks@[i])); assert(list.contains(breaks@[i])); let j = choose|j: int| 0 <= j < list.len() && list[j] == breaks@[i]; assert(list[j] >= COL_MAX as u32); }
| }
//@end
//@fn src/worksheet.rs set_paper_size impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { paper_size: paper_size, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_page_order impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { default_page_order: enable, page_setup_changed: old(self).page_setup_changed || !enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_landscape impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { is_portrait: false, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_portrait impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { is_portrait: true, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_view_normal impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::Normal, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_view_page_layout impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::PageLayout, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_view_page_break_preview impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::PageBreaks, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_first_page_number impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { first_page_number: page_number, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_scale impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if 10 <= scale <= 400 { Worksheet { print_scale: scale, fit_to_page: false, page_setup_changed: true, ..*old(self) } } else { *old(self) }), complete(*old(self)) ==> complete(*r),
//@rewrite !\(10\.\.=400\)\.contains\(&scale\) => !(10 <= scale && scale <= 400)
//@rewrite eprintln!\([^;]*\); =>
//@end
//@fn src/worksheet.rs set_print_fit_to_pages impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { fit_width: width, fit_height: height, print_scale: 100, fit_to_page: true, page_setup_changed: true, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_center_horizontally impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { center_horizontally: enable, print_options_changed: old(self).print_options_changed || enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_center_vertically impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { center_vertically: enable, print_options_changed: old(self).print_options_changed || enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_gridlines impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { print_gridlines: enable, print_options_changed: old(self).print_options_changed || enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_headings impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { print_headings: enable, print_options_changed: old(self).print_options_changed || enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_screen_gridlines impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { screen_gridlines: enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_black_and_white impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { print_black_and_white: enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_draft impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { print_draft: enable, page_setup_changed: old(self).page_setup_changed || enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_print_area impl="impl Worksheet" ret=r
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && inside(last_row, last_col) && first_row <= last_row && first_col <= last_col && (if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 { unset(p.print_area_defined_name) && *p == (Worksheet { print_area_defined_name: p.print_area_defined_name, ..*old(self) }) } else { *p == (Worksheet { print_area_defined_name: DefinedName { in_use: true, name_type: DefinedNameType::PrintArea, first_row: first_row, first_col: first_col, last_row: last_row, last_col: last_col, ..old(self).print_area_defined_name }, page_setup_changed: true, ..*old(self) }) }),
|   Err(_) => !(inside(last_row, last_col) && first_row <= last_row && first_col <= last_col) && *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs set_repeat_rows impl="impl Worksheet" ret=r
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && last_row < ROW_MAX && first_row <= last_row && *p == (Worksheet { repeat_row_cols_defined_name: DefinedName { in_use: true, name_type: DefinedNameType::PrintTitles, first_row: first_row, last_row: last_row, ..old(self).repeat_row_cols_defined_name }, page_setup_changed: true, ..*old(self) }),
|   Err(_) => !(last_row < ROW_MAX && first_row <= last_row) && *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs set_repeat_columns impl="impl Worksheet" ret=r
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && last_col < COL_MAX && first_col <= last_col && *p == (Worksheet { repeat_row_cols_defined_name: DefinedName { in_use: true, name_type: DefinedNameType::PrintTitles, first_col: first_col, last_col: last_col, ..old(self).repeat_row_cols_defined_name }, page_setup_changed: true, ..*old(self) }),
|   Err(_) => !(last_col < COL_MAX && first_col <= last_col) && *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs write_print_options impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("printOptions"@, flags(*old(self)))], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_push, av_none;
//@end
//@fn src/worksheet.rs write_page_setup impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("pageSetup"@, page(*old(self)))], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_push, av_none;
//@before /if self\.fit_to_page/
| proof { reveal(page1); }
| assert(av(attributes@) == page1(*self));
//@before /if !self\.default_page_order/
| proof { reveal(page2); }
| assert(av(attributes@) == page2(*self));
//@before /if self\.is_portrait/
| proof { reveal(page3); }
| assert(av(attributes@) == page3(*self));
//@before /if self\.print_black_and_white/
| proof { reveal(page4); }
| assert(av(attributes@) == page4(*self));
//@before /attributes\.push\(\("horizontalDpi"/
| proof { reveal(page5); }
| assert(av(attributes@) == page5(*self));
//@end
//@fn src/worksheet.rs write_row_brk impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![brk(row_num, "16383"@)], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@before /xml_empty_tag/
| assert(av(attributes@) =~= seq![("id"@, dec(row_num as nat)), ("max"@, "16383"@), ("man"@, "1"@)]);
//@end
//@fn src/worksheet.rs write_row_breaks impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + break_tags("rowBreaks"@, old(self).horizontal_breaks@, "16383"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite for row_num in self\.horizontal_breaks\.clone\(\) => for row_num in vp_copy(&self.horizontal_breaks)
//@before /xml_start_tag/
| assert(av(attributes@) =~= seq![("count"@, dec(self.horizontal_breaks@.len())), ("manualBreakCount"@, dec(self.horizontal_breaks@.len()))]);
//@loop 1 iter=it
| invariant self.writer.log() == cat(old(self).writer.log().push(breaks_start("rowBreaks"@, old(self).horizontal_breaks@.len())), brks(old(self).horizontal_breaks@, "16383"@, it.index@ as int)), *self == (Worksheet { writer: self.writer, ..*old(self) }), it.seq() == old(self).horizontal_breaks@,
//@at loop 1 start
| proof { cat_push(old(self).writer.log().push(breaks_start("rowBreaks"@, old(self).horizontal_breaks@.len())), brks(old(self).horizontal_breaks@, "16383"@, it.index@ as int), brk(row_num, "16383"@)); }
//@at before-loop 1
| proof { cat_none(self.writer.log()); }
//@at body-end
| proof { reveal(cat); }
//@end
//@fn src/worksheet.rs write_col_brk impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![brk(col_num, "1048575"@)], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@before /xml_empty_tag/
| assert(av(attributes@) =~= seq![("id"@, dec(col_num as nat)), ("max"@, "1048575"@), ("man"@, "1"@)]);
//@end
//@fn src/worksheet.rs write_col_breaks impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + break_tags("colBreaks"@, old(self).vertical_breaks@, "1048575"@), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite for col_num in self\.vertical_breaks\.clone\(\) => for col_num in vp_copy(&self.vertical_breaks)
//@before /xml_start_tag/
| assert(av(attributes@) =~= seq![("count"@, dec(self.vertical_breaks@.len())), ("manualBreakCount"@, dec(self.vertical_breaks@.len()))]);
//@loop 1 iter=it
| invariant self.writer.log() == cat(old(self).writer.log().push(breaks_start("colBreaks"@, old(self).vertical_breaks@.len())), brks(old(self).vertical_breaks@, "1048575"@, it.index@ as int)), *self == (Worksheet { writer: self.writer, ..*old(self) }), it.seq() == old(self).vertical_breaks@,
//@at loop 1 start
| proof { cat_push(old(self).writer.log().push(breaks_start("colBreaks"@, old(self).vertical_breaks@.len())), brks(old(self).vertical_breaks@, "1048575"@, it.index@ as int), brk(col_num, "1048575"@)); }
//@at before-loop 1
| proof { cat_none(self.writer.log()); }
//@at body-end
| proof { reveal(cat); }
//@end
//@fn src/worksheet.rs write_page_set_up_pr impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + (if old(self).fit_to_page { seq![Tag::Empty("pageSetUpPr"@, seq![("fitToPage"@, "1"@)])] } else { seq![] }), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite "1"\) => "1".vp_text())
//@before /xml_empty_tag/
| assert(av(attributes@) =~= seq![("fitToPage"@, "1"@)]);
//@end
}
} // verus!
fn main() {}
