// C16: autofilters.  Extracted from /repo/src on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
verus! {
//@include fmt_prelude.rs
//@include hashmap_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs enum FilterType derive=
//@item src/worksheet.rs struct RowOptions derive=
//@item src/worksheet.rs enum CellType derive= sub=Arc<str>=>String;Box<str>=>String
//@item src/filter.rs struct FilterCondition derive=
//@item src/filter.rs struct FilterData derive=
//@item src/filter.rs enum FilterDataType derive=
//@item src/filter.rs enum FilterCriteria derive=Clone,Copy
//@item src/worksheet.rs struct DefinedName keep=in_use,first_row,first_col,last_row,last_col derive=
//@item src/worksheet.rs struct Worksheet keep=writer,dimensions,changed_rows,data_table,autofilter_hidden_rows,autofilter_dimensions,autofilter_defined_name,autofilter_area,filter_conditions,filter_automatic_off,cells_with_autofilter,use_constant_memory,current_row derive= sub=Cursor<Vec<u8>>=>Writer
pub struct Format { pub id: u64 }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, ParameterError, Other }

// ---------------------------------------------------------------- specification
pub type Rows = Map<u32, RowOptions>;
pub type Cells = Map<u32, BTreeMap<u16, CellType>>;
/// text as Excel compares it: lower case, without the surrounding space
pub uninterp spec fn key(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
/// order of strings, and of numbers (trusted: std)
pub uninterp spec fn before(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub uninterp spec fn f_lt(a: f64, b: f64) -> bool;
pub uninterp spec fn f_le(a: f64, b: f64) -> bool;
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.is_prefix_of(s) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.is_suffix_of(s) }
pub open spec fn holds(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub open spec fn is_number(d: FilterData) -> bool { d.data_type is Number }
/// the text of a cell with text
pub open spec fn text_of(c: CellType) -> Option<Seq<char>> { match c { CellType::String { string, .. } => Some(string@), CellType::RichString { raw_string, .. } => Some(raw_string@), _ => None } }
/// a list filter takes the texts and numbers of the list, and the blanks if asked for
pub open spec fn takes_list(c: Option<CellType>, f: FilterCondition) -> bool {
    match c {
        None => f.should_match_blanks,
        Some(c) => match c {
            CellType::String { .. } | CellType::RichString { .. } => (exists|i: int| 0 <= i < f.list@.len() && key((#[trigger] f.list@[i]).string@) == key(text_of(c)->0)) || (f.should_match_blanks && key(text_of(c)->0).len() == 0),
            CellType::Number { number, .. } => exists|i: int| 0 <= i < f.list@.len() && is_number(#[trigger] f.list@[i]) && f_eq(number, f.list@[i].number),
            CellType::Blank { .. } => f.should_match_blanks,
            _ => false,
        },
    }
}
/// comparisons and patterns on text
pub open spec fn text_meets(s: Seq<char>, d: FilterData) -> bool {
    let (a, b) = (key(s), key(d.string@));
    match d.criteria {
        FilterCriteria::EqualTo => a == b, FilterCriteria::NotEqualTo => a != b,
        FilterCriteria::LessThan => before(a, b), FilterCriteria::GreaterThan => before(b, a),
        FilterCriteria::LessThanOrEqualTo => before(a, b) || a == b, FilterCriteria::GreaterThanOrEqualTo => before(b, a) || a == b,
        FilterCriteria::EndsWith => ends(a, b), FilterCriteria::DoesNotEndWith => !ends(a, b),
        FilterCriteria::BeginsWith => starts(a, b), FilterCriteria::DoesNotBeginWith => !starts(a, b),
        FilterCriteria::Contains => holds(a, b), FilterCriteria::DoesNotContain => !holds(a, b),
    }
}
/// comparisons of numbers; patterns are for text only
pub open spec fn number_meets(n: f64, d: FilterData) -> bool {
    if is_number(d) {
        match d.criteria {
            FilterCriteria::EqualTo => f_eq(n, d.number), FilterCriteria::NotEqualTo => !f_eq(n, d.number),
            FilterCriteria::LessThan => f_lt(n, d.number), FilterCriteria::GreaterThan => f_lt(d.number, n),
            FilterCriteria::LessThanOrEqualTo => f_le(n, d.number), FilterCriteria::GreaterThanOrEqualTo => f_le(d.number, n),
            _ => false,
        }
    } else { d.criteria is NotEqualTo && f_text(n) != trim(d.string@) }
}
/// "not blank" is the filter that the text is not a space
pub open spec fn not_blank(d: FilterData) -> bool { d.criteria is NotEqualTo && d.string@ == seq![' '] }
pub open spec fn meets(c: Option<CellType>, d: FilterData) -> bool {
    match c {
        None => false,
        Some(c) => match c {
            CellType::String { .. } | CellType::RichString { .. } => text_meets(text_of(c)->0, d),
            CellType::Number { number, .. } => number_meets(number, d),
            CellType::DateTime { number, .. } => number_meets(number, d),
            CellType::Blank { .. } => false,
            _ => not_blank(d),
        },
    }
}
pub open spec fn meets_opt(c: Option<CellType>, d: Option<FilterData>) -> bool { match d { Some(d) => meets(c, d), None => false } }
/// one or two conditions, joined by and or or
pub open spec fn takes_custom(c: Option<CellType>, f: FilterCondition) -> bool {
    match f.custom2 { None => meets_opt(c, f.custom1), Some(_) => if f.apply_logical_or { meets_opt(c, f.custom1) || meets_opt(c, f.custom2) } else { meets_opt(c, f.custom1) && meets_opt(c, f.custom2) } }
}
pub open spec fn takes(c: Option<CellType>, f: FilterCondition) -> bool { if f.is_list_filter { takes_list(c, f) } else { takes_custom(c, f) } }
pub open spec fn cell_at(m: Cells, r: u32, c: u16) -> Option<CellType> { if m.dom().contains(r) && m[r]@.dom().contains(c) { Some(m[r]@[c]) } else { None } }
pub open spec fn row_at(m: Rows, r: u32) -> RowOptions { if m.dom().contains(r) { m[r] } else { RowOptions { height: None, xf_index: 0, level: 0, hidden: false, collapsed: false, format: None } } }
/// row r fails the condition of one of the first n columns
pub open spec fn fails(w: Worksheet, k: Seq<u16>, n: int, r: u32) -> bool { exists|i: int| 0 <= i < n && i < k.len() && !#[trigger] passes(w, k, i, r) }
pub open spec fn passes(w: Worksheet, k: Seq<u16>, i: int, r: u32) -> bool { takes(cell_at(w.data_table@, r, k[i]), w.filter_conditions@[k[i]]) }
pub open spec fn in_data(w: Worksheet, r: u32) -> bool { w.autofilter_defined_name.first_row < r <= w.autofilter_defined_name.last_row }
/// row r of the data fails the condition of some filtered column
pub open spec fn filtered_out(w: Worksheet, r: u32) -> bool { in_data(w, r) && exists|c: u16| #[trigger] w.filter_conditions@.dom().contains(c) && !takes(cell_at(w.data_table@, r, c), w.filter_conditions@[c]) }
pub open spec fn hid(a: Rows, b: Rows, r: u32, hide: bool) -> bool {
    if hide { b.dom().contains(r) && b[r] == (RowOptions { hidden: true, ..row_at(a, r) }) } else { a.dom().contains(r) == b.dom().contains(r) && (a.dom().contains(r) ==> a[r] == b[r]) }
}
pub open spec fn hid_out(w: Worksheet, b: Rows, r: u32) -> bool { hid(w.changed_rows@, b, r, filtered_out(w, r)) }
/// exactly these rows are hidden; every other setting of every row is as it was
pub open spec fn hidden_exactly(w: Worksheet, b: Rows) -> bool { forall|r: u32| #[trigger] hid_out(w, b, r) }
pub open spec fn hid_at(w: Worksheet, b: Rows, k: Seq<u16>, n: int, upto: int, r: u32) -> bool { hid(w.changed_rows@, b, r, in_data(w, r) && (fails(w, k, n, r) || (n < k.len() && r < upto && !passes(w, k, n, r)))) }
#[verifier::opaque] pub open spec fn so_far(w: Worksheet, b: Rows, k: Seq<u16>, n: int, upto: int) -> bool {
    forall|r: u32| #[trigger] hid_at(w, b, k, n, upto, r)
}
pub open spec fn but_hidden(a: Worksheet, b: Worksheet) -> bool { b == (Worksheet { changed_rows: b.changed_rows, dimensions: b.dimensions, autofilter_hidden_rows: b.autofilter_hidden_rows, autofilter_dimensions: b.autofilter_dimensions, ..a }) }
/// the columns in ascending order
pub open spec fn keys_of(k: Seq<u16>, m: Map<u16, FilterCondition>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> m.dom().contains(#[trigger] k[i])
    &&& forall|c: u16| #[trigger] m.dom().contains(c) ==> k.contains(c)
    &&& forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] < #[trigger] k[j]
}
pub open spec fn has_condition(f: FilterCondition) -> bool { if f.is_list_filter { f.list@.len() > 0 || f.should_match_blanks } else { f.custom1 is Some } }
// ---- what is written
pub open spec fn operator_of(c: FilterCriteria) -> Seq<char> {
    match c {
        FilterCriteria::LessThan => "lessThan"@, FilterCriteria::GreaterThan => "greaterThan"@, FilterCriteria::LessThanOrEqualTo => "lessThanOrEqual"@, FilterCriteria::GreaterThanOrEqualTo => "greaterThanOrEqual"@,
        FilterCriteria::NotEqualTo | FilterCriteria::DoesNotEndWith | FilterCriteria::DoesNotContain | FilterCriteria::DoesNotBeginWith => "notEqual"@,
        _ => seq![],
    }
}
/// patterns are written with wildcards
pub open spec fn pattern(d: FilterData) -> Seq<char> {
    match d.criteria {
        FilterCriteria::EndsWith | FilterCriteria::DoesNotEndWith => "*"@ + d.string@,
        FilterCriteria::Contains | FilterCriteria::DoesNotContain => "*"@ + d.string@ + "*"@,
        FilterCriteria::BeginsWith | FilterCriteria::DoesNotBeginWith => d.string@ + "*"@,
        _ => d.string@,
    }
}
pub open spec fn custom_tag(d: FilterData) -> Tag { Tag::Empty("customFilter"@, add(Seq::empty(), operator_of(d.criteria).len() > 0, "operator"@, operator_of(d.criteria)).push(("val"@, pattern(d)))) }
pub open spec fn opt_tag(d: Option<FilterData>) -> Seq<Tag> { match d { Some(d) => seq![custom_tag(d)], None => seq![] } }
pub open spec fn filter_tag(d: FilterData) -> Tag { Tag::Empty("filter"@, seq![("val"@, d.string@)]) }
pub open spec fn filter_tags(v: Seq<FilterData>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { filter_tags(v, n - 1).push(filter_tag(v[n - 1])) } }
pub open spec fn list_tags(f: FilterCondition) -> Seq<Tag> {
    let a = add(Seq::empty(), f.should_match_blanks, "blank"@, "1"@);
    if f.list@.len() == 0 { seq![Tag::Empty("filters"@, a)] } else { seq![Tag::Open("filters"@, a)] + filter_tags(f.list@, f.list@.len() as int) + seq![Tag::Close("filters"@)] }
}
pub open spec fn custom_tags(f: FilterCondition) -> Seq<Tag> { seq![Tag::Open("customFilters"@, add(Seq::empty(), !f.apply_logical_or, "and"@, "1"@))] + opt_tag(f.custom1) + opt_tag(f.custom2) + seq![Tag::Close("customFilters"@)] }
pub open spec fn column_tags(c: int, f: FilterCondition) -> Seq<Tag> { seq![Tag::Open("filterColumn"@, seq![("colId"@, dec(c as nat))])] + (if f.is_list_filter { list_tags(f) } else { custom_tags(f) }) + seq![Tag::Close("filterColumn"@)] }
pub open spec fn all_tags(k: Seq<u16>, m: Map<u16, FilterCondition>, first: int, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { all_tags(k, m, first, n - 1) + column_tags(k[n - 1] - first, m[k[n - 1]]) } }

// ---------------------------------------------------------------- trusted
#[verifier::external_body] pub fn vp_key(s: &String) -> (r: String) ensures r@ == key(s@) { s.to_lowercase().trim().to_string() }
#[verifier::external_body] pub fn vp_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// trusted: the order of strings is total
#[verifier::external_body] pub fn vp_before(a: &String, b: &String) -> (r: bool) ensures r == before(a@, b@) { a < b }
#[verifier::external_body] pub fn vp_not_after(a: &String, b: &String) -> (r: bool) ensures r == (before(a@, b@) || a@ == b@) { a <= b }
#[verifier::external_body] pub fn vp_starts(a: &String, b: &String) -> (r: bool) ensures r == starts(a@, b@) { a.starts_with(b) }
#[verifier::external_body] pub fn vp_ends(a: &String, b: &String) -> (r: bool) ensures r == ends(a@, b@) { a.ends_with(b) }
#[verifier::external_body] pub fn vp_has(a: &String, b: &String) -> (r: bool) ensures r == holds(a@, b@) { a.contains(b) }
#[verifier::external_body] pub fn vp_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn vp_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vp_not_text(n: f64, s: &String) -> (r: bool) ensures r == (f_text(n) != trim(s@)) { n.to_string() != s.trim() }
#[verifier::external_body] pub fn vp_feq(a: f64, b: f64) -> (r: bool) ensures r == f_eq(a, b) { a == b }
#[verifier::external_body] pub fn vp_flt(a: f64, b: f64) -> (r: bool) ensures r == f_lt(a, b) { a < b }
#[verifier::external_body] pub fn vp_fle(a: f64, b: f64) -> (r: bool) ensures r == f_le(a, b) { a <= b }
#[verifier::external_body] pub fn vp_keys(m: &BTreeMap<ColNum, FilterCondition>) -> (r: Vec<ColNum>) ensures keys_of(r@, m@) { m.keys().copied().collect() }
pub open spec fn nothing(m: Map<u16, FilterCondition>) -> bool { forall|c: u16| !#[trigger] m.dom().contains(c) }
#[verifier::external_body] pub fn vp_none(m: &BTreeMap<ColNum, FilterCondition>) -> (r: bool) ensures r == nothing(m@) { m.is_empty() }
#[verifier::external_body] pub fn vp_cond(m: &BTreeMap<ColNum, FilterCondition>, c: &ColNum) -> (r: FilterCondition) requires m@.dom().contains(*c) ensures r == m@[*c] { unimplemented!() }
#[verifier::external_body] pub fn vp_clone(f: &FilterCondition) -> (r: FilterCondition) ensures r == *f { unimplemented!() }
#[verifier::external_body] pub fn vp_dims(f: &CellRange) -> (r: CellRange) ensures r == *f { unimplemented!() }

// ---------------------------------------------------------------- code
impl FilterCriteria {
//@fn src/filter.rs operator impl="impl FilterCriteria" ret=r
| ensures r@ == operator_of(self),
//@at body-start
| proof { reveal_strlit("lessThan"); }
//@end
}
impl FilterData {
//@fn src/filter.rs value impl="impl FilterData" ret=r
| ensures r@ =~= pattern(*self),
//@rewrite self\.string\.clone\(\) => vp_copy(&self.string)
//@end
//@fn src/filter.rs new_string_and_criteria impl="impl FilterData" ret=r
| ensures r.data_type is String, r.string@ == value@, r.criteria == criteria,
//@end
//@fn src/filter.rs new_number_and_criteria impl="impl FilterData" ret=r
| ensures r.data_type is Number, r.string@ == f_text(value), r.number == value, r.criteria == criteria,
//@rewrite \.to_string\(\) => .vp_text()
//@end
}
/// values that conditions are made of
pub trait IntoFilterData {
    spec fn is_data(&self, c: FilterCriteria, d: FilterData) -> bool;
    fn new_filter_data(&self, criteria: FilterCriteria) -> (r: FilterData) ensures self.is_data(criteria, r);
}
pub open spec fn number_data(n: f64, c: FilterCriteria, d: FilterData) -> bool { d.data_type is Number && d.string@ == f_text(n) && d.number == n && d.criteria == c }
impl IntoFilterData for f64 {
    open spec fn is_data(&self, c: FilterCriteria, d: FilterData) -> bool { number_data(*self, c, d) }
//@fn src/filter.rs new_filter_data impl="impl IntoFilterData for f64" ret=r nopub
//@end
}
impl<'a> IntoFilterData for &'a str {
    open spec fn is_data(&self, c: FilterCriteria, d: FilterData) -> bool { d.data_type is String && d.string@ == self@ && d.criteria == c }
//@fn src/filter.rs new_filter_data impl="impl IntoFilterData for &str" ret=r nopub
//@end
}
/// trusted: an integer as a float
pub uninterp spec fn f_int(n: int) -> f64;
#[verifier::external_body] pub fn vp_f64(n: i32) -> (r: f64) ensures r == f_int(n as int) { unimplemented!() }
impl IntoFilterData for i32 {
    open spec fn is_data(&self, c: FilterCriteria, d: FilterData) -> bool { number_data(f_int(*self as int), c, d) }
//@fn src/filter.rs new_filter_data impl="impl IntoFilterData for i32" ret=r nopub
//@rewrite f64::from => vp_f64
//@end
}
impl FilterCondition {
//@fn src/filter.rs new impl="impl FilterCondition" ret=r
| ensures r.is_list_filter, r.apply_logical_or, !r.should_match_blanks, r.list@.len() == 0, r.custom1 is None, r.custom2 is None,
//@end
//@fn src/filter.rs add_list_filter impl="impl FilterCondition" ret=r
| ensures r == (FilterCondition { list: r.list, is_list_filter: true, ..self }), r.list@.len() == self.list@.len() + 1, r.list@.drop_last() =~= self.list@, value.is_data(FilterCriteria::EqualTo, r.list@.last()),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/filter.rs add_custom_filter impl="impl FilterCondition" ret=r
| ensures
|   // the first, then the second condition; a third is refused
|   self.custom1 is None ==> r.custom1 is Some && value.is_data(criteria, r.custom1->0) && r == (FilterCondition { custom1: r.custom1, is_list_filter: false, ..self }),
|   self.custom1 is Some && self.custom2 is None ==> r.custom2 is Some && value.is_data(criteria, r.custom2->0) && r == (FilterCondition { custom2: r.custom2, apply_logical_or: false, is_list_filter: false, ..self }),
|   self.custom1 is Some && self.custom2 is Some ==> r == (FilterCondition { is_list_filter: false, ..self }),
//@rewrite sig:mut self => self
//@rewrite eprintln!\([^;]*\); =>
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/filter.rs add_list_blanks_filter impl="impl FilterCondition" ret=r
| ensures r == (FilterCondition { should_match_blanks: true, is_list_filter: true, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/filter.rs add_custom_boolean_or impl="impl FilterCondition" ret=r
| ensures r == (FilterCondition { apply_logical_or: true, is_list_filter: false, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl Worksheet {
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384), *final(self) == (Worksheet { dimensions: final(self).dimensions, ..*old(self) }), !ok ==> *final(self) == *old(self), old(self).dimensions.first_col <= 16384 ==> final(self).dimensions.first_col <= 16384,
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end
//@fn src/worksheet.rs get_min_col impl="impl Worksheet" ret=c
| ensures self.dimensions.first_col <= 16384 ==> c < 16384
//@end
//@fn src/worksheet.rs set_row_hidden impl="impl Worksheet" ret=r
| requires old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && *p == (Worksheet { dimensions: p.dimensions, changed_rows: p.changed_rows, ..*old(self) }) && p.dimensions.first_col <= 16384 && p.changed_rows@ == old(self).changed_rows@.insert(row, RowOptions { hidden: true, ..row_at(old(self).changed_rows@, row) }),
|     Err(_) => row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@end
//@fn src/worksheet.rs hide_autofilter_row impl="impl Worksheet"
| requires old(self).dimensions.first_col <= 16384, row_num < 1048576,
| ensures final(self).changed_rows@ == old(self).changed_rows@.insert(row_num, RowOptions { hidden: true, ..row_at(old(self).changed_rows@, row_num) }),
|   but_hidden(*old(self), *final(self)), final(self).dimensions.first_col <= 16384, final(self).autofilter_dimensions == old(self).autofilter_dimensions,
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite row_options\.is_some_and\(\|row_options\| row_options\.hidden\) => (match row_options { Some(vp_o) => vp_o.hidden, None => false })
//@rewrite self\.set_row_hidden\(row_num\)\.unwrap\(\); => let vp_r = self.set_row_hidden(row_num); assert(vp_r is Ok); let _ = vp_r;
//@end
//@fn src/worksheet.rs hide_autofilter_rows impl="impl Worksheet"
| requires old(self).dimensions.first_col <= 16384, old(self).autofilter_defined_name.first_row <= old(self).autofilter_defined_name.last_row < 1048576,
| ensures but_hidden(*old(self), *final(self)),
|   old(self).filter_automatic_off ==> *final(self) == *old(self),
|   !old(self).filter_automatic_off ==> hidden_exactly(*old(self), final(self).changed_rows@),
//@rewrite self\.dimensions\.clone\(\) => vp_dims(&self.dimensions)
//@rewrite self\.filter_conditions\.is_empty\(\) => vp_none(&self.filter_conditions)
//@rewrite for col_num in self\.filter_conditions\.clone\(\)\.keys\(\) \{ => let vp_k = vp_keys(&self.filter_conditions); for vp_i in 0..vp_k.len() { let col_num = &vp_k[vp_i];
//@rewrite self\.filter_conditions\.get\(col_num\)\.unwrap\(\)\.clone\(\) => vp_cond(&self.filter_conditions, col_num)
//@rewrite first_row\.\.=last_row => first_row..last_row + 1
//@at body-start
| let ghost w0 = *self;
| proof { reveal(so_far); }
//@loop 1
| invariant w0 == *old(self), but_hidden(w0, *self), keys_of(vp_k@, w0.filter_conditions@), self.dimensions.first_col <= 16384, first_row == w0.autofilter_defined_name.first_row + 1, last_row == w0.autofilter_defined_name.last_row, w0.autofilter_defined_name.first_row <= last_row < 1048576,
|   so_far(w0, self.changed_rows@, vp_k@, vp_i as int, first_row as int),
//@loop 2
| invariant w0 == *old(self), but_hidden(w0, *self), keys_of(vp_k@, w0.filter_conditions@), self.dimensions.first_col <= 16384, first_row == w0.autofilter_defined_name.first_row + 1, last_row == w0.autofilter_defined_name.last_row, w0.autofilter_defined_name.first_row <= last_row < 1048576,
|   vp_i < vp_k@.len(), *col_num == vp_k@[vp_i as int], filter_condition == w0.filter_conditions@[*col_num],
|   so_far(w0, self.changed_rows@, vp_k@, vp_i as int, row_num as int),
//@at loop 2 start
| let ghost vp_b = self.changed_rows@;
//@at loop 2 end
| proof { row_step(w0, vp_b, self.changed_rows@, vp_k@, vp_i as int, row_num); }
//@at after-loop 2
| proof { column_step(w0, self.changed_rows@, vp_k@, vp_i as int, first_row as int); }
//@at after-loop 1
| proof { columns_done(w0, self.changed_rows@, vp_k@, first_row as int); }
//@end
//@fn src/worksheet.rs row_matches_list_filter impl="impl Worksheet" ret=r
| ensures r == takes_list(cell_at(self.data_table@, row_num, col_num), *filter_condition),
//@rewrite string\.clone\(\)\.to_lowercase\(\)\.trim\(\)\.to_string\(\) => vp_key(string)
//@rewrite cell_string == filter\.string\.to_lowercase\(\)\.trim\(\) => vp_eq(&cell_string, &vp_key(&filter.string))
//@rewrite cell_string\.is_empty\(\) => vp_is_empty(&cell_string)
//@rewrite filter\.data_type == FilterDataType::Number => matches!(filter.data_type, FilterDataType::Number)
//@rewrite number == &filter\.number => vp_feq(*number, filter.number)
//@rewrite for filter in &filter_condition\.list \{ => for vp_i in 0..filter_condition.list.len() { let filter = &filter_condition.list[vp_i];
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@loop 1
| invariant cell_string@ == key(string@), cell_at(self.data_table@, row_num, col_num) == Some(*cell), (cell is String && cell->String_string == *string) || (cell is RichString && cell->RichString_raw_string == *string), forall|i: int| 0 <= i < vp_i ==> key((#[trigger] filter_condition.list@[i]).string@) != key(string@),
//@loop 2
| invariant cell_at(self.data_table@, row_num, col_num) == Some(*cell), cell is Number, cell->Number_number == *number, forall|i: int| 0 <= i < vp_i ==> !(is_number(#[trigger] filter_condition.list@[i]) && f_eq(*number, filter_condition.list@[i].number)),
//@end
//@fn src/worksheet.rs row_matches_custom_filters impl="impl Worksheet" ret=r
| ensures r == takes_custom(cell_at(self.data_table@, row_num, col_num), *filter_condition),
//@end
//@fn src/worksheet.rs row_matches_custom_filter impl="impl Worksheet" ret=r
| ensures r == meets(cell_at(self.data_table@, row_num, col_num), *filter),
//@rewrite string\.clone\(\)\.to_lowercase\(\)\.trim\(\)\.to_string\(\) => vp_key(string)
//@rewrite filter\.string\.to_lowercase\(\)\.trim\(\)\.to_string\(\) => vp_key(&filter.string)
//@rewrite (?#opt)cell_string == filter_string => vp_eq(&cell_string, &filter_string)
//@rewrite (?#opt)cell_string != filter_string => !vp_eq(&cell_string, &filter_string)
//@rewrite (?#opt)cell_string < filter_string => vp_before(&cell_string, &filter_string)
//@rewrite (?#opt)cell_string > filter_string => vp_before(&filter_string, &cell_string)
//@rewrite (?#opt)cell_string <= filter_string => vp_not_after(&cell_string, &filter_string)
//@rewrite (?#opt)cell_string >= filter_string => vp_not_after(&filter_string, &cell_string)
//@rewrite cell_string\.ends_with\( => vp_ends(&cell_string, 
//@rewrite cell_string\.starts_with\( => vp_starts(&cell_string, 
//@rewrite cell_string\.contains\( => vp_has(&cell_string, 
//@rewrite filter\.data_type == FilterDataType::Number => matches!(filter.data_type, FilterDataType::Number)
//@rewrite filter\.criteria == FilterCriteria::NotEqualTo => matches!(filter.criteria, FilterCriteria::NotEqualTo)
//@rewrite (?#opt)\*number == filter\.number => vp_feq(*number, filter.number)
//@rewrite (?#opt)\*number != filter\.number => !vp_feq(*number, filter.number)
//@rewrite (?#opt)\*number < filter\.number => vp_flt(*number, filter.number)
//@rewrite (?#opt)\*number > filter\.number => vp_flt(filter.number, *number)
//@rewrite (?#opt)\*number <= filter\.number => vp_fle(*number, filter.number)
//@rewrite (?#opt)\*number >= filter\.number => vp_fle(filter.number, *number)
//@rewrite number\.to_string\(\) != filter\.string\.trim\(\) => vp_not_text(*number, &filter.string)
//@rewrite filter\.string == " " => vp_is(&filter.string, " ")
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
| proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@end
//@fn src/worksheet.rs filter_column impl="impl Worksheet" ret=r
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && column_ok(*old(self), col) && has_condition(*filter_condition) && *p == (Worksheet { filter_conditions: p.filter_conditions, ..*old(self) }) && p.filter_conditions@ == old(self).filter_conditions@.insert(col, *filter_condition),
|     Err(_) => *final(self) == *old(self) && !(column_ok(*old(self), col) && has_condition(*filter_condition)),
|   },
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@rewrite let error =\s*"[^"]*"\s*\.to_string\(\); =>
//@rewrite let error = format!\([^;]*\); =>
//@rewrite XlsxError::ParameterError\(error\) => XlsxError::ParameterError
//@rewrite filter_condition\.list\.is_empty\(\) => (filter_condition.list.len() == 0)
//@rewrite filter_condition\.clone\(\) => vp_clone(filter_condition)
//@end
//@fn src/worksheet.rs autofilter impl="impl Worksheet" ret=r
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && legal(first_row, first_col, last_row, last_col) && p.filter_conditions@ == Map::<u16, FilterCondition>::empty() && p.autofilter_area@ == range_text(first_row, first_col, last_row, last_col)
|       && p.autofilter_defined_name == (DefinedName { in_use: true, first_row: first_row, first_col: first_col, last_row: last_row, last_col: last_col, ..p.autofilter_defined_name })
|       && *p == (Worksheet { filter_conditions: p.filter_conditions, autofilter_area: p.autofilter_area, autofilter_defined_name: p.autofilter_defined_name, cells_with_autofilter: p.cells_with_autofilter, ..*old(self) }),
|     Err(_) => *final(self) == *old(self) && (legal(first_row, first_col, last_row, last_col) ==> table_in_way(*old(self), first_row, first_col, last_col)),
|   },
//@at body-start
| let ghost w0 = *self;
| proof { key_model(); }
| broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms};
//@rewrite first_col\.\.=last_col => first_col..last_col + 1
//@rewrite \*filter_type == FilterType::Table => matches!(*filter_type, FilterType::Table)
//@rewrite XlsxError::AutofilterRangeOverlaps\([^;]*\)\); => XlsxError::Other);
//@rewrite self\.cells_with_autofilter\s*\.retain\([^;]*\); => vp_retain(&mut self.cells_with_autofilter);
//@rewrite self\.autofilter_defined_name\.name_type = DefinedNameType::Autofilter; =>
//@rewrite autofilter_area\.clone\(\) => vp_dims(&autofilter_area)
//@loop 1
| invariant *self == w0, w0 == *old(self), legal(first_row, first_col, last_row, last_col), vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
//@loop 2
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == (Worksheet { filter_conditions: self.filter_conditions, autofilter_defined_name: self.autofilter_defined_name, cells_with_autofilter: self.cells_with_autofilter, ..w0 }),
|   self.filter_conditions@ == Map::<u16, FilterCondition>::empty(), self.autofilter_defined_name == (DefinedName { in_use: true, first_row: first_row, first_col: first_col, last_row: last_row, last_col: last_col, ..self.autofilter_defined_name }),
|   autofilter_area == (CellRange { first_row, first_col, last_row, last_col }),
//@end
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=ok
| ensures ok == (row < ROW_MAX && col < COL_MAX), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs write_auto_filter impl="impl Worksheet"
| requires forall|c: u16| #[trigger] old(self).filter_conditions@.dom().contains(c) ==> c >= old(self).autofilter_defined_name.first_col,
| ensures exists|k: Seq<u16>| keys_of(k, old(self).filter_conditions@) && final(self).writer.log() =~= old(self).writer.log() + #[trigger] auto_filter_tags(*old(self), k), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite self\.autofilter_area\.clone\(\) => vp_copy(&self.autofilter_area)
//@rewrite self\.filter_conditions\.is_empty\(\) => vp_none(&self.filter_conditions)
//@rewrite for col in self\.filter_conditions\.clone\(\)\.keys\(\) \{ => let vp_k = vp_keys(&self.filter_conditions); for vp_i in 0..vp_k.len() { let col = &vp_k[vp_i];
//@rewrite self\.filter_conditions\.get\(col\)\.unwrap\(\)\.clone\(\) => vp_cond(&self.filter_conditions, col)
//@before /if vp_none/
| let ghost mut vp_k0: Seq<u16> = seq![];
| proof { assert(av(attributes@) =~= seq![("ref"@, self.autofilter_area@)]); if nothing(self.filter_conditions@) { assert(keys_of(vp_k0, self.filter_conditions@)); } assert(auto_filter_tags(*old(self), vp_k0).len() == 1); }
//@loop 1
| invariant *self == (Worksheet { writer: self.writer, ..*old(self) }), keys_of(vp_k@, old(self).filter_conditions@), col_offset == old(self).autofilter_defined_name.first_col,
|   forall|c: u16| #[trigger] old(self).filter_conditions@.dom().contains(c) ==> c >= old(self).autofilter_defined_name.first_col,
|   self.writer.log() =~= old(self).writer.log().push(Tag::Open("autoFilter"@, seq![("ref"@, old(self).autofilter_area@)])) + all_tags(vp_k@, old(self).filter_conditions@, col_offset as int, vp_i as int),
//@at loop 1 start
| proof { assert(old(self).filter_conditions@.dom().contains(vp_k@[vp_i as int])); }
//@at after-loop 1
| proof { vp_k0 = vp_k@; assert(!nothing(self.filter_conditions@)); let c = choose|c: u16| self.filter_conditions@.dom().contains(c); assert(vp_k@.contains(c)); }
//@at body-end
| proof { assert(self.writer.log() =~= old(self).writer.log() + auto_filter_tags(*old(self), vp_k0)); }
//@end
//@fn src/worksheet.rs write_filter_column impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + column_tags(col as int, *filter_condition), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@before /xml_start_tag/
| proof { assert(av(attributes@) =~= seq![("colId"@, dec(col as nat))]); }
//@end
//@fn src/worksheet.rs write_list_filters impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + list_tags(*filter_condition), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite filter_condition\.list\.is_empty\(\) => (filter_condition.list.len() == 0)
//@rewrite data\.string\.clone\(\) => vp_copy(&data.string)
//@rewrite for data in &filter_condition\.list \{ => for vp_i in 0..filter_condition.list.len() { let data = &filter_condition.list[vp_i];
//@at body-start
| broadcast use {av_push, av_none};
//@loop 1
| invariant *self == (Worksheet { writer: self.writer, ..*old(self) }),
|   self.writer.log() =~= old(self).writer.log().push(Tag::Open("filters"@, add(Seq::empty(), filter_condition.should_match_blanks, "blank"@, "1"@))) + filter_tags(filter_condition.list@, vp_i as int),
//@end
//@fn src/worksheet.rs write_filter impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("filter"@, seq![("val"@, value@)])), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("val"@, value@)]); }
//@end
//@fn src/worksheet.rs write_custom_filters impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + custom_tags(*filter_condition), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use {av_push, av_none};
//@end
//@fn src/worksheet.rs write_custom_filter impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(custom_tag(*data)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite data\.criteria\.operator\(\)\.is_empty\(\) => vp_is_empty(&data.criteria.operator())
//@at body-start
| broadcast use {av_push, av_none};
//@end
}
pub open spec fn legal(r: u32, c: u16, r2: u32, c2: u16) -> bool { r <= r2 < ROW_MAX && c <= c2 < COL_MAX }
/// a table has its filter in one of the cells
pub open spec fn table_in_way(w: Worksheet, r: u32, c: u16, c2: u16) -> bool { exists|k: u16| c <= k <= c2 && #[trigger] w.cells_with_autofilter@.dom().contains((r, k)) && w.cells_with_autofilter@[(r, k)].0 is Table }
/// trusted: the hash of a cell position
#[verifier::external_body] pub proof fn key_model() ensures vstd::std_specs::hash::obeys_key_model::<(u32, u16)>() { }
/// the cells of the drop down buttons, which only the autofit of columns uses, are not followed here
#[verifier::external_body] pub fn vp_retain(m: &mut HashMap<(RowNum, ColNum), (FilterType, CellRange)>) { }
pub uninterp spec fn range_text(r: u32, c: u16, r2: u32, c2: u16) -> Seq<char>;
impl CellRange {
//@fn src/worksheet.rs new impl="impl CellRange" ret=r
| ensures r == (CellRange { first_row, first_col, last_row, last_col }),
//@end
    /// trusted here: unit c01 proves the text of a range
    #[verifier::external_body] pub fn to_range_string(&self) -> (r: String) ensures r@ == range_text(self.first_row, self.first_col, self.last_row, self.last_col) { String::new() }
}
pub open spec fn column_ok(w: Worksheet, col: u16) -> bool { col < COL_MAX && w.autofilter_defined_name.in_use && w.autofilter_defined_name.first_col <= col <= w.autofilter_defined_name.last_col }
pub open spec fn auto_filter_tags(w: Worksheet, k: Seq<u16>) -> Seq<Tag> {
    let a = seq![("ref"@, w.autofilter_area@)];
    if k.len() == 0 { seq![Tag::Empty("autoFilter"@, a)] } else { seq![Tag::Open("autoFilter"@, a)] + all_tags(k, w.filter_conditions@, w.autofilter_defined_name.first_col as int, k.len() as int) + seq![Tag::Close("autoFilter"@)] }
}
// ---------------------------------------------------------------- proofs
proof fn row_step(w: Worksheet, a: Rows, b: Rows, k: Seq<u16>, n: int, r: u32)
    requires so_far(w, a, k, n, r as int), 0 <= n < k.len(), in_data(w, r), b == (if passes(w, k, n, r) { a } else { a.insert(r, RowOptions { hidden: true, ..row_at(a, r) }) })
    ensures so_far(w, b, k, n, r + 1)
{
    reveal(so_far);
    assert forall|q: u32| #[trigger] hid_at(w, b, k, n, r + 1, q) by {
        assert(hid_at(w, a, k, n, r as int, q));
    }
}
proof fn column_step(w: Worksheet, b: Rows, k: Seq<u16>, n: int, first: int)
    requires so_far(w, b, k, n, w.autofilter_defined_name.last_row + 1), 0 <= n < k.len(), first == w.autofilter_defined_name.first_row + 1
    ensures so_far(w, b, k, n + 1, first)
{
    reveal(so_far);
    assert forall|q: u32| #[trigger] hid_at(w, b, k, n + 1, first, q) by {
        assert(hid_at(w, b, k, n, w.autofilter_defined_name.last_row + 1, q));
        if in_data(w, q) { if !passes(w, k, n, q) { assert(fails(w, k, n + 1, q)); } }
    }
}
proof fn columns_done(w: Worksheet, b: Rows, k: Seq<u16>, first: int)
    requires so_far(w, b, k, k.len() as int, first), keys_of(k, w.filter_conditions@)
    ensures hidden_exactly(w, b)
{
    reveal(so_far);
    assert forall|q: u32| #[trigger] hid_out(w, b, q) by {
        assert(hid_at(w, b, k, k.len() as int, first, q));
        if filtered_out(w, q) {
            let c = choose|c: u16| #[trigger] w.filter_conditions@.dom().contains(c) && !takes(cell_at(w.data_table@, q, c), w.filter_conditions@[c]);
            assert(k.contains(c)); let i = choose|i: int| 0 <= i < k.len() && k[i] == c; assert(!passes(w, k, i, q));
        }
        if in_data(w, q) && fails(w, k, k.len() as int, q) { let i = choose|i: int| 0 <= i < k.len() && !#[trigger] passes(w, k, i, q); assert(w.filter_conditions@.dom().contains(k[i])); }
    }
}
}
fn main() {}
