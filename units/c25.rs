// C25: autofit.  Extracted from /repo/src/utility.rs and worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::cmp;
verus! {
//@include fmt_prelude.rs
//@include hashmap_prelude.rs
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs MAX_AUTOFIT_WIDTH_PIXELS
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs struct ColOptions derive=
//@item src/worksheet.rs enum FilterType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/worksheet.rs enum CellType derive= sub=Arc<str>=>String;Box<str>=>String
//@item src/worksheet.rs struct Worksheet keep=dimensions,data_table,changed_cols,use_constant_memory,current_row,cells_with_autofilter derive= sub=HashMap<\(RowNum,\sColNum\),\s\(FilterType,\sCellRange\)>=>VpArrows
#[verifier::external_body] pub fn vp_range(r: RowNum, c: ColNum, r2: RowNum, c2: ColNum) -> (x: CellRange) ensures x == (CellRange { first_row: r, first_col: c, last_row: r2, last_col: c2 }) { unimplemented!() }
pub struct Format { pub id: u64 }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, Other }
// ---------------------------------------------------------------- trusted
/// the value of a floating point number (machine rounding is not modelled)
pub uninterp spec fn rv(a: f64) -> real;
#[verifier::external_body] pub fn vp_num(n: u16) -> (r: f64) ensures rv(r) == n as real { f64::from(n) }
#[verifier::external_body] pub fn vp_plain_width() -> (r: f64) ensures r == plain_width() { 8.43 }
#[verifier::external_body] pub fn vp_gt(a: f64, b: f64) -> (r: bool) ensures r == (rv(a) > rv(b)) { a > b }
#[verifier::external_body] pub fn vp_lt(a: f64, b: f64) -> (r: bool) ensures r == (rv(a) < rv(b)) { a < b }
#[verifier::external_body] pub fn vp_zero(a: f64) -> (r: bool) ensures r == (rv(a) == 0real) { a == 0.0 }
#[verifier::external_body] pub fn vp_add(a: f64, b: f64) -> (r: f64) ensures rv(r) == rv(a) + rv(b) { a + b }
#[verifier::external_body] pub fn vp_sub(a: f64, b: f64) -> (r: f64) ensures rv(r) == rv(a) - rv(b) { a - b }
#[verifier::external_body] pub fn vp_div(a: f64, b: f64) -> (r: f64) ensures rv(b) != 0real ==> rv(r) == rv(a) / rv(b) { a / b }
pub uninterp spec fn plain_width() -> f64;
#[verifier::external_body] pub fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
/// the lines of a text
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vp_lines(s: &String) -> (r: Vec<String>) ensures r@.len() == lines(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(s@)[i] { s.lines().map(String::from).collect() }
#[verifier::external_body] pub fn vp_str(s: &String) -> (r: &str) ensures r@ == s@ { s.as_str() }
#[verifier::external_body] pub fn vp_is(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] pub fn vp_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
/// how many characters a number's text has (at most 330)
pub uninterp spec fn digits(x: f64) -> int;
#[verifier::external_body] pub fn vp_digits(x: &f64) -> (r: usize) ensures r == digits(*x), r <= 400 { x.to_string().len() }
/// the cells that show an arrow to filter by
#[verifier::external_body] pub struct VpArrows { }
impl VpArrows {
    pub uninterp spec fn kind(&self, r: u32, c: u16) -> Option<FilterType>;
    pub open spec fn at(&self, r: u32, c: u16) -> bool { self.kind(r, c) is Some }
    #[verifier::external_body] pub fn get(&self, k: &(RowNum, ColNum)) -> (r: Option<(FilterType, CellRange)>) ensures match r { Some(t) => self.kind(k.0, k.1) == Some(t.0), None => self.kind(k.0, k.1) is None } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: (RowNum, ColNum), v: (FilterType, CellRange)) ensures forall|r: u32, c: u16| #[trigger] final(self).kind(r, c) == if r == k.0 && c == k.1 { Some(v.0) } else { old(self).kind(r, c) } { unimplemented!() }
    /// retain all but those of one kind
    #[verifier::external_body] pub fn retain_but(&mut self, t: FilterType) ensures forall|r: u32, c: u16| #[trigger] final(self).kind(r, c) == if old(self).kind(r, c) == Some(t) { None } else { old(self).kind(r, c) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &(RowNum, ColNum)) -> (r: bool) ensures r == self.at(k.0, k.1) { unimplemented!() }
}
/// trusted: the entries of the map, in some order
#[verifier::external_body] pub fn vp_entries(m: &HashMap<u16, u16>) -> (r: Vec<(u16, u16)>)
    ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
        forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
        forall|c: u16| #[trigger] m@.dom().contains(c) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == c,
{ m.iter().map(|(k, v)| (*k, *v)).collect() }

// ---------------------------------------------------------------- specification
/// the widths of the characters of Calibri 11, as Excel shows them; others are taken to be 8 pixels
pub open spec fn char_px(c: char) -> int {

    if c == ' ' || c == '\'' { 3 } else
    if c == ',' || c == '.' || c == ':' || c == ';' || c == 'I' || c == '`' || c == 'i' || c == 'j' || c == 'l' { 4 } else
    if c == '!' || c == '(' || c == ')' || c == '-' || c == 'J' || c == '[' || c == ']' || c == 'f' || c == 'r' || c == 't' || c == '{' || c == '}' { 5 } else
    if c == '"' || c == '/' || c == 'L' || c == '\\' || c == 'c' || c == 's' || c == 'z' { 6 } else
    if c == '#' || c == '$' || c == '*' || c == '+' || c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' || c == '<' || c == '=' || c == '>' || c == '?' || c == 'E' || c == 'F' || c == 'S' || c == 'T' || c == 'Y' || c == 'Z' || c == '^' || c == '_' || c == 'a' || c == 'g' || c == 'k' || c == 'v' || c == 'x' || c == 'y' || c == '|' || c == '~' { 7 } else
    if c == 'B' || c == 'C' || c == 'K' || c == 'P' || c == 'R' || c == 'X' || c == 'b' || c == 'd' || c == 'e' || c == 'h' || c == 'n' || c == 'o' || c == 'p' || c == 'q' || c == 'u' { 8 } else
    if c == 'A' || c == 'D' || c == 'G' || c == 'H' || c == 'U' || c == 'V' { 9 } else
    if c == '&' || c == 'N' || c == 'O' || c == 'Q' { 10 } else
    if c == '%' || c == 'w' { 11 } else
    if c == 'M' || c == 'm' { 12 } else
    if c == '@' || c == 'W' { 13 } else
    { 8 }
}
/// the width of the first k characters
pub open spec fn sum(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum(s, k - 1) + char_px(s[k - 1]) } }
pub proof fn grows(s: Seq<char>, i: int, j: int) requires 0 <= i <= j ensures 0 <= sum(s, i) <= sum(s, j) decreases j { if i < j { grows(s, i, j - 1); } else if j > 0 { grows(s, j - 1, j - 1); } }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
/// a text's width: that of all its characters, up to the limit
pub open spec fn text_px(s: Seq<char>) -> int { min(sum(s, s.len() as int), 1790) }
/// the widest of the first k lines
pub open spec fn widest(l: Seq<Seq<char>>, k: int) -> int decreases k { if k <= 0 { 0 } else { max(widest(l, k - 1), text_px(l[k - 1])) } }
pub open spec fn all_lines(s: Seq<char>) -> int { widest(lines(s), lines(s).len() as int) }
pub proof fn limit(l: Seq<Seq<char>>, k: int) ensures 0 <= widest(l, k) <= 1790 decreases k { if k > 0 { limit(l, k - 1); grows(l[k - 1], 0, l[k - 1].len() as int); } }
/// the width of what a cell shows
pub open spec fn shown(c: CellType) -> int {
    match c {
        CellType::String { string, .. } => all_lines(string@), CellType::InlineString { string, .. } => all_lines(string@), CellType::RichString { raw_string, .. } => all_lines(raw_string@),
        CellType::Number { number, .. } => 7 * digits(number), CellType::Boolean { boolean, .. } => if boolean { 31 } else { 36 }, CellType::DateTime { .. } => 68,
        CellType::Formula { result, .. } => if result@ == "0"@ || result@.len() == 0 { 0 } else { all_lines(result@) },
        CellType::ArrayFormula { result, .. } => if result@ == "0"@ || result@.len() == 0 { 0 } else { all_lines(result@) },
        CellType::Blank { .. } => 0, CellType::Error { .. } => 0,
    }
}
/// with room for the arrow of a filter and the cell's padding, up to the limit
pub open spec fn px_needs(c: CellType, arrow: bool, limit: int) -> int { let w = shown(c); if w > 0 { min(w + (if arrow { 16int } else { 0 }) + 7, limit) } else { 0 } }
pub type Table = Map<u32, BTreeMap<u16, CellType>>;
pub open spec fn cell_at(t: Table, r: u32, c: u16) -> Option<CellType> { if t.dom().contains(r) && t[r]@.dom().contains(c) { Some(t[r]@[c]) } else { None } }
pub open spec fn cell_needs(w: Worksheet, r: u32, c: u16, limit: int) -> int { match cell_at(w.data_table@, r, c) { Some(x) => px_needs(x, w.cells_with_autofilter.at(r, c), limit), None => 0 } }
/// what the rows a to b - 1 of a column need
pub open spec fn col_needs(w: Worksheet, c: u16, limit: int, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { max(col_needs(w, c, limit, a, b - 1), cell_needs(w, (b - 1) as u32, c, limit)) } }
pub open spec fn first(w: Worksheet) -> int { if w.use_constant_memory { w.current_row as int } else { w.dimensions.first_row as int } }
pub open spec fn after(w: Worksheet) -> int { if w.use_constant_memory { w.current_row as int + 1 } else { w.dimensions.last_row as int + 1 } }
/// what a column of the sheet needs
pub open spec fn col_px(w: Worksheet, c: u16, limit: int) -> int { if w.dimensions.first_col <= c <= w.dimensions.last_col { col_needs(w, c, limit, first(w), after(w)) } else { 0 } }
pub open spec fn chars_of(px: int) -> real { if px < 12 { px as real / 12real } else { (px as real - 5real) / 7real } }

pub type Cols = Map<u16, ColOptions>;
pub open spec fn cap(w: real) -> real { if w > 255real { 255real } else { w } }
/// what the user set for a column: none is 0
pub open spec fn user(a: Cols, c: u16) -> real { if a.dom().contains(c) { rv(a[c].user_width) } else { 0real } }
pub open spec fn same_look(a: Cols, c: u16, n: ColOptions) -> bool {
    if a.dom().contains(c) { n.xf_index == a[c].xf_index && n.level == a[c].level && n.hidden == a[c].hidden && n.collapsed == a[c].collapsed && n.format == a[c].format } else { n.xf_index == 0 && n.level == 0 && !n.hidden && !n.collapsed && n.format is None }
}
/// a width is stored for a column: one that autofit found never makes it narrower than the user did
pub open spec fn widened(a: Cols, c: u16, n: ColOptions, w: real, autofit: bool) -> bool {
    &&& same_look(a, c, n)
    &&& if !autofit { rv(n.width) == cap(w) && rv(n.user_width) == cap(w) && !n.autofit }
        else { rv(n.user_width) == user(a, c) && if !a.dom().contains(c) || cap(w) > user(a, c) { rv(n.width) == cap(w) && n.autofit } else { rv(n.width) == user(a, c) && !n.autofit } }
}
pub open spec fn stored(a: Cols, b: Cols, c: u16, w: real, autofit: bool) -> bool { b.dom() == a.dom().insert(c) && (forall|k: u16| k != c && a.dom().contains(k) ==> b[k] == #[trigger] a[k]) && widened(a, c, b[c], w, autofit) }
/// nothing but the columns' records changed
pub open spec fn but_cols(a: Worksheet, b: Worksheet) -> bool { b == (Worksheet { changed_cols: b.changed_cols, ..a }) }
/// every column with data is as wide as its widest cell, or as the user set it; the others are as they were
pub open spec fn fitted(a: Worksheet, b: Worksheet, limit: int) -> bool { but_cols(a, b) && forall|c: u16| #![trigger col_px(a, c, limit)] col_fitted(a, b, c, limit) }
pub open spec fn col_fitted(a: Worksheet, b: Worksheet, c: u16, limit: int) -> bool {
    if col_px(a, c, limit) > 0 { b.changed_cols@.dom().contains(c) && widened(a.changed_cols@, c, b.changed_cols@[c], chars_of(col_px(a, c, limit)), true) }
    else { b.changed_cols@.dom().contains(c) == a.changed_cols@.dom().contains(c) && (a.changed_cols@.dom().contains(c) ==> b.changed_cols@[c] == a.changed_cols@[c]) }
}
/// the widest so far
pub open spec fn so_far(m: Map<u16, u16>, c: u16) -> int { if m.dom().contains(c) { m[c] as int } else { 0 } }
pub open spec fn all_pos(m: Map<u16, u16>) -> bool { forall|c: u16| #[trigger] m.dom().contains(c) ==> m[c] > 0 }
/// after k entries: a column among them has its width, the others are as they were
pub open spec fn col_done(a: Cols, b: Cols, m: Map<u16, u16>, e: Seq<(u16, u16)>, k: int, c: u16) -> bool {
    if listed(e, k, c) { b.dom().contains(c) && widened(a, c, b[c], chars_of(so_far(m, c)), true) } else { b.dom().contains(c) == a.dom().contains(c) && (a.dom().contains(c) ==> b[c] == a[c]) }
}
#[verifier::opaque] pub open spec fn all_done(a: Cols, b: Cols, m: Map<u16, u16>, e: Seq<(u16, u16)>, k: int) -> bool { forall|c: u16| #[trigger] col_done(a, b, m, e, k, c) }
pub open spec fn listed(e: Seq<(u16, u16)>, k: int, c: u16) -> bool { exists|i: int| 0 <= i < k && (#[trigger] e[i]).0 == c }


//@fn src/utility.rs pixel_width ret=r
| ensures r == text_px(string@),
//@rewrite for char in string\.chars\(\) \{ => let vp_c = vp_chars(string); let mut length: u16 = 0; for vp_i in 0..vp_c.len() { let char = vp_c[vp_i];
//@rewrite let mut length = 0; => 
//@rewrite (?#opt)if length >= MAX_AUTOFIT_WIDTH_PIXELS \{\s*break; => if length >= MAX_AUTOFIT_WIDTH_PIXELS { proof { grows(string@, vp_i as int, string@.len() as int); } break;
//@rewrite std::cmp::min\(length, MAX_AUTOFIT_WIDTH_PIXELS\) => if length <= MAX_AUTOFIT_WIDTH_PIXELS { length } else { MAX_AUTOFIT_WIDTH_PIXELS }
//@loop 1
| invariant_except_break length == sum(string@, vp_i as int), 
| invariant vp_c@ == string@, length <= 1790 + 13,
| ensures min(length as int, 1790) == text_px(string@),
//@at loop 1 end
| proof { assert(sum(string@, vp_i + 1) == sum(string@, vp_i as int) + char_px(char)); }
//@end
//@fn src/utility.rs cell_autofit_width ret=r
| ensures r == text_px(string@) + 7,
//@at body-start
| proof { grows(string@, 0, string@.len() as int); }
//@end
pub mod utility { use super::*; pub fn pixel_width(string: &str) -> (r: u16) ensures r == text_px(string@) { super::pixel_width(string) } }
impl Worksheet {
//@fn src/worksheet.rs pixels_to_width impl="impl Worksheet$" ret=r
| ensures rv(r) == chars_of(pixels as int),
//@rewrite 7\.0_f64 => vp_num(7)
//@rewrite 5\.0_f64 => vp_num(5)
//@rewrite f64::from\(pixels\) => vp_num(pixels)
//@rewrite width < 12\.0 => vp_lt(width, vp_num(12))
//@rewrite width /= max_digit_width \+ padding; => width = vp_div(width, vp_add(max_digit_width, padding));
//@rewrite width = \(width - padding\) / max_digit_width; => width = vp_div(vp_sub(width, padding), max_digit_width);
//@end
//@fn src/worksheet.rs store_column_width impl="impl Worksheet$"
| ensures but_cols(*old(self), *final(self)), stored(old(self).changed_cols@, final(self).changed_cols@, col, rv(width), autofit),
//@rewrite width > (col_options\.(?:user_)?width) => vp_gt(width, \1)
//@rewrite width > 255\.0 => vp_gt(width, vp_num(255))
//@rewrite width = 255\.0 => width = vp_num(255)
//@rewrite if autofit \{ 0\.0 \} else => if autofit { vp_num(0) } else
//@rewrite self\.changed_cols\.get_mut\(&col\) => vp_slot(&mut self.changed_cols, &col)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
/// trusted here, proved by unit c12: a column is hidden, whatever its width
#[verifier::external_body] pub fn set_column_hidden(&mut self, col: ColNum) -> (r: Result<&mut Worksheet, XlsxError>) ensures match r { Ok(p) => *final(self) == *final(p) && col < 16384 && *p == hidden(*old(self), col), Err(_) => *final(self) == *old(self) && col >= 16384 } { unimplemented!() }
//@fn src/worksheet.rs set_column_width_internal impl="impl Worksheet$" ret=r
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && col < 16384 && (if rv(width) == 0real { *p == hidden(*old(self), col) } else { but_cols(*old(self), *p) && stored(old(self).changed_cols@, p.changed_cols@, col, rv(width), autofit) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@rewrite sig:impl Into<f64> => f64
//@rewrite let width = width\.into\(\); =>
//@rewrite width == 0\.0 => vp_zero(width)
//@end

//@fn src/worksheet.rs set_column_width_pixels impl="impl Worksheet$" ret=r
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && col < 16384 && (if width == 0 { *p == hidden(*old(self), col) } else { but_cols(*old(self), *p) && stored(old(self).changed_cols@, p.changed_cols@, col, chars_of(width as int), false) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@at body-start
| proof { whole(width as int); }
//@end
//@fn src/worksheet.rs set_column_autofit_width impl="impl Worksheet$" ret=r
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && col < 16384 && (if width == 0 { *p == hidden(*old(self), col) } else { but_cols(*old(self), *p) && stored(old(self).changed_cols@, p.changed_cols@, col, chars_of(width as int), true) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@at body-start
| proof { whole(width as int); }
//@end

//@fn src/worksheet.rs autofit_worksheet impl="impl Worksheet$" ret=r
| requires old(self).dimensions.last_row < 4_000_000_000, old(self).current_row < 4_000_000_000, old(self).dimensions.last_col < 65535, max_autofit_width <= 1790,
| ensures *final(self) == *final(r), fitted(*old(self), *r, max_autofit_width as int),
//@rewrite for row_num in first_row\.\.=last_row \{ => for row_num in first_row..last_row + 1 {
//@rewrite for col_num in self\.dimensions\.first_col\.\.=self\.dimensions\.last_col \{ => for col_num in self.dimensions.first_col..self.dimensions.last_col + 1 {
//@rewrite let mut max = 0;\s*for segment in (\w+)\.lines\(\) \{ => let mut max: u16 = 0; let vp_l = vp_lines(\1); proof { limit(lines(\1@), lines(\1@).len() as int); } for vp_s in 0..vp_l.len() { let segment = vp_str(&vp_l[vp_s]);
//@rewrite max = cmp::max\(max, length\) => max = if max >= length { max } else { length }
//@rewrite 7 \* number\.to_string\(\)\.len\(\) as u16 => 7 * vp_digits(number) as u16
//@rewrite result\.as_ref\(\) == "0" => vp_is(result, "0")
//@rewrite result\.is_empty\(\) => vp_empty(result)
//@rewrite std::cmp::min\(pixel_width, max_autofit_width\) => if pixel_width <= max_autofit_width { pixel_width } else { max_autofit_width }
//@rewrite max_widths\.get_mut\(&col_num\) => vp_slot(&mut max_widths, &col_num)
//@rewrite for \(col, pixels\) in &max_widths \{ => let vp_e = vp_entries(&max_widths); for vp_k in 0..vp_e.len() { let (col, pixels) = vp_e[vp_k];
//@rewrite pixels_to_width\(\*pixels\) => pixels_to_width(pixels)
//@rewrite store_column_width\(\*col, => store_column_width(col,
//@at body-start
| let ghost w0 = *self; let ghost lim = max_autofit_width as int; broadcast use vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms;
//@loop 1 iter=ir
| invariant *self == w0, max_autofit_width == lim, lim <= 1790, w0.dimensions.last_col < 65535, first_row == first(w0), last_row + 1 == after(w0), all_pos(max_widths@),
|   forall|c: u16| #[trigger] max_widths@.dom().contains(c) ==> w0.dimensions.first_col <= c <= w0.dimensions.last_col,
|   forall|c: u16| #![trigger so_far(max_widths@, c)] w0.dimensions.first_col <= c <= w0.dimensions.last_col ==> so_far(max_widths@, c) == col_needs(w0, c, lim, first(w0), first(w0) + ir.index@),
//@at loop 1 start
| let ghost m0 = max_widths@; let ghost mut done = w0.dimensions.first_col as int; proof { assert(row_num == first(w0) + ir.index@); }
//@loop 2 iter=ic
| invariant *self == w0, max_autofit_width == lim, lim <= 1790, w0.dimensions.last_col < 65535, first_row <= row_num, self.data_table@.dom().contains(row_num), *columns == self.data_table@[row_num], all_pos(max_widths@), self.use_constant_memory ==> row_num == self.current_row,
|   forall|c: u16| #[trigger] max_widths@.dom().contains(c) ==> w0.dimensions.first_col <= c <= w0.dimensions.last_col,
|   forall|c: u16| #![trigger so_far(max_widths@, c)] w0.dimensions.first_col <= c <= w0.dimensions.last_col ==> so_far(max_widths@, c) == if c < w0.dimensions.first_col + ic.index@ { max(so_far(m0, c), cell_needs(w0, row_num, c, lim)) } else { so_far(m0, c) },
//@at loop 2 start
| let ghost m1 = max_widths@; broadcast use vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms; proof { assert(col_num == w0.dimensions.first_col + ic.index@); }
//@at loop 2 end
| proof { assert(so_far(max_widths@, col_num) == max(so_far(m1, col_num), cell_needs(w0, row_num, col_num, lim)));
|   assert forall|c: u16| w0.dimensions.first_col <= c <= w0.dimensions.last_col implies #[trigger] so_far(max_widths@, c) == (if c < w0.dimensions.first_col + ic.index@ + 1 { max(so_far(m0, c), cell_needs(w0, row_num, c, lim)) } else { so_far(m0, c) }) by { assert(so_far(m1, c) == (if c < w0.dimensions.first_col + ic.index@ { max(so_far(m0, c), cell_needs(w0, row_num, c, lim)) } else { so_far(m0, c) })); if c != col_num { assert(so_far(max_widths@, c) == so_far(m1, c)); } } }
//@at loop 1 end
| proof { 
|   assert forall|c: u16| w0.dimensions.first_col <= c <= w0.dimensions.last_col implies #[trigger] so_far(max_widths@, c) == col_needs(w0, c, lim, first(w0), first(w0) + ir.index@ + 1) by { assert(so_far(m0, c) == col_needs(w0, c, lim, first(w0), first(w0) + ir.index@)); needs_pos(w0, c, lim, first(w0), first(w0) + ir.index@); }
| }
//@loop 3
| invariant max == widest(lines(string@), vp_s as int), vp_l@.len() == lines(string@).len(), forall|k: int| 0 <= k < vp_l@.len() ==> (#[trigger] vp_l@[k])@ == lines(string@)[k],
//@loop 4
| invariant max == widest(lines(result@), vp_s as int), vp_l@.len() == lines(result@).len(), forall|k: int| 0 <= k < vp_l@.len() ==> (#[trigger] vp_l@[k])@ == lines(result@)[k],
//@at before-loop 5
| let ghost mw = max_widths@; proof { assert forall|c: u16| so_far(mw, c) == #[trigger] col_px(w0, c, lim) by { if w0.dimensions.first_col <= c <= w0.dimensions.last_col { assert(so_far(mw, c) == so_far(max_widths@, c)); if after(w0) < first(w0) { } } } }
| proof { reveal(all_done); }
//@loop 5
| invariant but_cols(w0, *self), forall|c: u16| so_far(mw, c) == #[trigger] col_px(w0, c, lim), all_pos(mw), mw == max_widths@,
|   forall|i: int, j: int| 0 <= i < j < vp_e@.len() ==> (#[trigger] vp_e@[i]).0 != (#[trigger] vp_e@[j]).0,
|   forall|i: int| 0 <= i < vp_e@.len() ==> mw.dom().contains((#[trigger] vp_e@[i]).0) && mw[vp_e@[i].0] == vp_e@[i].1,
|   all_done(w0.changed_cols@, self.changed_cols@, mw, vp_e@, vp_k as int),
//@at loop 5 start
| let ghost s0 = *self; proof { assert(!listed(vp_e@, vp_k as int, vp_e@[vp_k as int].0)); }
//@at loop 5 end
| proof { assert(vp_e@[vp_k as int].0 == col); assert(so_far(mw, col) == pixels); reveal(all_done); assert forall|c: u16| #[trigger] col_done(w0.changed_cols@, self.changed_cols@, mw, vp_e@, vp_k as int + 1, c) by {
|   assert(col_done(w0.changed_cols@, s0.changed_cols@, mw, vp_e@, vp_k as int, c));
|   if c == col { assert(listed(vp_e@, vp_k + 1, c)); } else { assert(listed(vp_e@, vp_k + 1, c) == listed(vp_e@, vp_k as int, c)); if s0.changed_cols@.dom().contains(c) { assert(self.changed_cols@[c] == s0.changed_cols@[c]); } }
| } }
//@at after-loop 5
| proof { assert forall|c: u16| #![trigger col_px(w0, c, lim)] col_fitted(w0, *self, c, lim) by { reveal(all_done); assert(col_done(w0.changed_cols@, self.changed_cols@, mw, vp_e@, vp_e@.len() as int, c)); assert(so_far(mw, c) == col_px(w0, c, lim)); if mw.dom().contains(c) { assert(mw[c] > 0); assert(listed(vp_e@, vp_e@.len() as int, c)); } else { assert(!listed(vp_e@, vp_e@.len() as int, c)); } } }
//@end

/// trusted: limits of the sheet (unit c07)
#[verifier::external_body] pub fn check_dimensions_only(&mut self, row: RowNum, col: ColNum) -> (ok: bool) ensures ok == (row < 1048576 && col < 16384), *final(self) == *old(self) { unimplemented!() }
//@fn src/worksheet.rs autofilter impl="impl Worksheet$" ret=r
| ensures match r { 
|    Ok(p) => *final(self) == *final(p) && *p == (Worksheet { cells_with_autofilter: p.cells_with_autofilter, ..*old(self) }) && first_row <= last_row < 1048576 && first_col <= last_col < 16384
|       && forall|i: u32, c: u16| #[trigger] p.cells_with_autofilter.kind(i, c) == if i == first_row && first_col <= c <= last_col { Some(FilterType::Worksheet) } else if old(self).cells_with_autofilter.kind(i, c) == Some(FilterType::Worksheet) { None } else { old(self).cells_with_autofilter.kind(i, c) },
|    Err(_) => *final(self) == *old(self) },
//@rewrite self\.(autofilter_defined_name\.\w+|filter_conditions|autofilter_area) = [^;]*; =>
//@rewrite let autofilter_area = CellRange::new\(([^)]*)\); => let autofilter_area = vp_range(\1);
//@rewrite XlsxError::AutofilterRangeOverlaps\([^;]*\)\); => XlsxError::Other);
//@rewrite \*filter_type == FilterType::Table => filter_type == FilterType::Table
//@rewrite self\.cells_with_autofilter\s*\.retain\(\|_, \(filter_type, _\)\| \*filter_type != (FilterType::\w+)\); => self.cells_with_autofilter.retain_but(\1);
//@rewrite autofilter_area\.clone\(\) => vp_range(first_row, first_col, last_row, last_col)
//@rewrite for col in first_col\.\.=last_col => for col in first_col..last_col + 1
//@at body-start
| let ghost w0 = *self;
//@loop 1
| invariant *self == w0, w0 == *old(self), first_col <= last_col < 16384,
//@loop 2 iter=it
| invariant *self == (Worksheet { cells_with_autofilter: self.cells_with_autofilter, ..w0 }), first_col <= last_col < 16384,
|   forall|i: u32, c: u16| #[trigger] self.cells_with_autofilter.kind(i, c) == if i == first_row && first_col <= c < first_col + it.index@ { Some(FilterType::Worksheet) } else if w0.cells_with_autofilter.kind(i, c) == Some(FilterType::Worksheet) { None } else { w0.cells_with_autofilter.kind(i, c) },
//@end
//@fn src/worksheet.rs autofit impl="impl Worksheet$" ret=r
| requires old(self).dimensions.last_row < 4_000_000_000, old(self).current_row < 4_000_000_000, old(self).dimensions.last_col < 65535,
| ensures *final(self) == *final(r), fitted(*old(self), *r, 1790),
//@end
//@fn src/worksheet.rs autofit_to_max_width impl="impl Worksheet$" ret=r
| requires old(self).dimensions.last_row < 4_000_000_000, old(self).current_row < 4_000_000_000, old(self).dimensions.last_col < 65535,
| ensures *final(self) == *final(r), fitted(*old(self), *r, min(max_autofit_width as int, 1790)),
//@rewrite std::cmp::min\(max_autofit_width, MAX_AUTOFIT_WIDTH_PIXELS\) => if max_autofit_width <= MAX_AUTOFIT_WIDTH_PIXELS { max_autofit_width } else { MAX_AUTOFIT_WIDTH_PIXELS }
//@end
}
/// the sheet with the column hidden (unit c12)
pub uninterp spec fn hidden(w: Worksheet, c: u16) -> Worksheet;
pub proof fn whole(p: int) requires p >= 0 ensures (chars_of(p) == 0real) == (p == 0) { if 0 < p < 12 { assert(p as real / 12real > 0real) by (nonlinear_arith) requires p > 0; } else if p >= 12 { assert((p as real - 5real) / 7real > 0real) by (nonlinear_arith) requires p >= 12; } else { assert(0real / 12real == 0real) by (nonlinear_arith); } }
pub proof fn needs_pos(w: Worksheet, c: u16, l: int, a: int, b: int) requires 0 <= l, ensures 0 <= col_needs(w, c, l, a, b) decreases b - a { if b > a { needs_pos(w, c, l, a, b - 1); } }
} // verus!
fn main() {}
