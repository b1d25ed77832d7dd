// C07: the cell grid.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::cmp;
verus! {
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs MAX_STRING_LEN
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs enum CellType derive=
//@item src/worksheet.rs struct Worksheet keep=dimensions,data_table,write_ahead,use_constant_memory,is_writing_ahead,current_row,use_inline_strings,has_local_string_table,has_workbook_global_sst,has_dynamic_arrays,default_result,nan,infinity,neg_infinity derive=
//@item src/formula.rs struct Formula keep=formula_string,result,has_dynamic_function derive=
pub struct Format { }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, MaxStringLengthExceeded, Other }

// ---------------------------------------------------------------- specification
/// what a cell holds
pub enum Held { Num(f64), Date(f64), Bool(bool), Str(Seq<char>), Rich(Seq<char>, Seq<char>), Blank, Formula(Seq<char>, Seq<char>), Array(Seq<char>, Seq<char>, bool, Seq<char>), Err(u32) }
pub open spec fn held(c: CellType) -> Held {
    match c {
        CellType::ArrayFormula { formula, result, is_dynamic, range, .. } => Held::Array(formula@, result@, is_dynamic, range@),
        CellType::Blank { .. } => Held::Blank,
        CellType::Boolean { boolean, .. } => Held::Bool(boolean),
        CellType::Error { value, .. } => Held::Err(value),
        CellType::Formula { formula, result, .. } => Held::Formula(formula@, result@),
        CellType::Number { number, .. } => Held::Num(number),
        CellType::DateTime { number, .. } => Held::Date(number),
        CellType::String { string, .. } => Held::Str(string@),
        CellType::RichString { string, raw_string, .. } => Held::Rich(string@, raw_string@),
        CellType::InlineString { string, .. } => Held::Str(string@),
    }
}
pub open spec fn xf(c: CellType) -> u32 {
    match c {
        CellType::ArrayFormula { xf_index, .. } => xf_index, CellType::Blank { xf_index } => xf_index, CellType::Boolean { xf_index, .. } => xf_index,
        CellType::Error { xf_index, .. } => xf_index, CellType::Formula { xf_index, .. } => xf_index, CellType::Number { xf_index, .. } => xf_index,
        CellType::DateTime { xf_index, .. } => xf_index, CellType::String { xf_index, .. } => xf_index, CellType::RichString { xf_index, .. } => xf_index,
        CellType::InlineString { xf_index, .. } => xf_index,
    }
}
pub type Table = Map<u32, BTreeMap<u16, CellType>>;
/// the cell at a position of a data table
pub open spec fn at(t: Table, r: u32, c: u16) -> Option<CellType> {
    if t.dom().contains(r) && t[r]@.dom().contains(c) { Some(t[r]@[c]) } else { None }
}
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
/// only the position (r, c) of the table changed
pub open spec fn only(a: Table, b: Table, r: u32, c: u16) -> bool {
    forall|i: u32, j: u16| !(i == r && j == c) ==> #[trigger] at(b, i, j) == at(a, i, j)
}
pub open spec fn grown(a: CellRange, b: CellRange, r: u32, c: u16) -> bool {
    b.first_row == min(a.first_row as int, r as int) && b.first_col == min(a.first_col as int, c as int)
    && b.last_row == max(a.last_row as int, r as int) && b.last_col == max(a.last_col as int, c as int)
}
pub open spec fn same_but_grid(a: Worksheet, b: Worksheet) -> bool {
    &&& a.use_constant_memory == b.use_constant_memory && a.use_inline_strings == b.use_inline_strings && a.is_writing_ahead == b.is_writing_ahead
    &&& a.current_row == b.current_row && a.has_workbook_global_sst == b.has_workbook_global_sst && a.default_result == b.default_result
    &&& a.nan == b.nan && a.infinity == b.infinity && a.neg_infinity == b.neg_infinity && a.write_ahead == b.write_ahead
}
/// one cell written: exactly that position changes, it holds the value, and the dimension is the smallest that covers it too
pub open spec fn wrote(a: Worksheet, b: Worksheet, r: u32, c: u16, v: Held) -> bool {
    &&& r < 1048576 && c < 16384
    &&& same_but_grid(a, b)
    &&& only(a.data_table@, b.data_table@, r, c)
    &&& at(b.data_table@, r, c) matches Some(x) && held(x) == v
    &&& grown(a.dimensions, b.dimensions, r, c)
}
/// what a number is held as: Excel has no NaN or infinity
pub open spec fn num_held(w: Worksheet, n: f64, date: bool) -> Held {
    if f_nan(n) { Held::Str(w.nan@) } else if f_inf(n) { Held::Str(if f_pos(n) { w.infinity@ } else { w.neg_infinity@ }) }
    else if date { Held::Date(n) } else { Held::Num(n) }
}
/// the replacement texts are storable (a default Worksheet's are; the setters take any text)
pub open spec fn texts_ok(w: Worksheet) -> bool {
    0 < w.nan@.len() <= 32767 && 0 < w.infinity@.len() <= 32767 && 0 < w.neg_infinity@.len() <= 32767
}
// ---------------------------------------------------------------- trusted
pub uninterp spec fn f_nan(n: f64) -> bool;
pub uninterp spec fn f_inf(n: f64) -> bool;
pub uninterp spec fn f_pos(n: f64) -> bool;
#[verifier::external_body] pub fn vp_is_nan(n: f64) -> (r: bool) ensures r == f_nan(n) { n.is_nan() }
#[verifier::external_body] pub fn vp_is_inf(n: f64) -> (r: bool) ensures r == f_inf(n) { n.is_infinite() }
#[verifier::external_body] pub fn vp_is_pos_inf(n: f64) -> (r: bool) ensures f_inf(n) ==> r == f_pos(n) { n == f64::INFINITY }
pub uninterp spec fn zero() -> f64;
#[verifier::external_body] pub fn vp_zero() -> (r: f64) ensures r == zero(), !f_nan(r), !f_inf(r) { 0.0 }
#[verifier::external_body] pub fn vp_one_cell(c: ColNum, x: CellType) -> (r: BTreeMap<ColNum, CellType>) ensures r@ == Map::<u16, CellType>::empty().insert(c, x) { BTreeMap::from([(c, x)]) }
#[verifier::external_body] pub fn vp_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vp_arc(s: &str) -> (r: Arc<str>) ensures r@ == s@ { Arc::from(s) }
#[verifier::external_body] pub fn vp_box(s: &Box<str>) -> (r: Box<str>) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn vp_box_str(s: &Box<str>) -> (r: Box<str>) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn vp_box_of(s: String) -> (r: Box<str>) ensures r@ == s@ { s.into_boxed_str() }
#[verifier::external_body] pub fn vp_clone(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn vp_box_empty(s: &Box<str>) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_shared_index(s: &Arc<str>) -> u32 { 0 }
pub uninterp spec fn range_text(r: u32, c: u16, r2: u32, c2: u16) -> Seq<char>;
#[verifier::external_body] pub fn vp_cell_range(r: u32, c: u16, r2: u32, c2: u16) -> (s: String) ensures s@ == range_text(r, c, r2, c2) { String::new() }
impl Worksheet {
    /// trusted frame: registering a format touches only the format tables
    #[verifier::external_body] pub fn format_xf_index(&mut self, format: &Format) -> (r: u32) ensures *final(self) == *old(self) { 0 }
    #[verifier::external_body] pub fn row_col_format(&mut self, row: RowNum, col: ColNum) -> (r: u32) ensures *final(self) == *old(self) { 0 }
    /// trusted (constant memory only): starts the given row
    #[verifier::external_body] pub fn flush_to_row(&mut self, row: RowNum) ensures final(self).current_row == row, final(self).dimensions == old(self).dimensions { }
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384),
|   !ok ==> *final(self) == *old(self),
|   ok ==> final(self).data_table == old(self).data_table && same_but_grid(*old(self), *final(self))
|      && final(self).has_local_string_table == old(self).has_local_string_table && final(self).has_dynamic_arrays == old(self).has_dynamic_arrays,
|   ok && !old(self).use_constant_memory ==> grown(old(self).dimensions, final(self).dimensions, row, col),
|   // in constant memory mode a row that can still be written is covered as well
|   ok && old(self).use_constant_memory && row >= old(self).current_row ==> grown(old(self).dimensions, final(self).dimensions, row, col),
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end

//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384), *final(self) == *old(self),
//@end

//@fn src/worksheet.rs set_writing_ahead impl="impl Worksheet"
| ensures !old(self).use_constant_memory ==> *final(self) == *old(self),
//@end

//@fn src/worksheet.rs insert_cell_to_table impl="impl Worksheet"
| ensures at(final(data_table)@, row, col) == Some(cell), only(old(data_table)@, final(data_table)@, row, col),
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@rewrite match data_table\.entry\(row\) => match data_table.get_mut(&row)
//@rewrite Entry::Occupied\(mut entry\) => Some(columns)
//@rewrite let columns = entry\.get_mut\(\); =>
//@rewrite Entry::Vacant\(entry\) => None
//@rewrite BTreeMap::from\(\[\(col, cell\)\]\) => vp_one_cell(col, cell)
//@rewrite entry\.insert\(columns\) => data_table.insert(row, columns)
//@end

//@fn src/worksheet.rs insert_cell impl="impl Worksheet"
| ensures !old(self).use_constant_memory ==> same_but_grid(*old(self), *final(self)) && final(self).dimensions == old(self).dimensions
|     && final(self).has_local_string_table == old(self).has_local_string_table && final(self).has_dynamic_arrays == old(self).has_dynamic_arrays
|     && at(final(self).data_table@, row, col) == Some(cell) && only(old(self).data_table@, final(self).data_table@, row, col),
|   // constant memory: finished rows are left alone, later rows are buffered or started
|   old(self).use_constant_memory && row < old(self).current_row ==> *final(self) == *old(self),
|   old(self).use_constant_memory && row == old(self).current_row ==> at(final(self).data_table@, row, col) == Some(cell) && only(old(self).data_table@, final(self).data_table@, row, col),
|   old(self).use_constant_memory && row > old(self).current_row && old(self).is_writing_ahead ==> final(self).data_table == old(self).data_table
|     && at(final(self).write_ahead@, row, col) == Some(cell) && only(old(self).write_ahead@, final(self).write_ahead@, row, col),
|   old(self).use_constant_memory && row > old(self).current_row && !old(self).is_writing_ahead ==> final(self).current_row == row && at(final(self).data_table@, row, col) == Some(cell),
//@rewrite eprintln!\([^;]*\); =>
//@end

//@fn src/worksheet.rs insert_cell_format impl="impl Worksheet" orpat
| ensures same_but_grid(*old(self), *final(self)), final(self).dimensions == old(self).dimensions,
|     only(old(self).data_table@, final(self).data_table@, row, col),
|     at(old(self).data_table@, row, col) matches Some(o) ==> (at(final(self).data_table@, row, col) matches Some(n) && held(n) == held(o) && xf(n) == format_id),
|     at(old(self).data_table@, row, col) is None ==> (match at(final(self).data_table@, row, col) { Some(n) => held(n) == Held::Blank && xf(n) == format_id, None => format_id == 0 }),
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@rewrite match self\.data_table\.entry\(row\) => match self.data_table.get_mut(&row)
//@rewrite Entry::Occupied\(mut entry\) => Some(columns)
//@rewrite let columns = entry\.get_mut\(\); =>
//@rewrite Entry::Vacant\(entry\) => None
//@rewrite BTreeMap::from\(\[\(col, cell\)\]\) => vp_one_cell(col, cell)
//@rewrite entry\.insert\(columns\) => self.data_table.insert(row, columns)
//@end

//@fn src/worksheet.rs update_cell_format impl="impl Worksheet" orpat
| ensures same_but_grid(*old(self), *final(self)), final(self).dimensions == old(self).dimensions,
|     only(old(self).data_table@, final(self).data_table@, row, col),
|     match at(old(self).data_table@, row, col) { Some(o) => at(final(self).data_table@, row, col) matches Some(n) && held(n) == held(o) && xf(n) == format_id, None => at(final(self).data_table@, row, col) is None },
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@end

//@fn src/worksheet.rs clear_cell_internal impl="impl Worksheet"
| ensures same_but_grid(*old(self), *final(self)), final(self).dimensions == old(self).dimensions,
|     only(old(self).data_table@, final(self).data_table@, row, col), at(final(self).data_table@, row, col) is None,
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@end

//@fn src/worksheet.rs clear_cell_format_internal impl="impl Worksheet"
| ensures same_but_grid(*old(self), *final(self)), final(self).dimensions == old(self).dimensions,
|     only(old(self).data_table@, final(self).data_table@, row, col),
|     match at(old(self).data_table@, row, col) { Some(o) => at(final(self).data_table@, row, col) matches Some(n) && held(n) == held(o) && xf(n) == 0, None => at(final(self).data_table@, row, col) is None },
//@end

//@fn src/worksheet.rs store_blank impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures match r { Ok(p) => wrote(*old(self), *p, row, col, Held::Blank) && *final(self) == *final(p) && p.has_dynamic_arrays == old(self).has_dynamic_arrays, Err(_) => *final(self) == *old(self) },
|    r is Ok <==> row < 1048576 && col < 16384,
//@end
//@fn src/worksheet.rs write_blank impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures match r { Ok(p) => wrote(*old(self), *p, row, col, Held::Blank) && *final(self) == *final(p) && p.has_dynamic_arrays == old(self).has_dynamic_arrays, Err(_) => *final(self) == *old(self) },
|    r is Ok <==> row < 1048576 && col < 16384,
//@end

//@fn src/worksheet.rs store_boolean impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures match r { Ok(p) => wrote(*old(self), *p, row, col, Held::Bool(boolean)) && *final(self) == *final(p), Err(_) => *final(self) == *old(self) },
|    r is Ok <==> row < 1048576 && col < 16384,
//@end

//@fn src/worksheet.rs store_string impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures r is Ok <==> row < 1048576 && col < 16384 && string@.len() <= 32767,
|    match r {
|      Ok(p) => *final(self) == *final(p) && p.has_dynamic_arrays == old(self).has_dynamic_arrays && (
|        if string@.len() > 0 { wrote(*old(self), *p, row, col, Held::Str(string@)) }
|        else if format is Some { wrote(*old(self), *p, row, col, Held::Blank) }
|        else { *p == *old(self) }),
|      Err(_) => *final(self) == *old(self) },
//@rewrite string\.chars\(\)\.count\(\) => vp_char_count(string.as_str())
//@rewrite Arc::from\(string\) => vp_arc(string.as_str())
//@rewrite let mut string_table = self\.string_table\.lock\(\)\.unwrap\(\);\s*string_id = Some\(string_table\.shared_string_index\(Arc::clone\(&string\)\)\); => string_id = Some(vp_shared_index(&string));
//@end

//@fn src/worksheet.rs store_rich_string impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory, string@.len() > 0 || raw_string@.len() == 0
| ensures r is Ok <==> row < 1048576 && col < 16384 && raw_string@.len() <= 32767,
|    match r {
|      Ok(p) => *final(self) == *final(p) && (
|        if string@.len() > 0 { wrote(*old(self), *p, row, col, Held::Rich(string@, raw_string@)) }
|        else if format is Some { wrote(*old(self), *p, row, col, Held::Blank) }
|        else { *p == *old(self) }),
|      Err(_) => *final(self) == *old(self) },
//@rewrite raw_string\.chars\(\)\.count\(\) => vp_char_count(raw_string)
//@rewrite Arc::from\((raw_)?string\) => vp_arc(\1string)
//@rewrite let mut string_table = self\.string_table\.lock\(\)\.unwrap\(\);\s*string_id = Some\(string_table\.shared_rich_string_index\(Arc::clone\(&string\)\)\); => string_id = Some(vp_shared_index(&string));
//@end

//@fn src/worksheet.rs store_number_type impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => wrote(*old(self), *p, row, col, num_held(*old(self), number, is_datetime)) && *final(self) == *final(p) && p.has_dynamic_arrays == old(self).has_dynamic_arrays, Err(_) => *final(self) == *old(self) },
//@rewrite number\.is_nan\(\) => vp_is_nan(number)
//@rewrite number\.is_infinite\(\) => vp_is_inf(number)
//@rewrite number == f64::INFINITY => vp_is_pos_inf(number)
//@rewrite self\.(nan|infinity|neg_infinity)\.clone\(\) => vp_clone(&self.\1)
//@end

//@fn src/worksheet.rs store_datetime impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => wrote(*old(self), *p, row, col, num_held(*old(self), number, true)) && *final(self) == *final(p), Err(_) => *final(self) == *old(self) },
//@end

//@fn src/worksheet.rs store_array_formula impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, first_row, first_col, last_row, last_col,
|           Held::Array(formula.formula_string@, result_text(*old(self), formula), is_dynamic || formula.has_dynamic_function, range_text(first_row, first_col, last_row, last_col))),
|       Err(_) => *final(self) == *old(self) },
//@rewrite utility::cell_range => vp_cell_range
//@rewrite range\.into_boxed_str\(\) => vp_box_of(range)
//@rewrite Box::from\(formula\.formula_string\) => vp_box_of(formula.formula_string)
//@rewrite formula\.result\.is_empty\(\) => vp_box_empty(&formula.result)
//@rewrite (self\.default_result|formula\.result)\.clone\(\) => vp_box_str(&\1)
//@rewrite self\.write_number_with_format\((\w+), col, 0, format\)\? => self.store_number_type(\1, col, vp_zero(), Some(format), false)?
//@rewrite self\.write_number\((\w+), col, 0\)\? => self.store_number_type(\1, col, vp_zero(), None, false)?
//@at body-start
| let ghost w0 = *self;
//@loop 1 iter=it
| invariant !self.use_constant_memory, texts_ok(*self), same_but_grid(w0, *self), first_row <= last_row < 1048576, first_col <= last_col < 16384,
|   arr_part(w0, *self, first_row, first_col, last_row, last_col, first_row as int, first_col as int + 1 + it.index@, hd),
//@loop 2 iter=it2
| invariant !self.use_constant_memory, texts_ok(*self), same_but_grid(w0, *self), first_row <= last_row < 1048576, first_col <= last_col < 16384,
|   arr_part(w0, *self, first_row, first_col, last_row, last_col, first_row as int + 1 + it2.index@, first_col as int, hd),
//@loop 3 iter=it3
| invariant !self.use_constant_memory, texts_ok(*self), same_but_grid(w0, *self), first_row <= last_row < 1048576, first_col <= last_col < 16384, first_row < row <= last_row,
|   arr_part(w0, *self, first_row, first_col, last_row, last_col, row as int, first_col as int + it3.index@, hd),
//@before /for col in first_col \+ 1/
| let ghost hd = held(at(self.data_table@, first_row, first_col)->Some_0);
//@end

//@fn src/worksheet.rs store_formula impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && wrote(*old(self), *p, row, col,
|           if formula.has_dynamic_function { Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(row, col, row, col)) }
|           else { Held::Formula(formula.formula_string@, result_text(*old(self), formula)) }),
|       Err(_) => *final(self) == *old(self) },
//@rewrite Box::from\(formula\.formula_string\) => vp_box_of(formula.formula_string)
//@rewrite formula\.result\.is_empty\(\) => vp_box_empty(&formula.result)
//@rewrite (self\.default_result|formula\.result)\.clone\(\) => vp_box_str(&\1)
//@end

//@fn src/worksheet.rs write_formula impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && wrote(*old(self), *p, row, col, if formula.has_dynamic_function { Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(row, col, row, col)) } else { Held::Formula(formula.formula_string@, result_text(*old(self), formula)) }), Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_array_formula impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, first_row, first_col, last_row, last_col,
|           Held::Array(formula.formula_string@, result_text(*old(self), formula), formula.has_dynamic_function, range_text(first_row, first_col, last_row, last_col))),
|       Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_dynamic_array_formula impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, first_row, first_col, last_row, last_col,
|           Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(first_row, first_col, last_row, last_col))),
|       Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_dynamic_formula impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, row, col, row, col, Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(row, col, row, col))), Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_formula_with_format impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && wrote(*old(self), *p, row, col, if formula.has_dynamic_function { Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(row, col, row, col)) } else { Held::Formula(formula.formula_string@, result_text(*old(self), formula)) }), Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_array_formula_with_format impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, first_row, first_col, last_row, last_col,
|           Held::Array(formula.formula_string@, result_text(*old(self), formula), formula.has_dynamic_function, range_text(first_row, first_col, last_row, last_col))),
|       Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_dynamic_array_formula_with_format impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, first_row, first_col, last_row, last_col,
|           Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(first_row, first_col, last_row, last_col))),
|       Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs write_dynamic_formula_with_format impl="impl Worksheet$" ret=r
| requires !old(self).use_constant_memory, texts_ok(*old(self))
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r { Ok(p) => *final(self) == *final(p) && array_wrote(*old(self), *p, row, col, row, col, Held::Array(formula.formula_string@, result_text(*old(self), formula), true, range_text(row, col, row, col))), Err(_) => *final(self) == *old(self) },
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@end

//@fn src/worksheet.rs set_formula_result impl="impl Worksheet$" ret=r orpat
| requires !old(self).use_constant_memory
| ensures *final(self) == *final(r), same_but_grid(*old(self), *r), r.dimensions == old(self).dimensions, only(old(self).data_table@, r.data_table@, row, col),
|    match at(old(self).data_table@, row, col) { Some(o) => at(r.data_table@, row, col) matches Some(n) && xf(n) == xf(o) && held(n) == with_result(held(o), result@), None => at(r.data_table@, row, col) is None },
//@rewrite sig:impl Into<String> => String
//@rewrite Box::from\(result\.into\(\)\) => vp_box_of(result)
//@rewrite eprintln!\([^;]*\); =>
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@end

//@fn src/worksheet.rs set_formula_result_default impl="impl Worksheet$" ret=r
| ensures *final(self) == *final(r), r.default_result@ == result@, *r == (Worksheet { default_result: r.default_result, ..*old(self) }),
//@rewrite sig:impl Into<String> => String
//@rewrite Box::from\(result\.into\(\)\) => vp_box_of(result)
//@end

//@fn src/worksheet.rs set_cell_format impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures r is Ok <==> row < 1048576 && col < 16384,
|    match r {
|      Ok(p) => *final(self) == *final(p) && grown(old(self).dimensions, p.dimensions, row, col) && same_but_grid(*old(self), *p) && only(old(self).data_table@, p.data_table@, row, col)
|         && kept(old(self).data_table@, p.data_table@, row, col),
|      Err(_) => *final(self) == *old(self) },
//@end

//@fn src/worksheet.rs set_range_format impl="impl Worksheet" ret=r
| requires !old(self).use_constant_memory
| ensures r is Ok <==> first_row <= last_row < 1048576 && first_col <= last_col < 16384,
|    match r {
|      Ok(p) => *final(self) == *final(p) && same_but_grid(*old(self), *p)
|         && range_grown(old(self).dimensions, p.dimensions, first_row, first_col, last_row, last_col)
|         && (forall|i: u32, j: u16| #![trigger at(p.data_table@, i, j)] if first_row <= i <= last_row && first_col <= j <= last_col { kept(old(self).data_table@, p.data_table@, i, j) } else { at(p.data_table@, i, j) == at(old(self).data_table@, i, j) }),
|      Err(_) => *final(self) == *old(self) },
//@at body-start
| let ghost w0 = *self;
//@loop 1 iter=it
| invariant same_but_grid(w0, *self), range_grown(w0.dimensions, self.dimensions, first_row, first_col, last_row, last_col), first_row <= last_row, first_col <= last_col,
|   fmt_part(w0, *self, first_row, first_col, last_row, last_col, first_row as int + it.index@, first_col as int),
//@loop 2 iter=it2
| invariant same_but_grid(w0, *self), range_grown(w0.dimensions, self.dimensions, first_row, first_col, last_row, last_col), first_row <= last_row, first_col <= last_col, first_row <= row <= last_row,
|   fmt_part(w0, *self, first_row, first_col, last_row, last_col, row as int, first_col as int + it2.index@),
//@end
}
/// a cell with the result of its formula set; other cells are as they were
pub open spec fn with_result(h: Held, t: Seq<char>) -> Held { match h { Held::Formula(f, _) => Held::Formula(f, t), Held::Array(f, _, d, r) => Held::Array(f, t, d, r), _ => h } }
pub open spec fn result_text(w: Worksheet, f: Formula) -> Seq<char> { if f.result@.len() == 0 { w.default_result@ } else { f.result@ } }
/// a format set on a cell keeps what the cell holds; an unwritten cell becomes a blank one or stays unwritten
pub open spec fn kept(a: Table, b: Table, r: u32, c: u16) -> bool {
    match at(a, r, c) { Some(o) => at(b, r, c) matches Some(n) && held(n) == held(o), None => at(b, r, c) matches Some(n) ==> held(n) == Held::Blank }
}
pub open spec fn range_grown(a: CellRange, b: CellRange, r: u32, c: u16, r2: u32, c2: u16) -> bool {
    b.first_row == min(a.first_row as int, r as int) && b.first_col == min(a.first_col as int, c as int)
    && b.last_row == max(a.last_row as int, r2 as int) && b.last_col == max(a.last_col as int, c2 as int)
}
/// (i, j) comes before (r, c) in reading order of the range
pub open spec fn done(i: int, j: int, fr: int, fc: int, lr: int, lc: int, r: int, c: int) -> bool {
    fr <= i <= lr && fc <= j <= lc && (i < r || (i == r && j < c))
}
pub open spec fn fmt_part(a: Worksheet, b: Worksheet, fr: u32, fc: u16, lr: u32, lc: u16, r: int, c: int) -> bool {
    forall|i: u32, j: u16| #![trigger at(b.data_table@, i, j)]
        if done(i as int, j as int, fr as int, fc as int, lr as int, lc as int, r, c) { kept(a.data_table@, b.data_table@, i, j) } else { at(b.data_table@, i, j) == at(a.data_table@, i, j) }
}
pub open spec fn arr_part(a: Worksheet, b: Worksheet, fr: u32, fc: u16, lr: u32, lc: u16, r: int, c: int, hd: Held) -> bool {
    &&& range_grown(a.dimensions, b.dimensions, fr, fc, lr, lc)
    &&& forall|i: u32, j: u16| #![trigger at(b.data_table@, i, j)]
        if i == fr && j == fc { at(b.data_table@, i, j) matches Some(x) && held(x) == hd }
        else if done(i as int, j as int, fr as int, fc as int, lr as int, lc as int, r, c) { at(b.data_table@, i, j) matches Some(x) && held(x) == Held::Num(zero()) }
        else { at(b.data_table@, i, j) == at(a.data_table@, i, j) }
}
/// an array formula: the first cell holds it, the rest of the range zeros, nothing else changes
pub open spec fn array_wrote(a: Worksheet, b: Worksheet, fr: u32, fc: u16, lr: u32, lc: u16, hd: Held) -> bool {
    arr_part(a, b, fr, fc, lr, lc, lr as int + 1, fc as int, hd) && same_but_grid(a, b)
}
fn main() {}
}
