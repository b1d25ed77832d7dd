// C09: merged ranges and tables.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@include fmt_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs MAX_STRING_LEN
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/table.rs struct Table keep=cell_range,show_header_row,show_total_row,show_autofilter,is_serde_table derive=
//@item src/worksheet.rs enum FilterType derive=
//@item src/worksheet.rs struct Worksheet keep=writer,merged_ranges,merged_cells,table_ranges,table_cells,tables,cells_with_autofilter,use_constant_memory,is_writing_ahead derive= sub=Cursor<Vec<u8>>=>Writer
pub struct Format { pub id: u64 }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, MergeRangeSingleCell, MaxStringLengthExceeded, MergeRangeOverlaps(String, String), TableRangeOverlaps(String, String), AutofilterRangeOverlaps(String, String), TableError(String), Other }
// ---------------------------------------------------------------- specification
pub type Cells = Map<(u32, u16), usize>;
pub open spec fn inside(g: CellRange, r: u32, c: u16) -> bool { g.first_row <= r <= g.last_row && g.first_col <= c <= g.last_col }
pub open spec fn share(a: CellRange, b: CellRange) -> bool { a.first_row <= b.last_row && b.first_row <= a.last_row && a.first_col <= b.last_col && b.first_col <= a.last_col }
pub open spec fn range(a: u32, b: u16, c: u32, d: u16) -> CellRange { CellRange { first_row: a, first_col: b, last_row: c, last_col: d } }
/// the cell index is exactly the cells of the ranges
pub open spec fn indexed(m: Cells, v: Seq<CellRange>) -> bool {
    &&& forall|r: u32, c: u16| #[trigger] m.dom().contains((r, c)) ==> m[(r, c)] < v.len() && inside(v[m[(r, c)] as int], r, c)
    &&& forall|i: int, r: u32, c: u16| 0 <= i < v.len() && #[trigger] inside(v[i], r, c) ==> m.dom().contains((r, c))
}
pub open spec fn proper(v: Seq<CellRange>) -> bool { forall|i: int| 0 <= i < v.len() ==> { let g = #[trigger] v[i]; g.first_row <= g.last_row < 1048576 && g.first_col <= g.last_col < 16384 } }
pub open spec fn apart(v: Seq<CellRange>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> !share(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn clear(v: Seq<CellRange>, g: CellRange) -> bool { forall|i: int| 0 <= i < v.len() ==> !share(#[trigger] v[i], g) }
/// no two merged ranges and no two tables, nor a merged range and a table, share a cell; no merged range is a single cell; every table is listed with its range
pub open spec fn inv(w: Worksheet) -> bool {
    &&& indexed(w.merged_cells@, w.merged_ranges@) && indexed(w.table_cells@, w.table_ranges@)
    &&& proper(w.merged_ranges@) && proper(w.table_ranges@)
    &&& apart(w.merged_ranges@ + w.table_ranges@)
    &&& forall|i: int| 0 <= i < w.merged_ranges@.len() ==> { let g = #[trigger] w.merged_ranges@[i]; g.first_row != g.last_row || g.first_col != g.last_col }
    &&& w.tables@.len() == w.table_ranges@.len() && forall|i: int| 0 <= i < w.tables@.len() ==> (#[trigger] w.tables@[i]).cell_range == w.table_ranges@[i]
}
/// the registers are the same
pub open spec fn same(a: Worksheet, b: Worksheet) -> bool {
    a.merged_ranges == b.merged_ranges && a.merged_cells == b.merged_cells && a.table_ranges == b.table_ranges && a.table_cells == b.table_cells && a.tables == b.tables && a.cells_with_autofilter == b.cells_with_autofilter && a.use_constant_memory == b.use_constant_memory
}
pub open spec fn legal(a: u32, b: u16, c: u32, d: u16) -> bool { a <= c < 1048576 && b <= d < 16384 }
pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
pub struct Tag { pub name: Seq<char>, pub attrs: Attrs }
/// trusted: the byte writer as the sequence of tags written to it (unit c02 proves the bytes of a tag)
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn log(&self) -> Seq<Tag>; }
pub open spec fn av(v: Seq<(&'static str, String)>) -> Attrs { v.map_values(|p: (&'static str, String)| (p.0@, p.1@)) }
/// the A1 text of a range (unit c01)
pub uninterp spec fn a1(g: CellRange) -> Seq<char>;
pub open spec fn merge_tag(g: CellRange) -> Tag { Tag { name: "mergeCell"@, attrs: seq![("ref"@, a1(g))] } }
pub open spec fn merge_list(v: Seq<CellRange>) -> Seq<Tag> {
    seq![Tag { name: "mergeCells"@, attrs: seq![("count"@, dec(v.len()))] }] + v.map_values(|g: CellRange| merge_tag(g)) + seq![Tag { name: "/mergeCells"@, attrs: Seq::empty() }]
}
// ---------------------------------------------------------------- trusted
#[verifier::external_body] pub fn xml_empty_tag(w: &mut Writer, tag: &str, attributes: &[(&'static str, String)]) ensures final(w).log() == old(w).log().push(Tag { name: tag@, attrs: av(attributes@) }) { }
#[verifier::external_body] pub fn xml_start_tag(w: &mut Writer, tag: &str, attributes: &[(&'static str, String)]) ensures final(w).log() == old(w).log().push(Tag { name: tag@, attrs: av(attributes@) }) { }
#[verifier::external_body] pub fn xml_end_tag(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(Tag { name: seq!['/'] + tag@, attrs: Seq::empty() }) { }
#[verifier::external_body] pub fn vp_dec(a: usize) -> (r: String) ensures r@ == dec(a as nat) { a.to_string() }
#[verifier::external_body] pub fn vp_ranges(v: &Vec<CellRange>) -> (r: Vec<CellRange>) ensures r@ == v@ { unimplemented!() }
pub uninterp spec fn count(s: Seq<char>) -> nat;
#[verifier::external_body] pub fn vp_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub proof fn key_model() ensures vstd::std_specs::hash::obeys_key_model::<(u32, u16)>() { }
#[verifier::external_body] pub fn vp_string(s: &str) -> String { s.to_string() }
impl CellRange {
    #[verifier::external_body] pub fn to_range_string(&self) -> (r: String) ensures r@ == a1(*self) { String::new() }
    #[verifier::external_body] pub fn to_error_string(&self) -> String { String::new() }
    #[verifier::external_body] pub fn clone(&self) -> (r: CellRange) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn columns_ok(t: Table) -> bool;
impl Table {
    /// trusted: a copy of the table's settings
    #[verifier::external_body] pub fn clone(&self) -> (r: Table) ensures r == *self { unimplemented!() }
    /// unit c10 proves what the columns become; the range and the switches stay
    #[verifier::external_body] pub fn initialize_columns(&mut self, h: &Vec<String>) -> (r: Result<(), XlsxError>) ensures *final(self) == *old(self) { unimplemented!() }
}
impl Worksheet {
    /// trusted frame: writing cells does not touch the registers, and succeeds for a cell and a text within the limits (unit c07)
    #[verifier::external_body] pub fn write_string_with_format(&mut self, row: u32, col: u16, s: &str, f: &Format) -> (r: Result<(), XlsxError>)
        ensures same(*old(self), *final(self)), old(self).is_writing_ahead == final(self).is_writing_ahead, row < 1048576 && col < 16384 && s@.len() <= 32767 ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_blank(&mut self, row: u32, col: u16, f: &Format) -> (r: Result<(), XlsxError>)
        ensures same(*old(self), *final(self)), old(self).is_writing_ahead == final(self).is_writing_ahead, row < 1048576 && col < 16384 ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn default_table_headers(&self, a: u32, b: u16, c: u16, h: bool) -> Vec<String> { unimplemented!() }
    /// the header, total and formula cells of a table (dropped here; replayed)
    #[verifier::external_body] pub fn vp_write_table(&mut self, t: &mut Table, a: u32, b: u16, c: u32) -> (r: Result<(), XlsxError>)
        ensures same(*old(self), *final(self)), *final(t) == *old(t), r is Ok ==> old(self).is_writing_ahead == final(self).is_writing_ahead { unimplemented!() }
}
proof fn add_range(m: Cells, n: Cells, v: Seq<CellRange>, g: CellRange)
    requires indexed(m, v), v.len() <= usize::MAX, v.len() < usize::MAX, clear(v, g),
        forall|r: u32, c: u16| inside(g, r, c) ==> #[trigger] n.dom().contains((r, c)) && n[(r, c)] == v.len(),
        forall|r: u32, c: u16| !inside(g, r, c) ==> (#[trigger] n.dom().contains((r, c)) == m.dom().contains((r, c))) && (m.dom().contains((r, c)) ==> n[(r, c)] == m[(r, c)]),
    ensures indexed(n, v.push(g))
{
    let w = v.push(g);
    assert forall|r: u32, c: u16| #[trigger] n.dom().contains((r, c)) implies n[(r, c)] < w.len() && inside(w[n[(r, c)] as int], r, c) by {
        if inside(g, r, c) { assert(w[v.len() as int] == g); } else { assert(m.dom().contains((r, c))); assert(w[m[(r, c)] as int] == v[m[(r, c)] as int]); }
    }
    assert forall|i: int, r: u32, c: u16| 0 <= i < w.len() && #[trigger] inside(w[i], r, c) implies n.dom().contains((r, c)) by {
        if i < v.len() { assert(w[i] == v[i]); assert(inside(v[i], r, c)); assert(m.dom().contains((r, c))); if !inside(g, r, c) { } }
    }
}
/// a range none of whose cells is registered shares no cell with the registered ranges
proof fn free(m: Cells, v: Seq<CellRange>, g: CellRange)
    requires indexed(m, v), proper(v), forall|r: u32, c: u16| inside(g, r, c) ==> !#[trigger] m.dom().contains((r, c)), g.first_row <= g.last_row, g.first_col <= g.last_col
    ensures clear(v, g)
{
    assert forall|i: int| 0 <= i < v.len() implies !share(#[trigger] v[i], g) by {
        if share(v[i], g) {
            let r = if v[i].first_row >= g.first_row { v[i].first_row } else { g.first_row };
            let c = if v[i].first_col >= g.first_col { v[i].first_col } else { g.first_col };
            assert(inside(v[i], r, c)); assert(inside(g, r, c)); assert(m.dom().contains((r, c)));
        }
    }
}
proof fn taken(m: Cells, v: Seq<CellRange>, g: CellRange, r: u32, c: u16)
    requires indexed(m, v), m.dom().contains((r, c)), inside(g, r, c)
    ensures !clear(v, g)
{ assert(share(v[m[(r, c)] as int], g)); }
proof fn apart_push(a: Seq<CellRange>, b: Seq<CellRange>, g: CellRange)
    requires apart(a + b), clear(a, g), clear(b, g)
    ensures apart(a.push(g) + b), apart(a + b.push(g))
{
    let ab = a + b;
    assert forall|i: int| 0 <= i < a.len() implies !share(#[trigger] a[i], g) && !share(g, a[i]) by { }
    assert forall|i: int| 0 <= i < b.len() implies !share(#[trigger] b[i], g) && !share(g, b[i]) by { }
    let x = a.push(g) + b; let y = a + b.push(g);
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies !share(#[trigger] x[i], #[trigger] x[j]) by {
        let n = a.len() as int;
        if i < n { assert(x[i] == ab[i]); assert(x[i] == a[i]); } else if i > n { assert(x[i] == ab[i - 1]); }
        if j < n { assert(x[j] == ab[j]); } else if j > n { assert(x[j] == ab[j - 1]); assert(x[j] == b[j - 1 - n]); }
        if i != n && j != n { let p = if i < n { i } else { i - 1 }; let q = if j < n { j } else { j - 1 }; assert(p < q); assert(!share(ab[p], ab[q])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies !share(#[trigger] y[i], #[trigger] y[j]) by {
        assert(y[i] == ab[i]);
        if j < ab.len() { assert(y[j] == ab[j]); } else { assert(y[j] == g); if i < a.len() { assert(y[i] == a[i]); } else { assert(y[i] == b[i - a.len()]); } }
    }
}
pub open spec fn before(row: u32, col: u16, r: u32, c: u16) -> bool { r < row || (r == row && c < col) }
#[verifier::opaque] pub open spec fn none_upto(m: Cells, t: Cells, g: CellRange, row: u32, col: u16) -> bool {
    forall|r: u32, c: u16| inside(g, r, c) && before(row, col, r, c) ==> !#[trigger] m.dom().contains((r, c)) && !t.dom().contains((r, c))
}
#[verifier::opaque] pub open spec fn set_upto(n: Cells, n0: Cells, g: CellRange, k: usize, row: u32, col: u16) -> bool {
    &&& forall|r: u32, c: u16| inside(g, r, c) && before(row, col, r, c) ==> #[trigger] n.dom().contains((r, c)) && n[(r, c)] == k
    &&& forall|r: u32, c: u16| !(inside(g, r, c) && before(row, col, r, c)) ==> (#[trigger] n.dom().contains((r, c)) == n0.dom().contains((r, c))) && (n0.dom().contains((r, c)) ==> n[(r, c)] == n0[(r, c)])
}
proof fn scan_start(m: Cells, t: Cells, g: CellRange, k: usize) ensures none_upto(m, t, g, g.first_row, g.first_col), set_upto(m, m, g, k, g.first_row, g.first_col) { reveal(none_upto); reveal(set_upto); }
proof fn none_step(m: Cells, t: Cells, g: CellRange, row: u32, col: u16)
    requires none_upto(m, t, g, row, col), inside(g, row, col), g.last_col < 65535, !m.dom().contains((row, col)), !t.dom().contains((row, col))
    ensures none_upto(m, t, g, row, (col + 1) as u16)
{ reveal(none_upto);
  assert forall|r: u32, c: u16| inside(g, r, c) && before(row, (col + 1) as u16, r, c) implies !#[trigger] m.dom().contains((r, c)) && !t.dom().contains((r, c)) by { if !before(row, col, r, c) { assert(r == row && c == col); } } }
proof fn none_row(m: Cells, t: Cells, g: CellRange, row: u32)
    requires none_upto(m, t, g, row, (g.last_col + 1) as u16), g.last_col < 65535, row <= g.last_row < 0xffff_ffff
    ensures none_upto(m, t, g, (row + 1) as u32, g.first_col)
{ reveal(none_upto);
  assert forall|r: u32, c: u16| inside(g, r, c) && before((row + 1) as u32, g.first_col, r, c) implies !#[trigger] m.dom().contains((r, c)) && !t.dom().contains((r, c)) by { assert(before(row, (g.last_col + 1) as u16, r, c)); } }
proof fn set_step(n: Cells, n0: Cells, g: CellRange, k: usize, row: u32, col: u16)
    requires set_upto(n, n0, g, k, row, col), inside(g, row, col), g.last_col < 65535
    ensures set_upto(n.insert((row, col), k), n0, g, k, row, (col + 1) as u16)
{ reveal(set_upto); let n1 = n.insert((row, col), k);
  assert forall|r: u32, c: u16| inside(g, r, c) && before(row, (col + 1) as u16, r, c) implies #[trigger] n1.dom().contains((r, c)) && n1[(r, c)] == k by { if before(row, col, r, c) { assert(n.dom().contains((r, c))); } else { assert(r == row && c == col); } }
  assert forall|r: u32, c: u16| !(inside(g, r, c) && before(row, (col + 1) as u16, r, c)) implies (#[trigger] n1.dom().contains((r, c)) == n0.dom().contains((r, c))) && (n0.dom().contains((r, c)) ==> n1[(r, c)] == n0[(r, c)]) by { assert((r, c) != (row, col)); assert(n1.dom().contains((r, c)) == n.dom().contains((r, c))); } }
proof fn set_row(n: Cells, n0: Cells, g: CellRange, k: usize, row: u32)
    requires set_upto(n, n0, g, k, row, (g.last_col + 1) as u16), g.last_col < 65535, row <= g.last_row < 0xffff_ffff
    ensures set_upto(n, n0, g, k, (row + 1) as u32, g.first_col)
{ reveal(set_upto);
  assert forall|r: u32, c: u16| inside(g, r, c) implies before((row + 1) as u32, g.first_col, r, c) == before(row, (g.last_col + 1) as u16, r, c) by { } }
proof fn all_free(m: Cells, t: Cells, v: Seq<CellRange>, u: Seq<CellRange>, g: CellRange)
    requires none_upto(m, t, g, (g.last_row + 1) as u32, g.first_col), indexed(m, v), indexed(t, u), proper(v), proper(u), legal(g.first_row, g.first_col, g.last_row, g.last_col)
    ensures clear(v, g), clear(u, g)
{ reveal(none_upto);
  assert forall|r: u32, c: u16| inside(g, r, c) implies !#[trigger] m.dom().contains((r, c)) by { assert(before((g.last_row + 1) as u32, g.first_col, r, c)); }
  assert forall|r: u32, c: u16| inside(g, r, c) implies !#[trigger] t.dom().contains((r, c)) by { assert(before((g.last_row + 1) as u32, g.first_col, r, c)); let b = m.dom().contains((r, c)); }
  free(m, v, g); free(t, u, g); }
proof fn all_set(m: Cells, n: Cells, v: Seq<CellRange>, g: CellRange, k: usize)
    requires set_upto(n, m, g, k, (g.last_row + 1) as u32, g.first_col), indexed(m, v), k == v.len(), v.len() < usize::MAX, clear(v, g), legal(g.first_row, g.first_col, g.last_row, g.last_col)
    ensures indexed(n, v.push(g))
{ reveal(set_upto);
  assert forall|r: u32, c: u16| inside(g, r, c) implies before((g.last_row + 1) as u32, g.first_col, r, c) by { }
  add_range(m, n, v, g); }
impl CellRange {
//@fn src/worksheet.rs new impl="impl CellRange" ret=r
| ensures r == range(first_row, first_col, last_row, last_col)
//@end
}
impl Worksheet {
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384), *final(self) == *old(self)
//@end
//@fn src/worksheet.rs set_writing_ahead impl="impl Worksheet"
| ensures same(*old(self), *final(self)), final(self).is_writing_ahead == (if old(self).use_constant_memory { enable } else { old(self).is_writing_ahead }),
//@end
//@fn src/worksheet.rs merge_range impl="impl Worksheet" ret=ret
| requires inv(*old(self)),
|   // trusted: a sheet has fewer than 2^64 merged ranges
|   old(self).merged_ranges@.len() < usize::MAX,
| ensures match ret {
|     Ok(p) => *final(self) == *final(p) && inv(*p) && p.merged_ranges@ == old(self).merged_ranges@.push(range(first_row, first_col, last_row, last_col))
|         && p.table_ranges == old(self).table_ranges && p.table_cells == old(self).table_cells && p.tables == old(self).tables,
|     Err(e) => same(*old(self), *final(self)) && !(legal(first_row, first_col, last_row, last_col) && (first_row != last_row || first_col != last_col) && string@.len() <= 32767
|         && clear(old(self).merged_ranges@, range(first_row, first_col, last_row, last_col)) && clear(old(self).table_ranges@, range(first_row, first_col, last_row, last_col))),
|   },
//@rewrite string\.chars\(\)\.count\(\) => vp_count(string)
//@rewrite for (\w+) in (first_\w+(?: \+ 1)?)\.\.=last_(row|col) => for \1 in \2..last_\3 + 1
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { key_model(); }
| let ghost w0 = *self;
| let ghost g = range(first_row, first_col, last_row, last_col);
//@at before-loop 1
| proof { scan_start(w0.merged_cells@, w0.table_cells@, g, 0); }
//@loop 1
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == w0, inv(w0), g == range(first_row, first_col, last_row, last_col), cell_range == g,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   none_upto(w0.merged_cells@, w0.table_cells@, g, row, first_col),
//@loop 2
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == w0, inv(w0), g == range(first_row, first_col, last_row, last_col), cell_range == g, first_row <= row <= last_row,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   none_upto(w0.merged_cells@, w0.table_cells@, g, row, col),
//@before /if let Some\(previous_cell_range\) = previous_cell_range/
| proof {
|   if w0.merged_cells@.dom().contains((row, col)) { taken(w0.merged_cells@, w0.merged_ranges@, g, row, col); }
|   else if w0.table_cells@.dom().contains((row, col)) { taken(w0.table_cells@, w0.table_ranges@, g, row, col); }
| }
//@at loop 2 end
| proof { none_step(w0.merged_cells@, w0.table_cells@, g, row, col); }
//@at loop 1 end
| proof { none_row(w0.merged_cells@, w0.table_cells@, g, row); }
//@loop 3
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), same(w0, *self),
//@loop 4
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), same(w0, *self),
//@loop 5
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), same(w0, *self), first_row <= row <= last_row,
//@before /let new_index = self/
| proof { all_free(w0.merged_cells@, w0.table_cells@, w0.merged_ranges@, w0.table_ranges@, g); scan_start(self.merged_cells@, self.merged_cells@, g, self.merged_ranges@.len() as usize); }
| let ghost n0 = self.merged_cells@;
//@loop 6
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), g == range(first_row, first_col, last_row, last_col),
|   self.merged_ranges == w0.merged_ranges, self.table_ranges == w0.table_ranges, self.table_cells == w0.table_cells, self.tables == w0.tables,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   set_upto(self.merged_cells@, n0, g, new_index, row, first_col),
//@at loop 7 start
| let ghost n1 = self.merged_cells@;
//@at loop 7 end
| proof { set_step(n1, n0, g, new_index, row, col); }
//@at loop 6 end
| proof { set_row(self.merged_cells@, n0, g, new_index, row); }
//@loop 7
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), g == range(first_row, first_col, last_row, last_col), first_row <= row <= last_row,
|   self.merged_ranges == w0.merged_ranges, self.table_ranges == w0.table_ranges, self.table_cells == w0.table_cells, self.tables == w0.tables,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   set_upto(self.merged_cells@, n0, g, new_index, row, col),
//@before /self\.merged_ranges\.push/
| proof {
|   all_set(n0, self.merged_cells@, w0.merged_ranges@, g, new_index);
|   apart_push(w0.merged_ranges@, w0.table_ranges@, g);
| }
//@end
//@fn src/worksheet.rs add_table impl="impl Worksheet" ret=ret
| requires inv(*old(self)), old(self).table_ranges@.len() < usize::MAX,
| ensures match ret {
|     Ok(p) => *final(self) == *final(p) && inv(*p) && p.table_ranges@ == old(self).table_ranges@.push(range(first_row, first_col, last_row, last_col))
|         && p.merged_ranges == old(self).merged_ranges && p.merged_cells == old(self).merged_cells && legal(first_row, first_col, last_row, last_col)
|         && last_row - first_row >= (if table.show_header_row { 1int } else { 0 }) + (if table.show_total_row { 1int } else { 0 })
|         && p.tables@.len() == old(self).tables@.len() + 1 && p.tables@.last().cell_range == range(first_row, first_col, last_row, last_col),
|     Err(e) => same(*old(self), *final(self)),
|   },
//@rewrite let mut table = table\.clone\(\) => let mut vp_t = table.clone()
//@rewrite (?<![_.&\w])table(?=\.(?:cell_range|initialize_columns|first_data_row|last_data_row)) => vp_t
//@rewrite \.push\(table\) => .push(vp_t)
//@rewrite "Table must have at least one row"\.to_string\(\) => vp_string("Table must have at least one row")
//@rewrite u32::from\((table\.show_header_row|table\.show_total_row)\) => (if \1 { 1u32 } else { 0u32 })
//@rewrite let first_data_row = [\s\S]*?(?=let new_index = self\.table_ranges) => self.vp_write_table(&mut vp_t, first_row, first_col, last_row)?;
//@rewrite \*filter_type == FilterType::Worksheet => matches!(*filter_type, FilterType::Worksheet)
//@rewrite for (\w+) in (first_\w+)\.\.=last_(row|col) => for \1 in \2..last_\3 + 1
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { key_model(); }
| let ghost w0 = *self;
| let ghost g = range(first_row, first_col, last_row, last_col);
//@at before-loop 1
| proof { scan_start(w0.merged_cells@, w0.table_cells@, g, 0); }
//@loop 1
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == w0, inv(w0), g == range(first_row, first_col, last_row, last_col), cell_range == g,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   none_upto(w0.merged_cells@, w0.table_cells@, g, row, first_col),
//@loop 2
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == w0, inv(w0), g == range(first_row, first_col, last_row, last_col), cell_range == g, first_row <= row <= last_row,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   none_upto(w0.merged_cells@, w0.table_cells@, g, row, col),
//@before /if let Some\(previous_cell_range\) = previous_cell_range/
| proof {
|   if w0.merged_cells@.dom().contains((row, col)) { taken(w0.merged_cells@, w0.merged_ranges@, g, row, col); }
|   else if w0.table_cells@.dom().contains((row, col)) { taken(w0.table_cells@, w0.table_ranges@, g, row, col); }
| }
//@at loop 2 end
| proof { none_step(w0.merged_cells@, w0.table_cells@, g, row, col); }
//@at loop 1 end
| proof { none_row(w0.merged_cells@, w0.table_cells@, g, row); }
//@loop 3
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), *self == w0, vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
//@before /let new_index = self/
| proof { all_free(w0.merged_cells@, w0.table_cells@, w0.merged_ranges@, w0.table_ranges@, g); scan_start(self.table_cells@, self.table_cells@, g, self.table_ranges@.len() as usize); }
| let ghost n0 = self.table_cells@;
//@loop 4
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), g == range(first_row, first_col, last_row, last_col),
|   self.merged_ranges == w0.merged_ranges, self.table_ranges == w0.table_ranges, self.merged_cells == w0.merged_cells, self.tables == w0.tables,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   set_upto(self.table_cells@, n0, g, new_index, row, first_col),
//@at loop 5 start
| let ghost n1 = self.table_cells@;
//@at loop 5 end
| proof { set_step(n1, n0, g, new_index, row, col); }
//@at loop 4 end
| proof { set_row(self.table_cells@, n0, g, new_index, row); }
//@loop 5
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col), g == range(first_row, first_col, last_row, last_col), first_row <= row <= last_row,
|   self.merged_ranges == w0.merged_ranges, self.table_ranges == w0.table_ranges, self.merged_cells == w0.merged_cells, self.tables == w0.tables,
|   vstd::std_specs::hash::obeys_key_model::<(u32, u16)>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   set_upto(self.table_cells@, n0, g, new_index, row, col),
//@loop 6
| invariant w0 == *old(self), legal(first_row, first_col, last_row, last_col),
|   self.merged_ranges == w0.merged_ranges, self.table_ranges == w0.table_ranges, self.merged_cells == w0.merged_cells, self.tables == w0.tables,
|   indexed(self.table_cells@, w0.table_ranges@.push(g)),
//@before /if table\.show_autofilter \{\s*for col in first_col\.\.last_col \+ 1 \{\s*self/
| proof { all_set(n0, self.table_cells@, w0.table_ranges@, g, new_index); }
//@before /self\.table_ranges\.push/
| proof { apart_push(w0.merged_ranges@, w0.table_ranges@, g); }
//@end
//@fn src/worksheet.rs write_merge_cell impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(merge_tag(*merge_range)), final(self).merged_ranges == old(self).merged_ranges,
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("ref"@, a1(*merge_range))]); }
//@end
//@fn src/worksheet.rs write_merge_cells impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + merge_list(old(self).merged_ranges@),
//@rewrite self\.merged_ranges\.len\(\)\.to_string\(\) => vp_dec(self.merged_ranges.len())
//@rewrite for merge_range in &self\.merged_ranges\.clone\(\) => let vp_all = vp_ranges(&self.merged_ranges); for merge_range in vp_all.iter()
//@before /xml_start_tag/
| proof { assert(av(attributes@) =~= seq![("count"@, dec(self.merged_ranges@.len()))]); reveal_strlit("mergeCells"); reveal_strlit("/mergeCells"); assert(seq!['/'] + "mergeCells"@ =~= "/mergeCells"@); }
//@loop 1 iter=it
| invariant vp_all@ == old(self).merged_ranges@, it.seq().len() == vp_all@.len(), forall|k: int| 0 <= k < vp_all@.len() ==> *it.seq()[k] == vp_all@[k],
|   self.writer.log() =~= old(self).writer.log().push(Tag { name: "mergeCells"@, attrs: seq![("count"@, dec(vp_all@.len()))] }) + vp_all@.take(it.index@ as int).map_values(|g: CellRange| merge_tag(g)),
//@at loop 1 start
| proof { let i = it.index@ as int; assert(vp_all@.take(i + 1).map_values(|g: CellRange| merge_tag(g)) =~= vp_all@.take(i).map_values(|g: CellRange| merge_tag(g)).push(merge_tag(vp_all@[i]))); }
//@at after-loop 1
| proof { assert(vp_all@.take(vp_all@.len() as int) =~= vp_all@); }
//@end
}
fn main() {}
}
