// C10: the cells written by add_table.  Extracted from /repo/src/{worksheet,table}.rs on every run.
// The overlap checks and registers of add_table are unit c09, its column list is unit c10.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@const src/worksheet.rs MAX_STRING_LEN
//@item src/worksheet.rs struct CellRange derive=
//@item src/table.rs enum TableFunction derive=
//@item src/table.rs struct TableColumn derive=
//@item src/table.rs struct Table keep=columns,cell_range,show_header_row,show_total_row,show_autofilter,is_serde_table derive=
pub struct Format { pub dxf_index: u32, pub look: u64 }
pub struct Formula { pub formula_string: Box<str>, pub id: u64 }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, MaxStringLengthExceeded, TableError(String), Other }
// ---------------------------------------------------------------- specification
pub enum What { Text(Seq<char>), Calc(Formula), Other(int) }
pub struct Cell { pub what: What, pub look: int }
pub type Grid = Map<(u32, u16), Cell>;
#[verifier::opaque] pub open spec fn cell(g: Grid, r: int, c: int) -> Option<Cell> { if 0 <= r <= u32::MAX && 0 <= c <= u16::MAX && g.dom().contains((r as u32, c as u16)) { Some(g[(r as u32, c as u16)]) } else { None } }
/// trusted: the look of a cell that is written without a format (unit c08)
pub uninterp spec fn plain(r: u32, c: u16) -> int;
/// the look of a format index (unit c08)
pub uninterp spec fn look_of(i: u32) -> int;
/// the formula of a total (unit c14)
pub uninterp spec fn total_of(c: TableColumn) -> Formula;
pub open spec fn data_first(t: Table) -> int { t.cell_range.first_row + if t.show_header_row { 1int } else { 0 } }
pub open spec fn data_last(t: Table) -> int { t.cell_range.last_row - if t.show_total_row { 1int } else { 0 } }
pub open spec fn writes_header(t: Table) -> bool { t.show_header_row && !t.is_serde_table }
pub open spec fn look(c: TableColumn) -> int { match c.format { Some(f) => f.look as int, None => 0 } }
/// what column j of a table puts in row r, if anything
pub open spec fn put(t: Table, c: TableColumn, r: int) -> Option<What> {
    if r == t.cell_range.first_row && t.show_header_row { if writes_header(t) { Some(What::Text(c.name@)) } else { None } }
    else if r == t.cell_range.last_row && t.show_total_row { if c.total_label@.len() > 0 { Some(What::Text(c.total_label@)) } else if !(c.total_function is None) { Some(What::Calc(total_of(c))) } else { None } }
    else { match c.formula { Some(f) => Some(What::Calc(f)), None => None } }
}
pub open spec fn put_look(t: Table, c: TableColumn, r: int, col: int) -> int {
    if r == t.cell_range.first_row && t.show_header_row { match c.header_format { Some(f) => f.look as int, None => plain(r as u32, col as u16) } } else { look(c) }
}
/// the cells of column j are what the table says, the others of the column hold what they held
#[verifier::opaque] pub open spec fn column_done(a: Grid, b: Grid, t: Table, j: int, c: TableColumn) -> bool {
    let col = t.cell_range.first_col + j;
    &&& forall|r: int| t.cell_range.first_row <= r <= t.cell_range.last_row && put(t, c, r) is Some ==> #[trigger] cell(b, r, col) == Some(Cell { what: put(t, c, r)->0, look: put_look(t, c, r, col) })
    &&& forall|r: int| t.cell_range.first_row <= r <= t.cell_range.last_row && put(t, c, r) is None ==> same_what(cell(a, r, col), #[trigger] cell(b, r, col))
}
pub open spec fn same_what(a: Option<Cell>, b: Option<Cell>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.what == y.what, _ => false } }
/// no cell outside these columns of the table changes
#[verifier::opaque] pub open spec fn outside_same(a: Grid, b: Grid, g: CellRange, n: int) -> bool {
    forall|r: int, c: int| !(g.first_row <= r <= g.last_row && g.first_col <= c < g.first_col + n) ==> #[trigger] cell(b, r, c) == cell(a, r, c)
}
pub open spec fn same_column(a: TableColumn, b: TableColumn) -> bool { a.name == b.name && a.total_function == b.total_function && a.total_label == b.total_label && a.formula == b.formula && a.header_format == b.header_format && look(a) == look(b) && (a.format is Some <==> b.format is Some) && total_of(a) == total_of(b) }
pub open spec fn short(t: Table, c: TableColumn) -> bool { (writes_header(t) ==> c.name@.len() <= 32767) && (t.show_total_row ==> c.total_label@.len() <= 32767) }
/// at most the format changed, of cells of these rows
pub open spec fn only_touched(a: Grid, b: Grid, col: int, first: int, last: int, look: int) -> bool { forall|r: int, c: int| { let now = #[trigger] cell(b, r, c); let was = cell(a, r, c);
    now == was || (c == col && first <= r <= last && was is Some && now == Some(Cell { what: (was->0).what, look })) } }
pub broadcast proof fn cell_insert(g: Grid, row: u32, col: u16, v: Cell, r: int, c: int) ensures #[trigger] cell(g.insert((row, col), v), r, c) == (if r == row && c == col { Some(v) } else { cell(g, r, c) }) { reveal(cell); }
proof fn cell_there(g: Grid, row: u32, col: u16) requires g.dom().contains((row, col)) ensures cell(g, row as int, col as int) == Some(g[(row, col)]) { reveal(cell); }
pub open spec fn other_same(a: Grid, b: Grid, g: CellRange, col: int) -> bool { forall|r: int, c: int| c != col || !(g.first_row <= r <= g.last_row) ==> #[trigger] cell(b, r, c) == cell(a, r, c) }
/// header and total cells of a column are written
pub open spec fn ends_done(a: Grid, b: Grid, t: Table, c: TableColumn, col: int) -> bool {
    forall|r: int| (r == t.cell_range.first_row && t.show_header_row) || (r == t.cell_range.last_row && t.show_total_row) ==>
        (match put(t, c, r) { Some(w) => #[trigger] cell(b, r, col) == Some(Cell { what: w, look: put_look(t, c, r, col) }), None => cell(b, r, col) == cell(a, r, col) })
}
pub open spec fn data_same(a: Grid, b: Grid, t: Table, col: int) -> bool { forall|r: int| data_first(t) <= r <= data_last(t) ==> #[trigger] cell(b, r, col) == cell(a, r, col) }
/// the formulas of a column are written in rows before n
pub open spec fn data_done(a: Grid, b: Grid, t: Table, c: TableColumn, col: int, n: int) -> bool {
    &&& forall|r: int, e: int| e != col || !(data_first(t) <= r < n) ==> #[trigger] cell(b, r, e) == cell(a, r, e)
    &&& forall|r: int| data_first(t) <= r < n ==> (match c.formula { Some(f) => #[trigger] cell(b, r, col) == Some(Cell { what: What::Calc(f), look: look(c) }), None => cell(b, r, col) == cell(a, r, col) })
}
proof fn start(g: Grid, t: Table) ensures outside_same(g, g, t.cell_range, 0) { reveal(outside_same); }
proof fn finish(g0: Grid, g1: Grid, g2: Grid, g3: Grid, g5: Grid, t: Table, j: int, c: TableColumn, d: TableColumn)
    requires other_same(g1, g2, t.cell_range, t.cell_range.first_col + j), ends_done(g1, g2, t, c, t.cell_range.first_col + j), data_same(g1, g2, t, t.cell_range.first_col + j),
        data_done(g2, g3, t, c, t.cell_range.first_col + j, data_last(t) + 1), 0 <= j,
        g5 == g3 || (c.format is Some && only_touched(g3, g5, t.cell_range.first_col + j, data_first(t), t.cell_range.last_row as int, look(c))), outside_same(g0, g1, t.cell_range, j), same_column(c, d), data_last(t) >= data_first(t),
        forall|r: int| #[trigger] cell(g1, r, t.cell_range.first_col + j) == cell(g0, r, t.cell_range.first_col + j),
    ensures column_done(g0, g5, t, j, d), outside_same(g0, g5, t.cell_range, j + 1)
{ reveal(column_done); reveal(outside_same);
    let col = t.cell_range.first_col + j;
    assert forall|r: int| t.cell_range.first_row <= r <= t.cell_range.last_row implies (match put(t, d, r) { Some(w) => #[trigger] cell(g5, r, col) == Some(Cell { what: w, look: put_look(t, d, r, col) }), None => same_what(cell(g0, r, col), cell(g5, r, col)) }) by {
        assert(cell(g1, r, col) == cell(g0, r, col)); assert(cell(g2, r, col) == cell(g2, r, col)); assert(cell(g3, r, col) == cell(g3, r, col));
        if (r == t.cell_range.first_row && t.show_header_row) || (r == t.cell_range.last_row && t.show_total_row) { assert(cell(g3, r, col) == cell(g2, r, col)); } else { assert(data_first(t) <= r <= data_last(t)); }
    }
    assert forall|r: int, e: int| !(t.cell_range.first_row <= r <= t.cell_range.last_row && t.cell_range.first_col <= e < t.cell_range.first_col + j + 1) implies #[trigger] cell(g5, r, e) == cell(g0, r, e) by {
        assert(cell(g3, r, e) == cell(g2, r, e)); assert(cell(g2, r, e) == cell(g1, r, e)); assert(cell(g1, r, e) == cell(g0, r, e));
    }
}
proof fn others_keep(g0: Grid, g1: Grid, g2: Grid, g3: Grid, g5: Grid, t: Table, j: int, c: TableColumn, l: int)
    requires other_same(g1, g2, t.cell_range, t.cell_range.first_col + j), data_done(g2, g3, t, c, t.cell_range.first_col + j, data_last(t) + 1), g5 == g3 || only_touched(g3, g5, t.cell_range.first_col + j, data_first(t), t.cell_range.last_row as int, l)
    ensures forall|i: int, d: TableColumn| 0 <= i < j && #[trigger] column_done(g0, g1, t, i, d) ==> column_done(g0, g5, t, i, d)
{ reveal(column_done);
    assert forall|i: int, d: TableColumn| 0 <= i < j && #[trigger] column_done(g0, g1, t, i, d) implies column_done(g0, g5, t, i, d) by {
        assert forall|r: int| #[trigger] cell(g5, r, t.cell_range.first_col + i) == cell(g1, r, t.cell_range.first_col + i) by { let e = t.cell_range.first_col + i; assert(cell(g3, r, e) == cell(g2, r, e)); assert(cell(g2, r, e) == cell(g1, r, e)); }
    }
}
proof fn table_frame(g0: Grid, g: Grid, a: Table, b: Table) requires b == (Table { columns: b.columns, ..a }) ensures forall|j: int, c: TableColumn| #[trigger] column_done(g0, g, a, j, c) ==> column_done(g0, g, b, j, c)
{ reveal(column_done);
    assert forall|c: TableColumn, r: int| #[trigger] put(a, c, r) == put(b, c, r) by { } assert forall|c: TableColumn, r: int, e: int| #[trigger] put_look(a, c, r, e) == put_look(b, c, r, e) by { } }
/// the format of one more cell changes
proof fn touch(g3: Grid, g4: Grid, g5: Grid, row: u32, col: u16, first: int, last0: int, last: int, l: int)
    requires only_touched(g3, g4, col as int, first, last0, l), last0 <= last, first <= row <= last, g5 == g4 || (g4.dom().contains((row, col)) && g5 == g4.insert((row, col), Cell { what: g4[(row, col)].what, look: l }))
    ensures only_touched(g3, g5, col as int, first, last, l)
{ broadcast use cell_insert;
    if g4.dom().contains((row, col)) { cell_there(g4, row, col); }
    assert(cell(g4, row as int, col as int) == cell(g4, row as int, col as int));
    assert forall|r: int, c: int| true implies ({ let now = #[trigger] cell(g5, r, c); let was = cell(g3, r, c); now == was || (c == col && first <= r <= last && was is Some && now == Some(Cell { what: (was->0).what, look: l })) }) by { assert(cell(g4, r, c) == cell(g4, r, c)); }
}
proof fn ahead_same(g0: Grid, g1: Grid, t: Table, j: int) requires outside_same(g0, g1, t.cell_range, j), 0 <= j ensures forall|r: int| #[trigger] cell(g1, r, t.cell_range.first_col + j) == cell(g0, r, t.cell_range.first_col + j) { reveal(outside_same); }
// ---------------------------------------------------------------- trusted
#[verifier::external_body] pub struct Worksheet { }
impl Worksheet {
    pub uninterp spec fn grid(&self) -> Grid;
    pub uninterp spec fn tables(&self) -> Seq<Table>;
    pub uninterp spec fn ahead(&self) -> bool;
    // units c07, c14b and c18 prove these of the cell store
    #[verifier::external_body] pub fn write_string_with_format(&mut self, row: u32, col: u16, s: &String, f: &Format) -> (r: Result<(), XlsxError>) requires s@.len() > 0
        ensures r is Ok == (row < 1048576 && col < 16384 && s@.len() <= 32767), r is Ok ==> final(self).grid() == old(self).grid().insert((row, col), Cell { what: What::Text(s@), look: f.look as int }), r is Err ==> final(self).grid() == old(self).grid(), final(self).ahead() == old(self).ahead(), final(self).tables() == old(self).tables() { Ok(()) }
    #[verifier::external_body] pub fn write_string(&mut self, row: u32, col: u16, s: &String) -> (r: Result<(), XlsxError>) requires s@.len() > 0
        ensures r is Ok == (row < 1048576 && col < 16384 && s@.len() <= 32767), r is Ok ==> final(self).grid() == old(self).grid().insert((row, col), Cell { what: What::Text(s@), look: plain(row, col) }), r is Err ==> final(self).grid() == old(self).grid(), final(self).ahead() == old(self).ahead(), final(self).tables() == old(self).tables() { Ok(()) }
    #[verifier::external_body] pub fn write_formula_with_format(&mut self, row: u32, col: u16, formula: &Formula, f: &Format) -> (r: Result<(), XlsxError>) requires old(self).ahead()
        ensures r is Ok == (row < 1048576 && col < 16384), r is Ok ==> final(self).grid() == old(self).grid().insert((row, col), Cell { what: What::Calc(*formula), look: f.look as int }), r is Err ==> final(self).grid() == old(self).grid(), final(self).ahead() == old(self).ahead(), final(self).tables() == old(self).tables() { Ok(()) }
    #[verifier::external_body] pub fn set_writing_ahead(&mut self, enable: bool) ensures final(self).ahead() == enable, final(self).grid() == old(self).grid(), final(self).tables() == old(self).tables() { }
    #[verifier::external_body] pub fn format_dxf_index(&mut self, f: &Format) -> (r: u32) ensures final(self).ahead() == old(self).ahead(), final(self).grid() == old(self).grid(), final(self).tables() == old(self).tables() { 0 }
    #[verifier::external_body] pub fn format_xf_index(&mut self, f: &Format) -> (r: u32) ensures look_of(r) == f.look, final(self).ahead() == old(self).ahead(), final(self).grid() == old(self).grid(), final(self).tables() == old(self).tables() { 0 }
    /// changes the format of a cell that is in memory
    #[verifier::external_body] pub fn update_cell_format(&mut self, row: u32, col: u16, i: u32) ensures final(self).ahead() == old(self).ahead(), final(self).tables() == old(self).tables(),
        final(self).grid() == old(self).grid() || (old(self).grid().dom().contains((row, col)) && final(self).grid() == old(self).grid().insert((row, col), Cell { what: old(self).grid()[(row, col)].what, look: look_of(i) })) { }
    #[verifier::external_body] pub fn check_dimensions_only(&self, row: u32, col: u16) -> (r: bool) ensures r == (row < 1048576 && col < 16384) { true }
    /// names are never empty (unit c10)
    #[verifier::external_body] pub fn vp_columns(&self, t: &mut Table) -> (r: Result<(), XlsxError>) requires old(t).cell_range.first_col <= old(t).cell_range.last_col
        ensures r is Ok ==> final(t).columns@.len() == old(t).cell_range.last_col - old(t).cell_range.first_col + 1 && *final(t) == (Table { columns: final(t).columns, ..*old(t) }) && forall|i: int| 0 <= i < final(t).columns@.len() ==> (#[trigger] final(t).columns@[i]).name@.len() > 0 { Ok(()) }
    /// the overlap checks (unit c09)
    #[verifier::external_body] pub fn vp_clear(&self, t: &Table) -> (r: Result<(), XlsxError>) { Ok(()) }
    /// the registers (unit c09)
    #[verifier::external_body] pub fn vp_keep(&mut self, t: Table) ensures final(self).grid() == old(self).grid(), final(self).ahead() == old(self).ahead(), final(self).tables() == old(self).tables().push(t) { }
}
impl Table { #[verifier::external_body] pub fn vp_clone(&self) -> (r: Table) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vp_string(s: &str) -> String { s.to_string() }
#[verifier::external_body] pub fn vp_default() -> (r: Format) ensures r.look == 0 { unimplemented!() }
#[verifier::external_body] pub fn vp_copy(f: &Format) -> (r: Format) ensures r == *f { unimplemented!() }
#[verifier::external_body] pub fn vp_none(a: &String) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
#[verifier::external_body] pub fn vp_count(a: &String) -> (r: usize) ensures r == a@.len() { a.chars().count() }
#[verifier::external_body] proof fn total_frame(a: TableColumn, b: TableColumn) requires a.name == b.name, a.total_function == b.total_function ensures total_of(a) == total_of(b) { }
impl TableColumn { #[verifier::external_body] pub fn total_function(&self) -> (r: Formula) ensures r == total_of(*self) { unimplemented!() } }
impl Table {
//@fn src/table.rs first_data_row impl="impl Table" ret=r
| requires self.cell_range.first_row < 1048576,
| ensures r == data_first(*self)
//@end
//@fn src/table.rs last_data_row impl="impl Table" ret=r
| requires self.show_total_row ==> self.cell_range.last_row > 0,
| ensures r == data_last(*self)
//@end
}
impl CellRange {
//@fn src/worksheet.rs new impl="impl CellRange" ret=r
| ensures r == (CellRange { first_row, first_col, last_row, last_col })
//@end
}
// ---------------------------------------------------------------- verified code
impl Worksheet {
//@fn src/worksheet.rs add_table impl="impl Worksheet" ret=ret attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| requires !old(self).ahead()
| ensures match ret {
|     Ok(()) => final(self).tables().len() == old(self).tables().len() + 1 && !final(self).ahead() && {
|         let t = final(self).tables().last();
|         t.cell_range == (CellRange { first_row, first_col, last_row, last_col }) && t.show_header_row == table.show_header_row && t.show_total_row == table.show_total_row && t.is_serde_table == table.is_serde_table
|         && t.columns@.len() == last_col - first_col + 1
|         && (forall|j: int| 0 <= j < t.columns@.len() ==> column_done(old(self).grid(), final(self).grid(), t, j, #[trigger] t.columns@[j]))
|         && outside_same(old(self).grid(), final(self).grid(), t.cell_range, t.columns@.len() as int) },
|     // a table that is refused changes no cell
|     Err(_) => final(self).grid() == old(self).grid() && final(self).ahead() == old(self).ahead() && final(self).tables() == old(self).tables(),
|   },
//@rewrite sig:Result<&mut Worksheet, XlsxError> => Result<(), XlsxError>
//@rewrite let mut table = table\.clone\(\) => let mut vp_t = table.vp_clone()
//@rewrite (?<![_.&\w])table(?=\.(?:cell_range|initialize_columns|first_data_row|last_data_row|columns|is_serde_table)) => vp_t
//@rewrite &table\.columns => &vp_t.columns
//@rewrite let default_headers =[\s\S]*?; =>
//@rewrite vp_t\.initialize_columns\(&default_headers\)\?; => self.vp_columns(&mut vp_t)?;
//@rewrite "Table must have at least one row"\.to_string\(\) => vp_string("Table must have at least one row")
//@rewrite u32::from\((table\.show_header_row|table\.show_total_row)\) => (if \1 { 1u32 } else { 0u32 })
//@rewrite for row in first_row\.\.=last_row \{\s*for col in first_col\.\.=last_col \{\s*let previous_cell_range[\s\S]*?(?=let first_data_row) => self.vp_clear(&vp_t)?; let ghost vp_t0 = vp_t; let ghost vp_g0 = self.grid();
//@rewrite let new_index = self\.table_ranges[\s\S]*?self\.tables\.push\(table\); => self.vp_keep(vp_t);
//@rewrite Ok\(self\) => Ok(())
//@rewrite for column in &vp_t\.columns \{ => for column in vp_t.columns.iter() {
//@rewrite (column\.\w+)\.chars\(\)\.count\(\) => vp_count(&\1)
//@rewrite for \(offset, column\) in vp_t\.columns\.iter_mut\(\)\.enumerate\(\) \{ => let vp_n = vp_t.columns.len(); for offset in 0..vp_n { let column = &mut vp_t.columns[offset];
//@rewrite column\.total_label\.is_empty\(\) => vp_none(&column.total_label)
//@rewrite column\.total_function != TableFunction::None => !matches!(column.total_function, TableFunction::None)
//@rewrite Format::default\(\) => vp_default()
//@rewrite format\.clone\(\) => vp_copy(format)
//@rewrite \(last_row, col, formula, => (last_row, col, &formula,
//@rewrite for row in first_data_row\.\.=last_data_row \{ => for row in first_data_row..last_data_row + 1 {
//@rewrite if let Some\(format\) = column\.format\.as_mut\(\) \{ => if let Some(format) = &mut column.format {
//@loop 1 iter=it
| invariant it.seq().len() == vp_t.columns@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vp_t.columns@[i],
|   forall|i: int| 0 <= i < it.index@ ==> short(vp_t, #[trigger] vp_t.columns@[i]),
//@loop 2
| invariant vp_n == vp_t0.columns@.len(), vp_t.columns@.len() == vp_n, vp_t == (Table { columns: vp_t.columns, ..vp_t0 }), !self.ahead(), self.tables() == old(self).tables(),
|   forall|j: int| 0 <= j < offset ==> column_done(vp_g0, self.grid(), vp_t0, j, #[trigger] vp_t.columns@[j]),
|   forall|j: int| offset <= j < vp_n ==> #[trigger] vp_t.columns@[j] == vp_t0.columns@[j],
|   outside_same(vp_g0, self.grid(), vp_t0.cell_range, offset as int),
//@at loop 2 start
| let ghost vp_g1 = self.grid(); let ghost vp_c = vp_t.columns@[offset as int]; let ghost vp_col = first_col + offset;
| proof { assert(short(vp_t0, vp_t0.columns@[offset as int])); assert(vp_t0.columns@[offset as int].name@.len() > 0); }
//@before /if let Some\(formula\) = &column\.formula/
| let ghost vp_g2 = self.grid();
| proof { assert(other_same(vp_g1, vp_g2, vp_t0.cell_range, vp_col)); assert(ends_done(vp_g1, vp_g2, vp_t0, vp_c, vp_col)); assert(data_same(vp_g1, vp_g2, vp_t0, vp_col)); }
//@loop 3
| invariant self.ahead(), self.tables() == old(self).tables(), data_done(vp_g2, self.grid(), vp_t0, vp_c, vp_col, row as int), first_data_row == data_first(vp_t0), last_data_row == data_last(vp_t0), vp_c.formula == Some(*formula), col == vp_col, look(vp_c) == col_format.look,
//@before /if let Some\(format\) = &mut column\.format/
| let ghost vp_g3 = self.grid();
| proof { assert(data_done(vp_g2, vp_g3, vp_t0, vp_c, vp_col, last_data_row + 1)); assert(column.format == vp_c.format); }
//@loop 4
| invariant self.ahead(), self.tables() == old(self).tables(), only_touched(vp_g3, self.grid(), vp_col, data_first(vp_t0), row - 1, look(vp_c)), look_of(format_index) == look(vp_c), first_data_row == data_first(vp_t0), last_data_row == data_last(vp_t0), col == vp_col,
//@at loop 4 start
| let ghost vp_g4 = self.grid();
//@at loop 4 end
| proof { touch(vp_g3, vp_g4, self.grid(), row, col, data_first(vp_t0), row - 1, row as int, look(vp_c)); }
//@at after-loop 4
| let ghost vp_g4 = self.grid();
//@after /self\.update_cell_format\(last_row, col, format_index\);/
| proof { touch(vp_g3, vp_g4, self.grid(), last_row, col, data_first(vp_t0), last_data_row as int, last_row as int, look(vp_c)); }
//@at loop 2 end
| proof {
|   let vp_d = vp_t.columns@[offset as int];
|   total_frame(vp_c, vp_d);
|   assert(same_column(vp_c, vp_d));
|   ahead_same(vp_g0, vp_g1, vp_t0, offset as int);
|   finish(vp_g0, vp_g1, vp_g2, vp_g3, self.grid(), vp_t0, offset as int, vp_c, vp_d);
|   others_keep(vp_g0, vp_g1, vp_g2, vp_g3, self.grid(), vp_t0, offset as int, vp_c, look(vp_c));
| }
//@at body-start
| broadcast use cell_insert;
//@before /self\.vp_keep\(vp_t\);/
| proof { table_frame(vp_g0, self.grid(), vp_t0, vp_t); }
//@at before-loop 2
| proof { start(vp_g0, vp_t0); }
//@end
}
}
fn main() {}
