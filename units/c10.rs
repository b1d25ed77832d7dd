// C10: tables.  Extracted from /repo/src/{table,worksheet,workbook}.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/table.rs enum TableFunction derive=
//@item src/table.rs struct TableColumn derive=
//@item src/table.rs struct Table keep=writer,columns,index,name,cell_range,show_header_row,show_total_row,show_autofilter,is_serde_table derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/worksheet.rs struct Worksheet keep=tables,table_relationships,global_dxf_indices derive=
//@item src/workbook.rs struct Workbook keep=worksheets derive=
pub struct Format { pub dxf_index: u32 }
pub struct Formula { pub formula_string: Box<str>, pub id: u64 }
pub enum XlsxError { TableError(String), TableNameReused(String), Other }
// ---------------------------------------------------------------- specification
/// trusted: std's lower case, and the doubling of literal escapes (unit c03)
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn a1(g: CellRange) -> Seq<char>;
pub open spec fn width(t: Table) -> int { t.cell_range.last_col - t.cell_range.first_col + 1 }
/// the settings that the user gave for column i, if any
pub open spec fn given(t: Table, i: int) -> TableColumn { if i < t.columns@.len() { t.columns@[i] } else { blank() } }
pub uninterp spec fn blank() -> TableColumn;
pub open spec fn named(c: TableColumn, d: Seq<char>) -> Seq<char> { if c.name@.len() == 0 { d } else { c.name@ } }
pub open spec fn same_but_name(a: TableColumn, b: TableColumn) -> bool { a.total_function == b.total_function && a.total_label == b.total_label && a.formula == b.formula && a.format == b.format && a.header_format == b.header_format && a.dxf_index == b.dxf_index }
pub open spec fn distinct(v: Seq<TableColumn>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> lower(#[trigger] v[i].name@) != lower(#[trigger] v[j].name@) }
pub open spec fn shown(t: Table) -> Seq<char> { if t.name@.len() == 0 { "Table"@ + dec(t.index as nat) } else { t.name@ } }
pub open spec fn frame(a: Table, b: Table) -> bool { a.writer == b.writer && a.index == b.index && a.name == b.name && a.cell_range == b.cell_range && a.show_header_row == b.show_header_row && a.show_total_row == b.show_total_row && a.show_autofilter == b.show_autofilter && a.is_serde_table == b.is_serde_table }
pub open spec fn total_text(t: TableFunction) -> Seq<char> {
    match t { TableFunction::Max => "max"@, TableFunction::Min => "min"@, TableFunction::Sum => "sum"@, TableFunction::Var => "var"@, TableFunction::None => "None"@, TableFunction::Count => "count"@,
        TableFunction::StdDev => "stdDev"@, TableFunction::Average => "average"@, TableFunction::CountNumbers => "countNums"@, TableFunction::Custom(_) => "custom"@ }
}
pub open spec fn column_attrs(i: nat, c: TableColumn) -> Attrs {
    let a = seq![("id"@, dec(i)), ("name"@, esc(c.name@))];
    let a = if c.total_label@.len() != 0 { a.push(("totalsRowLabel"@, esc(c.total_label@))) } else { add(a, !(c.total_function is None), "totalsRowFunction"@, total_text(c.total_function)) };
    add(a, c.format is Some, "dataDxfId"@, dec(c.dxf_index as nat))
}
pub open spec fn column_tags(i: nat, c: TableColumn) -> Seq<Tag> {
    if c.formula is Some || c.total_function is Custom {
        let s = seq![Tag::Open("tableColumn"@, column_attrs(i, c))];
        let s = match c.formula { Some(f) => s.push(Tag::Data("calculatedColumnFormula"@, seq![], f.formula_string@)), None => s };
        let s = match c.total_function { TableFunction::Custom(f) => s.push(Tag::Data("totalsRowFormula"@, seq![], f.formula_string@)), _ => s };
        s.push(Tag::Close("tableColumn"@))
    } else { seq![Tag::Empty("tableColumn"@, column_attrs(i, c))] }
}
/// one record per column with the ids 1..n, in order
pub open spec fn all_columns(v: Seq<TableColumn>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { all_columns(v.drop_last()) + column_tags(v.len(), v.last()) } }
pub open spec fn table_attrs(t: Table) -> Attrs {
    let a = seq![("xmlns"@, "http://schemas.openxmlformats.org/spreadsheetml/2006/main"@), ("id"@, dec(t.index as nat)), ("name"@, shown(t)), ("displayName"@, shown(t)), ("ref"@, a1(t.cell_range))];
    let a = add(a, !t.show_header_row, "headerRowCount"@, "0"@);
    if t.show_total_row { a.push(("totalsRowCount"@, "1"@)) } else { a.push(("totalsRowShown"@, "0"@)) }
}
/// the filtered range leaves out the total row
pub open spec fn filter_range(t: Table) -> CellRange { CellRange { last_row: if t.show_total_row { (t.cell_range.last_row - 1) as u32 } else { t.cell_range.last_row }, ..t.cell_range } }
/// tables are numbered from id in order
pub open spec fn numbered(v: Seq<Table>, id: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).index == id + i }
pub open spec fn tables_before(v: Seq<Worksheet>, n: int) -> int decreases n { if n <= 0 { 0 } else { tables_before(v, n - 1) + v[n - 1].tables@.len() } }
/// only the format number changes: to the workbook's number of the column's format
pub open spec fn recoloured(a: TableColumn, b: TableColumn, g: Seq<u32>) -> bool { b == (TableColumn { dxf_index: match a.format { Some(f) => g[f.dxf_index as int], None => a.dxf_index }, ..a }) }
pub open spec fn like(a: Table, b: Table, g: Seq<u32>) -> bool { b == (Table { index: b.index, columns: b.columns, ..a }) && a.columns@.len() == b.columns@.len() && forall|i: int| 0 <= i < a.columns@.len() ==> recoloured(a.columns@[i], #[trigger] b.columns@[i], g) }
/// the names of all the tables of the first n sheets, ignoring case, in order
pub open spec fn sheet_names(v: Seq<Table>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { seq![] } else { sheet_names(v, n - 1).push(lower(shown(v[n - 1]))) } }
pub open spec fn book_names(v: Seq<Worksheet>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { seq![] } else { book_names(v, n - 1) + sheet_names(v[n - 1].tables@, v[n - 1].tables@.len() as int) } }
pub open spec fn no_dup(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
pub open spec fn formats_known(w: Worksheet) -> bool { forall|i: int, j: int| 0 <= i < w.tables@.len() && 0 <= j < w.tables@[i].columns@.len() && (#[trigger] w.tables@[i].columns@[j]).format is Some ==> w.tables@[i].columns@[j].format->0.dxf_index < w.global_dxf_indices@.len() }
proof fn fewer(v: Seq<Worksheet>, n: int, m: int) requires 0 <= n <= m <= v.len() ensures 0 <= tables_before(v, n) <= tables_before(v, m) decreases m { if n < m { fewer(v, n, m - 1); } else if n > 0 { fewer(v, n - 1, n - 1); } }
proof fn prefix(v: Seq<Worksheet>, n: int, m: int) requires 0 <= n <= m ensures book_names(v, n).len() <= book_names(v, m).len(), book_names(v, n) =~= book_names(v, m).take(book_names(v, n).len() as int) decreases m { if n < m { prefix(v, n, m - 1); } }
proof fn prefix1(v: Seq<Table>, n: int, m: int) requires 0 <= n <= m ensures sheet_names(v, n).len() <= sheet_names(v, m).len(), sheet_names(v, n) =~= sheet_names(v, m).take(sheet_names(v, n).len() as int) decreases m { if n < m { prefix1(v, n, m - 1); } }
// ---------------------------------------------------------------- trusted
#[verifier::external_body] pub struct VpSet { s: std::collections::HashSet<String> }
impl VpSet {
    pub uninterp spec fn all(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: VpSet) ensures r.all() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, s: &String) -> (r: bool) ensures r == self.all().contains(s@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, s: String) ensures final(self).all() == old(self).all().insert(s@) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_lower(s: &String) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body] pub fn vp_escape(s: &String) -> (r: String) ensures r@ == esc(s@) { s.to_string() }
#[verifier::external_body] pub fn vp_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
/// trusted: Vec::resize_with
#[verifier::external_body] pub fn vp_resize(v: &mut Vec<TableColumn>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { blank() }) { }
#[verifier::external_body] pub fn vp_columns(v: &Vec<TableColumn>) -> (r: Vec<TableColumn>) ensures r@ == v@ { unimplemented!() }
impl CellRange {
    #[verifier::external_body] pub fn to_range_string(&self) -> (r: String) ensures r@ == a1(*self) { String::new() }
    #[verifier::external_body] pub fn to_error_string(&self) -> String { String::new() }
    #[verifier::external_body] pub fn clone(&self) -> (r: CellRange) ensures r == *self { unimplemented!() }
}
impl TableFunction {
//@fn src/table.rs fmt impl="impl fmt::Display for TableFunction" ret=r
| ensures final(f).out() == old(f).out() + total_text(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => TableFunction::
//@end
}
impl VpText for TableFunction {
    open spec fn text(&self) -> Seq<char> { total_text(*self) }
    fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + total_text(*self) =~= total_text(*self)); f.take() }
}
impl Table {
//@fn src/table.rs initialize_columns impl="impl Table" ret=ret
| requires old(self).cell_range.first_col <= old(self).cell_range.last_col < 16384, default_headers@.len() >= width(*old(self)),
| ensures frame(*old(self), *final(self)),
|   ret is Ok ==> final(self).columns@.len() == width(*old(self)) && distinct(final(self).columns@)
|     && (forall|i: int| 0 <= i < width(*old(self)) ==> (#[trigger] final(self).columns@[i]).name@ == named(given(*old(self), i), default_headers@[i]@) && same_but_name(final(self).columns@[i], given(*old(self), i))),
|   // refused only when two of the names are equal ignoring case
|   ret is Err ==> exists|i: int, j: int| 0 <= i < j < width(*old(self)) && lower(#[trigger] named(given(*old(self), i), default_headers@[i]@)) == lower(#[trigger] named(given(*old(self), j), default_headers@[j]@)),
//@rewrite HashSet::new\(\) => VpSet::new()
//@rewrite self\.columns\s*\.resize_with\(num_columns as usize, TableColumn::default\) => vp_resize(&mut self.columns, num_columns as usize)
//@rewrite for \(index, column\) in self\.columns\.iter_mut\(\)\.enumerate\(\) \{ => for index in 0..num_columns as usize { let vp_rg = self.cell_range.clone(); let column = &mut self.columns[index];
//@rewrite column\.name\.is_empty\(\) => vp_is_empty(&column.name)
//@rewrite column\.name\.clone_from\(&default_headers\[index\]\) => column.name = vp_copy(&default_headers[index])
//@rewrite column\.name\.to_lowercase\(\)(?:\.clone\(\))? => vp_lower(&column.name)
//@rewrite self\.cell_range\.to_error_string => vp_rg.to_error_string
//@before /self\.columns\s*\.resize_with|vp_resize/
| let ghost mut vp_names: Seq<Seq<char>> = seq![];
//@before /if seen_column_names/
| let ghost vp_name = column.name@;
| proof {
|   assert(vp_name == named(given(*old(self), index as int), default_headers@[index as int]@));
|   if vp_names.contains(lower(vp_name)) {
|     let i = choose|i: int| 0 <= i < vp_names.len() && vp_names[i] == lower(vp_name);
|     assert(lower(named(given(*old(self), i), default_headers@[i]@)) == lower(named(given(*old(self), index as int), default_headers@[index as int]@)));
|   }
| }
//@at loop 1 end
| proof {
|   let n = vp_names;
|   assert(!n.contains(lower(vp_name)));
|   assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != lower(vp_name) by { assert(n.contains(n[i])); }
|   vp_names = vp_names.push(lower(vp_name));
|   assert forall|s: Seq<char>| #[trigger] seen_column_names.all().contains(s) <==> vp_names.contains(s) by {
|     if n.contains(s) { let i = choose|i: int| 0 <= i < n.len() && n[i] == s; assert(vp_names[i] == s); }
|     if s == lower(vp_name) { assert(vp_names[index as int] == s); }
|     if vp_names.contains(s) { let i = choose|i: int| 0 <= i < vp_names.len() && vp_names[i] == s; if i < n.len() { assert(n[i] == s); } }
|   }
| }
//@loop 1
| invariant frame(*old(self), *self), self.columns@.len() == width(*old(self)), num_columns == width(*old(self)), default_headers@.len() >= num_columns,
|   forall|i: int| 0 <= i < self.columns@.len() ==> same_but_name(#[trigger] self.columns@[i], given(*old(self), i)),
|   forall|i: int| 0 <= i < index ==> (#[trigger] self.columns@[i]).name@ == named(given(*old(self), i), default_headers@[i]@),
|   forall|i: int| index <= i < self.columns@.len() ==> #[trigger] self.columns@[i] == given(*old(self), i),
|   vp_names.len() == index, forall|i: int| 0 <= i < index ==> #[trigger] vp_names[i] == lower(self.columns@[i].name@) && vp_names[i] == lower(named(given(*old(self), i), default_headers@[i]@)),
|   forall|s: Seq<char>| #[trigger] seen_column_names.all().contains(s) <==> vp_names.contains(s),
|   forall|i: int, j: int| 0 <= i < j < index ==> #[trigger] vp_names[i] != #[trigger] vp_names[j],
//@at after-loop 1
| proof { assert forall|i: int, j: int| 0 <= i < j < self.columns@.len() implies lower(#[trigger] self.columns@[i].name@) != lower(#[trigger] self.columns@[j].name@) by { assert(vp_names[i] != vp_names[j]); } }
//@end
//@fn src/table.rs display_name impl="impl Table" ret=r
| ensures r@ =~= shown(*self)
//@rewrite self\.name\.is_empty\(\) => vp_is_empty(&self.name)
//@rewrite self\.name\.clone\(\) => vp_copy(&self.name)
//@end
//@fn src/table.rs first_data_row impl="impl Table" ret=r
| requires self.cell_range.first_row < 1048576,
| ensures r == self.cell_range.first_row + (if self.show_header_row { 1int } else { 0 })
//@end
//@fn src/table.rs last_data_row impl="impl Table" ret=r
| requires self.show_total_row ==> self.cell_range.last_row > 0,
| ensures r == self.cell_range.last_row - (if self.show_total_row { 1int } else { 0 })
//@end
//@fn src/table.rs write_table impl="impl Table"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Open("table"@, table_attrs(*old(self)))), *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite name\.clone\(\) => vp_copy(&name)
//@at body-start
| broadcast use av_push;
//@before /if !self\.show_header_row/
| proof { assert(av(attributes@) =~= seq![("xmlns"@, "http://schemas.openxmlformats.org/spreadsheetml/2006/main"@), ("id"@, dec(self.index as nat)), ("name"@, shown(*self)), ("displayName"@, shown(*self)), ("ref"@, a1(self.cell_range))]); }
//@end
//@fn src/table.rs write_auto_filter impl="impl Table"
| requires old(self).show_total_row ==> old(self).cell_range.last_row > 0,
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("autoFilter"@, seq![("ref"@, a1(filter_range(*old(self))))])), *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("ref"@, a1(filter_range(*old(self))))]); }
//@end
//@fn src/table.rs write_calculated_column_formula impl="impl Table"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Data("calculatedColumnFormula"@, seq![], formula@)), *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@end
//@fn src/table.rs write_totals_row_formula impl="impl Table"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Data("totalsRowFormula"@, seq![], formula@)), *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@end
//@fn src/table.rs write_column impl="impl Table"
| ensures final(self).writer.log() =~= old(self).writer.log() + column_tags(index as nat, *column), *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@rewrite escape_xml_escapes\(&([\w.]+)\)\.to_string\(\) => vp_escape(&\1)
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite column\.total_label\.is_empty\(\) => vp_is_empty(&column.total_label)
//@rewrite column\.total_function != TableFunction::None => !matches!(column.total_function, TableFunction::None)
//@at body-start
| broadcast use av_push;
//@before /if !vp_is_empty\(&column\.total_label\)/
| proof { assert(av(attributes@) =~= seq![("id"@, dec(index as nat)), ("name"@, esc(column.name@))]); }
//@before /if column\.formula\.is_some/
| proof { assert(av(attributes@) == column_attrs(index as nat, *column)); }
//@end
//@fn src/table.rs write_columns impl="impl Table"
| ensures final(self).writer.log() =~= old(self).writer.log().push(Tag::Open("tableColumns"@, seq![("count"@, dec(old(self).columns@.len()))])) + all_columns(old(self).columns@) + seq![Tag::Close("tableColumns"@)], *final(self) == (Table { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite for \(index, column\) in self\.columns\.clone\(\)\.iter\(\)\.enumerate\(\) \{ => let vp_all = vp_columns(&self.columns); for index in 0..vp_all.len() { let column = &vp_all[index];
//@before /xml_start_tag/
| proof { assert(av(attributes@) =~= seq![("count"@, dec(self.columns@.len()))]); }
//@loop 1
| invariant vp_all@ == old(self).columns@, *self == (Table { writer: self.writer, ..*old(self) }),
|   self.writer.log() =~= old(self).writer.log().push(Tag::Open("tableColumns"@, seq![("count"@, dec(old(self).columns@.len()))])) + all_columns(vp_all@.take(index as int)),
//@at loop 1 start
| proof { assert(vp_all@.take(index + 1).drop_last() =~= vp_all@.take(index as int)); }
//@at after-loop 1
| proof { assert(vp_all@.take(vp_all@.len() as int) =~= vp_all@); }
//@end
}
/// one relationship per table, to the part with its number
pub open spec fn linked(a: Seq<(String, String, String)>, b: Seq<(String, String, String)>, id: int, n: int) -> bool {
    b.len() == a.len() + n && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).0@ == "table"@ && b[i].1@ =~= "../tables/table"@ + dec((id + i - a.len()) as nat) + ".xml"@ && b[i].2@.len() == 0
}
impl Worksheet {
//@fn src/worksheet.rs prepare_worksheet_tables impl="impl Worksheet" ret=r
| requires table_id + old(self).tables@.len() < 0xffff_ffff, forall|i: int, j: int| 0 <= i < old(self).tables@.len() && 0 <= j < old(self).tables@[i].columns@.len() && (#[trigger] old(self).tables@[i].columns@[j]).format is Some ==> old(self).tables@[i].columns@[j].format->0.dxf_index < old(self).global_dxf_indices@.len(),
| ensures r == table_id + old(self).tables@.len(), final(self).tables@.len() == old(self).tables@.len(), numbered(final(self).tables@, table_id as int),
|   forall|i: int| 0 <= i < old(self).tables@.len() ==> like(#[trigger] old(self).tables@[i], final(self).tables@[i], old(self).global_dxf_indices@),
|   linked(old(self).table_relationships@, final(self).table_relationships@, table_id as int, old(self).tables@.len() as int),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite for table in &mut self\.tables \{ => let vp_n = self.tables.len(); for vp_i in 0..vp_n { let table = &mut self.tables[vp_i];
//@rewrite for column in &mut table\.columns \{ => let vp_m = table.columns.len(); for vp_j in 0..vp_m { let column = &mut table.columns[vp_j];
//@at body-start
| let ghost id0 = table_id;
//@loop 1
| invariant vp_n == old(self).tables@.len(), vp_n == self.tables@.len(), table_id == id0 + vp_i, id0 + vp_n < 0xffff_ffff, self.global_dxf_indices == old(self).global_dxf_indices,
|   forall|i: int, j: int| 0 <= i < old(self).tables@.len() && 0 <= j < old(self).tables@[i].columns@.len() && (#[trigger] old(self).tables@[i].columns@[j]).format is Some ==> old(self).tables@[i].columns@[j].format->0.dxf_index < old(self).global_dxf_indices@.len(),
|   forall|i: int| 0 <= i < vp_i ==> (#[trigger] self.tables@[i]).index == id0 + i && like(old(self).tables@[i], self.tables@[i], self.global_dxf_indices@),
|   forall|i: int| vp_i <= i < vp_n ==> #[trigger] self.tables@[i] == old(self).tables@[i],
|   linked(old(self).table_relationships@, self.table_relationships@, id0 as int, vp_i as int),
//@loop 2
| invariant vp_m == table.columns@.len(), self.global_dxf_indices == old(self).global_dxf_indices, 0 <= vp_i < old(self).tables@.len(), vp_m == old(self).tables@[vp_i as int].columns@.len(),
|   forall|i: int, j: int| 0 <= i < old(self).tables@.len() && 0 <= j < old(self).tables@[i].columns@.len() && (#[trigger] old(self).tables@[i].columns@[j]).format is Some ==> old(self).tables@[i].columns@[j].format->0.dxf_index < old(self).global_dxf_indices@.len(),
|   *table == (Table { index: table_id, columns: table.columns, ..old(self).tables@[vp_i as int] }),
|   forall|j: int| 0 <= j < vp_j ==> recoloured(old(self).tables@[vp_i as int].columns@[j], #[trigger] table.columns@[j], self.global_dxf_indices@),
|   forall|j: int| vp_j <= j < vp_m ==> #[trigger] table.columns@[j] == old(self).tables@[vp_i as int].columns@[j],
//@end
}
impl Workbook {
//@fn src/workbook.rs prepare_tables impl="impl Workbook" ret=ret
| requires tables_before(old(self).worksheets@, old(self).worksheets@.len() as int) < 0x7fff_ffff, forall|i: int| 0 <= i < old(self).worksheets@.len() ==> formats_known(#[trigger] old(self).worksheets@[i]),
| ensures final(self).worksheets@.len() == old(self).worksheets@.len(),
|   // the ids are 1, 2, ... over the whole workbook
|   forall|i: int| 0 <= i < old(self).worksheets@.len() ==> numbered((#[trigger] final(self).worksheets@[i]).tables@, 1 + tables_before(old(self).worksheets@, i)) && final(self).worksheets@[i].tables@.len() == old(self).worksheets@[i].tables@.len(),
|   // the names are unique, or the save is refused
|   (ret is Ok) == no_dup(book_names(final(self).worksheets@, final(self).worksheets@.len() as int)),
//@rewrite HashSet::new\(\) => VpSet::new()
//@rewrite for worksheet in &mut self\.worksheets \{ => let vp_n = self.worksheets.len(); for vp_i in 0..vp_n { let worksheet = &mut self.worksheets[vp_i];
//@rewrite for worksheet in &self\.worksheets \{ => for vp_k in 0..vp_n { let worksheet = &self.worksheets[vp_k];
//@rewrite for table in &worksheet\.tables \{ => let vp_m = worksheet.tables.len(); for vp_j in 0..vp_m { let table = &worksheet.tables[vp_j];
//@rewrite table_name\.to_lowercase\(\) => vp_lower(&table_name)
//@loop 1
| invariant vp_n == self.worksheets@.len(), vp_n == old(self).worksheets@.len(), tables_before(old(self).worksheets@, old(self).worksheets@.len() as int) < 0x7fff_ffff,
|   forall|i: int| 0 <= i < old(self).worksheets@.len() ==> formats_known(#[trigger] old(self).worksheets@[i]),
|   table_id == 1 + tables_before(old(self).worksheets@, vp_i as int), seen_table_names.all() == Set::<Seq<char>>::empty(),
|   forall|i: int| vp_i <= i < vp_n ==> #[trigger] self.worksheets@[i] == old(self).worksheets@[i],
|   forall|i: int| 0 <= i < vp_i ==> numbered((#[trigger] self.worksheets@[i]).tables@, 1 + tables_before(old(self).worksheets@, i)) && self.worksheets@[i].tables@.len() == old(self).worksheets@[i].tables@.len(),
//@at loop 1 start
| proof { fewer(old(self).worksheets@, vp_i + 1, vp_n as int); assert(old(self).worksheets@[vp_i as int] == self.worksheets@[vp_i as int]); }
//@at before-loop 2
| let ghost v = self.worksheets@;
| let ghost mut names: Seq<Seq<char>> = seq![];
//@loop 2
| invariant vp_n == self.worksheets@.len(), v == self.worksheets@, names == book_names(v, vp_k as int), no_dup(names), forall|s: Seq<char>| #[trigger] seen_table_names.all().contains(s) <==> names.contains(s),
|   forall|i: int| 0 <= i < old(self).worksheets@.len() ==> numbered((#[trigger] self.worksheets@[i]).tables@, 1 + tables_before(old(self).worksheets@, i)) && self.worksheets@[i].tables@.len() == old(self).worksheets@[i].tables@.len(), vp_n == old(self).worksheets@.len(),
//@loop 3
| invariant vp_n == self.worksheets@.len(), v == self.worksheets@, *worksheet == v[vp_k as int], vp_m == worksheet.tables@.len(), vp_k < vp_n,
|   names == book_names(v, vp_k as int) + sheet_names(worksheet.tables@, vp_j as int), no_dup(names), forall|s: Seq<char>| #[trigger] seen_table_names.all().contains(s) <==> names.contains(s),
|   forall|i: int| 0 <= i < old(self).worksheets@.len() ==> numbered((#[trigger] self.worksheets@[i]).tables@, 1 + tables_before(old(self).worksheets@, i)) && self.worksheets@[i].tables@.len() == old(self).worksheets@[i].tables@.len(), vp_n == old(self).worksheets@.len(),
//@before /if seen_table_names/
| let ghost n = names;
| let ghost name = lower(shown(*table));
| proof {
|   assert(n.push(name) =~= book_names(v, vp_k as int) + sheet_names(worksheet.tables@, vp_j + 1));
|   if n.contains(name) {
|     let all = book_names(v, vp_n as int);
|     prefix(v, vp_k + 1, vp_n as int); prefix1(worksheet.tables@, vp_j + 1, vp_m as int);
|     let i = choose|i: int| 0 <= i < n.len() && n[i] == name;
|     assert(book_names(v, vp_k + 1) == book_names(v, vp_k as int) + sheet_names(worksheet.tables@, vp_m as int));
|     assert(n.push(name) =~= book_names(v, vp_k + 1).take((n.len() + 1) as int));
|     assert(all[i] == book_names(v, vp_k + 1)[i]); assert(all[n.len() as int] == book_names(v, vp_k + 1)[n.len() as int]);
|     assert(n.push(name)[i] == book_names(v, vp_k + 1)[i]); assert(n.push(name)[n.len() as int] == book_names(v, vp_k + 1)[n.len() as int]);
|     assert(!no_dup(all));
|   }
|   assert forall|i: int| 0 <= i < n.len() && n[i] == name implies n.contains(name) by { }
| }
//@at loop 3 end
| proof {
|   assert(!n.contains(name));
|   names = n.push(name);
|   assert forall|s: Seq<char>| #[trigger] seen_table_names.all().contains(s) <==> names.contains(s) by {
|     if n.contains(s) { let i = choose|i: int| 0 <= i < n.len() && n[i] == s; assert(names[i] == s); }
|     if s == name { assert(names[n.len() as int] == s); }
|     if names.contains(s) { let i = choose|i: int| 0 <= i < names.len() && names[i] == s; if i < n.len() { assert(n[i] == s); } }
|   }
|   assert forall|i: int, j: int| 0 <= i < j < names.len() implies #[trigger] names[i] != #[trigger] names[j] by { assert(n.contains(n[i])); if j < n.len() { } }
| }
//@at loop 2 end
| proof { assert(names =~= book_names(v, vp_k + 1)); }
//@at before-loop 3
| proof { assert(names =~= names + sheet_names(worksheet.tables@, 0)); }
//@end
}
fn main() {}
}
