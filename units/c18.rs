// C18: the two ways of writing rows: all at the end, or each when the next one is begun.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::mem;
use std::cmp;
verus! {
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs COLUMN_LETTERS
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs struct RowOptions derive=
//@item src/worksheet.rs enum CellType derive= sub=Arc<str>=>String;Box<str>=>String
//@item src/worksheet.rs struct Worksheet keep=writer,file_writer,dimensions,data_table,write_ahead,changed_rows,notes,current_row,use_constant_memory,is_writing_ahead,global_embedded_image_indices derive= sub=Cursor<Vec<u8>>=>Writer;BufWriter<File>=>Writer;BTreeMap<RowNum,\sBTreeMap<ColNum,\sCellType>>=>Table;BTreeMap<RowNum,\sBTreeMap<ColNum,\sNote>>=>BTreeMap<RowNum,VpNotes>;is_writing_ahead:\sbool=>is_writing_ahead:bool,pub/**/styles:VpStyles
pub type Table = BTreeMap<RowNum, BTreeMap<ColNum, CellType>>;
pub struct Format { pub id: u64 }
#[verifier::external_body] pub struct VpNotes { }
#[verifier::external_body] pub struct VpSpan { }
#[verifier::external_body] pub struct VpSpans { }
impl VpSpans { #[verifier::external_body] pub fn find(&self, i: u32) -> Option<&VpSpan> { None } }
#[verifier::external_body] pub struct VpStyles { }
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn log(&self) -> Seq<Rec>; }

// ---------------------------------------------------------------- specification
pub type Cells = Map<u16, CellType>;
pub enum Val { Number(f64), Shared(u32), Inline(Seq<char>), Rich(Seq<char>), Formula(Seq<char>, Seq<char>), Array(Seq<char>, Seq<char>, bool, Seq<char>), Blank, Boolean(bool), Error(u32) }
/// what goes to the file: a row begins, with or without cells; a cell; the row ends
pub enum Rec { Row(u32, Option<RowOptions>, bool), Cell(u32, Seq<char>, Val, u32), End }
pub uninterp spec fn letters(c: u16) -> Seq<char>;
pub uninterp spec fn image_of(v: Seq<u32>, i: u32) -> u32;
/// the global index of the format of a cell: its own, else the row's, else the column's (unit c08: `chosen`)
pub uninterp spec fn xf_of(s: VpStyles, cell: u32, row: u32, col: u16) -> u32;
/// the cells of a row in ascending order of column
pub uninterp spec fn cells_of(m: Cells) -> Seq<(u16, CellType)>;
pub open spec fn ascending(s: Seq<(u16, CellType)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
pub open spec fn row_xf(o: Option<RowOptions>) -> u32 { match o { Some(o) => o.xf_index, None => 0 } }
pub open spec fn xf_cell(c: CellType) -> u32 {
    match c {
        CellType::ArrayFormula { xf_index, .. } => xf_index, CellType::Blank { xf_index } => xf_index, CellType::Boolean { xf_index, .. } => xf_index, CellType::Error { xf_index, .. } => xf_index,
        CellType::Formula { xf_index, .. } => xf_index, CellType::Number { xf_index, .. } => xf_index, CellType::DateTime { xf_index, .. } => xf_index, CellType::String { xf_index, .. } => xf_index,
        CellType::RichString { xf_index, .. } => xf_index, CellType::InlineString { xf_index, .. } => xf_index,
    }
}
/// the value written for a cell; a string without an entry in the shared table isn't written
pub open spec fn val_of(images: Seq<u32>, inline: bool, c: CellType) -> Option<Val> {
    match c {
        CellType::Number { number, .. } => Some(Val::Number(number)),
        CellType::DateTime { number, .. } => Some(Val::Number(number)),
        CellType::String { string_id, .. } => match string_id { Some(i) => Some(Val::Shared(i)), None => None },
        CellType::RichString { string, string_id, .. } => if inline { Some(Val::Rich(string@)) } else { match string_id { Some(i) => Some(Val::Shared(i)), None => None } },
        CellType::InlineString { string, .. } => Some(Val::Inline(string@)),
        CellType::Formula { formula, result, .. } => Some(Val::Formula(formula@, result@)),
        CellType::ArrayFormula { formula, result, is_dynamic, range, .. } => Some(Val::Array(formula@, result@, is_dynamic, range@)),
        CellType::Blank { .. } => Some(Val::Blank),
        CellType::Boolean { boolean, .. } => Some(Val::Boolean(boolean)),
        CellType::Error { value, .. } => Some(Val::Error(image_of(images, value))),
    }
}
/// inline strings only exist where rows are flushed, and there formats are global from the start
pub open spec fn xf_written(s: VpStyles, inline: bool, o: Option<RowOptions>, col: u16, c: CellType) -> u32 {
    if c is InlineString && !inline { xf_cell(c) } else { xf_of(s, xf_cell(c), row_xf(o), col) }
}
pub open spec fn one(w: Worksheet, inline: bool, row: u32, o: Option<RowOptions>, c: (u16, CellType)) -> Seq<Rec> {
    match val_of(w.global_embedded_image_indices@, inline, c.1) {
        Some(v) => seq![Rec::Cell((row + 1) as u32, letters(c.0), v, xf_written(w.styles, inline, o, c.0, c.1))],
        None => seq![],
    }
}
/// the first n cells of a row
pub open spec fn some_cells(w: Worksheet, inline: bool, row: u32, o: Option<RowOptions>, s: Seq<(u16, CellType)>, n: nat) -> Seq<Rec> decreases n {
    if n == 0 { seq![] } else { some_cells(w, inline, row, o, s, (n - 1) as nat) + one(w, inline, row, o, s[n - 1]) }
}
pub open spec fn get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
/// a row of the file: nothing, settings only, or settings and cells
pub open spec fn row_recs(w: Worksheet, inline: bool, row: u32, o: Option<RowOptions>, cells: Option<Cells>, noted: bool) -> Seq<Rec> {
    match cells {
        None => if o is Some || noted { seq![Rec::Row(row, o, false)] } else { seq![] },
        Some(m) => seq![Rec::Row(row, o, true)] + some_cells(w, inline, row, o, cells_of(m), cells_of(m).len()) + seq![Rec::End],
    }
}
pub open spec fn cells_at(t: Table, row: u32) -> Option<Cells> { if t@.dom().contains(row) { Some(t@[row]@) } else { None } }
/// ordinary mode: rows a, a + 1, .. b - 1
pub open spec fn all_rows(w: Worksheet, a: int, b: int) -> Seq<Rec> decreases b - a {
    if a >= b { seq![] } else { all_rows(w, a, b - 1) + row_recs(w, false, (b - 1) as u32, get(w.changed_rows@, (b - 1) as u32), cells_at(w.data_table, (b - 1) as u32), w.notes@.dom().contains((b - 1) as u32)) }
}
/// constant memory mode: the row being written, and those written ahead of it
pub open spec fn pending(w: Worksheet, row: u32) -> Option<Cells> { if row == w.current_row { cells_at(w.data_table, row) } else { cells_at(w.write_ahead, row) } }
pub open spec fn next_recs(w: Worksheet, row: u32) -> Seq<Rec> { row_recs(w, true, row, get(w.changed_rows@, row), pending(w, row), false) }
/// rows a, a + 1, .. b - 1 as they will be flushed
pub open spec fn rows_to(w: Worksheet, a: int, b: int) -> Seq<Rec> decreases b - a {
    if a >= b { seq![] } else { rows_to(w, a, b - 1) + next_recs(w, (b - 1) as u32) }
}
/// only the current row is in the data table, only later ones are written ahead
pub open spec fn ordered(w: Worksheet) -> bool {
    &&& forall|r: u32| #[trigger] w.data_table@.dom().contains(r) ==> r == w.current_row && r < ROW_MAX
    &&& forall|r: u32| #[trigger] w.write_ahead@.dom().contains(r) ==> w.current_row < r < ROW_MAX
    &&& forall|r: u32| #[trigger] w.changed_rows@.dom().contains(r) ==> r < ROW_MAX
    &&& w.current_row <= ROW_MAX
}
/// what comes after the current row is what it was, but for the log
pub open spec fn moved(a: Worksheet, b: Worksheet, next: int) -> bool {
    &&& b.current_row == next && b.changed_rows == a.changed_rows && b.notes == a.notes && b.styles == a.styles && b.global_embedded_image_indices == a.global_embedded_image_indices
    &&& b.use_constant_memory == a.use_constant_memory && b.is_writing_ahead == a.is_writing_ahead && b.dimensions == a.dimensions && b.writer == a.writer
    &&& forall|r: u32| r >= next ==> #[trigger] pending(b, r) == pending(a, r)
}

proof fn row_of_same(a: Worksheet, b: Worksheet, inline: bool, row: u32, o: Option<RowOptions>, cells: Option<Cells>, noted: bool)
    requires b.styles == a.styles, b.global_embedded_image_indices == a.global_embedded_image_indices
    ensures row_recs(a, inline, row, o, cells, noted) == row_recs(b, inline, row, o, cells, noted)
{
    if let Some(m) = cells { cells_of_same(a, b, inline, row, o, cells_of(m), cells_of(m).len()); }
}
proof fn cells_of_same(a: Worksheet, b: Worksheet, inline: bool, row: u32, o: Option<RowOptions>, s: Seq<(u16, CellType)>, n: nat)
    requires b.styles == a.styles, b.global_embedded_image_indices == a.global_embedded_image_indices
    ensures some_cells(a, inline, row, o, s, n) == some_cells(b, inline, row, o, s, n) decreases n
{ if n > 0 { cells_of_same(a, b, inline, row, o, s, (n - 1) as nat); } }
/// rows without data or settings leave nothing in the file
proof fn nothing(w: Worksheet, a: int, b: int)
    requires 0 <= a <= b <= 0xffff_ffff, forall|r: u32| a <= r < b ==> #[trigger] pending(w, r) is None && !w.changed_rows@.dom().contains(r)
    ensures rows_to(w, a, b) == Seq::<Rec>::empty() decreases b - a
{ if a < b { assert(pending(w, (b - 1) as u32) is None && !w.changed_rows@.dom().contains((b - 1) as u32)); nothing(w, a, b - 1); assert(rows_to(w, a, b) =~= Seq::<Rec>::empty()); } }
proof fn split(w: Worksheet, a: int, m: int, b: int)
    requires a <= m <= b ensures rows_to(w, a, b) == rows_to(w, a, m) + rows_to(w, m, b) decreases b - m
{ if m < b { split(w, a, m, b - 1); assert(rows_to(w, a, b) =~= rows_to(w, a, m) + rows_to(w, m, b)); } else { assert(rows_to(w, a, b) =~= rows_to(w, a, m) + rows_to(w, m, b)); } }
proof fn rows_of_same(a: Worksheet, b: Worksheet, from: int, to: int)
    requires moved(a, b, b.current_row as int), from >= b.current_row, to <= 0xffff_ffff
    ensures rows_to(a, from, to) == rows_to(b, from, to) decreases to - from
{
    if from < to {
        rows_of_same(a, b, from, to - 1);
        assert(pending(b, (to - 1) as u32) == pending(a, (to - 1) as u32));
        row_of_same(a, b, true, (to - 1) as u32, get(a.changed_rows@, (to - 1) as u32), pending(a, (to - 1) as u32), false);
    }
}
/// flushing doesn't change what the file is going to hold: the rows written so far and those to come
proof fn total(a: Worksheet, b: Worksheet)
    requires moved(a, b, b.current_row as int), a.current_row <= b.current_row <= ROW_MAX, b.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, b.current_row as int)
    ensures a.file_writer.log() + rows_to(a, a.current_row as int, ROW_MAX as int) == b.file_writer.log() + rows_to(b, b.current_row as int, ROW_MAX as int)
{
    split(a, a.current_row as int, b.current_row as int, ROW_MAX as int);
    rows_of_same(a, b, b.current_row as int, ROW_MAX as int);
    assert(a.file_writer.log() + rows_to(a, a.current_row as int, ROW_MAX as int) =~= b.file_writer.log() + rows_to(b, b.current_row as int, ROW_MAX as int));
}
/// one flush on the way to later rows
proof fn one_flush(a: Worksheet, b: Worksheet, c: Worksheet, next: int)
    requires moved(a, b, b.current_row as int), ordered(b), a.current_row <= b.current_row < next <= ROW_MAX,
        b.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, b.current_row as int),
        c.file_writer.log() == b.file_writer.log() + next_recs(b, b.current_row), moved(b, c, next),
        forall|r: u32| b.current_row < r < next ==> !(#[trigger] b.write_ahead@.dom().contains(r)) && !b.changed_rows@.dom().contains(r)
    ensures moved(a, c, next), c.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, next)
{
    let cur = b.current_row as int;
    split(b, cur, cur + 1, next);
    assert forall|r: u32| cur + 1 <= r < next implies #[trigger] pending(b, r) is None && !b.changed_rows@.dom().contains(r) by { assert(!b.write_ahead@.dom().contains(r)); };
    nothing(b, cur + 1, next);
    assert(rows_to(b, cur, cur) =~= seq![]);
    assert(rows_to(b, cur, cur + 1) =~= next_recs(b, b.current_row));
    assert(rows_to(b, cur, next) =~= next_recs(b, b.current_row));
    split(a, a.current_row as int, cur, next);
    rows_of_same(a, b, cur, next);
    assert(c.file_writer.log() =~= a.file_writer.log() + rows_to(a, a.current_row as int, next));
    assert forall|r: u32| r >= next implies #[trigger] pending(c, r) == pending(a, r) by { assert(pending(b, r) == pending(a, r)); };
}

// ---------------------------------------------------------------- both modes write the same
/// the same cell of an ordinary (x) and a constant memory (y) worksheet: the texts that one refers to, the other may hold
pub open spec fn alike(shared: spec_fn(u32) -> Seq<char>, rich: spec_fn(u32) -> Seq<char>, x: CellType, y: CellType) -> bool {
    &&& xf_cell(x) == xf_cell(y) && !(x is InlineString)
    &&& match x {
        CellType::String { string_id, .. } => string_id matches Some(i) && match y { CellType::InlineString { string, .. } => string@ == shared(i), CellType::String { string_id, .. } => string_id matches Some(j) && shared(i) == shared(j), _ => false },
        CellType::RichString { string_id, .. } => string_id matches Some(i) && match y { CellType::RichString { string, .. } => string@ == rich(i), _ => false },
        _ => x == y && !(y is String) && !(y is RichString),
    }
}
/// the same value, with texts looked up
pub open spec fn reads(shared: spec_fn(u32) -> Seq<char>, rich: spec_fn(u32) -> Seq<char>, is_rich: bool, v: Val) -> Val {
    match v { Val::Shared(i) => if is_rich { Val::Rich(rich(i)) } else { Val::Inline(shared(i)) }, _ => v }
}
proof fn same_cell(x: Worksheet, y: Worksheet, shared: spec_fn(u32) -> Seq<char>, rich: spec_fn(u32) -> Seq<char>, row: u32, o: Option<RowOptions>, c: u16, a: CellType, b: CellType)
    requires x.styles == y.styles, x.global_embedded_image_indices == y.global_embedded_image_indices, alike(shared, rich, a, b)
    ensures one(x, false, row, o, (c, a)).len() == 1, one(y, true, row, o, (c, b)).len() == 1,
        match (one(x, false, row, o, (c, a))[0], one(y, true, row, o, (c, b))[0]) {
            (Rec::Cell(r, n, v, f), Rec::Cell(r2, n2, v2, f2)) => r == r2 && n == n2 && f == f2 && reads(shared, rich, a is RichString, v) == reads(shared, rich, b is RichString, v2),
            _ => false }
{ }

// ---------------------------------------------------------------- trusted
#[verifier::external_body] pub fn vp_cells<'a>(m: &'a BTreeMap<ColNum, CellType>) -> (r: Vec<(u16, &'a CellType)>)
    ensures r@.len() == cells_of(m@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == cells_of(m@)[i].0 && *r@[i].1 == cells_of(m@)[i].1, ascending(cells_of(m@)),
        forall|i: int| 0 <= i < cells_of(m@).len() ==> m@.dom().contains((#[trigger] cells_of(m@)[i]).0) && m@[cells_of(m@)[i].0] == cells_of(m@)[i].1,
        forall|c: u16| #[trigger] m@.dom().contains(c) ==> exists|i: int| 0 <= i < cells_of(m@).len() && cells_of(m@)[i].0 == c { m.iter().map(|(k, v)| (*k, v)).collect() }
#[verifier::external_body] pub fn vp_keys<V>(m: &BTreeMap<u32, V>) -> (r: Vec<u32>) ensures forall|k: u32| #![trigger r@.contains(k)] #![trigger m@.dom().contains(k)] r@.contains(k) <==> m@.dom().contains(k) { m.keys().copied().collect() }
/// in any order
#[verifier::external_body] pub fn vp_hash_keys<V>(m: &HashMap<u32, V>) -> (r: Vec<u32>) ensures forall|k: u32| #![trigger r@.contains(k)] #![trigger m@.dom().contains(k)] r@.contains(k) <==> m@.dom().contains(k) { m.keys().copied().collect() }
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn rising(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<u32>) ensures sorted(final(v)@), forall|k: u32| #![trigger final(v)@.contains(k)] #![trigger old(v)@.contains(k)] final(v)@.contains(k) <==> old(v)@.contains(k) { v.sort_unstable(); }
#[verifier::external_body] pub fn vp_dedup(v: &mut Vec<u32>) ensures sorted(old(v)@) ==> rising(final(v)@), forall|k: u32| #![trigger final(v)@.contains(k)] #![trigger old(v)@.contains(k)] final(v)@.contains(k) <==> old(v)@.contains(k) { v.dedup(); }
#[verifier::external_body] pub fn vp_last(v: &Vec<u32>) -> (r: Option<u32>) ensures match r { Some(x) => v@.len() > 0 && x == v@[v@.len() - 1], None => v@.len() == 0 } { v.last().copied() }
#[verifier::external_body] pub fn vp_image(v: &Vec<u32>, i: u32) -> (r: u32) ensures r == image_of(v@, i) { v[i as usize] }
#[verifier::external_body] pub fn vp_slice(s: &str, a: usize, b: usize) -> (r: String) requires a <= b <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i] as u32) < 128 ensures r@ == s@.subrange(a as int, b as int) { s[a..b].to_string() }
/// unit c04: the letters of a column
#[verifier::external_body] pub fn vp_column_name(c: u16) -> (r: String) ensures r@ == letters(c) { unimplemented!() }
#[verifier::external_body] proof fn one_letter(c: u16) ensures c < 26 ==> letters(c) == seq![(65 + c) as char] { }
#[verifier::external_body] pub fn xml_end_tag(w: &mut Writer, tag: &str) ensures tag@ == "row"@ ==> final(w).log() == old(w).log().push(Rec::End) { }
proof fn plain_letters() ensures COLUMN_LETTERS@.len() == 26, forall|i: int| 0 <= i < 26 ==> #[trigger] COLUMN_LETTERS@[i] == (65 + i) as char { reveal_strlit("ABCDEFGHIJKLMNOPQRSTUVWXYZ"); }


pub open spec fn put(m: Option<Cells>, c: u16, x: CellType) -> Cells { match m { Some(m) => m, None => Map::empty() }.insert(c, x) }
/// trusted: BTreeMap::entry
#[verifier::external_body] pub fn vp_row<'a>(m: &'a mut Table, k: u32) -> (r: Option<&'a mut BTreeMap<ColNum, CellType>>)
    ensures match r { Some(v) => old(m)@.dom().contains(k) && *v == old(m)@[k] && final(m)@ == old(m)@.insert(k, *final(v)), None => !old(m)@.dom().contains(k) && *final(m) == *old(m) } { m.get_mut(&k) }
#[verifier::external_body] pub fn vp_single(c: u16, x: CellType) -> (r: BTreeMap<ColNum, CellType>) ensures r@ == Map::<u16, CellType>::empty().insert(c, x) { BTreeMap::from([(c, x)]) }
proof fn vp_put(a: Worksheet, b: Worksheet, c: Worksheet, row: u32, col: u16, x: CellType)
    requires row >= a.current_row, row == a.current_row ==> a == b && ordered(b), row > a.current_row ==> ordered(b) && moved(a, b, row as int) && b.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, row as int),
        c == (Worksheet { data_table: c.data_table, ..b }), c.data_table@ == b.data_table@.insert(row, c.data_table@[row]), cells_at(c.data_table, row) == Some(put(cells_at(b.data_table, row), col, x)), row < ROW_MAX
    ensures ordered(c), c.current_row == row, pending(c, row) == Some(put(pending(a, row), col, x)), forall|r: u32| r != row && r >= row ==> #[trigger] pending(c, r) == pending(a, r),
        c.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, c.current_row as int)
{
    if row == a.current_row { assert(rows_to(a, row as int, row as int) =~= seq![]); assert(c.file_writer.log() =~= a.file_writer.log() + seq![]); }
    assert(pending(b, row) == pending(a, row));
    assert forall|r: u32| r != row && r >= row implies #[trigger] pending(c, r) == pending(a, r) by { assert(pending(b, r) == pending(a, r)); };
}
/// rows that have something to write
#[verifier::opaque]
pub open spec fn pre(a: Worksheet, s2: Seq<u32>) -> bool {
    &&& forall|r: u32| #[trigger] s2.contains(r) ==> a.current_row <= r < ROW_MAX
    &&& forall|r: u32| r > a.current_row && #[trigger] a.write_ahead@.dom().contains(r) ==> s2.contains(r)
    &&& forall|r: u32| r >= a.current_row && #[trigger] a.changed_rows@.dom().contains(r) ==> s2.contains(r)
    &&& a.data_table@.dom().contains(a.current_row) ==> s2.contains(a.current_row)
}
#[verifier::opaque]
pub open spec fn route(a: Worksheet, s2: Seq<u32>, k: Seq<u32>, end: u32) -> bool {
    &&& rising(k) && pre(a, s2) && end == (if k.len() > 0 { k[k.len() - 1] } else { a.current_row }) && a.current_row <= end <= ROW_MAX
    &&& forall|r: u32| #[trigger] s2.contains(r) ==> r < end
    &&& forall|r: u32| #[trigger] k.contains(r) ==> a.current_row < r <= ROW_MAX
    &&& forall|r: u32| #[trigger] a.write_ahead@.dom().contains(r) && r < end ==> k.contains(r)
    &&& forall|r: u32| a.current_row < r < end && #[trigger] a.changed_rows@.dom().contains(r) ==> k.contains(r)
}
#[verifier::opaque]
pub open spec fn at(a: Worksheet, w: Worksheet, k: Seq<u32>, j: int) -> bool {
    &&& ordered(w) && moved(a, w, w.current_row as int) && a.current_row <= w.current_row && w.current_row == (if j == 0 { a.current_row } else { k[j - 1] })
    &&& w.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, w.current_row as int)
    &&& forall|r: u32| #[trigger] w.write_ahead@.dom().contains(r) ==> a.write_ahead@.dom().contains(r)
}
proof fn vp_start(a: Worksheet, k: Seq<u32>) requires ordered(a) ensures at(a, a, k, 0) {
    reveal(at); assert(rows_to(a, a.current_row as int, a.current_row as int) =~= seq![]); assert(a.file_writer.log() =~= a.file_writer.log() + Seq::<Rec>::empty());
}
proof fn vp_ready(a: Worksheet, b: Worksheet, s2: Seq<u32>, k: Seq<u32>, j: int, end: u32)
    requires ordered(a), at(a, b, k, j), route(a, s2, k, end), 0 <= j < k.len()
    ensures ordered(b), b.current_row < k[j] <= ROW_MAX,
        forall|r: u32| b.current_row < r < k[j] ==> !(#[trigger] b.write_ahead@.dom().contains(r)) && !b.changed_rows@.dom().contains(r)
{
    reveal(at); reveal(route);
    assert(k.contains(k[j]));
    if j > 0 { assert(k[j - 1] < k[j]); }
    if j < k.len() - 1 { assert(k[j] < k[k.len() - 1]); }
    between(a, b, k, j, k[j], end);
}
proof fn vp_next(a: Worksheet, b: Worksheet, c: Worksheet, s2: Seq<u32>, k: Seq<u32>, j: int, end: u32)
    requires ordered(a), at(a, b, k, j), route(a, s2, k, end), 0 <= j < k.len(),
        c.file_writer.log() == b.file_writer.log() + next_recs(b, b.current_row), moved(b, c, k[j] as int), c.write_ahead@ == b.write_ahead@.remove(k[j]),
        forall|r: u32| #[trigger] c.data_table@.dom().contains(r) ==> r == k[j],
    ensures at(a, c, k, j + 1)
{
    vp_ready(a, b, s2, k, j, end);
    reveal(at);
    one_flush(a, b, c, k[j] as int);
    still_ordered(b, c, k[j]);
    assert forall|r: u32| #[trigger] c.write_ahead@.dom().contains(r) implies a.write_ahead@.dom().contains(r) by { assert(b.write_ahead@.dom().contains(r)); };
}
proof fn still_ordered(b: Worksheet, c: Worksheet, next: u32)
    requires ordered(b), moved(b, c, next as int), b.current_row < next <= ROW_MAX, c.write_ahead@ == b.write_ahead@.remove(next), forall|r: u32| #[trigger] c.data_table@.dom().contains(r) ==> r == next,
        forall|r: u32| b.current_row < r < next ==> !(#[trigger] b.write_ahead@.dom().contains(r)),
    ensures ordered(c)
{
    assert forall|r: u32| #[trigger] c.write_ahead@.dom().contains(r) implies next < r < ROW_MAX by { assert(b.write_ahead@.dom().contains(r)); };
    assert forall|r: u32| #[trigger] c.data_table@.dom().contains(r) implies r == next && r < ROW_MAX by { assert(pending(c, r) == pending(b, r)); assert(b.write_ahead@.dom().contains(r)); };
}
/// the rows that the last flush goes through: all that have something to write, and the one after them
proof fn vp_list(a: Worksheet, s2: Seq<u32>, s3: Seq<u32>, k: Seq<u32>, end: u32)
    requires ordered(a), rising(s2), pre(a, s2), s3 == (if s2.len() > 0 { s2.push((s2[s2.len() - 1] + 1) as u32) } else { s2 }), rising(k), end == (if k.len() > 0 { k[k.len() - 1] } else { a.current_row }),
        only(a, s3, k), whole(a, s3, k, s3.len() as int),
    ensures route(a, s2, k, end)
{
    reveal(pre); reveal(only); reveal(whole);
    assert(forall|j: int| 0 <= j < s3.len() && s3[j] > a.current_row ==> k.contains(#[trigger] s3[j]));
    if s2.len() > 0 {
        let m = (s2[s2.len() - 1] + 1) as u32;
        grown(s2, s3, m);
        assert(s2.contains(s2[s2.len() - 1]));
        assert(s3[s2.len() as int] == m);
        assert(k.contains(m));
        let q = choose|q: int| 0 <= q < k.len() && k[q] == m;
        if q < k.len() - 1 { assert(k[q] < k[k.len() - 1]); }
        assert(m <= end);
        assert forall|r: u32| #[trigger] s2.contains(r) implies r < end by { let j = choose|j: int| 0 <= j < s2.len() && s2[j] == r; if j < s2.len() - 1 { assert(s2[j] < s2[s2.len() - 1]); } };
    }
    assert forall|r: u32| #[trigger] k.contains(r) implies a.current_row < r <= ROW_MAX by { assert(s3.contains(r)); };
    if k.len() > 0 { assert(k.contains(k[k.len() - 1])); }
    assert forall|r: u32| r > a.current_row && s2.contains(r) implies k.contains(r) by { let j = choose|j: int| 0 <= j < s2.len() && s2[j] == r; assert(s3[j] == r); };
    assert forall|r: u32| #[trigger] a.write_ahead@.dom().contains(r) && r < end implies k.contains(r) by { assert(s2.contains(r)); };
    assert forall|r: u32| a.current_row < r < end && #[trigger] a.changed_rows@.dom().contains(r) implies k.contains(r) by { assert(s2.contains(r)); };
    reveal(route);
}
/// k holds only rows of s that are still to come
#[verifier::opaque]
pub open spec fn only(a: Worksheet, s: Seq<u32>, k: Seq<u32>) -> bool { forall|r: u32| #[trigger] k.contains(r) ==> r > a.current_row && s.contains(r) }
/// k holds all those of the first n rows of s
#[verifier::opaque]
pub open spec fn whole(a: Worksheet, s: Seq<u32>, k: Seq<u32>, n: int) -> bool { forall|j: int| 0 <= j < n && s[j] > a.current_row ==> k.contains(#[trigger] s[j]) }
proof fn vp_keep(a: Worksheet, s: Seq<u32>, k: Seq<u32>, k2: Seq<u32>, n: int)
    requires rising(s), 0 <= n < s.len(), only(a, s, k), whole(a, s, k, n), rising(k), forall|r: u32| k.contains(r) ==> below(s, n, r), k2 == (if s[n] > a.current_row { k.push(s[n]) } else { k })
    ensures only(a, s, k2), whole(a, s, k2, n + 1), rising(k2), forall|r: u32| k2.contains(r) ==> below(s, n + 1, r)
{
    reveal(only); reveal(whole);
    grown(k, k2, s[n]);
    assert(s.contains(s[n]));
    assert forall|r: u32| k2.contains(r) implies below(s, n + 1, r) by { if k.contains(r) { let j = choose|j: int| 0 <= j < n && s[j] == r; assert(s[j] == r); } else { assert(s[n] == r); } };
    assert forall|i: int, j: int| 0 <= i < j < k2.len() implies #[trigger] k2[i] < #[trigger] k2[j] by { if j < k.len() { assert(k[i] < k[j]); } else { assert(k.contains(k[i])); let q = choose|q: int| 0 <= q < n && s[q] == k[i]; assert(s[q] < s[n]); } };
}
pub open spec fn below(s: Seq<u32>, n: int, r: u32) -> bool { exists|j: int| 0 <= j < n && s[j] == r }
/// when it is through them there is nothing left
proof fn vp_done(a: Worksheet, c: Worksheet, s2: Seq<u32>, k: Seq<u32>, end: u32)
    requires ordered(a), at(a, c, k, k.len() as int), route(a, s2, k, end),
    ensures ordered(c), moved(a, c, c.current_row as int), a.current_row <= c.current_row,
        c.file_writer.log() == a.file_writer.log() + rows_to(a, a.current_row as int, ROW_MAX as int), rows_to(c, c.current_row as int, ROW_MAX as int) == Seq::<Rec>::empty(), forall|r: u32| r >= c.current_row ==> #[trigger] pending(c, r) is None
{
    reveal(at); reveal(route); reveal(pre);
    assert(c.current_row == end);
    assert forall|r: u32| end <= r implies #[trigger] pending(c, r) is None && !c.changed_rows@.dom().contains(r) by {
        assert(pending(c, r) == pending(a, r));
        if a.changed_rows@.dom().contains(r) { assert(s2.contains(r)); }
        if a.write_ahead@.dom().contains(r) { assert(ordered(a)); assert(s2.contains(r)); }
    };
    nothing(c, end as int, ROW_MAX as int);
    total(a, c);
    assert(c.file_writer.log() + Seq::<Rec>::empty() =~= c.file_writer.log());
}
/// the list as gathered: what was written ahead, settings of rows to come, and the current row
proof fn vp_gather(a: Worksheet, s1: Seq<u32>, s2: Seq<u32>, s3: Seq<u32>, ks: Seq<u32>)
    requires ordered(a), written_ahead(a, s1), settings(a, ks, s1, ks.len() as int), forall|k: u32| #![trigger ks.contains(k)] #![trigger a.changed_rows@.dom().contains(k)] ks.contains(k) <==> a.changed_rows@.dom().contains(k),
        s2 == (if a.data_table@.dom().contains(a.current_row) { s1.push(a.current_row) } else { s1 }), forall|k: u32| #![trigger s3.contains(k)] #![trigger s2.contains(k)] s3.contains(k) <==> s2.contains(k)
    ensures pre(a, s3)
{
    reveal(pre); reveal(written_ahead); reveal(settings);
    grown(s1, s2, a.current_row);
    assert forall|r: u32| #[trigger] a.changed_rows@.dom().contains(r) && r >= a.current_row implies s3.contains(r) by { assert(ks.contains(r)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == r; assert(ks[j] == r); assert(s1.contains(r)); assert(s2.contains(r)); };
    assert forall|r: u32| r > a.current_row && #[trigger] a.write_ahead@.dom().contains(r) implies s3.contains(r) by { assert(s1.contains(r)); assert(s2.contains(r)); };
    assert forall|r: u32| #[trigger] s3.contains(r) implies a.current_row <= r < ROW_MAX by { assert(s2.contains(r)); };
}
#[verifier::opaque]
pub open spec fn written_ahead(a: Worksheet, s: Seq<u32>) -> bool {
    (forall|r: u32| #[trigger] s.contains(r) ==> a.current_row <= r < ROW_MAX) && forall|r: u32| #[trigger] a.write_ahead@.dom().contains(r) ==> s.contains(r)
}
#[verifier::opaque]
pub open spec fn settings(a: Worksheet, ks: Seq<u32>, s: Seq<u32>, n: int) -> bool { forall|j: int| 0 <= j < n && ks[j] >= a.current_row ==> s.contains(#[trigger] ks[j]) }
proof fn vp_ahead(a: Worksheet, s: Seq<u32>, ks: Seq<u32>)
    requires ordered(a), forall|k: u32| #![trigger s.contains(k)] #![trigger a.write_ahead@.dom().contains(k)] s.contains(k) <==> a.write_ahead@.dom().contains(k)
    ensures written_ahead(a, s), settings(a, ks, s, 0) { reveal(written_ahead); reveal(settings); }
proof fn vp_add(a: Worksheet, s: Seq<u32>, t: Seq<u32>, ks: Seq<u32>, n: int)
    requires ordered(a), written_ahead(a, s), settings(a, ks, s, n), 0 <= n < ks.len(), forall|k: u32| #![trigger ks.contains(k)] ks.contains(k) <==> a.changed_rows@.dom().contains(k), t == (if ks[n] >= a.current_row { s.push(ks[n]) } else { s })
    ensures written_ahead(a, t), settings(a, ks, t, n + 1) { reveal(written_ahead); reveal(settings); grown(s, t, ks[n]); assert(ks.contains(ks[n])); assert(a.changed_rows@.dom().contains(ks[n])); }
proof fn vp_last_row(a: Worksheet, s: Seq<u32>) requires pre(a, s), s.len() > 0 ensures s[s.len() - 1] < ROW_MAX { reveal(pre); assert(s.contains(s[s.len() - 1])); }
pub proof fn grown(a: Seq<u32>, b: Seq<u32>, x: u32)
    requires b == a || b == a.push(x)
    ensures forall|r: u32| #[trigger] a.contains(r) ==> b.contains(r), forall|r: u32| #[trigger] b.contains(r) ==> a.contains(r) || r == x, b == a.push(x) ==> b.contains(x)
{
    if b == a.push(x) {
        assert(b[a.len() as int] == x);
        assert forall|r: u32| #[trigger] a.contains(r) implies b.contains(r) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == r; assert(b[i] == r); };
        assert forall|r: u32| #[trigger] b.contains(r) implies a.contains(r) || r == x by { let i = choose|i: int| 0 <= i < b.len() && b[i] == r; if i < a.len() { assert(a[i] == r); } };
    }
}
/// between two rows of the list there is nothing to write
proof fn between(a: Worksheet, b: Worksheet, s: Seq<u32>, k: int, next: u32, end: u32)
    requires rising(s), 0 <= k <= s.len(), ordered(a), ordered(b), moved(a, b, b.current_row as int), b.current_row == (if k == 0 { a.current_row } else { s[k - 1] }), next <= end,
        next == (if k == s.len() { end } else { s[k] }),
        forall|r: u32| #[trigger] a.write_ahead@.dom().contains(r) && r < end ==> s.contains(r),
        forall|r: u32| a.current_row < r < end && #[trigger] a.changed_rows@.dom().contains(r) ==> s.contains(r),
        forall|r: u32| #[trigger] b.write_ahead@.dom().contains(r) ==> a.write_ahead@.dom().contains(r), a.current_row <= b.current_row
    ensures forall|r: u32| b.current_row < r < next ==> !(#[trigger] b.write_ahead@.dom().contains(r)) && !b.changed_rows@.dom().contains(r)
{
    assert forall|r: u32| b.current_row < r < next implies !(#[trigger] b.write_ahead@.dom().contains(r)) && !b.changed_rows@.dom().contains(r) by {
        if b.write_ahead@.dom().contains(r) || b.changed_rows@.dom().contains(r) {
            if b.write_ahead@.dom().contains(r) { assert(a.write_ahead@.dom().contains(r)); }
            if b.changed_rows@.dom().contains(r) { assert(a.changed_rows@.dom().contains(r)); }
            assert(s.contains(r));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == r;
            if i < k { if i < k - 1 { assert(s[i] < s[k - 1]); } } else if i > k { assert(s[k] < s[i]); }
        }
    };
}
impl Worksheet {
    // assumed: proved in units c08, c12 and c14b
    #[verifier::external_body] fn get_cell_xf_index(&mut self, xf_index: u32, row_options: Option<&RowOptions>, col_num: ColNum) -> (r: u32)
        ensures *final(self) == *old(self), r == xf_of(old(self).styles, xf_index, match row_options { Some(o) => o.xf_index, None => 0 }, col_num) { 0 }
    #[verifier::external_body] fn write_table_row(&mut self, row_num: RowNum, span: Option<&VpSpan>, row_options: Option<&RowOptions>, has_data: bool)
        ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() == old(self).writer.log().push(Rec::Row(row_num, match row_options { Some(o) => Some(*o), None => None }, has_data)) { }
    #[verifier::external_body] fn write_constant_table_row(&mut self, row_num: RowNum, row_options: Option<&RowOptions>, has_data: bool)
        ensures *final(self) == (Worksheet { file_writer: final(self).file_writer, ..*old(self) }), final(self).file_writer.log() == old(self).file_writer.log().push(Rec::Row(row_num, match row_options { Some(o) => Some(*o), None => None }, has_data)) { }
    #[verifier::external_body] fn write_number_cell(w: &mut Writer, row: u32, col_name: &String, number: f64, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Number(number), xf_index)) { }
    #[verifier::external_body] fn write_string_cell(w: &mut Writer, row: u32, col_name: &String, string_index: u32, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Shared(string_index), xf_index)) { }
    #[verifier::external_body] fn write_inline_string_cell(w: &mut Writer, row: u32, col_name: &String, string: &String, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Inline(string@), xf_index)) { }
    #[verifier::external_body] fn write_inline_rich_string_cell(w: &mut Writer, row: u32, col_name: &String, string: &String, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Rich(string@), xf_index)) { }
    #[verifier::external_body] fn write_formula_cell(w: &mut Writer, row: u32, col_name: &String, formula: &String, xf_index: u32, result: &String) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Formula(formula@, result@), xf_index)) { }
    #[verifier::external_body] fn write_array_formula_cell(w: &mut Writer, row: u32, col_name: &String, formula: &String, xf_index: u32, result: &String, is_dynamic: bool, range: &String) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Array(formula@, result@, is_dynamic, range@), xf_index)) { }
    #[verifier::external_body] fn write_blank_cell(w: &mut Writer, row: u32, col_name: &String, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Blank, xf_index)) { }
    #[verifier::external_body] fn write_boolean_cell(w: &mut Writer, row: u32, col_name: &String, boolean: bool, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Boolean(boolean), xf_index)) { }
    #[verifier::external_body] fn write_error_cell(w: &mut Writer, row: u32, col_name: &String, value: u32, xf_index: u32) ensures final(w).log() == old(w).log().push(Rec::Cell(row, col_name@, Val::Error(value), xf_index)) { }
    // assumed: the span of a block of rows is a hint
    #[verifier::external_body] fn calculate_spans(&mut self) -> (r: VpSpans) ensures *final(self) == *old(self) { unimplemented!() }

//@fn src/worksheet.rs write_data_table impl="impl Worksheet$" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(120)]
| requires old(self).dimensions.last_row < ROW_MAX, old(self).dimensions.first_row <= ROW_MAX,
| ensures final(self).writer.log() == old(self).writer.log() + all_rows(*old(self), old(self).dimensions.first_row as int, old(self).dimensions.last_row + 1),
|   *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite let col_name = if col_num < 26 \{ => let vp_nm: String = if col_num < 26 {
//@rewrite &COLUMN_LETTERS\[col_num as usize\.\.\(col_num \+ 1\) as usize\] => vp_slice(COLUMN_LETTERS, col_num as usize, (col_num + 1) as usize)
//@rewrite for \(&col_num, cell\) in columns \{ => let vp_cs = vp_cells(columns); for vp_i in 0..vp_cs.len() { let col_num = vp_cs[vp_i].0; let cell = vp_cs[vp_i].1;
//@rewrite match cell \{ => let col_name = &vp_nm; match cell {
//@rewrite self\.global_embedded_image_indices\[\*value as usize\] => vp_image(&self.global_embedded_image_indices, *value)
//@rewrite BTreeMap<RowNum, BTreeMap<ColNum, CellType>> => Table
//@rewrite col_names\s*\.entry\(col_num\)\s*\.or_insert_with\(\|\| utility::column_number_to_name\(col_num\)\) => vp_column_name(col_num)
//@rewrite let mut col_names = HashMap::new\(\); =>
//@rewrite for row_num in self\.dimensions\.first_row\.\.=self\.dimensions\.last_row \{ => let mut vp_r = self.dimensions.first_row; while vp_r <= self.dimensions.last_row { let row_num = vp_r; vp_r = vp_r + 1;
//@rewrite spans\.get\(&span_index\)\.map\(AsRef::as_ref\) => spans.find(span_index)
//@rewrite let Some\(columns\) = temp_table\.get\(&row_num\) else \{ => let vp_c = temp_table.get(&row_num); if vp_c.is_none() {
//@rewrite continue;\s*\}; => continue; } let columns = vp_c.unwrap();
//@at body-start
| broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
//@before /let mut vp_r = self/
| let ghost vp_0 = *self;
| let ghost vp_first = self.dimensions.first_row;
//@loop 1
| invariant *self == (Worksheet { writer: self.writer, data_table: vp_0.data_table, changed_rows: vp_0.changed_rows, ..*old(self) }), temp_table == old(self).data_table, temp_changed_rows == old(self).changed_rows,
|   vp_first <= vp_r <= ROW_MAX, vp_r <= self.dimensions.last_row + 1 || vp_r == vp_first,
|   self.writer.log() == old(self).writer.log() + all_rows(*old(self), vp_first as int, vp_r as int),
| decreases self.dimensions.last_row + 1 - vp_r,
//@at loop 1 start
| let ghost vp_log = self.writer.log();
| let ghost vp_o = get(old(self).changed_rows@, vp_r);
| let ghost vp_noted = old(self).notes@.dom().contains(vp_r);
//@before /continue;/
| proof { assert(self.writer.log() =~= vp_log + row_recs(*old(self), false, row_num, vp_o, None, vp_noted)); assert(self.writer.log() =~= old(self).writer.log() + all_rows(*old(self), vp_first as int, vp_r as int)); }
//@at before-loop 2
| let ghost vp_m = columns@;
| proof { assert(cells_at(old(self).data_table, row_num) == Some(vp_m)); assert(self.writer.log() =~= vp_log + seq![Rec::Row(row_num, vp_o, true)] + some_cells(*old(self), false, row_num, vp_o, cells_of(vp_m), 0)); }
//@loop 2
| invariant *self == (Worksheet { writer: self.writer, data_table: vp_0.data_table, changed_rows: vp_0.changed_rows, ..*old(self) }),
|   self.writer.log() == vp_log + seq![Rec::Row(row_num, vp_o, true)] + some_cells(*old(self), false, row_num, vp_o, cells_of(vp_m), vp_i as nat),
//@at loop 2 start
| let ghost vp_l = self.writer.log();
| proof { plain_letters(); }
//@before /match cell \{/
| proof { one_letter(col_num); assert(col_name@ =~= letters(col_num)); }
//@at loop 2 end
| proof { assert(self.writer.log() =~= vp_l + one(*old(self), false, row_num, vp_o, cells_of(vp_m)[vp_i as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_log + row_recs(*old(self), false, row_num, vp_o, Some(vp_m), vp_noted)); assert(self.writer.log() =~= old(self).writer.log() + all_rows(*old(self), vp_first as int, vp_r as int)); }
//@end
//@fn src/worksheet.rs flush_data_row impl="impl Worksheet$" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(120)]
| requires ordered(*old(self)), old(self).current_row < next_row <= ROW_MAX,
| ensures final(self).file_writer.log() == old(self).file_writer.log() + next_recs(*old(self), old(self).current_row),
|   moved(*old(self), *final(self), next_row as int),
|   final(self).write_ahead@ == old(self).write_ahead@.remove(next_row),
|   forall|r: u32| #[trigger] final(self).data_table@.dom().contains(r) ==> r == next_row,
//@rewrite let col_name = if col_num < 26 \{ => let vp_nm: String = if col_num < 26 {
//@rewrite &COLUMN_LETTERS\[col_num as usize\.\.\(col_num \+ 1\) as usize\] => vp_slice(COLUMN_LETTERS, col_num as usize, (col_num + 1) as usize)
//@rewrite for \(&col_num, cell\) in columns \{ => let vp_cs = vp_cells(columns); for vp_i in 0..vp_cs.len() { let col_num = vp_cs[vp_i].0; let cell = vp_cs[vp_i].1;
//@rewrite match cell \{ => let col_name = &vp_nm; match cell {
//@rewrite self\.global_embedded_image_indices\[\*value as usize\] => vp_image(&self.global_embedded_image_indices, *value)
//@rewrite BTreeMap<RowNum, BTreeMap<ColNum, CellType>> => Table
//@rewrite &utility::column_number_to_name\(col_num\) => vp_column_name(col_num)
//@rewrite let Some\(columns\) = temp_table\.get\(&current_row\) else \{ => let vp_c = temp_table.get(&current_row); if vp_c.is_none() {
//@rewrite return;\s*\}; => return; } let columns = vp_c.unwrap();
//@at body-start
| broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
//@before /let row_options = /
| let ghost vp_0 = *self;
| let ghost vp_log = self.file_writer.log();
| let ghost vp_o = get(old(self).changed_rows@, current_row);
//@before /return;/
| proof { assert(self.file_writer.log() =~= vp_log + row_recs(*old(self), true, current_row, vp_o, None, false)); }
//@at before-loop 1
| let ghost vp_m = columns@;
| proof { assert(cells_at(old(self).data_table, current_row) == Some(vp_m)); assert(self.file_writer.log() =~= vp_log + seq![Rec::Row(current_row, vp_o, true)] + some_cells(*old(self), true, current_row, vp_o, cells_of(vp_m), 0)); }
//@loop 1
| invariant *self == (Worksheet { file_writer: self.file_writer, data_table: vp_0.data_table, changed_rows: vp_0.changed_rows, ..*old(self) }),
|   self.file_writer.log() == vp_log + seq![Rec::Row(current_row, vp_o, true)] + some_cells(*old(self), true, current_row, vp_o, cells_of(vp_m), vp_i as nat),
//@at loop 1 start
| let ghost vp_l = self.file_writer.log();
| proof { plain_letters(); }
//@before /match cell \{/
| proof { one_letter(col_num); assert(col_name@ =~= letters(col_num)); }
//@at loop 1 end
| proof { assert(self.file_writer.log() =~= vp_l + one(*old(self), true, current_row, vp_o, cells_of(vp_m)[vp_i as int])); }
//@after /xml_end_tag\(&mut self\.file_writer, "row"\);/
| proof { assert(self.file_writer.log() =~= vp_log + row_recs(*old(self), true, current_row, vp_o, Some(vp_m), false)); }
//@end
//@fn src/worksheet.rs flush_to_row impl="impl Worksheet$" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| requires ordered(*old(self)), old(self).current_row < next_row < ROW_MAX,
| ensures ordered(*final(self)), moved(*old(self), *final(self), next_row as int),
|   final(self).file_writer.log() == old(self).file_writer.log() + rows_to(*old(self), old(self).current_row as int, next_row as int),
|   // what the file is going to hold is what it was going to hold before
|   final(self).file_writer.log() + rows_to(*final(self), next_row as int, ROW_MAX as int) == old(self).file_writer.log() + rows_to(*old(self), old(self).current_row as int, ROW_MAX as int),
//@rewrite let mut intermediate_rows: Vec<_> = self\s*\.write_ahead\s*\.keys\(\)\s*\.filter\(\|x\| ([^()]*)\)\s*\.copied\(\)\s*\.collect\(\); => let mut intermediate_rows: Vec<u32> = vec![]; let vp_ks = vp_keys(&self.write_ahead); for vp_i in 0..vp_ks.len() { let x = &&vp_ks[vp_i]; if \1 { intermediate_rows.push(**x); } }
//@rewrite intermediate_rows\.sort_unstable\(\) => vp_sort(&mut intermediate_rows)
//@rewrite intermediate_rows\.dedup\(\) => vp_dedup(&mut intermediate_rows)
//@rewrite for intermediate_row in intermediate_rows \{ => for vp_j in 0..intermediate_rows.len() { let intermediate_row = intermediate_rows[vp_j];
//@at body-start
| broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
//@loop 1
| invariant
|   forall|r: u32| #[trigger] intermediate_rows@.contains(r) ==> old(self).write_ahead@.dom().contains(r) && r < next_row,
|   forall|j: int| 0 <= j < vp_i && vp_ks@[j] < next_row ==> intermediate_rows@.contains(#[trigger] vp_ks@[j]),
//@at loop 1 start
| let ghost vp_s = intermediate_rows@;
| proof { assert(vp_ks@.contains(vp_ks@[vp_i as int])); }
//@at loop 1 end
| proof { grown(vp_s, intermediate_rows@, vp_ks@[vp_i as int]); }
//@at before-loop 2
| proof { assert forall|r: u32| #[trigger] old(self).write_ahead@.dom().contains(r) && r < next_row implies intermediate_rows@.contains(r) by { assert(vp_ks@.contains(r)); let j = choose|j: int| 0 <= j < vp_ks@.len() && vp_ks@[j] == r; assert(vp_ks@[j] == r); }; }
//@loop 2
| invariant *self == *old(self),
|   forall|r: u32| #[trigger] intermediate_rows@.contains(r) ==> old(self).current_row < r < next_row,
|   forall|r: u32| #[trigger] old(self).write_ahead@.dom().contains(r) && r < next_row ==> intermediate_rows@.contains(r),
|   forall|r: u32| old(self).current_row < r < row_num && #[trigger] old(self).changed_rows@.dom().contains(r) ==> intermediate_rows@.contains(r),
//@at loop 2 start
| let ghost vp_s = intermediate_rows@;
//@at loop 2 end
| proof { grown(vp_s, intermediate_rows@, row_num); }
//@loop 3
| invariant rising(intermediate_rows@),
|   forall|r: u32| #[trigger] intermediate_rows@.contains(r) ==> old(self).current_row < r < next_row,
|   forall|r: u32| #[trigger] old(self).write_ahead@.dom().contains(r) && r < next_row ==> intermediate_rows@.contains(r),
|   forall|r: u32| old(self).current_row < r < next_row && #[trigger] old(self).changed_rows@.dom().contains(r) ==> intermediate_rows@.contains(r),
|   ordered(*self), old(self).current_row <= self.current_row, moved(*old(self), *self, self.current_row as int), self.current_row == (if vp_j == 0 { old(self).current_row } else { intermediate_rows@[vp_j - 1] }),
|   self.file_writer.log() == old(self).file_writer.log() + rows_to(*old(self), old(self).current_row as int, self.current_row as int),
|   forall|r: u32| #[trigger] self.write_ahead@.dom().contains(r) ==> old(self).write_ahead@.dom().contains(r),
//@at loop 3 start
| let ghost vp_b = *self;
| proof {
|   assert(intermediate_rows@.contains(intermediate_rows@[vp_j as int]));
|   if vp_j > 0 { assert(intermediate_rows@[vp_j - 1] < intermediate_rows@[vp_j as int]); }
|   between(*old(self), vp_b, intermediate_rows@, vp_j as int, intermediate_rows@[vp_j as int], next_row);
| }
//@at loop 3 end
| proof { one_flush(*old(self), vp_b, *self, intermediate_row as int); }
//@before /self\.flush_data_row\(next_row\);/
| let ghost vp_b = *self;
| proof { if intermediate_rows@.len() > 0 { assert(intermediate_rows@.contains(intermediate_rows@[intermediate_rows@.len() - 1])); } between(*old(self), vp_b, intermediate_rows@, intermediate_rows@.len() as int, next_row, next_row); }
//@after /self\.flush_data_row\(next_row\);/
| proof { one_flush(*old(self), vp_b, *self, next_row as int); total(*old(self), *self); }
//@at before-loop 3
| proof { assert(rows_to(*old(self), old(self).current_row as int, old(self).current_row as int) =~= seq![]); assert(self.file_writer.log() =~= old(self).file_writer.log() + seq![]); }
//@end
//@fn src/worksheet.rs flush_last_row impl="impl Worksheet$" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| requires ordered(*old(self)),
| ensures ordered(*final(self)), moved(*old(self), *final(self), final(self).current_row as int), old(self).current_row <= final(self).current_row,
|   // everything that was still to be written is written, in order
|   final(self).file_writer.log() == old(self).file_writer.log() + rows_to(*old(self), old(self).current_row as int, ROW_MAX as int),
|   rows_to(*final(self), final(self).current_row as int, ROW_MAX as int) == Seq::<Rec>::empty(),
|   forall|r: u32| r >= final(self).current_row ==> #[trigger] pending(*final(self), r) is None,
//@rewrite let mut remaining_rows: Vec<_> = self\.write_ahead\.keys\(\)\.copied\(\)\.collect\(\); => let mut remaining_rows: Vec<u32> = vp_keys(&self.write_ahead);
//@rewrite remaining_rows\.extend\(\s*self\.changed_rows\s*\.keys\(\)\s*\.filter\(\|row_num\| ([^()]*)\),?\s*\); => let vp_ks = vp_hash_keys(&self.changed_rows); for vp_i in 0..vp_ks.len() { let row_num = &&vp_ks[vp_i]; if \1 { remaining_rows.push(**row_num); } }
//@rewrite remaining_rows\.sort_unstable\(\) => vp_sort(&mut remaining_rows)
//@rewrite remaining_rows\.dedup\(\) => vp_dedup(&mut remaining_rows)
//@rewrite remaining_rows\.last\(\) => vp_last(&remaining_rows)
//@rewrite remaining_rows\.retain\(\|row_num\| ([^()]*)\); => let mut vp_kept: Vec<u32> = vec![]; for vp_i in 0..remaining_rows.len() { let row_num = &remaining_rows[vp_i]; if \1 { vp_kept.push(*row_num); } } let remaining_rows = vp_kept;
//@rewrite for remaining_row in remaining_rows \{ => for vp_j in 0..remaining_rows.len() { let remaining_row = remaining_rows[vp_j];
//@at body-start
| broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
//@at before-loop 1
| proof { vp_ahead(*old(self), remaining_rows@, vp_ks@); }
//@loop 1
| invariant written_ahead(*old(self), remaining_rows@), settings(*old(self), vp_ks@, remaining_rows@, vp_i as int),
//@at loop 1 start
| let ghost vp_s = remaining_rows@;
//@at loop 1 end
| proof { vp_add(*old(self), vp_s, remaining_rows@, vp_ks@, vp_i as int); }
//@at after-loop 1
| let ghost vp_s1 = remaining_rows@;
//@before /vp_sort/
| let ghost vp_s1b = remaining_rows@;
//@before /if let Some\(last_row\)/
| let ghost vp_s2 = remaining_rows@;
| proof { vp_gather(*old(self), vp_s1, vp_s1b, vp_s2, vp_ks@); if vp_s2.len() > 0 { vp_last_row(*old(self), vp_s2); } }
//@before /let mut vp_kept/
| let ghost vp_s3 = remaining_rows@;
| proof { reveal(only); reveal(whole); assert(vp_s3 == (if vp_s2.len() > 0 { vp_s2.push((vp_s2[vp_s2.len() - 1] + 1) as u32) } else { vp_s2 })); assert(rising(vp_s3)); assert(forall|r: u32| !Seq::<u32>::empty().contains(r)); assert(only(*old(self), vp_s3, seq![])); assert(whole(*old(self), vp_s3, seq![], 0)); }
//@loop 2
| invariant rising(vp_kept@), only(*old(self), vp_s3, vp_kept@), whole(*old(self), vp_s3, vp_kept@, vp_i as int), forall|r: u32| vp_kept@.contains(r) ==> below(vp_s3, vp_i as int, r),
//@at loop 2 start
| let ghost vp_s = vp_kept@;
//@at loop 2 end
| proof { vp_keep(*old(self), vp_s3, vp_s, vp_kept@, vp_i as int); }
//@at before-loop 3
| let ghost vp_k = remaining_rows@;
| let ghost vp_end = if vp_k.len() > 0 { vp_k[vp_k.len() - 1] } else { old(self).current_row };
| proof { vp_list(*old(self), vp_s2, vp_s3, vp_k, vp_end); vp_start(*old(self), vp_k); }
//@loop 3
| invariant remaining_rows@ == vp_k, route(*old(self), vp_s2, vp_k, vp_end), at(*old(self), *self, vp_k, vp_j as int),
//@at loop 3 start
| let ghost vp_b = *self;
| proof { vp_ready(*old(self), vp_b, vp_s2, vp_k, vp_j as int, vp_end); }
//@at loop 3 end
| proof { vp_next(*old(self), vp_b, *self, vp_s2, vp_k, vp_j as int, vp_end); }
//@at after-loop 3
| proof { vp_done(*old(self), *self, vp_s2, vp_k, vp_end); }
//@end
//@fn src/worksheet.rs insert_cell_to_table impl="impl Worksheet$"
| ensures final(data_table)@ == old(data_table)@.insert(row, final(data_table)@[row]), cells_at(*final(data_table), row) == Some(put(cells_at(*old(data_table), row), col, cell)),
//@rewrite sig:BTreeMap<RowNum, BTreeMap<ColNum, CellType>> => Table
//@rewrite match data_table\.entry\(row\) \{ => match vp_row(data_table, row) {
//@rewrite Entry::Occupied\(mut entry\) =. => Some(entry) =>
//@rewrite let columns = entry\.get_mut\(\); => let columns = entry;
//@rewrite Entry::Vacant\(entry\) =. => None =>
//@rewrite BTreeMap::from\(\[\(col, cell\)\]\) => vp_single(col, cell)
//@rewrite entry\.insert\(columns\); => data_table.insert(row, columns);
//@at body-start
| broadcast use vstd::std_specs::btree::group_btree_axioms;
//@end
//@fn src/worksheet.rs insert_cell impl="impl Worksheet$"
| requires ordered(*old(self)) || !old(self).use_constant_memory, row < ROW_MAX,
| ensures
|   !old(self).use_constant_memory ==> final(self).data_table@ == old(self).data_table@.insert(row, final(self).data_table@[row]) && cells_at(final(self).data_table, row) == Some(put(cells_at(old(self).data_table, row), col, cell))
|     && *final(self) == (Worksheet { data_table: final(self).data_table, ..*old(self) }),
|   // a row that was flushed stays as it is, and nothing else changes
|   old(self).use_constant_memory && row < old(self).current_row ==> *final(self) == *old(self),
|   old(self).use_constant_memory && row >= old(self).current_row ==> {
|     &&& ordered(*final(self))
|     &&& final(self).current_row == (if old(self).is_writing_ahead { old(self).current_row } else { row })
|     // the cell is put in its row and no other row that is to come changes
|     &&& pending(*final(self), row) == Some(put(pending(*old(self), row), col, cell))
|     &&& forall|r: u32| r != row && r >= final(self).current_row ==> #[trigger] pending(*final(self), r) == pending(*old(self), r)
|     // and the rows before it are written
|     &&& final(self).file_writer.log() == old(self).file_writer.log() + rows_to(*old(self), old(self).current_row as int, final(self).current_row as int)
|     &&& final(self).changed_rows == old(self).changed_rows && final(self).is_writing_ahead == old(self).is_writing_ahead && final(self).styles == old(self).styles && final(self).use_constant_memory
|   },
//@rewrite eprintln!\([^;]*\); =>
//@rewrite Self::insert_cell_to_table => Worksheet::insert_cell_to_table
//@rewrite (self\.flush_to_row\(row\);\s*\}\s*)(Worksheet::insert_cell_to_table\([^;]*;) => \1 let ghost vp_b = *self; \2 proof { vp_put(*old(self), vp_b, *self, row, col, cell); }
//@rewrite (&mut self\.write_ahead\);) => \1 proof { assert(rows_to(*old(self), old(self).current_row as int, old(self).current_row as int) =~= seq![]); assert(self.file_writer.log() =~= old(self).file_writer.log() + seq![]); }
//@end
//@fn src/worksheet.rs set_writing_ahead impl="impl Worksheet$"
| ensures *final(self) == (Worksheet { is_writing_ahead: if old(self).use_constant_memory { enable } else { old(self).is_writing_ahead }, ..*old(self) })
//@end
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet$" ret=r
| ensures r == (row < ROW_MAX && col < COL_MAX), !r ==> *final(self) == *old(self),
|   *final(self) == (Worksheet { dimensions: final(self).dimensions, ..*old(self) }),
|   // a cell that is going to be written is inside the dimensions
|   r && (!old(self).use_constant_memory || row >= old(self).current_row) ==> final(self).dimensions.first_row <= row <= final(self).dimensions.last_row && final(self).dimensions.first_col <= col <= final(self).dimensions.last_col,
|   r ==> final(self).dimensions.first_row <= old(self).dimensions.first_row && final(self).dimensions.last_row >= old(self).dimensions.last_row && final(self).dimensions.first_col <= old(self).dimensions.first_col && final(self).dimensions.last_col >= old(self).dimensions.last_col,
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end
}
}
fn main() {}
