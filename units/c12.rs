// C12: row and column settings.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::cmp;
verus! {
//@include fmt_prelude.rs
//@include hashmap_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs DEFAULT_COL_WIDTH
//@const src/worksheet.rs DEFAULT_ROW_HEIGHT
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs struct RowOptions derive=
//@item src/worksheet.rs struct ColOptions derive=
//@item src/worksheet.rs struct Worksheet keep=writer,file_writer,dimensions,changed_rows,changed_cols,max_outline_row_level,max_outline_col_level,use_constant_memory,current_row,user_default_row_height,use_x14_extensions derive= sub=Cursor<Vec<u8>>=>Writer;BufWriter<File>=>Writer
pub struct Format { pub id: u64 }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, MaxGroupLevelExceeded, Other }

// ---------------------------------------------------------------- specification
pub type Rows = Map<u32, RowOptions>;
pub type Cols = Map<u16, ColOptions>;
/// what a row without a record is like
pub open spec fn plain_row() -> RowOptions { RowOptions { height: None, xf_index: 0, level: 0, hidden: false, collapsed: false, format: None } }
pub open spec fn plain_col() -> ColOptions { ColOptions { width: DEFAULT_COL_WIDTH, user_width: 0.0, xf_index: 0, level: 0, hidden: false, collapsed: false, autofit: false, format: None } }
pub open spec fn row_at(m: Rows, r: u32) -> RowOptions { if m.dom().contains(r) { m[r] } else { plain_row() } }
pub open spec fn col_at(m: Cols, c: u16) -> ColOptions { if m.dom().contains(c) { m[c] } else { plain_col() } }
/// exactly the record of r changed, to o
pub open spec fn row_set(a: Rows, b: Rows, r: u32, o: RowOptions) -> bool { b == a.insert(r, o) }
pub open spec fn col_set(a: Cols, b: Cols, c: u16, o: ColOptions) -> bool { b == a.insert(c, o) }
/// nothing but the dimension and the settings of rows differs
pub open spec fn but_rows(a: Worksheet, b: Worksheet) -> bool {
    a.changed_cols == b.changed_cols && rest(a, b)
}
pub open spec fn but_cols(a: Worksheet, b: Worksheet) -> bool {
    a.changed_rows == b.changed_rows && rest(a, b)
}
pub open spec fn rest(a: Worksheet, b: Worksheet) -> bool {
    a.max_outline_row_level == b.max_outline_row_level && a.max_outline_col_level == b.max_outline_col_level && a.use_constant_memory == b.use_constant_memory
    && a.current_row == b.current_row && a.user_default_row_height == b.user_default_row_height && a.writer == b.writer && a.use_x14_extensions == b.use_x14_extensions
}
pub open spec fn dims_ok(w: Worksheet) -> bool { w.dimensions.first_row <= ROW_MAX && w.dimensions.first_col <= COL_MAX }
/// the width that is stored: at most 255
pub open spec fn capped(w: f64) -> f64 { if f_gt(w, 255.0) { 255.0 } else { w } }
/// a width the user set is only made larger by autofit; everything else is the last one set
pub open spec fn with_width(a: Cols, c: u16, w: f64, autofit: bool) -> ColOptions {
    let o = col_at(a, c);
    if !autofit { ColOptions { width: capped(w), user_width: capped(w), autofit: false, ..o } }
    else if !a.dom().contains(c) || f_gt(capped(w), o.user_width) { ColOptions { width: capped(w), autofit: true, ..o } }
    else { ColOptions { width: o.user_width, autofit: false, ..o } }
}
// ---- what is written
pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
pub struct Tag { pub name: Seq<char>, pub attrs: Attrs }
/// trusted: the byte writer as the sequence of tags written to it (unit c02 proves the bytes of a tag)
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn log(&self) -> Seq<Tag>; }
pub open spec fn av(v: Seq<(&'static str, String)>) -> Attrs { v.map_values(|p: (&'static str, String)| (p.0@, p.1@)) }
pub open spec fn add(a: Attrs, b: bool, k: Seq<char>, v: Seq<char>) -> Attrs { if b { a.push((k, v)) } else { a } }
broadcast proof fn av_push(s: Seq<(&'static str, String)>, x: (&'static str, String)) ensures #[trigger] av(s.push(x)) == av(s).push((x.0@, x.1@)) { assert(av(s.push(x)) =~= av(s).push((x.0@, x.1@))); }
/// a column record says first..=last have exactly these settings
pub open spec fn col_line(f: u16, l: u16, o: ColOptions) -> Tag {
    let a = seq![("min"@, dec((f + 1) as nat)), ("max"@, dec((l + 1) as nat)), ("width"@, f_text(col_width(o)))];
    let a = add(a, o.xf_index > 0, "style"@, dec(global_xf(o.xf_index) as nat));
    let a = add(a, o.autofit, "bestFit"@, "1"@);
    let a = add(a, o.hidden, "hidden"@, "1"@);
    let a = add(a, !f_eq(o.width, DEFAULT_COL_WIDTH) || o.hidden, "customWidth"@, "1"@);
    let a = add(a, o.level > 0, "outlineLevel"@, dec(o.level as nat));
    Tag { name: "col"@, attrs: add(a, o.collapsed, "collapsed"@, "1"@) }
}
/// the height a row has: its own, or the sheet's default
pub open spec fn row_height(w: Worksheet, o: RowOptions) -> f64 { match o.height { Some(h) => h, None => w.user_default_row_height } }
pub open spec fn sized(w: Worksheet, h: f64) -> bool { !f_eq(h, DEFAULT_ROW_HEIGHT) || (f_eq(h, DEFAULT_ROW_HEIGHT) && !f_eq(w.user_default_row_height, DEFAULT_ROW_HEIGHT)) }
pub open spec fn row_head(w: Worksheet, r: u32, span: Option<Seq<char>>) -> Attrs {
    let a = seq![("r"@, dec((r + 1) as nat))];
    let a = (match span { Some(s) => a.push(("spans"@, s)), None => a });
    add(a, w.use_x14_extensions, "x14ac:dyDescent"@, "0.25"@)
}
pub open spec fn row_style(a: Attrs, o: RowOptions, global: bool) -> Attrs {
    if o.xf_index != 0 { a.push(("s"@, dec(if global { global_xf(o.xf_index) } else { o.xf_index } as nat))).push(("customFormat"@, "1"@)) } else { a }
}
pub open spec fn row_size(a: Attrs, w: Worksheet, o: RowOptions) -> Attrs {
    let s = sized(w, row_height(w, o));
    add(add(add(a, s, "ht"@, f_text(row_height(w, o))), o.hidden, "hidden"@, "1"@), s, "customHeight"@, "1"@)
}
pub open spec fn row_attrs(w: Worksheet, r: u32, span: Option<Seq<char>>, o: Option<RowOptions>, global: bool) -> Attrs {
    let a = row_head(w, r, span);
    match o {
        Some(o) => {
            let a = row_size(row_style(a, o, global), w, o);
            add(add(a, o.level > 0, "outlineLevel"@, dec(o.level as nat)), o.collapsed, "collapsed"@, "1"@)
        }
        None => if !f_eq(w.user_default_row_height, DEFAULT_ROW_HEIGHT) { a.push(("ht"@, f_text(w.user_default_row_height))).push(("customHeight"@, "1"@)) } else { a },
    }
}
/// records of runs of columns: ascending, disjoint, each column that has settings in exactly one of them with its own settings, and no other column
pub struct Run { pub f: u16, pub l: u16, pub o: ColOptions }
pub open spec fn in_run(e: Run, c: u16) -> bool { e.f <= c <= e.l }
pub open spec fn ordered(es: Seq<Run>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).f <= es[i].l) && (forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).l < (#[trigger] es[j]).f)
}
pub open spec fn describes(es: Seq<Run>, m: Cols, upto: int) -> bool {
    &&& ordered(es)
    &&& forall|i: int, c: u16| 0 <= i < es.len() && #[trigger] in_run(es[i], c) ==> m.dom().contains(c) && m[c] == es[i].o && c < upto
    &&& forall|c: u16| #[trigger] m.dom().contains(c) && c < upto ==> exists|i: int| 0 <= i < es.len() && #[trigger] in_run(es[i], c)
}
pub open spec fn lines(es: Seq<Run>) -> Seq<Tag> { es.map_values(|e: Run| col_line(e.f, e.l, e.o)) }
// ---------------------------------------------------------------- trusted
pub uninterp spec fn f_gt(a: f64, b: f64) -> bool;
pub uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub uninterp spec fn f_text(a: f64) -> Seq<char>;
/// the character width of the file for a width in user units (replayed for every pixel size)
pub uninterp spec fn col_width(o: ColOptions) -> f64;
/// unit c08 proves the mapping of format indices
pub uninterp spec fn global_xf(i: u32) -> u32;
#[verifier::external_body] pub fn vp_gt(a: f64, b: f64) -> (r: bool) ensures r == f_gt(a, b) { a > b }
#[verifier::external_body] pub fn vp_eq(a: f64, b: f64) -> (r: bool) ensures r == f_eq(a, b) { a == b }
#[verifier::external_body] pub fn vp_ftext(a: f64) -> (r: String) ensures r@ == f_text(a) { a.to_string() }
#[verifier::external_body] pub fn vp_dec16(a: u16) -> (r: String) ensures r@ == dec(a as nat) { a.to_string() }
#[verifier::external_body] pub fn vp_dec32(a: u32) -> (r: String) ensures r@ == dec(a as nat) { a.to_string() }
#[verifier::external_body] pub fn vp_dec8(a: u8) -> (r: String) ensures r@ == dec(a as nat) { a.to_string() }
#[verifier::external_body] pub fn vp_str(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body] pub fn vp_width_of(o: &ColOptions) -> (r: f64) ensures r == col_width(*o) { 0.0 }
#[verifier::external_body] pub fn vp_format(f: &Format) -> (r: Format) ensures r == *f { Format { id: f.id } }
#[verifier::external_body] pub fn xml_empty_tag(w: &mut Writer, tag: &str, attributes: &Vec<(&'static str, String)>) ensures final(w).log() == old(w).log().push(Tag { name: tag@, attrs: av(attributes@) }) { }
#[verifier::external_body] pub fn xml_start_tag(w: &mut Writer, tag: &str, attributes: &Vec<(&'static str, String)>) ensures final(w).log() == old(w).log().push(Tag { name: tag@, attrs: av(attributes@) }) { }
#[verifier::external_body] pub fn xml_start_tag_only(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(Tag { name: tag@, attrs: Seq::empty() }) { }
#[verifier::external_body] pub fn xml_end_tag(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log() { }
/// trusted: the entries of the map in ascending order of their key
#[verifier::external_body] pub fn vp_sorted(m: &HashMap<u16, ColOptions>) -> (r: Vec<(u16, ColOptions)>)
    ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 < (#[trigger] r@[j]).0,
        forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
        forall|c: u16| #[trigger] m@.dom().contains(c) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == c,
        r@.len() == 0 ==> m@.dom() =~= Set::<u16>::empty(),
{ Vec::new() }
#[verifier::external_body] pub fn vp_entry(v: &Vec<(u16, ColOptions)>, i: usize) -> (r: (u16, ColOptions)) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
/// the derived comparison of column settings
#[verifier::external_body] pub fn vp_same_col(a: &ColOptions, b: &ColOptions) -> (r: bool) ensures r ==> *a == *b { false }
#[verifier::external_body] pub fn vp_no_cols(m: &HashMap<u16, ColOptions>) -> (r: bool) ensures r == (m@.dom() =~= Set::<u16>::empty()) { m.is_empty() }
impl Worksheet {
    /// trusted frame: registering a format touches only the format tables (unit c08)
    #[verifier::external_body] pub fn format_xf_index(&mut self, format: &Format) -> (r: u32) ensures *final(self) == *old(self), r == xf_of(*format) { 0 }
    #[verifier::external_body] pub fn get_global_xf_index(&self, i: u32) -> (r: u32) ensures r == global_xf(i) { 0 }
}
pub uninterp spec fn xf_of(f: Format) -> u32;
pub open spec fn vp_facts(v: Seq<(u16, ColOptions)>, m: Cols) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[j]).0
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).0) && m[v[i].0] == v[i].1 && v[i].0 < 16384
    &&& forall|c: u16| #[trigger] m.dom().contains(c) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == c
}
#[verifier::opaque] pub open spec fn alike(m: Cols, f: u16, l: u16, o: ColOptions) -> bool { forall|c: u16| f <= c <= l ==> #[trigger] m.dom().contains(c) && m[c] == o }
proof fn alike_one(m: Cols, f: u16, o: ColOptions) requires m.dom().contains(f), m[f] == o ensures alike(m, f, f, o) { reveal(alike); }
proof fn alike_more(m: Cols, f: u16, l: u16, o: ColOptions) requires l < 65535, m.dom().contains((l + 1) as u16), m[(l + 1) as u16] == o, alike(m, f, l, o) ensures alike(m, f, (l + 1) as u16, o) { reveal(alike); }
proof fn push_run(es: Seq<Run>, e: Run, m: Cols, upto: int)
    requires describes(es, m, e.f as int), e.f <= e.l, alike(m, e.f, e.l, e.o), e.l < upto,
        forall|c: u16| e.l < c < upto ==> !#[trigger] m.dom().contains(c)
    ensures describes(es.push(e), m, upto)
{
    reveal(alike);
    let n = es.push(e);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).l < (#[trigger] n[j]).f by {
        if j == es.len() { assert(in_run(es[i], es[i].l)); }
    }
    assert forall|c: u16| #[trigger] m.dom().contains(c) && c < upto implies exists|i: int| 0 <= i < n.len() && #[trigger] in_run(n[i], c) by {
        if c < e.f { let i = choose|i: int| 0 <= i < es.len() && #[trigger] in_run(es[i], c); assert(in_run(n[i], c)); }
        else { assert(in_run(n[es.len() as int], c)); }
    }
}
/// between two neighbours of the list there is no column with settings
proof fn more(v: Seq<(u16, ColOptions)>, es: Seq<Run>, e: Run, m: Cols, i: int)
    requires vp_facts(v, m), describes(es, m, e.f as int), e.f <= e.l, alike(m, e.f, e.l, e.o), 1 <= i < v.len(), e.l == v[i - 1].0
    ensures describes(es.push(e), m, v[i].0 as int)
{
    assert(v[i - 1].0 < v[i].0);
    assert forall|c: u16| e.l < c < v[i].0 implies !#[trigger] m.dom().contains(c) by {
        if m.dom().contains(c) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == c; if j < i - 1 { assert(v[j].0 < v[i - 1].0); } if j > i { assert(v[i].0 < v[j].0); } }
    }
    push_run(es, e, m, v[i].0 as int);
}
proof fn last_run(v: Seq<(u16, ColOptions)>, es: Seq<Run>, e: Run, m: Cols)
    requires vp_facts(v, m), describes(es, m, e.f as int), e.f <= e.l, alike(m, e.f, e.l, e.o), v.len() > 0, e.l == v.last().0
    ensures describes(es.push(e), m, 65536)
{
    assert forall|c: u16| e.l < c < 65536 implies !#[trigger] m.dom().contains(c) by {
        if m.dom().contains(c) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == c; if j < v.len() - 1 { assert(v[j].0 < v[v.len() - 1].0); } }
    }
    push_run(es, e, m, 65536);
}
impl Worksheet {
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384),
|   !ok ==> *final(self) == *old(self),
|   dims_ok(*old(self)) ==> dims_ok(*final(self)),
|   final(self).changed_rows == old(self).changed_rows, final(self).changed_cols == old(self).changed_cols, rest(*old(self), *final(self)),
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end
//@fn src/worksheet.rs get_min_row impl="impl Worksheet" ret=r
| ensures self.dimensions.first_row <= 1048576 ==> r < 1048576
//@end
//@fn src/worksheet.rs get_min_col impl="impl Worksheet" ret=c
| ensures self.dimensions.first_col <= 16384 ==> c < 16384
//@end
//@fn src/worksheet.rs set_row_hidden impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && row < 1048576 && but_rows(*old(self), *p) && row_set(old(self).changed_rows@, p.changed_rows@, row, RowOptions { hidden: true, ..row_at(old(self).changed_rows@, row) }),
|     Err(_) => *final(self) == *old(self) && row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@end
//@fn src/worksheet.rs set_row_unhidden impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && row < 1048576 && but_rows(*old(self), *p) && (forall|q: u32| #[trigger] row_at(p.changed_rows@, q) == if q == row { RowOptions { hidden: false, ..row_at(old(self).changed_rows@, q) } } else { row_at(old(self).changed_rows@, q) }),
|     Err(_) => *final(self) == *old(self) && row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@end
//@fn src/worksheet.rs set_row_height impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && row < 1048576 && but_rows(*old(self), *p) && row_set(old(self).changed_rows@, p.changed_rows@, row, if f_eq(height, 0.0) { RowOptions { hidden: true, ..row_at(old(self).changed_rows@, row) } } else { RowOptions { height: Some(height), ..row_at(old(self).changed_rows@, row) } }),
|     Err(_) => *final(self) == *old(self) && row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@rewrite sig:impl Into<f64> => f64
//@rewrite let height = height\.into\(\); =>
//@rewrite height == 0\.0 => vp_eq(height, 0.0)
//@end
//@fn src/worksheet.rs set_row_format impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && row < 1048576 && but_rows(*old(self), *p) && row_set(old(self).changed_rows@, p.changed_rows@, row, RowOptions { xf_index: xf_of(*format), format: Some(*format), ..row_at(old(self).changed_rows@, row) }),
|     Err(_) => *final(self) == *old(self) && row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@rewrite format\.clone\(\) => vp_format(format)
//@end
//@fn src/worksheet.rs set_default_row_height impl="impl Worksheet" ret=p
| ensures *final(self) == *final(p), p.user_default_row_height == (if f_gt(height, 0.0) { height } else { old(self).user_default_row_height }),
|   p.changed_rows == old(self).changed_rows, p.changed_cols == old(self).changed_cols, p.dimensions == old(self).dimensions,
//@rewrite sig:impl Into<f64> => f64
//@rewrite let height = height\.into\(\); =>
//@rewrite height <= 0\.0 => !vp_gt(height, 0.0)
//@end
//@fn src/worksheet.rs set_column_hidden impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && col < 16384 && but_cols(*old(self), *p) && col_set(old(self).changed_cols@, p.changed_cols@, col, ColOptions { hidden: true, ..col_at(old(self).changed_cols@, col) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@end
//@fn src/worksheet.rs set_column_format impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && col < 16384 && but_cols(*old(self), *p) && col_set(old(self).changed_cols@, p.changed_cols@, col, ColOptions { xf_index: xf_of(*format), format: Some(*format), ..col_at(old(self).changed_cols@, col) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@rewrite format\.clone\(\) => vp_format(format)
//@end
//@fn src/worksheet.rs store_column_width impl="impl Worksheet"
| ensures but_cols(*old(self), *final(self)), final(self).dimensions == old(self).dimensions, col_set(old(self).changed_cols@, final(self).changed_cols@, col, with_width(old(self).changed_cols@, col, width, autofit)),
//@rewrite width > (255\.0|col_options\.(?:user_)?width) => vp_gt(width, \1)
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
//@fn src/worksheet.rs set_column_width_internal impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && col < 16384 && but_cols(*old(self), *p) && col_set(old(self).changed_cols@, p.changed_cols@, col, if f_eq(width, 0.0) { ColOptions { hidden: true, ..col_at(old(self).changed_cols@, col) } } else { with_width(old(self).changed_cols@, col, width, autofit) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@rewrite sig:impl Into<f64> => f64
//@rewrite let width = width\.into\(\); =>
//@rewrite width == 0\.0 => vp_eq(width, 0.0)
//@end
//@fn src/worksheet.rs set_column_width impl="impl Worksheet" ret=r
| requires dims_ok(*old(self)),
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && dims_ok(*p) && col < 16384 && but_cols(*old(self), *p) && col_set(old(self).changed_cols@, p.changed_cols@, col, if f_eq(width, 0.0) { ColOptions { hidden: true, ..col_at(old(self).changed_cols@, col) } } else { with_width(old(self).changed_cols@, col, width, false) }),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@rewrite sig:impl Into<f64> => f64
//@end
//@fn src/worksheet.rs write_col_element impl="impl Worksheet"
| requires last_col < 16384, first_col < 16384,
| ensures final(self).writer.log() == old(self).writer.log().push(col_line(first_col, last_col, *col_options)), final(self).changed_cols == old(self).changed_cols,
//@rewrite if width == DEFAULT_COL_WIDTH && hidden \{[\s\S]*?(?=let mut attributes) => width = vp_width_of(col_options);
//@rewrite width != DEFAULT_COL_WIDTH => !vp_eq(width, DEFAULT_COL_WIDTH)
//@rewrite width\.to_string\(\) => vp_ftext(width)
//@rewrite col_options\.level\.to_string\(\) => vp_dec8(col_options.level)
//@rewrite (first_col|last_col)\.to_string\(\) => vp_dec16(\1)
//@rewrite xf_index\.to_string\(\) => vp_dec32(xf_index)
//@rewrite "1"\.to_string\(\) => vp_str("1")
//@at body-start
| broadcast use av_push;
//@before /if xf_index > 0/
| proof { assert(av(attributes@) =~= seq![("min"@, dec(first_col as nat)), ("max"@, dec(last_col as nat)), ("width"@, f_text(col_width(*col_options)))]); }
//@before /xml_empty_tag/
| proof { assert(av(attributes@) == col_line((first_col - 1) as u16, (last_col - 1) as u16, *col_options).attrs); }
//@end
//@fn src/worksheet.rs write_table_row impl="impl Worksheet"
| requires row_num < 1048576,
| ensures final(self).writer.log() == old(self).writer.log().push(Tag { name: "row"@, attrs: row_attrs(*old(self), row_num, match span { Some(s) => Some(s@), None => None }, match row_options { Some(o) => Some(*o), None => None }, true) }),
|   final(self).changed_rows == old(self).changed_rows, final(self).user_default_row_height == old(self).user_default_row_height,
//@rewrite \(row_num \+ 1\)\.to_string\(\) => vp_dec32(row_num + 1)
//@rewrite (?#opt)span_range\.to_string\(\) => vp_str(span_range)
//@rewrite "(0\.25|1)"\.to_string\(\) => vp_str("\1")
//@rewrite xf_index\.to_string\(\) => vp_dec32(xf_index)
//@rewrite (?<![_.\w])height != DEFAULT_ROW_HEIGHT => !vp_eq(height, DEFAULT_ROW_HEIGHT)
//@rewrite (?<![_.\w])height == DEFAULT_ROW_HEIGHT => vp_eq(height, DEFAULT_ROW_HEIGHT)
//@rewrite self\.user_default_row_height != DEFAULT_ROW_HEIGHT => !vp_eq(self.user_default_row_height, DEFAULT_ROW_HEIGHT)
//@rewrite self\.user_default_row_height\.to_string\(\) => vp_ftext(self.user_default_row_height)
//@rewrite (?<![_.\w])height\.to_string\(\) => vp_ftext(height)
//@rewrite row_options\.level\.to_string\(\) => vp_dec8(row_options.level)
//@before /if let Some\(row_options\) = row_options/
| let ghost vp_a0 = av(attributes@);
| proof { assert(vp_a0 == row_head(*self, vp_rn, match span { Some(s) => Some(s@), None => None })); }
//@before /let height = row_options/
| let ghost vp_a1 = av(attributes@);
| proof { assert(vp_a1 == row_style(vp_a0, *row_options, true)); }
//@before /if row_options\.level > 0/
| let ghost vp_a3 = av(attributes@);
| proof { assert(height == row_height(*self, *row_options)); assert(vp_a3 == row_size(vp_a1, *self, *row_options)); }
//@before /if has_data/
| proof { assert(av(attributes@) == row_attrs(*self, (vp_rn as u32), match span { Some(s) => Some(s@), None => None }, match row_options { Some(o) => Some(*o), None => None }, true)); }
//@at body-start
| broadcast use av_push;
| let ghost vp_rn = row_num;
//@end
//@fn src/worksheet.rs write_constant_table_row impl="impl Worksheet"
| requires row_num < 1048576,
| ensures final(self).file_writer.log() == old(self).file_writer.log().push(Tag { name: "row"@, attrs: row_attrs(*old(self), row_num, None, match row_options { Some(o) => Some(*o), None => None }, false) }),
|   final(self).changed_rows == old(self).changed_rows, final(self).user_default_row_height == old(self).user_default_row_height,
//@rewrite \(row_num \+ 1\)\.to_string\(\) => vp_dec32(row_num + 1)
//@rewrite (?#opt)span_range\.to_string\(\) => vp_str(span_range)
//@rewrite "(0\.25|1)"\.to_string\(\) => vp_str("\1")
//@rewrite xf_index\.to_string\(\) => vp_dec32(xf_index)
//@rewrite (?<![_.\w])height != DEFAULT_ROW_HEIGHT => !vp_eq(height, DEFAULT_ROW_HEIGHT)
//@rewrite (?<![_.\w])height == DEFAULT_ROW_HEIGHT => vp_eq(height, DEFAULT_ROW_HEIGHT)
//@rewrite self\.user_default_row_height != DEFAULT_ROW_HEIGHT => !vp_eq(self.user_default_row_height, DEFAULT_ROW_HEIGHT)
//@rewrite self\.user_default_row_height\.to_string\(\) => vp_ftext(self.user_default_row_height)
//@rewrite (?<![_.\w])height\.to_string\(\) => vp_ftext(height)
//@rewrite row_options\.level\.to_string\(\) => vp_dec8(row_options.level)
//@before /if let Some\(row_options\) = row_options/
| let ghost vp_a0 = av(attributes@);
| proof { assert(vp_a0 == row_head(*self, vp_rn, None)); }
//@before /let height = row_options/
| let ghost vp_a1 = av(attributes@);
| proof { assert(vp_a1 == row_style(vp_a0, *row_options, false)); }
//@before /if row_options\.level > 0/
| let ghost vp_a3 = av(attributes@);
| proof { assert(height == row_height(*self, *row_options)); assert(vp_a3 == row_size(vp_a1, *self, *row_options)); }
//@before /if has_data/
| proof { assert(av(attributes@) == row_attrs(*self, (vp_rn as u32), None, match row_options { Some(o) => Some(*o), None => None }, false)); }
//@at body-start
| broadcast use av_push;
| let ghost vp_rn = row_num;
//@end
//@fn src/worksheet.rs write_cols impl="impl Worksheet"
| requires forall|c: u16| #[trigger] old(self).changed_cols@.dom().contains(c) ==> c < 16384,
| ensures final(self).changed_cols == old(self).changed_cols,
|   if old(self).changed_cols@.dom() =~= Set::<u16>::empty() { final(self).writer.log() == old(self).writer.log() }
|   else { exists|es: Seq<Run>| #[trigger] describes(es, old(self).changed_cols@, 65536) && final(self).writer.log() == old(self).writer.log().push(Tag { name: "cols"@, attrs: Seq::empty() }) + lines(es) },
//@rewrite let mut col_options: Vec<_> = self\s*\.changed_cols\s*\.iter\(\)\s*\.map\(\|\(k, v\)\| \(\*k, v\.clone\(\)\)\)\s*\.collect\(\);\s*col_options\.sort_unstable_by_key\(\|x\| x\.0\);\s*let mut col_options = col_options\.into_iter\(\); => let vp_all = vp_sorted(&self.changed_cols);
//@rewrite col_options\.next\(\)\.unwrap\(\) => vp_entry(&vp_all, 0)
//@rewrite for \(col_num, col_options\) in col_options \{ => let vp_n = vp_all.len(); for vp_i in 1..vp_n { let (col_num, col_options) = vp_entry(&vp_all, vp_i);
//@rewrite col_options == prev_col_options => vp_same_col(&col_options, &prev_col_options)
//@rewrite self\.changed_cols\.is_empty\(\) => vp_no_cols(&self.changed_cols)
//@at before-loop 1
| let ghost mut vp_es: Seq<Run> = Seq::empty();
| proof { assert(vp_all@[0].0 == first_col); alike_one(self.changed_cols@, first_col, prev_col_options); }
| proof { assert(lines(vp_es) =~= Seq::<Tag>::empty()); }
//@loop 1
| invariant vp_n == vp_all.len(), self.changed_cols == old(self).changed_cols, 1 <= vp_i <= vp_n || vp_n == 0,
|   self.writer.log() =~= old(self).writer.log().push(Tag { name: "cols"@, attrs: Seq::empty() }) + lines(vp_es),
|   describes(vp_es, self.changed_cols@, first_col as int),
|   first_col <= last_col, last_col == vp_all@[vp_i - 1].0, last_col < 16384,
|   alike(self.changed_cols@, first_col, last_col, prev_col_options),
|   vp_facts(vp_all@, self.changed_cols@),
//@at loop 1 start
| let ghost vp_old = vp_es;
| let ghost vp_run = Run { f: first_col, l: last_col, o: prev_col_options };
| proof { assert(vp_all@[vp_i - 1].0 < vp_all@[vp_i as int].0); assert(self.changed_cols@.dom().contains(vp_all@[vp_i as int].0)); }
//@at loop 1 end
| proof {
|   assert(vp_all@[vp_i as int] == (col_num, col_options));
|   assert(self.changed_cols@[col_num] == col_options);
|   assert(self.changed_cols@.dom().contains(col_num));
|   if first_col == col_num {
|     alike_one(self.changed_cols@, col_num, col_options);
|     vp_es = vp_old.push(vp_run);
|     more(vp_all@, vp_old, vp_run, self.changed_cols@, vp_i as int);
|     assert(lines(vp_es) =~= lines(vp_old).push(col_line(vp_run.f, vp_run.l, vp_run.o)));
|   } else { alike_more(self.changed_cols@, first_col, vp_run.l, prev_col_options); }
| }
//@before /xml_end_tag/
| proof {
|   let run = Run { f: first_col, l: last_col, o: prev_col_options };
|   last_run(vp_all@, vp_es, run, self.changed_cols@);
|   assert(lines(vp_es.push(run)) =~= lines(vp_es).push(col_line(run.f, run.l, run.o)));
|   vp_es = vp_es.push(run);
| }
//@end
}
fn main() {}
}
