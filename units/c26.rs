// C26: outline grouping of rows and columns, row spans.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::cmp;
verus! {
//@include fmt_prelude.rs
//@include hashmap_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs DEFAULT_COL_WIDTH
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs struct RowOptions derive=
//@item src/worksheet.rs struct ColOptions derive=
//@item src/worksheet.rs struct Worksheet keep=dimensions,changed_rows,changed_cols,max_outline_row_level,max_outline_col_level,use_constant_memory,current_row,user_default_row_height,data_table,notes derive=
pub struct Format { }
pub struct CellType { }
pub struct Note { }
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, MaxGroupLevelExceeded, Other }

// ---------------------------------------------------------------- specification
pub type Rows = Map<u32, RowOptions>;
pub type Cols = Map<u16, ColOptions>;
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn grown(a: CellRange, b: CellRange, r: u32, c: u16) -> bool {
    b.first_row == min(a.first_row as int, r as int) && b.first_col == min(a.first_col as int, c as int)
    && b.last_row == max(a.last_row as int, r as int) && b.last_col == max(a.last_col as int, c as int)
}

// ---- rows
pub open spec fn rlevel(m: Rows, r: u32) -> int { if m.dom().contains(r) { m[r].level as int } else { 0 } }
pub open spec fn rmark(m: Rows, r: u32) -> bool { m.dom().contains(r) && m[r].collapsed }
/// the same record but for the outline settings; a new record has nothing else set
pub open spec fn rsame_rest(a: Rows, b: Rows, r: u32) -> bool {
    b.dom().contains(r) && if a.dom().contains(r) { b[r].height == a[r].height && b[r].xf_index == a[r].xf_index && b[r].format == a[r].format } else { b[r].height is None && b[r].xf_index == 0 && b[r].format is None }
}
/// one row put into one more group
pub open spec fn rgrouped(a: Rows, b: Rows, r: u32, hide: bool) -> bool {
    rsame_rest(a, b, r) && b[r].level == rlevel(a, r) + 1 && b[r].hidden == (hide || (a.dom().contains(r) && a[r].hidden)) && b[r].collapsed == rmark(a, r)
}
/// one row marked as the summary of a collapsed group
pub open spec fn rmarked(a: Rows, b: Rows, r: u32) -> bool {
    rsame_rest(a, b, r) && b[r].level == rlevel(a, r) && b[r].collapsed && b[r].hidden == (a.dom().contains(r) && a[r].hidden)
}
pub open spec fn rkept(a: Rows, b: Rows, r: u32) -> bool { a.dom().contains(r) == b.dom().contains(r) && (a.dom().contains(r) ==> a[r] == b[r]) }
/// levels at most seven, and the sheet's maximum is the greatest of them
pub open spec fn rlevels_ok(w: Worksheet) -> bool {
    (forall|r: u32| #[trigger] rlevel(w.changed_rows@, r) <= w.max_outline_row_level) && w.max_outline_row_level <= 7 && (w.max_outline_row_level == 0 || exists|r: u32| #[trigger] rlevel(w.changed_rows@, r) == w.max_outline_row_level)
}
pub open spec fn rothers(a: Worksheet, b: Worksheet) -> bool {
    a.changed_cols == b.changed_cols && a.max_outline_col_level == b.max_outline_col_level && a.use_constant_memory == b.use_constant_memory && a.current_row == b.current_row
    && a.data_table == b.data_table && a.notes == b.notes && a.user_default_row_height == b.user_default_row_height
}
/// a request to group first..=last can be met
pub open spec fn rcan(m: Rows, first: u32, last: u32) -> bool {
    first <= last < 1048576 && (forall|r: u32| first <= r <= last ==> #[trigger] rlevel(m, r) < 7)
}
/// one row put into one more group and nothing else changed
pub open spec fn rstep(a: Worksheet, b: Worksheet, r: u32, hide: bool) -> bool {
    &&& rothers(a, b) && a.dimensions == b.dimensions
    &&& rgrouped(a.changed_rows@, b.changed_rows@, r, hide)
    &&& forall|q: u32| q != r ==> #[trigger] rkept(a.changed_rows@, b.changed_rows@, q)
    &&& rlevels_ok(b)
}
/// exactly first..=last grouped
pub open spec fn rrange(a: Rows, b: Rows, first: u32, last: int, hide: bool) -> bool {
    &&& forall|q: u32| first <= q <= last ==> #[trigger] rgrouped(a, b, q, hide)
    &&& forall|q: u32| !(first <= q <= last) ==> #[trigger] rkept(a, b, q)
}
/// n marked as the summary and nothing else changed
pub open spec fn rafter(a: Rows, b: Rows, n: u32) -> bool { rmarked(a, b, n) && forall|q: u32| q != n ==> #[trigger] rkept(a, b, q) }
/// exactly first..=last grouped and hidden, the next one marked
pub open spec fn rcollapsed(a: Rows, b: Rows, first: u32, last: u32) -> bool {
    &&& forall|q: u32| first <= q <= last ==> #[trigger] rgrouped(a, b, q, true)
    &&& rmarked(a, b, (last + 1) as u32)
    &&& forall|q: u32| !(first <= q <= last + 1) ==> #[trigger] rkept(a, b, q)
}
proof fn rjoined(a: Rows, m: Rows, first: u32, last: u32)
    requires rrange(a, m, first, last as int, true), first <= last, last < u32::MAX
    ensures forall|b: Rows| #[trigger] rafter(m, b, (last + 1) as u32) ==> rcollapsed(a, b, first, last)
{
    let n = (last + 1) as u32;
    assert forall|b: Rows| #[trigger] rafter(m, b, n) implies rcollapsed(a, b, first, last) by {
        assert forall|q: u32| first <= q <= last implies #[trigger] rgrouped(a, b, q, true) by { assert(rgrouped(a, m, q, true)); assert(rkept(m, b, q)); }
        assert(rkept(a, m, n));
        assert forall|q: u32| !(first <= q <= last + 1) implies #[trigger] rkept(a, b, q) by { assert(rkept(a, m, q)); assert(rkept(m, b, q)); }
    }
}
/// the sheet's maximum after one row was raised to level l
proof fn rraised(a: Worksheet, b: Worksheet, r: u32)
    requires rlevels_ok(a), forall|q: u32| q != r ==> #[trigger] rkept(a.changed_rows@, b.changed_rows@, q), rlevel(b.changed_rows@, r) <= 7, rlevel(b.changed_rows@, r) >= rlevel(a.changed_rows@, r),
        b.max_outline_row_level == max(a.max_outline_row_level as int, rlevel(b.changed_rows@, r))
    ensures rlevels_ok(b)
{
    assert forall|q: u32| #[trigger] rlevel(b.changed_rows@, q) <= b.max_outline_row_level by { if q != r { assert(rkept(a.changed_rows@, b.changed_rows@, q)); assert(rlevel(a.changed_rows@, q) <= a.max_outline_row_level); } }
    if b.max_outline_row_level != 0 {
        if b.max_outline_row_level == rlevel(b.changed_rows@, r) { } else {
            let q = choose|q: u32| #[trigger] rlevel(a.changed_rows@, q) == a.max_outline_row_level;
            assert(q != r);
            assert(rkept(a.changed_rows@, b.changed_rows@, q));
            assert(rlevel(b.changed_rows@, q) == b.max_outline_row_level);
        }
    }
}

// ---- columns
pub open spec fn clevel(m: Cols, r: u16) -> int { if m.dom().contains(r) { m[r].level as int } else { 0 } }
pub open spec fn cmark(m: Cols, r: u16) -> bool { m.dom().contains(r) && m[r].collapsed }
/// the same record but for the outline settings; a new record has nothing else set
pub open spec fn csame_rest(a: Cols, b: Cols, r: u16) -> bool {
    b.dom().contains(r) && if a.dom().contains(r) { b[r].width == a[r].width && b[r].xf_index == a[r].xf_index && b[r].format == a[r].format && b[r].autofit == a[r].autofit } else { b[r].width == DEFAULT_COL_WIDTH && b[r].xf_index == 0 && b[r].format is None && !b[r].autofit }
}
/// one column put into one more group
pub open spec fn cgrouped(a: Cols, b: Cols, r: u16, hide: bool) -> bool {
    csame_rest(a, b, r) && b[r].level == clevel(a, r) + 1 && b[r].hidden == (hide || (a.dom().contains(r) && a[r].hidden)) && b[r].collapsed == cmark(a, r)
}
/// one column marked as the summary of a collapsed group
pub open spec fn cmarked(a: Cols, b: Cols, r: u16) -> bool {
    csame_rest(a, b, r) && b[r].level == clevel(a, r) && b[r].collapsed && b[r].hidden == (a.dom().contains(r) && a[r].hidden)
}
pub open spec fn ckept(a: Cols, b: Cols, r: u16) -> bool { a.dom().contains(r) == b.dom().contains(r) && (a.dom().contains(r) ==> a[r] == b[r]) }
/// levels at most seven, and the sheet's maximum is the greatest of them
pub open spec fn clevels_ok(w: Worksheet) -> bool {
    (forall|r: u16| #[trigger] clevel(w.changed_cols@, r) <= w.max_outline_col_level) && w.max_outline_col_level <= 7 && (w.max_outline_col_level == 0 || exists|r: u16| #[trigger] clevel(w.changed_cols@, r) == w.max_outline_col_level)
}
pub open spec fn cothers(a: Worksheet, b: Worksheet) -> bool {
    a.changed_rows == b.changed_rows && a.max_outline_row_level == b.max_outline_row_level && a.use_constant_memory == b.use_constant_memory && a.current_row == b.current_row
    && a.data_table == b.data_table && a.notes == b.notes && a.user_default_row_height == b.user_default_row_height
}
/// a request to group first..=last can be met
pub open spec fn ccan(m: Cols, first: u16, last: u16) -> bool {
    first <= last < 16384 && (forall|r: u16| first <= r <= last ==> #[trigger] clevel(m, r) < 7)
}
/// one column put into one more group and nothing else changed
pub open spec fn cstep(a: Worksheet, b: Worksheet, r: u16, hide: bool) -> bool {
    &&& cothers(a, b) && a.dimensions == b.dimensions
    &&& cgrouped(a.changed_cols@, b.changed_cols@, r, hide)
    &&& forall|q: u16| q != r ==> #[trigger] ckept(a.changed_cols@, b.changed_cols@, q)
    &&& clevels_ok(b)
}
/// exactly first..=last grouped
pub open spec fn crange(a: Cols, b: Cols, first: u16, last: int, hide: bool) -> bool {
    &&& forall|q: u16| first <= q <= last ==> #[trigger] cgrouped(a, b, q, hide)
    &&& forall|q: u16| !(first <= q <= last) ==> #[trigger] ckept(a, b, q)
}
/// n marked as the summary and nothing else changed
pub open spec fn cafter(a: Cols, b: Cols, n: u16) -> bool { cmarked(a, b, n) && forall|q: u16| q != n ==> #[trigger] ckept(a, b, q) }
/// exactly first..=last grouped and hidden, the next one marked
pub open spec fn ccollapsed(a: Cols, b: Cols, first: u16, last: u16) -> bool {
    &&& forall|q: u16| first <= q <= last ==> #[trigger] cgrouped(a, b, q, true)
    &&& cmarked(a, b, (last + 1) as u16)
    &&& forall|q: u16| !(first <= q <= last + 1) ==> #[trigger] ckept(a, b, q)
}
proof fn cjoined(a: Cols, m: Cols, first: u16, last: u16)
    requires crange(a, m, first, last as int, true), first <= last, last < u16::MAX
    ensures forall|b: Cols| #[trigger] cafter(m, b, (last + 1) as u16) ==> ccollapsed(a, b, first, last)
{
    let n = (last + 1) as u16;
    assert forall|b: Cols| #[trigger] cafter(m, b, n) implies ccollapsed(a, b, first, last) by {
        assert forall|q: u16| first <= q <= last implies #[trigger] cgrouped(a, b, q, true) by { assert(cgrouped(a, m, q, true)); assert(ckept(m, b, q)); }
        assert(ckept(a, m, n));
        assert forall|q: u16| !(first <= q <= last + 1) implies #[trigger] ckept(a, b, q) by { assert(ckept(a, m, q)); assert(ckept(m, b, q)); }
    }
}
/// the sheet's maximum after one column was raised to level l
proof fn craised(a: Worksheet, b: Worksheet, r: u16)
    requires clevels_ok(a), forall|q: u16| q != r ==> #[trigger] ckept(a.changed_cols@, b.changed_cols@, q), clevel(b.changed_cols@, r) <= 7, clevel(b.changed_cols@, r) >= clevel(a.changed_cols@, r),
        b.max_outline_col_level == max(a.max_outline_col_level as int, clevel(b.changed_cols@, r))
    ensures clevels_ok(b)
{
    assert forall|q: u16| #[trigger] clevel(b.changed_cols@, q) <= b.max_outline_col_level by { if q != r { assert(ckept(a.changed_cols@, b.changed_cols@, q)); assert(clevel(a.changed_cols@, q) <= a.max_outline_col_level); } }
    if b.max_outline_col_level != 0 {
        if b.max_outline_col_level == clevel(b.changed_cols@, r) { } else {
            let q = choose|q: u16| #[trigger] clevel(a.changed_cols@, q) == a.max_outline_col_level;
            assert(q != r);
            assert(ckept(a.changed_cols@, b.changed_cols@, q));
            assert(clevel(b.changed_cols@, q) == b.max_outline_col_level);
        }
    }
}

// ---- spans
pub open spec fn used(w: Worksheet, r: u32, c: u16) -> bool {
    (w.data_table@.dom().contains(r) && w.data_table@[r]@.dom().contains(c)) || (w.notes@.dom().contains(r) && w.notes@[r]@.dom().contains(c))
}
/// the columns used by the rows of block k below row i
pub open spec fn upto(w: Worksheet, k: int, i: int) -> ISet<u16> { ISet::new(|c: u16| exists|r: u32| r as int / 16 == k && r < i && #[trigger] used(w, r, c)) }
pub open spec fn block(w: Worksheet, k: int) -> ISet<u16> { upto(w, k, 16 * k + 16) }
/// the least and the greatest column of a set; COL_MAX is "none yet"
pub open spec fn extent(s: ISet<u16>, mn: u16, mx: u16) -> bool {
    (mn == COL_MAX && s =~= ISet::<u16>::empty()) || (mn < COL_MAX && mx < COL_MAX && s.contains(mn) && s.contains(mx) && forall|c: u16| #[trigger] s.contains(c) ==> mn <= c <= mx)
}
pub open spec fn span_text(mn: u16, mx: u16) -> Seq<char> { dec((mn + 1) as nat) + seq![':'] + dec((mx + 1) as nat) }
/// the span of a block is exactly the columns its rows use, and a block without any has none
pub open spec fn span_ok(w: Worksheet, m: Map<u32, String>, k: u32) -> bool {
    if block(w, k as int) =~= ISet::<u16>::empty() { !m.dom().contains(k) }
    else { m.dom().contains(k) && exists|mn: u16, mx: u16| mn < COL_MAX && #[trigger] extent(block(w, k as int), mn, mx) && m[k]@ == span_text(mn, mx) }
}
/// the cells and the notes lie in the dimension, which lies in the sheet
pub open spec fn covered(w: Worksheet) -> bool {
    w.dimensions.last_row < ROW_MAX && w.dimensions.first_row <= ROW_MAX
    && forall|r: u32, c: u16| #[trigger] used(w, r, c) ==> w.dimensions.first_row <= r <= w.dimensions.last_row && c < COL_MAX
}
pub open spec fn vset(v: Seq<u16>) -> ISet<u16> { ISet::new(|c: u16| v.contains(c)) }
pub open spec fn dset<V>(m: &BTreeMap<u16, V>) -> ISet<u16> { ISet::new(|c: u16| m@.dom().contains(c)) }
pub open spec fn row_cols(w: Worksheet, r: u32) -> ISet<u16> { ISet::new(|c: u16| used(w, r, c)) }
proof fn one_more(v: Seq<u16>, i: int)
    requires 0 <= i < v.len()
    ensures vset(v.take(i + 1)) =~= vset(v.take(i)).insert(v[i])
{
    let a = v.take(i + 1);
    assert forall|c: u16| vset(a).contains(c) == vset(v.take(i)).insert(v[i]).contains(c) by {
        if a.contains(c) { let j = choose|j: int| 0 <= j < a.len() && a[j] == c; if j < i { assert(v.take(i)[j] == c); } }
        if v.take(i).contains(c) { let j = choose|j: int| 0 <= j < i && v.take(i)[j] == c; assert(a[j] == c); }
        assert(a[i] == v[i]);
    }
}
proof fn all_cols(v: Seq<u16>) ensures vset(v.take(v.len() as int)) =~= vset(v) { assert(v.take(v.len() as int) =~= v); }
/// one more row of the block
proof fn one_row(w: Worksheet, r: u32)
    ensures upto(w, r as int / 16, r + 1) =~= upto(w, r as int / 16, r as int).union(row_cols(w, r)), r % 16 == 0 ==> upto(w, r as int / 16, r as int) =~= ISet::<u16>::empty()
{
    let k = r as int / 16;
    assert forall|c: u16| upto(w, k, r + 1).contains(c) == upto(w, k, r as int).union(row_cols(w, r)).contains(c) by {
        if upto(w, k, r + 1).contains(c) { let q = choose|q: u32| q as int / 16 == k && q < r + 1 && #[trigger] used(w, q, c); assert(used(w, q, c)); }
        if upto(w, k, r as int).contains(c) { let q = choose|q: u32| q as int / 16 == k && q < r && #[trigger] used(w, q, c); assert(used(w, q, c)); }
        if row_cols(w, r).contains(c) { assert(used(w, r, c)); }
    }
}
#[verifier::external_body] pub fn vp_cols<V>(m: &BTreeMap<ColNum, V>) -> (r: Vec<ColNum>) ensures forall|c: u16| m@.dom().contains(c) <==> #[trigger] r@.contains(c) { m.keys().copied().collect() }

impl Worksheet {
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384),
|   !ok ==> *final(self) == *old(self),
|   final(self).dimensions.first_row <= old(self).dimensions.first_row && final(self).dimensions.first_col <= old(self).dimensions.first_col,
|   rothers(*old(self), *final(self)) && cothers(*old(self), *final(self)),
|   ok && !old(self).use_constant_memory ==> grown(old(self).dimensions, final(self).dimensions, row, col),
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs get_min_row impl="impl Worksheet" ret=r
| ensures self.dimensions.first_row <= 1048576 ==> r < 1048576, r == self.dimensions.first_row || (self.dimensions.first_row == 1048576 && r == 0)
//@end
//@fn src/worksheet.rs get_min_col impl="impl Worksheet" ret=c
| ensures self.dimensions.first_col <= 16384 ==> c < 16384, c == self.dimensions.first_col || (self.dimensions.first_col == 16384 && c == 0)
//@end

//@fn src/worksheet.rs set_grouped_row impl="impl Worksheet" ret=r
| requires rlevels_ok(*old(self)),
| ensures match r {
|     Ok(p) => rlevel(old(self).changed_rows@, row) < 7 && rstep(*old(self), *p, row, collapsed) && *final(self) == *final(p),
|     Err(_) => *final(self) == *old(self) && rlevel(old(self).changed_rows@, row) == 7,
|   },
//@rewrite std::cmp::max\((next_level|1), self\.max_outline_row_level\) => if self.max_outline_row_level >= \1 { self.max_outline_row_level } else { \1 }
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { assert(rlevel(old(self).changed_rows@, row) <= 7); }
//@before /Ok\(self\)/
| proof {
|   assert forall|q: u32| q != row implies #[trigger] rkept(old(self).changed_rows@, self.changed_rows@, q) by { }
|   rraised(*old(self), *self, row);
| }
//@end
//@fn src/worksheet.rs set_collapsed_row impl="impl Worksheet" ret=r
| requires rlevels_ok(*old(self)), old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && row < 1048576 && rothers(*old(self), *p) && rlevels_ok(*p) && rafter(old(self).changed_rows@, p.changed_rows@, row),
|     Err(_) => *final(self) == *old(self) && row >= 1048576,
|   },
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@before /Ok\(self\)/
| proof {
|   assert forall|q: u32| q != row implies #[trigger] rkept(old(self).changed_rows@, self.changed_rows@, q) by { }
|   assert(rlevel(old(self).changed_rows@, row) <= old(self).max_outline_row_level);
|   rraised(*old(self), *self, row);
| }
//@end
//@fn src/worksheet.rs set_grouped_rows impl="impl Worksheet" ret=r
| requires rlevels_ok(*old(self)), old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && rcan(old(self).changed_rows@, first_row, last_row) && rothers(*old(self), *p) && rlevels_ok(*p)
|         && rrange(old(self).changed_rows@, p.changed_rows@, first_row, last_row as int, collapsed) && p.dimensions.first_col <= 16384,
|     Err(_) => *final(self) == *old(self) && !rcan(old(self).changed_rows@, first_row, last_row),
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite for (row|col|column) in first_row\.\.=last_row \{(?=\s*if) => let mut vp_i = first_row; while vp_i <= last_row { let \1 = vp_i; vp_i += 1;
//@rewrite for (row|col|column) in first_row\.\.=last_row \{(?=\s*self) => let mut vp_j = first_row; while vp_j <= last_row { let \1 = vp_j; vp_j += 1;
//@before /return Err\(XlsxError::MaxGroupLevelExceeded\)/
| proof { assert(rlevel(self.changed_rows@, (vp_i - 1) as u32) >= 7); }
//@loop 1
| invariant first_row <= vp_i <= last_row + 1, last_row < 1048576, *self == *old(self), forall|q: u32| first_row <= q < vp_i ==> #[trigger] rlevel(self.changed_rows@, q) < 7,
| decreases last_row + 1 - vp_i
//@loop 2
| invariant first_row <= vp_j <= last_row + 1, last_row < 1048576, rcan(old(self).changed_rows@, first_row, last_row), rothers(*old(self), *self), rlevels_ok(*self), self.dimensions.first_col <= 16384,
|   rrange(old(self).changed_rows@, self.changed_rows@, first_row, vp_j - 1, collapsed),
| decreases last_row + 1 - vp_j
//@at loop 2 start
| let ghost vp_prev = *self;
| proof { assert(rkept(old(self).changed_rows@, self.changed_rows@, vp_j)); assert(rlevel(old(self).changed_rows@, vp_j) < 7); }
//@at loop 2 end
| proof {
|   assert forall|q: u32| first_row <= q <= vp_j - 1 implies #[trigger] rgrouped(old(self).changed_rows@, self.changed_rows@, q, collapsed) by {
|     if q < vp_j - 1 { assert(rgrouped(old(self).changed_rows@, vp_prev.changed_rows@, q, collapsed)); assert(rkept(vp_prev.changed_rows@, self.changed_rows@, q)); }
|   }
|   assert forall|q: u32| !(first_row <= q <= vp_j - 1) implies #[trigger] rkept(old(self).changed_rows@, self.changed_rows@, q) by {
|     assert(rkept(old(self).changed_rows@, vp_prev.changed_rows@, q)); assert(rkept(vp_prev.changed_rows@, self.changed_rows@, q));
|   }
| }
//@end
//@fn src/worksheet.rs group_rows impl="impl Worksheet" ret=r
| requires rlevels_ok(*old(self)), old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && rcan(old(self).changed_rows@, first_row, last_row) && rothers(*old(self), *p) && rlevels_ok(*p)
|         && rrange(old(self).changed_rows@, p.changed_rows@, first_row, last_row as int, false),
|     Err(_) => *final(self) == *old(self) && !rcan(old(self).changed_rows@, first_row, last_row),
|   },
//@end
//@fn src/worksheet.rs group_rows_collapsed impl="impl Worksheet" ret=r
| requires rlevels_ok(*old(self)), old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && rcan(old(self).changed_rows@, first_row, last_row) && last_row + 1 < 1048576 && rothers(*old(self), *p) && rlevels_ok(*p)
|         && rcollapsed(old(self).changed_rows@, p.changed_rows@, first_row, last_row),
|     Err(_) => *final(self) == *old(self) && (!rcan(old(self).changed_rows@, first_row, last_row) || last_row + 1 >= 1048576),
|   },
//@rewrite last_row\.saturating_add\(1\) => if last_row == u32::MAX { last_row } else { last_row + 1 }
//@before /self\.set_collapsed_row/
| proof { rjoined(old(self).changed_rows@, self.changed_rows@, first_row, last_row); }
//@end

//@fn src/worksheet.rs set_grouped_column impl="impl Worksheet" ret=r
| requires clevels_ok(*old(self)),
| ensures match r {
|     Ok(p) => clevel(old(self).changed_cols@, column) < 7 && cstep(*old(self), *p, column, collapsed) && *final(self) == *final(p),
|     Err(_) => *final(self) == *old(self) && clevel(old(self).changed_cols@, column) == 7,
|   },
//@rewrite std::cmp::max\((next_level|1), self\.max_outline_col_level\) => if self.max_outline_col_level >= \1 { self.max_outline_col_level } else { \1 }
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { assert(clevel(old(self).changed_cols@, column) <= 7); }
//@before /Ok\(self\)/
| proof {
|   assert forall|q: u16| q != column implies #[trigger] ckept(old(self).changed_cols@, self.changed_cols@, q) by { }
|   craised(*old(self), *self, column);
| }
//@end
//@fn src/worksheet.rs set_collapsed_column impl="impl Worksheet" ret=r
| requires clevels_ok(*old(self)), old(self).dimensions.first_row <= 1048576,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && col < 16384 && cothers(*old(self), *p) && clevels_ok(*p) && cafter(old(self).changed_cols@, p.changed_cols@, col),
|     Err(_) => *final(self) == *old(self) && col >= 16384,
|   },
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@before /Ok\(self\)/
| proof {
|   assert forall|q: u16| q != col implies #[trigger] ckept(old(self).changed_cols@, self.changed_cols@, q) by { }
|   assert(clevel(old(self).changed_cols@, col) <= old(self).max_outline_col_level);
|   craised(*old(self), *self, col);
| }
//@end
//@fn src/worksheet.rs set_grouped_columns impl="impl Worksheet" ret=r
| requires clevels_ok(*old(self)), old(self).dimensions.first_row <= 1048576,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && ccan(old(self).changed_cols@, first_col, last_col) && cothers(*old(self), *p) && clevels_ok(*p)
|         && crange(old(self).changed_cols@, p.changed_cols@, first_col, last_col as int, collapsed) && p.dimensions.first_row <= 1048576,
|     Err(_) => *final(self) == *old(self) && !ccan(old(self).changed_cols@, first_col, last_col),
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite for (row|col|column) in first_col\.\.=last_col \{(?=\s*if) => let mut vp_i = first_col; while vp_i <= last_col { let \1 = vp_i; vp_i += 1;
//@rewrite for (row|col|column) in first_col\.\.=last_col \{(?=\s*self) => let mut vp_j = first_col; while vp_j <= last_col { let \1 = vp_j; vp_j += 1;
//@before /return Err\(XlsxError::MaxGroupLevelExceeded\)/
| proof { assert(clevel(self.changed_cols@, (vp_i - 1) as u16) >= 7); }
//@loop 1
| invariant first_col <= vp_i <= last_col + 1, last_col < 16384, *self == *old(self), forall|q: u16| first_col <= q < vp_i ==> #[trigger] clevel(self.changed_cols@, q) < 7,
| decreases last_col + 1 - vp_i
//@loop 2
| invariant first_col <= vp_j <= last_col + 1, last_col < 16384, ccan(old(self).changed_cols@, first_col, last_col), cothers(*old(self), *self), clevels_ok(*self), self.dimensions.first_row <= 1048576,
|   crange(old(self).changed_cols@, self.changed_cols@, first_col, vp_j - 1, collapsed),
| decreases last_col + 1 - vp_j
//@at loop 2 start
| let ghost vp_prev = *self;
| proof { assert(ckept(old(self).changed_cols@, self.changed_cols@, vp_j)); assert(clevel(old(self).changed_cols@, vp_j) < 7); }
//@at loop 2 end
| proof {
|   assert forall|q: u16| first_col <= q <= vp_j - 1 implies #[trigger] cgrouped(old(self).changed_cols@, self.changed_cols@, q, collapsed) by {
|     if q < vp_j - 1 { assert(cgrouped(old(self).changed_cols@, vp_prev.changed_cols@, q, collapsed)); assert(ckept(vp_prev.changed_cols@, self.changed_cols@, q)); }
|   }
|   assert forall|q: u16| !(first_col <= q <= vp_j - 1) implies #[trigger] ckept(old(self).changed_cols@, self.changed_cols@, q) by {
|     assert(ckept(old(self).changed_cols@, vp_prev.changed_cols@, q)); assert(ckept(vp_prev.changed_cols@, self.changed_cols@, q));
|   }
| }
//@end
//@fn src/worksheet.rs group_columns impl="impl Worksheet" ret=r
| requires clevels_ok(*old(self)), old(self).dimensions.first_row <= 1048576,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && ccan(old(self).changed_cols@, first_col, last_col) && cothers(*old(self), *p) && clevels_ok(*p)
|         && crange(old(self).changed_cols@, p.changed_cols@, first_col, last_col as int, false),
|     Err(_) => *final(self) == *old(self) && !ccan(old(self).changed_cols@, first_col, last_col),
|   },
//@end
//@fn src/worksheet.rs group_columns_collapsed impl="impl Worksheet" ret=r
| requires clevels_ok(*old(self)), old(self).dimensions.first_row <= 1048576,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && ccan(old(self).changed_cols@, first_col, last_col) && last_col + 1 < 16384 && cothers(*old(self), *p) && clevels_ok(*p)
|         && ccollapsed(old(self).changed_cols@, p.changed_cols@, first_col, last_col),
|     Err(_) => *final(self) == *old(self) && (!ccan(old(self).changed_cols@, first_col, last_col) || last_col + 1 >= 16384),
|   },
//@rewrite last_col\.saturating_add\(1\) => if last_col == u16::MAX { last_col } else { last_col + 1 }
//@before /self\.set_collapsed_column/
| proof { cjoined(old(self).changed_cols@, self.changed_cols@, first_col, last_col); }
//@end

//@fn src/worksheet.rs calculate_spans impl="impl Worksheet" ret=m
| requires covered(*old(self)),
| ensures *final(self) == *old(self), forall|k: u32| #[trigger] span_ok(*old(self), m@, k),
//@rewrite for row_num in self\.dimensions\.first_row\.\.=self\.dimensions\.last_row \{ => let mut vp_r = self.dimensions.first_row; while vp_r <= self.dimensions.last_row { let row_num = vp_r; vp_r += 1;
//@rewrite for &col_num in columns\.keys\(\) \{ => let vp_k = vp_cols(columns); let vp_n = vp_k.len(); for vp_i in 0..vp_n { let col_num = vp_k[vp_i];
//@rewrite cmp::min\(span_min, col_num\) => if span_min <= col_num { span_min } else { col_num }
//@rewrite cmp::max\(span_max, col_num\) => if span_max >= col_num { span_max } else { col_num }
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms;
| let ghost mut vp_seen: ISet<u16> = ISet::empty();
//@at before-loop 1
| proof {
|   assert(upto(*self, vp_r as int / 16, vp_r as int) =~= ISet::<u16>::empty());
|   assert forall|k: u32| 16 * k + 16 <= vp_r implies #[trigger] span_ok(*self, spans@, k) by { assert(block(*self, k as int) =~= ISet::<u16>::empty()); }
| }
//@loop 1
| invariant covered(*self), *self == *old(self), self.dimensions.first_row <= vp_r, vp_r <= self.dimensions.last_row + 1 || (vp_r == self.dimensions.first_row && vp_r <= ROW_MAX && spans@ == Map::<u32, String>::empty()),
|   vp_r <= self.dimensions.last_row ==> vp_seen =~= upto(*self, vp_r as int / 16, vp_r as int) && extent(vp_seen, span_min, span_max)
|     && (forall|k: u32| 16 * k + 16 <= vp_r ==> #[trigger] span_ok(*self, spans@, k)) && (forall|k: u32| 16 * k + 16 > vp_r ==> !#[trigger] spans@.dom().contains(k)),
|   self.dimensions.last_row < vp_r ==> forall|k: u32| #[trigger] span_ok(*self, spans@, k),
| decreases ROW_MAX + 1 - vp_r
//@at loop 1 start
| let ghost vp_s0 = vp_seen;
//@at before-loop 2
| let ghost vp_s1 = vp_seen;
| proof { assert(vset(vp_k@.take(0)) =~= ISet::<u16>::empty()); assert forall|j: int| 0 <= j < vp_n implies #[trigger] vp_k@[j] < COL_MAX by { assert(vp_k@.contains(vp_k@[j])); assert(used(*self, row_num, vp_k@[j])); } }
//@loop 2
| invariant vp_n == vp_k.len(), extent(vp_seen, span_min, span_max), vp_seen =~= vp_s1.union(vset(vp_k@.take(vp_i as int))), forall|j: int| 0 <= j < vp_n ==> #[trigger] vp_k@[j] < COL_MAX
//@at loop 2 end
| proof { vp_seen = vp_seen.insert(col_num); one_more(vp_k@, vp_i as int); assert(vp_seen =~= vp_s1.union(vset(vp_k@.take(vp_i + 1)))); }
//@at after-loop 2
| proof { all_cols(vp_k@); assert(vp_seen =~= vp_s1.union(dset(columns))); }
//@at before-loop 3
| let ghost vp_s2 = vp_seen;
| proof { assert(vset(vp_k@.take(0)) =~= ISet::<u16>::empty()); assert forall|j: int| 0 <= j < vp_n implies #[trigger] vp_k@[j] < COL_MAX by { assert(vp_k@.contains(vp_k@[j])); assert(used(*self, row_num, vp_k@[j])); } }
//@loop 3
| invariant vp_n == vp_k.len(), extent(vp_seen, span_min, span_max), vp_seen =~= vp_s2.union(vset(vp_k@.take(vp_i as int))), forall|j: int| 0 <= j < vp_n ==> #[trigger] vp_k@[j] < COL_MAX
//@at loop 3 end
| proof { vp_seen = vp_seen.insert(col_num); one_more(vp_k@, vp_i as int); assert(vp_seen =~= vp_s2.union(vset(vp_k@.take(vp_i + 1)))); }
//@at after-loop 3
| proof { all_cols(vp_k@); assert(vp_seen =~= vp_s2.union(dset(columns))); }
//@before /if \(row_num \+ 1\) % 16 == 0/
| proof {
|   assert(vp_seen =~= vp_s0.union(row_cols(*self, row_num)));
|   one_row(*self, row_num);
|   assert(vp_seen =~= upto(*self, row_num as int / 16, row_num + 1));
|   let k0 = row_num / 16;
|   if (row_num + 1) % 16 == 0 || row_num == self.dimensions.last_row {
|     assert(block(*self, k0 as int) =~= upto(*self, k0 as int, row_num + 1)) by {
|       assert forall|c: u16| block(*self, k0 as int).contains(c) implies upto(*self, k0 as int, row_num + 1).contains(c) by {
|         let r = choose|r: u32| r as int / 16 == k0 && r < 16 * k0 + 16 && #[trigger] used(*self, r, c); assert(used(*self, r, c)); }
|     }
|     assert(vp_seen =~= block(*self, k0 as int));
|   }
| }
| let ghost vp_mn = span_min;
| let ghost vp_mx = span_max;
| let ghost vp_old = spans@;
//@before /spans\.insert\(/
| proof { assert(span_range@ =~= span_text(vp_mn, vp_mx)); assert(extent(block(*self, span_index as int), vp_mn, vp_mx)); }
//@at loop 1 end
| proof {
|   broadcast use vstd::std_specs::hash::group_hash_axioms;
|   let k0 = row_num / 16;
|   if (row_num + 1) % 16 == 0 || row_num == self.dimensions.last_row {
|     vp_seen = ISet::empty();
|     assert(span_ok(*self, spans@, k0));
|   }
|   assert forall|k: u32| 16 * k + 16 <= vp_r implies #[trigger] span_ok(*self, spans@, k) by { if k != k0 { assert(span_ok(*self, vp_old, k)); } }
|   if self.dimensions.last_row < vp_r {
|     assert forall|k: u32| #[trigger] span_ok(*self, spans@, k) by { if k > k0 { assert(block(*self, k as int) =~= ISet::<u16>::empty()); } else if k < k0 { assert(span_ok(*self, vp_old, k)); } }
|   }
| }
//@end
}
fn main() {}
}
