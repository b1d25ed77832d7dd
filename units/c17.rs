// C17: what a save changes is undone or recomputed by the next.  Extracted from /repo/src on every run.
use vstd::prelude::*;
use std::collections::{BTreeMap, HashMap};
verus! {
//@include fmt_prelude.rs
//@include hashmap_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs NUM_IMAGE_FORMATS
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs struct CellRange derive=
//@item src/worksheet.rs struct RowOptions derive=
//@item src/worksheet.rs enum Visible derive=Clone,Copy
//@item src/image.rs enum XlsxImageType derive=Clone
//@item src/image.rs struct Image keep=image_type derive=
//@item src/drawing.rs struct Drawing keep=writer,drawings derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/chart.rs struct Chart keep=writer,id,axis_ids,axis2_ids,has_custom_axis_ids,combined_chart derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/table.rs struct Table keep=writer derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/worksheet.rs struct Worksheet keep=writer,dimensions,changed_rows,autofilter_hidden_rows,autofilter_dimensions,active,selected,visible,default_active_state,first_sheet,rel_count,comment_relationships,drawing_object_relationships,drawing_rel_ids,drawing_relationships,drawing,buttons_vml_info,comments_vml_info,header_footer_vml_info,hyperlink_relationships,table_relationships,vml_drawing_relationships,background_relationships,image_types,embedded_images,charts,tables,use_constant_memory,current_row derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/workbook.rs struct Workbook keep=writer,worksheets,active_tab,first_sheet,default_active_tab derive= sub=Cursor<Vec<u8>>=>Writer
pub struct Format { pub id: u64 }
pub struct DrawingInfo { pub id: u64 }
pub struct VmlInfo { pub id: u64 }
pub enum XlsxError { RowColumnLimitError, Other }
/// trusted: the byte buffer of a part as the bytes in it
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
pub mod xmlwriter { use super::*; verus! {
    #[verifier::external_body] pub fn reset(w: &mut Writer) ensures final(w).bytes() == Seq::<u8>::empty() { }
} }
// ---------------------------------------------------------------- specification
pub type Rows = Map<u32, RowOptions>;
pub open spec fn row_at(m: Rows, r: u32) -> RowOptions { if m.dom().contains(r) { m[r] } else { RowOptions { height: None, xf_index: 0, level: 0, hidden: false, collapsed: false, format: None } } }
pub open spec fn listed(v: Seq<(u32, bool)>, r: u32) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == r }
pub open spec fn at_row(a: Rows, b: Rows, r: u32) -> bool { a.dom().contains(r) == b.dom().contains(r) && (a.dom().contains(r) ==> a[r] == b[r]) }
/// `now` is `base` with exactly the rows of the list, which were not hidden, hidden
pub open spec fn hides(base: Rows, now: Rows, v: Seq<(u32, bool)>, from: int) -> bool {
    &&& forall|i: int| from <= i < v.len() ==> { let e = #[trigger] v[i]; now.dom().contains(e.0) && now[e.0].hidden && (e.1 == base.dom().contains(e.0)) && (e.1 ==> base[e.0] == RowOptions { hidden: false, ..now[e.0] }) }
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    &&& forall|i: int| 0 <= i < v.len() && i < from ==> #[trigger] at_row(base, now, v[i].0)
    &&& forall|r: u32| !listed(v, r) ==> #[trigger] at_row(base, now, r)
}
/// the per-save collections are empty and the buffers reset
pub open spec fn fresh(w: Worksheet) -> bool {
    &&& w.writer.bytes() == Seq::<u8>::empty() && w.drawing.writer.bytes() == Seq::<u8>::empty()
    &&& w.rel_count == 0 && w.comment_relationships@.len() == 0 && w.drawing_object_relationships@.len() == 0 && w.drawing_rel_ids@ == Map::<String, u32>::empty()
    &&& w.drawing_relationships@.len() == 0 && w.drawing.drawings@.len() == 0 && w.buttons_vml_info@.len() == 0 && w.comments_vml_info@.len() == 0
    &&& w.header_footer_vml_info@.len() == 0 && w.hyperlink_relationships@.len() == 0 && w.table_relationships@.len() == 0
    &&& w.vml_drawing_relationships@.len() == 0 && w.background_relationships@.len() == 0
    &&& forall|i: int| 0 <= i < w.tables@.len() ==> (#[trigger] w.tables@[i]).writer.bytes() == Seq::<u8>::empty()
    &&& charts_reset(w.charts@)
    &&& forall|k: int| 0 <= k < 5 ==> #[trigger] w.image_types@[k] == uses_type(w.embedded_images@, k)
}
pub open spec fn type_no(t: XlsxImageType) -> int { match t { XlsxImageType::Unknown => 0, XlsxImageType::Png => 1, XlsxImageType::Jpg => 2, XlsxImageType::Gif => 3, XlsxImageType::Bmp => 4 } }
pub open spec fn uses_type(v: Seq<Image>, k: int) -> bool { exists|i: int| 0 <= i < v.len() && type_no((#[trigger] v[i]).image_type) == k }
pub open spec fn charts_reset(m: Map<(u32, u16, u32, u32), Chart>) -> bool { forall|k: (u32, u16, u32, u32)| #[trigger] m.dom().contains(k) ==> m[k].writer.bytes() == Seq::<u8>::empty() }
/// what the user set, as far as it is in scope here
pub open spec fn user_state(a: Worksheet, b: Worksheet) -> bool {
    a.changed_rows == b.changed_rows && a.dimensions == b.dimensions && a.active == b.active && a.selected == b.selected && a.visible == b.visible && a.first_sheet == b.first_sheet
    && a.embedded_images == b.embedded_images && a.tables@.len() == b.tables@.len() && a.charts@.dom() == b.charts@.dom() && a.default_active_state == b.default_active_state
    && a.autofilter_hidden_rows == b.autofilter_hidden_rows && a.autofilter_dimensions == b.autofilter_dimensions && a.use_constant_memory == b.use_constant_memory && a.current_row == b.current_row
}
pub open spec fn but_rows(a: Worksheet, b: Worksheet) -> bool { b == (Worksheet { changed_rows: b.changed_rows, dimensions: b.dimensions, ..a }) }
// ---------------------------------------------------------------- trusted
/// charts.values_mut(): every chart's buffer is reset, nothing else of the map changes
#[verifier::external_body] pub fn vp_reset_charts(m: &mut BTreeMap<(RowNum, ColNum, u32, u32), Chart>) ensures charts_reset(final(m)@), final(m)@.dom() == old(m)@.dom() { }
#[verifier::external_body] pub fn vp_take(v: &mut Vec<(RowNum, bool)>) -> (r: Vec<(RowNum, bool)>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body] pub fn vp_take_dims(v: &mut Option<CellRange>) -> (r: Option<CellRange>) ensures r == *old(v), *final(v) is None { v.take() }
#[verifier::external_body] pub fn vp_type(t: &XlsxImageType) -> (r: usize) ensures r == type_no(*t), r < 5 { t.clone() as usize }
// ---------------------------------------------------------------- code
impl Worksheet {
//@fn src/worksheet.rs check_dimensions impl="impl Worksheet" ret=ok
| ensures ok == (row < 1048576 && col < 16384), but_rows(*old(self), *final(self)), final(self).changed_rows == old(self).changed_rows, !ok ==> *final(self) == *old(self), old(self).dimensions.first_col <= 16384 ==> final(self).dimensions.first_col <= 16384,
//@rewrite cmp::min\(self\.dimensions\.(first_row|first_col), (row|col)\) => if self.dimensions.\1 <= \2 { self.dimensions.\1 } else { \2 }
//@rewrite cmp::max\(self\.dimensions\.(last_row|last_col), (row|col)\) => if self.dimensions.\1 >= \2 { self.dimensions.\1 } else { \2 }
//@end
//@fn src/worksheet.rs get_min_col impl="impl Worksheet" ret=c
| ensures self.dimensions.first_col <= 16384 ==> c < 16384
//@end
//@fn src/worksheet.rs set_row_hidden impl="impl Worksheet" ret=r
| requires old(self).dimensions.first_col <= 16384,
| ensures match r {
|     Ok(p) => *final(self) == *final(p) && but_rows(*old(self), *p) && p.dimensions.first_col <= 16384 && p.changed_rows@ == old(self).changed_rows@.insert(row, RowOptions { hidden: true, ..row_at(old(self).changed_rows@, row) }),
|     Err(_) => row >= 1048576,
|   },
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@end
//@fn src/worksheet.rs hide_autofilter_row impl="impl Worksheet" params="base: Ghost<Rows>"
| requires old(self).dimensions.first_col <= 16384, row_num < 1048576,
| ensures forall|base: Rows| #[trigger] hides(base, old(self).changed_rows@, old(self).autofilter_hidden_rows@, 0) ==> hides(base, final(self).changed_rows@, final(self).autofilter_hidden_rows@, 0),
|   row_at(final(self).changed_rows@, row_num).hidden,
|   forall|q: u32| q != row_num ==> #[trigger] at_row(old(self).changed_rows@, final(self).changed_rows@, q),
|   final(self).dimensions.first_col <= 16384,
|   *final(self) == (Worksheet { autofilter_hidden_rows: final(self).autofilter_hidden_rows, changed_rows: final(self).changed_rows, dimensions: final(self).dimensions, ..*old(self) }),
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| let ghost m0 = self.changed_rows@; let ghost v0 = self.autofilter_hidden_rows@;
//@rewrite row_options\.is_some_and\(\|row_options\| row_options\.hidden\) => (match row_options { Some(vp_o) => vp_o.hidden, None => false })
//@rewrite self\.set_row_hidden\(row_num\)\.unwrap\(\); => let vp_r = self.set_row_hidden(row_num); assert(vp_r is Ok); let _ = vp_r;
//@at body-end
| proof {
|     let m1 = self.changed_rows@; let v1 = self.autofilter_hidden_rows@;
|     let was = m0.dom().contains(row_num) && m0[row_num].hidden;
|     assert(v1 == if was { v0 } else { v0.push((row_num, m0.dom().contains(row_num))) });
|     assert(m1 == m0.insert(row_num, RowOptions { hidden: true, ..row_at(m0, row_num) }));
|     assert forall|base: Rows| #[trigger] hides(base, m0, v0, 0) implies hides(base, m1, v1, 0) by { hide_step(base, m0, v0, row_num); }
| }
//@end
//@fn src/worksheet.rs unhide_autofilter_rows impl="impl Worksheet"
| ensures forall|base: Rows| #[trigger] hides(base, old(self).changed_rows@, old(self).autofilter_hidden_rows@, 0) ==> final(self).changed_rows@ == base,
|   final(self).autofilter_hidden_rows@.len() == 0, final(self).autofilter_dimensions is None,
|   final(self).dimensions == (match old(self).autofilter_dimensions { Some(d) => d, None => old(self).dimensions }),
|   *final(self) == (Worksheet { autofilter_hidden_rows: final(self).autofilter_hidden_rows, autofilter_dimensions: None, changed_rows: final(self).changed_rows, dimensions: final(self).dimensions, ..*old(self) }),
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| let ghost w0 = *self; let ghost m0 = self.changed_rows@; let ghost v0 = self.autofilter_hidden_rows@;
//@rewrite for \(row_num, has_options\) in mem::take\(&mut self\.autofilter_hidden_rows\) \{ => let vp_v = vp_take(&mut self.autofilter_hidden_rows); for vp_i in 0..vp_v.len() { let (row_num, has_options) = vp_v[vp_i];
//@rewrite self\.(changed_rows|changed_cols)\.get_mut\(&(\w+)\) => vp_slot(&mut self.\1, &\2)
//@rewrite self\.autofilter_dimensions\.take\(\) => vp_take_dims(&mut self.autofilter_dimensions)
//@loop 1
| invariant vp_v@ == v0, w0 == *old(self), m0 == w0.changed_rows@, v0 == w0.autofilter_hidden_rows@, self.autofilter_hidden_rows@.len() == 0,
|   vstd::std_specs::hash::obeys_key_model::<u32>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
|   forall|base: Rows| #[trigger] hides(base, m0, v0, 0) ==> hides(base, self.changed_rows@, v0, vp_i as int),
|   *self == (Worksheet { autofilter_hidden_rows: self.autofilter_hidden_rows, changed_rows: self.changed_rows, ..w0 }),
//@at loop 1 start
| let ghost mb = self.changed_rows@;
//@at loop 1 end
| proof { assert forall|base: Rows| #[trigger] hides(base, m0, v0, 0) implies hides(base, self.changed_rows@, v0, vp_i + 1) by {
|     assert(hides(base, mb, v0, vp_i as int)); unhide_step(base, mb, self.changed_rows@, v0, vp_i as int);
| } }
//@at after-loop 1
| proof { assert forall|base: Rows| #[trigger] hides(base, m0, v0, 0) implies self.changed_rows@ == base by {
|     let now = self.changed_rows@;
|     assert(hides(base, now, v0, v0.len() as int));
|     assert forall|r: u32| at_row(base, now, r) by { if listed(v0, r) { let i = choose|i: int| 0 <= i < v0.len() && (#[trigger] v0[i]).0 == r; assert(at_row(base, now, v0[i].0)); } }
|     assert(now.dom() =~= base.dom()) by { assert forall|r: u32| now.dom().contains(r) == base.dom().contains(r) by { assert(at_row(base, now, r)); } }
|     assert(now =~= base) by { assert forall|r: u32| now.dom().contains(r) implies now[r] == base[r] by { assert(at_row(base, now, r)); } }
| } }
//@end
//@fn src/worksheet.rs set_active impl="impl Worksheet" ret=r
| ensures *r == (Worksheet { active: enable, selected: enable || old(self).selected, visible: if enable { Visible::Default } else { old(self).visible }, ..*old(self) }), *final(self) == *final(r),
//@end
//@fn src/worksheet.rs set_default_active impl="impl Worksheet"
| ensures *final(self) == (Worksheet { active: true, selected: true, visible: Visible::Default, default_active_state: (old(self).selected, old(self).visible), ..*old(self) }),
//@end
//@fn src/worksheet.rs unset_default_active impl="impl Worksheet"
| ensures *final(self) == (Worksheet { active: false, selected: old(self).default_active_state.0, visible: old(self).default_active_state.1, ..*old(self) }),
//@rewrite \(self\.selected, self\.visible\) = self\.default_active_state; => self.selected = self.default_active_state.0; self.visible = self.default_active_state.1;
//@end
//@fn src/worksheet.rs reset impl="impl Worksheet"
| ensures fresh(*final(self)), user_state(*old(self), *final(self)),
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| let ghost w0 = *self;
//@rewrite for chart in self\.charts\.values_mut\(\) \{\s*xmlwriter::reset\(&mut chart\.writer\);\s*\} => vp_reset_charts(&mut self.charts);
//@rewrite for table in &mut self\.tables \{\s*xmlwriter::reset\(&mut table\.writer\); => for vp_i in 0..self.tables.len() { xmlwriter::reset(&mut self.tables[vp_i].writer);
//@rewrite self\.image_types\[image\.image_type\.clone\(\) as usize\] = true; => let vp_t = vp_type(&image.image_type); self.image_types[vp_t] = true;
//@loop 1
| invariant user_state(w0, *self), w0 == *old(self), self.writer.bytes() == Seq::<u8>::empty(), self.drawing.writer.bytes() == Seq::<u8>::empty(), charts_reset(self.charts@),
|   forall|i: int| 0 <= i < vp_i ==> (#[trigger] self.tables@[i]).writer.bytes() == Seq::<u8>::empty(),
//@loop 2 iter=it
| invariant it.seq().len() == self.embedded_images@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.embedded_images@[i],
|   forall|k: int| 0 <= k < 5 ==> #[trigger] self.image_types@[k] == uses_type(self.embedded_images@.take(it.index@), k),
|   *self == (Worksheet { image_types: self.image_types, ..wm }),
//@at before-loop 2
| let ghost wm = *self;
//@at loop 2 start
| let ghost t0 = self.image_types@;
//@at loop 2 end
| proof {
|     let v = self.embedded_images@; let n = it.index@;
|     assert(v.take(n + 1) =~= v.take(n).push(v[n]));
|     assert forall|k: int| 0 <= k < 5 implies #[trigger] self.image_types@[k] == uses_type(v.take(n + 1), k) by {
|         if type_no(v[n].image_type) == k { assert(v.take(n + 1)[n] == v[n]); }
|         else { assert(uses_type(v.take(n + 1), k) == uses_type(v.take(n), k)) by {
|             if uses_type(v.take(n + 1), k) { let i = choose|i: int| 0 <= i < n + 1 && type_no((#[trigger] v.take(n + 1)[i]).image_type) == k; assert(v.take(n)[i] == v.take(n + 1)[i]); }
|             if uses_type(v.take(n), k) { let i = choose|i: int| 0 <= i < n && type_no((#[trigger] v.take(n)[i]).image_type) == k; assert(v.take(n + 1)[i] == v.take(n)[i]); }
|         } }
|     }
| }
//@at body-end
| proof { assert(self.embedded_images@.take(self.embedded_images@.len() as int) =~= self.embedded_images@); }
//@end
}
pub proof fn hide_step(base: Rows, m: Rows, v: Seq<(u32, bool)>, r: u32)
    requires hides(base, m, v, 0),
    ensures ({ let was = m.dom().contains(r) && m[r].hidden; hides(base, m.insert(r, RowOptions { hidden: true, ..row_at(m, r) }), if was { v } else { v.push((r, m.dom().contains(r))) }, 0) })
{
    let was = m.dom().contains(r) && m[r].hidden;
    let m1 = m.insert(r, RowOptions { hidden: true, ..row_at(m, r) });
    if was { assert(m1 =~= m); }
    else {
        let v1 = v.push((r, m.dom().contains(r)));
        assert(!listed(v, r)) by { if listed(v, r) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == r; assert(m[v[i].0].hidden); } }
        assert(at_row(base, m, r));
        assert forall|i: int| 0 <= i < v1.len() implies { let e = #[trigger] v1[i]; m1.dom().contains(e.0) && m1[e.0].hidden && (e.1 == base.dom().contains(e.0)) && (e.1 ==> base[e.0] == RowOptions { hidden: false, ..m1[e.0] }) } by {
            if i < v.len() { assert(v1[i] == v[i]); assert(v[i].0 != r); }
        }
        assert forall|i: int, j: int| 0 <= i < j < v1.len() implies (#[trigger] v1[i]).0 != (#[trigger] v1[j]).0 by { assert(v1[i] == v[i]); if j < v.len() { assert(v1[j] == v[j]); } }
        assert forall|q: u32| !listed(v1, q) implies #[trigger] at_row(base, m1, q) by {
            assert(v1[v.len() as int].0 == r);
            if listed(v, q) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == q; assert(v1[i].0 == q); }
            assert(at_row(base, m, q));
        }
    }
}
pub proof fn unhide_step(base: Rows, m: Rows, n: Rows, v: Seq<(u32, bool)>, i: int)
    requires hides(base, m, v, i), 0 <= i < v.len(), n == if v[i].1 { m.insert(v[i].0, RowOptions { hidden: false, ..m[v[i].0] }) } else { m.remove(v[i].0) },
    ensures hides(base, n, v, i + 1)
{
    let r = v[i].0;
    assert forall|j: int| i + 1 <= j < v.len() implies { let e = #[trigger] v[j]; n.dom().contains(e.0) && n[e.0].hidden && (e.1 == base.dom().contains(e.0)) && (e.1 ==> base[e.0] == RowOptions { hidden: false, ..n[e.0] }) } by { assert(v[i].0 != v[j].0); }
    assert forall|j: int| 0 <= j < v.len() && j < i + 1 implies #[trigger] at_row(base, n, v[j].0) by { if j < i { assert(v[j].0 != v[i].0); assert(at_row(base, m, v[j].0)); } }
    assert forall|q: u32| !listed(v, q) implies #[trigger] at_row(base, n, q) by { assert(v[i].0 == r); assert(at_row(base, m, q)); }
}
impl Chart {
//@fn src/chart.rs add_axis_ids impl="impl Chart"
| requires chart_id < 100000,
| ensures old(self).has_custom_axis_ids ==> *final(self) == *old(self),
|   !old(self).has_custom_axis_ids ==> *final(self) == (Chart { axis_ids: (((5000 + chart_id) * 10000 + 1) as u32, ((5000 + chart_id) * 10000 + 2) as u32), axis2_ids: final(self).axis2_ids, ..*old(self) })
|     && final(self).axis2_ids == (if old(self).combined_chart is None { (((5000 + chart_id) * 10000 + 3) as u32, ((5000 + chart_id) * 10000 + 4) as u32) } else { (((5000 + chart_id) * 10000 + 10_000_001) as u32, ((5000 + chart_id) * 10000 + 10_000_002) as u32) }),
//@end
}
impl Workbook {
//@fn src/workbook.rs reset impl="impl Workbook"
| ensures final(self).worksheets@.len() == old(self).worksheets@.len(), forall|i: int| 0 <= i < old(self).worksheets@.len() ==> fresh(#[trigger] final(self).worksheets@[i]) && user_state(old(self).worksheets@[i], final(self).worksheets@[i]),
|   final(self).writer.bytes() == Seq::<u8>::empty(),
//@at body-start
| let ghost w0 = *self;
//@rewrite for worksheet in &mut self\.worksheets \{\s*worksheet\.reset\(\); => for vp_i in 0..self.worksheets.len() { self.worksheets[vp_i].reset();
//@loop 1
| invariant w0 == *old(self), self.worksheets@.len() == w0.worksheets@.len(), self.writer.bytes() == Seq::<u8>::empty(),
|   forall|i: int| 0 <= i < vp_i ==> fresh(#[trigger] self.worksheets@[i]) && user_state(w0.worksheets@[i], self.worksheets@[i]),
|   forall|i: int| vp_i <= i < w0.worksheets@.len() ==> #[trigger] self.worksheets@[i] == w0.worksheets@[i],
//@end
//@fn src/workbook.rs set_active_worksheets impl="impl Workbook"
| requires 0 < old(self).worksheets@.len() <= 65535,
| ensures tabs_set(*old(self), *final(self)),
//@at body-start
| let ghost w0 = *self;
//@rewrite for \(i, worksheet\) in self\.worksheets\.iter\(\)\.enumerate\(\) \{ => for i in 0..self.worksheets.len() { let worksheet = &self.worksheets[i];
//@loop 1
| invariant self.worksheets == w0.worksheets, w0 == *old(self), self.default_active_tab == w0.default_active_tab, 0 < self.worksheets@.len() <= 65535,
|   has_active == (exists|j: int| 0 <= j < i && (#[trigger] self.worksheets@[j]).active), active_index < self.worksheets@.len(),
|   has_active ==> active_index < i && self.worksheets@[active_index as int].active && forall|j: int| active_index < j < i ==> !(#[trigger] self.worksheets@[j]).active,
|   !has_active ==> active_index == 0,
|   is_first(self.worksheets@, i as int, self.first_sheet as int),
//@end
//@fn src/workbook.rs save_internal impl="impl Workbook" ret=r
| requires old(self).ready(),
| ensures saved_state(*old(self), *final(self)),
//@rewrite sig:<W: Write \+ Seek \+ Send> =>
//@rewrite sig:writer: W => writer: Dest
//@rewrite for worksheet in &mut self\.worksheets \{\s*worksheet\.unhide_autofilter_rows\(\); => let vp_n = self.worksheets.len(); for vp_i in 0..vp_n { self.worksheets[vp_i].unhide_autofilter_rows();
//@rewrite self\.worksheets\[self\.active_tab as usize\]\.unset_default_active\(\) => let vp_k = self.active_tab as usize; self.worksheets[vp_k].unset_default_active()
//@at body-start
| let ghost w0 = *self;
//@after /let result = self\.save_workbook\(writer\);/
| let ghost wm = *self;
//@at before-loop 1
| let ghost w1 = *self;
//@loop 1
| invariant vp_n == w1.worksheets@.len(), self.worksheets@.len() == w1.worksheets@.len(), self.default_active_tab == w1.default_active_tab, self.active_tab == w1.active_tab,
|   forall|i: int| 0 <= i < vp_i ==> #[trigger] undone(w1.worksheets@[i], self.worksheets@[i]),
|   forall|i: int| vp_i <= i < w1.worksheets@.len() ==> #[trigger] self.worksheets@[i] == w1.worksheets@[i],
//@at after-loop 1
| proof {
|     assert forall|i: int| 0 <= i < w0.worksheets@.len() implies #[trigger] tabs_rows(w0.worksheets@[i], self.worksheets@[i]) by { assert(undone(w1.worksheets@[i], self.worksheets@[i])); assert(mid(w0, wm, i)); let (a, c, d, b) = (w0.worksheets@[i], wm.worksheets@[i], w1.worksheets@[i], self.worksheets@[i]); assert(d == c || d == (Worksheet { active: false, selected: d.selected, visible: d.visible, ..c })); assert(hides(a.changed_rows@, d.changed_rows@, d.autofilter_hidden_rows@, 0)); assert(a.changed_rows@ == b.changed_rows@); assert(a.dimensions == b.dimensions); assert(d.active == a.active && d.selected == a.selected && d.visible == a.visible); assert(a.active == b.active && a.selected == b.selected && a.visible == b.visible); }
|     assert forall|i: int| 0 <= i < w0.worksheets@.len() implies (#[trigger] self.worksheets@[i]).autofilter_hidden_rows@.len() == 0 && self.worksheets@[i].autofilter_dimensions is None by { assert(tabs_rows(w0.worksheets@[i], self.worksheets@[i])); }
| }
//@end
}
#[verifier::external_body] pub struct Dest { }
/// the first visible tab is the last one flagged
pub open spec fn is_first(v: Seq<Worksheet>, n: int, k: int) -> bool {
    0 <= k && (if exists|j: int| 0 <= j < n && (#[trigger] v[j]).first_sheet { k < n && v[k].first_sheet && forall|j: int| k < j < n ==> !(#[trigger] v[j]).first_sheet } else { k == 0 })
}
pub open spec fn any_active(v: Seq<Worksheet>) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).active }
pub open spec fn tabs_set(a: Workbook, b: Workbook) -> bool {
    &&& a.worksheets@.len() == b.worksheets@.len() && b.active_tab < b.worksheets@.len() && is_first(a.worksheets@, a.worksheets@.len() as int, b.first_sheet as int)
    &&& forall|i: int| 0 <= i < a.worksheets@.len() && i != b.active_tab ==> #[trigger] b.worksheets@[i] == a.worksheets@[i]
    &&& ({ let (x, y) = (a.worksheets@[b.active_tab as int], b.worksheets@[b.active_tab as int]);
        if any_active(a.worksheets@) { x.active && (forall|j: int| b.active_tab < j < a.worksheets@.len() ==> !(#[trigger] a.worksheets@[j]).active) && y == Worksheet { selected: true, visible: Visible::Default, ..x } && b.default_active_tab == a.default_active_tab }
        else { b.default_active_tab && y == Worksheet { active: true, selected: true, visible: Visible::Default, default_active_state: (x.selected, x.visible), ..x } } })
}
pub open spec fn undone(a: Worksheet, b: Worksheet) -> bool {
    &&& forall|base: Rows| #[trigger] hides(base, a.changed_rows@, a.autofilter_hidden_rows@, 0) ==> b.changed_rows@ == base
    &&& b.autofilter_hidden_rows@.len() == 0 && b.autofilter_dimensions is None && b.dimensions == (match a.autofilter_dimensions { Some(d) => d, None => a.dimensions })
    &&& b.active == a.active && b.selected == a.selected && b.visible == a.visible
}
pub open spec fn tabs_rows(a: Worksheet, b: Worksheet) -> bool { a.changed_rows@ == b.changed_rows@ && a.dimensions == b.dimensions && a.active == b.active && a.selected == b.selected && a.visible == b.visible && b.autofilter_hidden_rows@.len() == 0 && b.autofilter_dimensions is None }
/// the rows, the dimension and the tab state are as before the save, and so is the bookkeeping of the undo
pub open spec fn saved_state(a: Workbook, b: Workbook) -> bool {
    a.worksheets@.len() == b.worksheets@.len() && !b.default_active_tab && b.ready() && forall|i: int| 0 <= i < a.worksheets@.len() ==> #[trigger] tabs_rows(a.worksheets@[i], b.worksheets@[i])
}
impl Workbook {
    pub open spec fn ready(&self) -> bool { 0 < self.worksheets@.len() <= 65535 && !self.default_active_tab && forall|i: int| 0 <= i < self.worksheets@.len() ==> (#[trigger] self.worksheets@[i]).autofilter_hidden_rows@.len() == 0 && self.worksheets@[i].autofilter_dimensions is None }
    /// assumed of the body of the save, on success: the only changes to rows, dimensions and tabs are those of set_active_worksheets and hide_autofilter_rows, through the functions above
    #[verifier::external_body] fn save_workbook(&mut self, writer: Dest) -> (r: Result<(), XlsxError>)
        requires old(self).ready(),
        ensures final(self).worksheets@.len() == old(self).worksheets@.len() && (final(self).default_active_tab ==> final(self).active_tab < final(self).worksheets@.len())
            && (forall|i: int| 0 <= i < old(self).worksheets@.len() ==> #[trigger] mid(*old(self), *final(self), i)),
    { unimplemented!() }
}
/// what the body of the save leaves of a sheet: some rows hidden and listed, the dimension they extended recorded, and the default active sheet's state recorded
pub open spec fn mid(p: Workbook, q: Workbook, i: int) -> bool {
    let (a, b, default_active) = (p.worksheets@[i], q.worksheets@[i], q.default_active_tab && i == q.active_tab);
    &&& hides(a.changed_rows@, b.changed_rows@, b.autofilter_hidden_rows@, 0)
    &&& (b.dimensions == a.dimensions && b.autofilter_dimensions is None || b.autofilter_dimensions == Some(a.dimensions))
    &&& if default_active { b.active && !a.active && b.default_active_state == (a.selected, a.visible) } else { a.active == b.active && a.selected == b.selected && a.visible == b.visible }
}
fn main() {}
} // verus!
