// C13: where objects are anchored.  Extracted from /repo/src on every run.
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/image.rs enum ObjectMovement derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/drawing.rs enum DrawingType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/worksheet.rs struct RowOptions keep=height,hidden derive=
//@item src/worksheet.rs struct ColOptions keep=width,hidden derive=
//@item src/drawing.rs struct DrawingCoordinates derive=
//@item src/drawing.rs struct DrawingInfo derive=
//@item src/drawing.rs struct Drawing keep=writer,drawings,shapes,shape_id derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/vml.rs struct VmlInfo keep=row,col,drawing_info,is_visible derive=
//@item src/vml.rs struct Vml keep=writer derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/image.rs struct Image keep=height,width,width_dpi,height_dpi,scale_height,scale_width,x_offset,y_offset,name,alt_text,object_movement,decorative,drawing_type derive=
//@item src/chart.rs struct Chart keep=id,height,width,scale_height,scale_width,x_offset,y_offset,name,alt_text,object_movement,decorative,drawing_type,is_chartsheet derive=
//@item src/shape.rs struct Shape keep=height,width,x_offset,y_offset,text,alt_text,object_movement,decorative,text_link derive=
//@item src/button.rs struct Button keep=x_offset,y_offset,width,height,name,alt_text,macro_name,decorative,object_movement derive=
//@item src/note.rs struct Note keep=height,width,text,alt_text,decorative,object_movement,cell_row,cell_col,x_offset,y_offset,row,col,is_visible derive=
//@item src/worksheet.rs struct Worksheet keep=changed_cols,changed_rows,user_default_row_height,images,charts,shapes,buttons,has_vml,is_chartsheet derive= sub=BTreeMap<\(RowNum,\sColNum,\su32,\su32\),\s=>VpAt<
pub struct Url { pub id: u64 }
pub struct Formula { pub formula_string: String }
pub enum XlsxError { RowColumnLimitError, Other }

// ---------------------------------------------------------------- floating point numbers as real numbers (trusted, machine arithmetic)
pub uninterp spec fn px(x: f64) -> real;
/// the whole number next to x, upwards from the middle
pub open spec fn near(x: real) -> int { choose|n: int| near_of(n, x) }
pub open spec fn near_of(n: int, x: real) -> bool { #[trigger] (n as real) <= x + 1real / 2real && x + 1real / 2real < n as real + 1real }
pub open spec fn whole(x: real) -> int { choose|n: int| whole_of(n, x) }
pub open spec fn whole_of(n: int, x: real) -> bool { #[trigger] (n as real) <= x && x < n as real + 1real }
pub open spec fn sat32(n: int) -> int { if n < 0 { 0 } else if n > u32::MAX { u32::MAX as int } else { n } }
#[verifier::external_body] pub fn vp_f(n: u32) -> (r: f64) ensures px(r) == n as real { n as f64 }
#[verifier::external_body] pub fn vp_plus(a: f64, b: f64) -> (r: f64) ensures px(r) == px(a) + px(b) { a + b }
#[verifier::external_body] pub fn vp_minus(a: f64, b: f64) -> (r: f64) ensures px(r) == px(a) - px(b) { a - b }
#[verifier::external_body] pub fn vp_times(a: f64, b: f64) -> (r: f64) ensures px(r) == px(a) * px(b) { a * b }
#[verifier::external_body] pub fn vp_over(a: f64, b: f64) -> (r: f64) requires px(b) != 0real ensures px(r) == px(a) / px(b) { a / b }
#[verifier::external_body] pub fn vp_less(a: f64, b: f64) -> (r: bool) ensures r == (px(a) < px(b)) { a < b }
#[verifier::external_body] pub fn vp_min(a: f64, b: f64) -> (r: f64) ensures px(r) == (if px(a) <= px(b) { px(a) } else { px(b) }) { a.min(b) }
#[verifier::external_body] pub fn vp_round(a: f64) -> (r: f64) ensures px(r) == near(px(a)) as real { a.round() }
#[verifier::external_body] pub fn vp_u32_round(a: f64) -> (r: u32) ensures r == sat32(near(px(a))) { a.round() as u32 }
#[verifier::external_body] pub fn vp_u32(a: f64) -> (r: u32) ensures r == sat32(whole(px(a))) { a as u32 }
#[verifier::external_body] pub proof fn whole_is(n: nat) ensures whole(n as real) == n { }
#[verifier::external_body] pub fn vp_min32(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { a.min(b) }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
// trusted: floor and ceiling exist
#[verifier::external_body] pub proof fn near_is(x: real) ensures near_of(near(x), x) { }
#[verifier::external_body] pub proof fn whole_ok(x: real) ensures whole_of(whole(x), x) { }

// ---------------------------------------------------------------- specification
/// an object that can be placed: the distance from the corner of its cell, its size on the screen, and how it moves
pub trait DrawingObject {
    spec fn dx(&self) -> u32;
    spec fn dy(&self) -> u32;
    spec fn w(&self) -> real;
    spec fn h(&self) -> real;
    spec fn mv(&self) -> ObjectMovement;
    spec fn ty(&self) -> DrawingType;
    spec fn label(&self) -> Seq<char>;
    spec fn alt(&self) -> Seq<char>;
    spec fn deco(&self) -> bool;
    spec fn ok(&self) -> bool;
    fn x_offset(&self) -> (r: u32) ensures r == self.dx();
    fn y_offset(&self) -> (r: u32) ensures r == self.dy();
    fn width_scaled(&self) -> (r: f64) requires self.ok() ensures px(r) == self.w();
    fn height_scaled(&self) -> (r: f64) requires self.ok() ensures px(r) == self.h();
    fn object_movement(&self) -> (r: ObjectMovement) ensures r == self.mv();
    fn name(&self) -> (r: String) ensures r@ == self.label();
    fn alt_text(&self) -> (r: String) ensures r@ == self.alt();
    fn decorative(&self) -> (r: bool) ensures r == self.deco();
    fn drawing_type(&self) -> (r: DrawingType) ensures r == self.ty();
}
pub type Cols = Map<u16, ColOptions>;
pub type Rows = Map<u32, RowOptions>;
pub open spec fn shown(hidden: bool, mv: ObjectMovement) -> bool { !hidden || mv is MoveAndSizeWithCellsAfter }
/// the width of a column on the screen
pub open spec fn col_size(m: Cols, c: int, mv: ObjectMovement) -> int {
    let k = c as u16;
    if !m.dom().contains(k) { 64 } else if !shown(m[k].hidden, mv) { 0 } else { width_px(px(m[k].width)) }
}
pub open spec fn width_px(w: real) -> int { if w < 1real { sat32(near(w * 12real)) } else { sat32(near(w * 7real)) + 5 } }
pub open spec fn height_px(h: real) -> int { sat32(whole(h * 4real / 3real)) }
pub open spec fn row_size(m: Rows, d: real, r: int, mv: ObjectMovement) -> int {
    let k = r as u32;
    if !m.dom().contains(k) { height_px(d) } else if !shown(m[k].hidden, mv) { 0 } else { match m[k].height { Some(h) => height_px(px(h)), None => height_px(d) } }
}
/// the distance of a column from the left of the sheet, and of a row from its top
pub open spec fn left(m: Cols, c: int, mv: ObjectMovement) -> int decreases c { if c <= 0 { 0 } else { left(m, c - 1, mv) + col_size(m, c - 1, mv) } }
pub open spec fn top(m: Rows, d: real, r: int, mv: ObjectMovement) -> int decreases r { if r <= 0 { 0 } else { top(m, d, r - 1, mv) + row_size(m, d, r - 1, mv) } }
/// widths and heights that the application allows
pub open spec fn sizes_ok(w: Worksheet) -> bool {
    (forall|c: u16| w.changed_cols@.dom().contains(c) ==> px((#[trigger] w.changed_cols@[c]).width) <= 255real)
    && (forall|r: u32| w.changed_rows@.dom().contains(r) ==> match (#[trigger] w.changed_rows@[r]).height { Some(h) => px(h) <= 409real, None => true })
    && px(w.user_default_row_height) <= 409real
}
pub open spec fn least(a: real, b: real) -> real { if a <= b { a } else { b } }
/// the point in a column is the one that far from the left of the sheet (or the end of the last column if that is not in the sheet), and it lies in that column
pub open spec fn in_col(w: Worksheet, mv: ObjectMovement, c: int, off: real, at: real) -> bool {
    0 <= c < COL_MAX && off <= col_size(w.changed_cols@, c, mv) as real && (off < col_size(w.changed_cols@, c, mv) as real || c == COL_MAX - 1)
    && left(w.changed_cols@, c, mv) as real + off == least(at, left(w.changed_cols@, COL_MAX as int, mv) as real)
}
pub open spec fn in_row(w: Worksheet, mv: ObjectMovement, r: int, off: real, at: real) -> bool {
    let (m, d) = (w.changed_rows@, px(w.user_default_row_height));
    0 <= r < ROW_MAX && off <= row_size(m, d, r, mv) as real && (off < row_size(m, d, r, mv) as real || r == ROW_MAX - 1)
    && top(m, d, r, mv) as real + off == least(at, top(m, d, ROW_MAX as int, mv) as real)
}
/// the object is anchored from the point at its offset in its cell to the point its size further on
pub open spec fn placed<T: DrawingObject>(w: Worksheet, row: u32, col: u16, o: T, i: DrawingInfo) -> bool {
    let x = left(w.changed_cols@, col as int, o.mv()) + o.dx();
    let y = top(w.changed_rows@, px(w.user_default_row_height), row as int, o.mv()) + o.dy();
    let x1 = left(w.changed_cols@, i.from.col as int, o.mv()) as real + px(i.from.col_offset);
    let y1 = top(w.changed_rows@, px(w.user_default_row_height), i.from.row as int, o.mv()) as real + px(i.from.row_offset);
    in_col(w, o.mv(), i.from.col as int, px(i.from.col_offset), x as real) && in_row(w, o.mv(), i.from.row as int, px(i.from.row_offset), y as real)
    && in_col(w, o.mv(), i.to.col as int, px(i.to.col_offset), x1 + o.w()) && in_row(w, o.mv(), i.to.row as int, px(i.to.row_offset), y1 + o.h())
    && i.col_absolute == x && i.row_absolute == y && px(i.width) == o.w() && px(i.height) == o.h()
    && i.object_movement == o.mv() && i.drawing_type == o.ty() && i.name@ == o.label() && i.description@ == o.alt() && i.decorative == o.deco()
}
pub open spec fn emu(a: f64, b: f64) -> bool { px(b) == near(px(a) * 9525real) as real }
/// the same anchor in EMUs
pub open spec fn scaled(a: DrawingInfo, b: DrawingInfo) -> bool {
    a.from.col == b.from.col && a.from.row == b.from.row && a.to.col == b.to.col && a.to.row == b.to.row
    && emu(a.from.col_offset, b.from.col_offset) && emu(a.from.row_offset, b.from.row_offset) && emu(a.to.col_offset, b.to.col_offset) && emu(a.to.row_offset, b.to.row_offset)
    && b.col_absolute == a.col_absolute * 9525 && b.row_absolute == a.row_absolute * 9525 && emu(a.width, b.width) && emu(a.height, b.height)
    && a.object_movement == b.object_movement && a.drawing_type == b.drawing_type && a.name@ == b.name@ && a.description@ == b.description@ && a.decorative == b.decorative
}
pub proof fn size_bound(m: Cols, c: int, mv: ObjectMovement)
    requires forall|c: u16| m.dom().contains(c) ==> px((#[trigger] m[c]).width) <= 255real
    ensures 0 <= col_size(m, c, mv) <= 1790
{ let k = c as u16; if m.dom().contains(k) { let w = px(m[k].width); near_is(w * 7real); near_is(w * 12real); } }
pub proof fn rsize_bound(m: Rows, d: real, r: int, mv: ObjectMovement)
    requires forall|r: u32| m.dom().contains(r) ==> match (#[trigger] m[r]).height { Some(h) => px(h) <= 409real, None => true }, d <= 409real
    ensures 0 <= row_size(m, d, r, mv) <= 546
{ let k = r as u32; whole_ok(d * 4real / 3real); if m.dom().contains(k) { let h = m[k].height; if h is Some { whole_ok(px(h->0) * 4real / 3real); } } }
pub proof fn left_bound(m: Cols, c: int, n: int, mv: ObjectMovement)
    requires forall|c: u16| m.dom().contains(c) ==> px((#[trigger] m[c]).width) <= 255real, 0 <= c <= n
    ensures 0 <= left(m, c, mv) <= c * 1790, left(m, c, mv) <= left(m, n, mv)
    decreases n
{ if c < n { left_bound(m, c, n - 1, mv); size_bound(m, n - 1, mv); } else if c > 0 { left_bound(m, c - 1, c - 1, mv); size_bound(m, c - 1, mv); } }
pub proof fn top_bound(m: Rows, d: real, r: int, n: int, mv: ObjectMovement)
    requires forall|r: u32| m.dom().contains(r) ==> match (#[trigger] m[r]).height { Some(h) => px(h) <= 409real, None => true }, d <= 409real, 0 <= r <= n
    ensures 0 <= top(m, d, r, mv) <= r * 546, top(m, d, r, mv) <= top(m, d, n, mv)
    decreases n
{ if r < n { top_bound(m, d, r, n - 1, mv); rsize_bound(m, d, n - 1, mv); } else if r > 0 { top_bound(m, d, r - 1, r - 1, mv); rsize_bound(m, d, r - 1, mv); } }
/// trusted: a BTreeMap of inserted objects by row, column and offsets
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VpAt<T> { t: T }
impl<T> VpAt<T> {
    pub uninterp spec fn m(&self) -> Map<(u32, u16, u32, u32), T>;
    #[verifier::external_body] pub fn insert(&mut self, k: (u32, u16, u32, u32), v: T) ensures final(self).m() == old(self).m().insert(k, v) { }
}
pub trait VpClone: Sized { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VpClone for Image {} impl VpClone for Chart {} impl VpClone for Shape {} impl VpClone for Button {} impl VpClone for Vec<DrawingInfo> {}

impl DrawingObject for Image {
    open spec fn dx(&self) -> u32 { self.x_offset }
    open spec fn dy(&self) -> u32 { self.y_offset }
    open spec fn w(&self) -> real { px(self.width) * px(self.scale_width) * 96real / px(self.width_dpi) }
    open spec fn h(&self) -> real { px(self.height) * px(self.scale_height) * 96real / px(self.height_dpi) }
    open spec fn mv(&self) -> ObjectMovement { self.object_movement }
    open spec fn ty(&self) -> DrawingType { self.drawing_type }
    open spec fn label(&self) -> Seq<char> { self.name@ }
    open spec fn alt(&self) -> Seq<char> { self.alt_text@ }
    open spec fn deco(&self) -> bool { self.decorative }
    open spec fn ok(&self) -> bool { px(self.width_dpi) > 0real && px(self.height_dpi) > 0real }
//@fn src/image.rs x_offset impl="DrawingObject for Image" ret=r nopub
//@end
//@fn src/image.rs y_offset impl="DrawingObject for Image" ret=r nopub
//@end
//@fn src/image.rs width_scaled impl="DrawingObject for Image" ret=r nopub
//@rewrite self\.width \* self\.scale_width \* 96\.0 / self\.width_dpi => vp_over(vp_times(vp_times(self.width, self.scale_width), vp_f(96)), self.width_dpi)
//@end
//@fn src/image.rs height_scaled impl="DrawingObject for Image" ret=r nopub
//@rewrite self\.height \* self\.scale_height \* 96\.0 / self\.height_dpi => vp_over(vp_times(vp_times(self.height, self.scale_height), vp_f(96)), self.height_dpi)
//@end
//@fn src/image.rs object_movement impl="DrawingObject for Image" ret=r nopub
//@end
//@fn src/image.rs name impl="DrawingObject for Image" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/image.rs alt_text impl="DrawingObject for Image" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/image.rs decorative impl="DrawingObject for Image" ret=r nopub
//@end
//@fn src/image.rs drawing_type impl="DrawingObject for Image" ret=r nopub
//@end
}
impl DrawingObject for Chart {
    open spec fn dx(&self) -> u32 { self.x_offset }
    open spec fn dy(&self) -> u32 { self.y_offset }
    open spec fn w(&self) -> real { px(self.width) * px(self.scale_width) }
    open spec fn h(&self) -> real { px(self.height) * px(self.scale_height) }
    open spec fn mv(&self) -> ObjectMovement { self.object_movement }
    open spec fn ty(&self) -> DrawingType { self.drawing_type }
    open spec fn label(&self) -> Seq<char> { self.name@ }
    open spec fn alt(&self) -> Seq<char> { self.alt_text@ }
    open spec fn deco(&self) -> bool { self.decorative }
    open spec fn ok(&self) -> bool { true }
//@fn src/chart.rs x_offset impl="DrawingObject for Chart" ret=r nopub
//@end
//@fn src/chart.rs y_offset impl="DrawingObject for Chart" ret=r nopub
//@end
//@fn src/chart.rs width_scaled impl="DrawingObject for Chart" ret=r nopub
//@rewrite (self\.\w+) \* (self\.\w+) => vp_times(\1, \2)
//@end
//@fn src/chart.rs height_scaled impl="DrawingObject for Chart" ret=r nopub
//@rewrite (self\.\w+) \* (self\.\w+) => vp_times(\1, \2)
//@end
//@fn src/chart.rs object_movement impl="DrawingObject for Chart" ret=r nopub
//@end
//@fn src/chart.rs name impl="DrawingObject for Chart" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/chart.rs alt_text impl="DrawingObject for Chart" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/chart.rs decorative impl="DrawingObject for Chart" ret=r nopub
//@end
//@fn src/chart.rs drawing_type impl="DrawingObject for Chart" ret=r nopub
//@end
}
impl DrawingObject for Shape {
    open spec fn dx(&self) -> u32 { self.x_offset }
    open spec fn dy(&self) -> u32 { self.y_offset }
    open spec fn w(&self) -> real { px(self.width) }
    open spec fn h(&self) -> real { px(self.height) }
    open spec fn mv(&self) -> ObjectMovement { self.object_movement }
    open spec fn ty(&self) -> DrawingType { DrawingType::Shape }
    open spec fn label(&self) -> Seq<char> { self.text@ }
    open spec fn alt(&self) -> Seq<char> { self.alt_text@ }
    open spec fn deco(&self) -> bool { self.decorative }
    open spec fn ok(&self) -> bool { true }
//@fn src/shape.rs x_offset impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs y_offset impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs width_scaled impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs height_scaled impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs object_movement impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs name impl="DrawingObject for Shape" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/shape.rs alt_text impl="DrawingObject for Shape" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/shape.rs decorative impl="DrawingObject for Shape" ret=r nopub
//@end
//@fn src/shape.rs drawing_type impl="DrawingObject for Shape" ret=r nopub
//@end
}
impl DrawingObject for Button {
    open spec fn dx(&self) -> u32 { self.x_offset }
    open spec fn dy(&self) -> u32 { self.y_offset }
    open spec fn w(&self) -> real { px(self.width) }
    open spec fn h(&self) -> real { px(self.height) }
    open spec fn mv(&self) -> ObjectMovement { self.object_movement }
    open spec fn ty(&self) -> DrawingType { DrawingType::Vml }
    open spec fn label(&self) -> Seq<char> { self.name@ }
    open spec fn alt(&self) -> Seq<char> { self.alt_text@ }
    open spec fn deco(&self) -> bool { self.decorative }
    open spec fn ok(&self) -> bool { true }
//@fn src/button.rs x_offset impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs y_offset impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs width_scaled impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs height_scaled impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs object_movement impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs name impl="DrawingObject for Button" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/button.rs alt_text impl="DrawingObject for Button" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/button.rs decorative impl="DrawingObject for Button" ret=r nopub
//@end
//@fn src/button.rs drawing_type impl="DrawingObject for Button" ret=r nopub
//@end
}
impl DrawingObject for Note {
    open spec fn dx(&self) -> u32 { match self.x_offset { Some(x) => x, None => if self.cell_col == COL_MAX - 3 || self.cell_col == COL_MAX - 2 || self.cell_col == COL_MAX - 1 { 49 } else { 15 } } }
    open spec fn dy(&self) -> u32 { match self.y_offset { Some(y) => y, None => if self.cell_row == 0 { 2 } else if self.cell_row == ROW_MAX - 3 || self.cell_row == ROW_MAX - 2 { 16 } else if self.cell_row == ROW_MAX - 1 { 14 } else { 10 } } }
    open spec fn w(&self) -> real { px(self.width) }
    open spec fn h(&self) -> real { px(self.height) }
    open spec fn mv(&self) -> ObjectMovement { self.object_movement }
    open spec fn ty(&self) -> DrawingType { DrawingType::Vml }
    open spec fn label(&self) -> Seq<char> { self.text@ }
    open spec fn alt(&self) -> Seq<char> { self.alt_text@ }
    open spec fn deco(&self) -> bool { self.decorative }
    open spec fn ok(&self) -> bool { true }
//@fn src/note.rs x_offset impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs y_offset impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs width_scaled impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs height_scaled impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs object_movement impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs name impl="DrawingObject for Note" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/note.rs alt_text impl="DrawingObject for Note" ret=r nopub
//@rewrite self\.(\w+)\.clone\(\) => vp_copy(&self.\1)
//@end
//@fn src/note.rs decorative impl="DrawingObject for Note" ret=r nopub
//@end
//@fn src/note.rs drawing_type impl="DrawingObject for Note" ret=r nopub
//@end
}
impl Image {
//@fn src/image.rs set_width impl="impl Image" ret=r
| requires px(self.width) > 0real, px(self.width_dpi) > 0real,
| ensures r == (Image { scale_width: r.scale_width, ..self }), width == 0 ==> r == self, width > 0 ==> r.w() == width as real,
//@rewrite \(f64::from\(width\) / self\.width\) \* \(self\.width_dpi / 96\.0\) => vp_times(vp_over(vp_f(width), self.width), vp_over(self.width_dpi, vp_f(96)))
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@after /vp_s\.scale_width = [^;]*;/
| proof { fits(width as real, px(self.width), px(self.width_dpi)); }
//@end
//@fn src/image.rs set_scale_width impl="impl Image" ret=r
| ensures r == (if px(scale) <= 0real { self } else { Image { scale_width: scale, ..self } }),
//@rewrite scale <= 0\.0 => !vp_less(vp_f(0), scale)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/image.rs set_height impl="impl Image" ret=r
| requires px(self.height) > 0real, px(self.height_dpi) > 0real,
| ensures r == (Image { scale_height: r.scale_height, ..self }), height == 0 ==> r == self, height > 0 ==> r.h() == height as real,
//@rewrite \(f64::from\(height\) / self\.height\) \* \(self\.height_dpi / 96\.0\) => vp_times(vp_over(vp_f(height), self.height), vp_over(self.height_dpi, vp_f(96)))
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@after /vp_s\.scale_height = [^;]*;/
| proof { fits(height as real, px(self.height), px(self.height_dpi)); }
//@end
//@fn src/image.rs set_scale_height impl="impl Image" ret=r
| ensures r == (if px(scale) <= 0real { self } else { Image { scale_height: scale, ..self } }),
//@rewrite scale <= 0\.0 => !vp_less(vp_f(0), scale)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/image.rs width impl="impl Image" ret=r
| ensures r == self.width,
//@end
//@fn src/image.rs height impl="impl Image" ret=r
| ensures r == self.height,
//@end
//@fn src/image.rs width_dpi impl="impl Image" ret=r
| ensures r == self.width_dpi,
//@end
//@fn src/image.rs height_dpi impl="impl Image" ret=r
| ensures r == self.height_dpi,
//@end
//@fn src/image.rs set_scale_to_size impl="impl Image" ret=r
| requires px(self.width) > 0real, px(self.height) > 0real, px(self.width_dpi) > 0real, px(self.height_dpi) > 0real,
| ensures width == 0 || height == 0 ==> r == self, r == (Image { scale_width: r.scale_width, scale_height: r.scale_height, ..self }), width > 0 && height > 0 && !keep_aspect_ratio ==> r.w() == width as real && r.h() == height as real, width > 0 && height > 0 && keep_aspect_ratio ==> px(r.scale_width) == px(r.scale_height) && r.w() <= width as real && r.h() <= height as real && (r.w() == width as real || r.h() == height as real),
//@rewrite sig:<T> =>
//@rewrite sig:width: T => width: u32
//@rewrite sig:height: T => height: u32
//@rewrite sig:(?s)where\s*T: Into<f64> \+ Copy, =>
//@rewrite width\.into\(\) == 0\.0 \|\| height\.into\(\) == 0\.0 => width == 0 || height == 0
//@rewrite \(width\.into\(\) / self\.width\(\)\) \* \(self\.width_dpi\(\) / 96\.0\) => vp_times(vp_over(vp_f(width), self.width()), vp_over(self.width_dpi(), vp_f(96)))
//@rewrite \(height\.into\(\) / self\.height\(\)\) \* \(self\.height_dpi\(\) / 96\.0\) => vp_times(vp_over(vp_f(height), self.height()), vp_over(self.height_dpi(), vp_f(96)))
//@rewrite scale_width < scale_height => vp_less(scale_width, scale_height)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@before /if keep_aspect_ratio/
| proof { fits(width as real, px(self.width), px(self.width_dpi)); fits(height as real, px(self.height), px(self.height_dpi)); fit_less(px(self.width), px(self.width_dpi), px(scale_height), px(scale_width)); fit_less(px(self.height), px(self.height_dpi), px(scale_width), px(scale_height)); fit_more(width as real, px(self.width), px(self.width_dpi)); fit_more(height as real, px(self.height), px(self.height_dpi)); }
//@end
}
pub proof fn fits(t: real, w: real, d: real) requires w > 0real, d > 0real ensures w * ((t / w) * (d / 96real)) * 96real / d == t {
    let a = t / w; let b = d / 96real;
    assert(a * w == t) by (nonlinear_arith) requires a == t / w, w > 0real;
    assert(w * (a * b) * 96real == (a * w) * (b * 96real)) by (nonlinear_arith);
    assert(b * 96real == d);
    let x = w * (a * b) * 96real; assert(x == t * d);
    assert(x / d == t) by (nonlinear_arith) requires x == t * d, d > 0real;
}
pub proof fn fit_more(t: real, w: real, d: real) requires w > 0real, d > 0real ensures t > 0real ==> (t / w) * (d / 96real) > 0real {
    if t > 0real {
    let a = t / w; let b = d / 96real;
    assert(a > 0real) by (nonlinear_arith) requires a == t / w, t > 0real, w > 0real;
    assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
    }
}
pub proof fn fit_less(w: real, d: real, a: real, b: real) requires w > 0real, d > 0real ensures a <= b ==> w * a * 96real / d <= w * b * 96real / d {
    if a <= b {
        assert(w * a <= w * b) by (nonlinear_arith) requires a <= b, w > 0real;
        let x = w * a * 96real; let y = w * b * 96real;
        assert(x / d <= y / d) by (nonlinear_arith) requires x <= y, d > 0real;
    }
}
impl Chart {
//@fn src/chart.rs set_width impl="impl Chart$" ret=r
| ensures *final(self) == *final(r), width == 0 ==> *r == *old(self), *r == (Chart { width: r.width, ..*old(self) }), width > 0 ==> px(r.width) == width as real,
//@rewrite f64::from\(width\) => vp_f(width)
//@end
//@fn src/chart.rs set_height impl="impl Chart$" ret=r
| ensures *final(self) == *final(r), height == 0 ==> *r == *old(self), *r == (Chart { height: r.height, ..*old(self) }), height > 0 ==> px(r.height) == height as real,
//@rewrite f64::from\(height\) => vp_f(height)
//@end
//@fn src/chart.rs set_scale_width impl="impl Chart$" ret=r
| ensures *final(self) == *final(r), *r == (if px(scale) <= 0real { *old(self) } else { Chart { scale_width: scale, ..*old(self) } }),
//@rewrite scale <= 0\.0 => !vp_less(vp_f(0), scale)
//@end
//@fn src/chart.rs set_scale_height impl="impl Chart$" ret=r
| ensures *final(self) == *final(r), *r == (if px(scale) <= 0real { *old(self) } else { Chart { scale_height: scale, ..*old(self) } }),
//@rewrite scale <= 0\.0 => !vp_less(vp_f(0), scale)
//@end
//@fn src/chart.rs set_object_movement impl="impl Chart$" ret=r
| ensures *final(self) == *final(r), *r == (Chart { object_movement: option, ..*old(self) }),
//@end
/// trusted here: whether the chart has what charts need
#[verifier::external_body] fn validate(&self) -> (r: Result<(), XlsxError>) { unimplemented!() }
}
impl Shape {
//@fn src/shape.rs set_width impl="impl Shape$" ret=r
| ensures width < 5 ==> r == self, r == (Shape { width: r.width, ..self }), width >= 5 ==> px(r.width) == width as real,
//@rewrite f64::from\(width\) => vp_f(width)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/shape.rs set_height impl="impl Shape$" ret=r
| ensures height < 5 ==> r == self, r == (Shape { height: r.height, ..self }), height >= 5 ==> px(r.height) == height as real,
//@rewrite f64::from\(height\) => vp_f(height)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/shape.rs set_object_movement impl="impl Shape$" ret=r
| ensures r == (Shape { object_movement: option, ..self }),
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
}
impl Button {
//@fn src/button.rs set_width impl="impl Button$" ret=r
| ensures width < 1 ==> r == self, r == (Button { width: r.width, ..self }), width >= 1 ==> px(r.width) == width as real,
//@rewrite f64::from\(width\) => vp_f(width)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/button.rs set_height impl="impl Button$" ret=r
| ensures height < 1 ==> r == self, r == (Button { height: r.height, ..self }), height >= 1 ==> px(r.height) == height as real,
//@rewrite f64::from\(height\) => vp_f(height)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/button.rs set_object_movement impl="impl Button$" ret=r
| ensures r == (Button { object_movement: option, ..self }),
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
}
impl Note {
//@fn src/note.rs set_width impl="impl Note$" ret=r
| ensures width < 1 ==> r == self, r == (Note { width: r.width, ..self }), width >= 1 ==> px(r.width) == width as real,
//@rewrite f64::from\(width\) => vp_f(width)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/note.rs set_height impl="impl Note$" ret=r
| ensures height < 1 ==> r == self, r == (Note { height: r.height, ..self }), height >= 1 ==> px(r.height) == height as real,
//@rewrite f64::from\(height\) => vp_f(height)
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
//@fn src/note.rs set_object_movement impl="impl Note$" ret=r
| ensures r == (Note { object_movement: option, ..self }),
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
}
impl Image {
//@fn src/image.rs set_object_movement impl="impl Image" ret=r
| ensures r == (Image { object_movement: option, ..self }),
//@at body-start
| let mut vp_s = self;
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@end
}
//@fn src/worksheet.rs round_to_emus ret=r
| ensures px(r) == near(px(dimension) * 9525real) as real,
//@rewrite \(dimension \* 9525\.0\)\.round\(\) => vp_round(vp_times(dimension, vp_f(9525)))
//@end
impl Worksheet {
//@fn src/worksheet.rs column_pixel_width impl="impl Worksheet" ret=r
| requires sizes_ok(*old(self)),
| ensures *final(self) == *old(self), r == col_size(old(self).changed_cols@, col as int, position),
//@rewrite (\d+)\.0_f64 => vp_f(\1)
//@rewrite pixel_width < 1\.0 => vp_less(pixel_width, vp_f(1))
//@rewrite \(pixel_width \* \(max_digit_width \+ padding\)\)\.round\(\) as u32 => vp_u32_round(vp_times(pixel_width, vp_plus(max_digit_width, padding)))
//@rewrite \(pixel_width \* max_digit_width\)\.round\(\) as u32 \+ padding as u32 => vp_u32_round(vp_times(pixel_width, max_digit_width)) + vp_u32(padding)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms; proof { whole_is(5); size_bound(self.changed_cols@, col as int, position); if self.changed_cols@.dom().contains(col) { let w = px(self.changed_cols@[col].width); near_is(w * 7real); } }
//@end
//@fn src/worksheet.rs row_pixel_height impl="impl Worksheet" ret=r
| ensures *final(self) == *old(self), r == row_size(old(self).changed_rows@, px(old(self).user_default_row_height), row as int, position),
//@rewrite \((self\.user_default_row_height|height) \* 4\.0 / 3\.0\) as u32 => vp_u32(vp_over(vp_times(\1, vp_f(4)), vp_f(3)))
//@rewrite row_options\.height\.unwrap_or\(self\.user_default_row_height\) => match row_options.height { Some(h) => h, None => self.user_default_row_height }
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
//@fn src/worksheet.rs position_object_pixels impl="impl Worksheet" ret=r
| requires sizes_ok(*old(self)), col < COL_MAX, row < ROW_MAX, object.ok(),
| ensures *final(self) == *old(self), placed(*old(self), row, col, *object, r),
//@rewrite (?s)x_abs \+= u64::from\((self\.column_pixel_width\(col, object\.object_movement\(\)\))\) => x_abs += \1 as u64
//@rewrite (?s)y_abs \+= u64::from\((self\.row_pixel_height\(row, object\.object_movement\(\)\))\) => y_abs += \1 as u64
//@rewrite ([xy]_abs) \+= u64::from\(([xy]1)\); => \1 += \2 as u64;
//@rewrite u32::from\((col_\w+)\) => \1 as u32
//@rewrite ([xy]1) = \1\.min\((\w+)\); => \1 = vp_min32(\1, \2);
//@rewrite ([xy]2) = (\w+) \+ f64::from\(([xy]1)\); => \1 = vp_plus(\2, vp_f(\3));
//@rewrite let (col_size|row_size) = f64::from\((self\.\w+\(\w+, object\.object_movement\(\)\))\); => let \1 = vp_f(\2);
//@rewrite ([xy]2) >= (\w+) && => !vp_less(\1, \2) &&
//@rewrite ([xy]2) -= (\w+); => \1 = vp_minus(\1, \2);
//@rewrite ([xy]2) = \1\.min\((\w+)\); => \1 = vp_min(\1, \2);
//@rewrite f64::from\(([xy]1)\) => vp_f(\1)
//@rewrite for col in 0\.\.col_start => for vp_c in 0..col_start
//@rewrite for row in 0\.\.row_start => for vp_r in 0..row_start
//@rewrite pixel_width\(col, => pixel_width(vp_c,
//@rewrite pixel_height\(row, => pixel_height(vp_r,
//@at body-start
| let ghost mv = object.mv();
//@loop 1
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), x_abs == left(self.changed_cols@, vp_c as int, mv), 0 <= x_abs <= vp_c * 1790, col_start == col, x1 == object.dx(), y1 == object.dy(), row_start == row, object.ok(), px(width) == object.w(), px(height) == object.h(), y_abs == 0,
//@at loop 1 start
| proof { size_bound(self.changed_cols@, vp_c as int, mv); }
//@loop 2
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), y_abs == top(self.changed_rows@, px(self.user_default_row_height), vp_r as int, mv), 0 <= y_abs <= vp_r * 546, col_start == col, x1 == object.dx(), y1 == object.dy(), row_start == row, object.ok(), x_abs == left(self.changed_cols@, col as int, mv) + object.dx(),
//@at loop 2 start
| proof { rsize_bound(self.changed_rows@, px(self.user_default_row_height), vp_r as int, mv); }
//@loop 3
| invariant_except_break left(self.changed_cols@, col_start as int, mv) + x1 == left(self.changed_cols@, col as int, mv) + object.dx(),
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), col_start < COL_MAX,
| ensures in_col(*self, mv, col_start as int, x1 as real, (left(self.changed_cols@, col as int, mv) + object.dx()) as real),
| decreases COL_MAX - col_start,
//@at loop 3 start
| proof { size_bound(self.changed_cols@, col_start as int, mv); left_bound(self.changed_cols@, col_start + 1, COL_MAX as int, mv); }
//@loop 4
| invariant_except_break top(self.changed_rows@, px(self.user_default_row_height), row_start as int, mv) + y1 == top(self.changed_rows@, px(self.user_default_row_height), row as int, mv) + object.dy(),
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), row_start < ROW_MAX,
| ensures in_row(*self, mv, row_start as int, y1 as real, (top(self.changed_rows@, px(self.user_default_row_height), row as int, mv) + object.dy()) as real),
| decreases ROW_MAX - row_start,
//@at loop 4 start
| proof { rsize_bound(self.changed_rows@, px(self.user_default_row_height), row_start as int, mv); top_bound(self.changed_rows@, px(self.user_default_row_height), row_start + 1, ROW_MAX as int, mv); }
//@loop 5
| invariant_except_break left(self.changed_cols@, col_end as int, mv) as real + px(x2) == left(self.changed_cols@, col_start as int, mv) as real + x1 as real + object.w(),
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), col_end < COL_MAX,
| ensures in_col(*self, mv, col_end as int, px(x2), left(self.changed_cols@, col_start as int, mv) as real + x1 as real + object.w()),
| decreases COL_MAX - col_end,
//@at loop 5 start
| proof { size_bound(self.changed_cols@, col_end as int, mv); left_bound(self.changed_cols@, col_end + 1, COL_MAX as int, mv); }
//@loop 6
| invariant_except_break top(self.changed_rows@, px(self.user_default_row_height), row_end as int, mv) as real + px(y2) == top(self.changed_rows@, px(self.user_default_row_height), row_start as int, mv) as real + y1 as real + object.h(),
| invariant self.changed_cols == old(self).changed_cols, self.changed_rows == old(self).changed_rows, *self == *old(self), sizes_ok(*self), mv == object.mv(), row_end < ROW_MAX,
| ensures in_row(*self, mv, row_end as int, px(y2), top(self.changed_rows@, px(self.user_default_row_height), row_start as int, mv) as real + y1 as real + object.h()),
| decreases ROW_MAX - row_end,
//@at loop 6 start
| proof { rsize_bound(self.changed_rows@, px(self.user_default_row_height), row_end as int, mv); top_bound(self.changed_rows@, px(self.user_default_row_height), row_end + 1, ROW_MAX as int, mv); }
//@end
//@fn src/worksheet.rs position_object_emus impl="impl Worksheet" ret=r
| requires sizes_ok(*old(self)), col < COL_MAX, row < ROW_MAX, object.ok(),
| ensures *final(self) == *old(self), exists|p: DrawingInfo| #[trigger] placed(*old(self), row, col, *object, p) && scaled(p, r),
//@after /let mut drawing_info = [^;]*;/
| let ghost p = drawing_info; proof { left_bound(self.changed_cols@, col as int, COL_MAX as int, object.mv()); top_bound(self.changed_rows@, px(self.user_default_row_height), row as int, ROW_MAX as int, object.mv()); }
//@rewrite (drawing_info\.\w+) \*= 9525; => \1 = \1 * 9525;
//@before /drawing_info\n?\s*\}$/
| proof { assert(placed(*old(self), row, col, *object, p) && scaled(p, drawing_info)); }
//@end
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=r
| ensures *final(self) == *old(self), r == (row < ROW_MAX && col < COL_MAX),
//@end
//@fn src/worksheet.rs insert_image_with_offset impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => row < ROW_MAX && col < COL_MAX && *final(self) == *final(p) && p.images.m() == old(self).images.m().insert((row, col, y_offset, x_offset), Image { x_offset, y_offset, ..*image }) && *p == (Worksheet { images: p.images, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@rewrite (image|chart|shape|button)\.clone\(\) => \1.vp_clone()
//@end
//@fn src/worksheet.rs insert_image impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => *final(self) == *final(p) && p.images.m() == old(self).images.m().insert((row, col, 0, 0), Image { x_offset: 0, y_offset: 0, ..*image }) && *p == (Worksheet { images: p.images, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs insert_shape_with_offset impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => row < ROW_MAX && col < COL_MAX && *final(self) == *final(p) && p.shapes.m() == old(self).shapes.m().insert((row, col, y_offset, x_offset), Shape { x_offset, y_offset, ..*shape }) && *p == (Worksheet { shapes: p.shapes, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@rewrite (image|chart|shape|button)\.clone\(\) => \1.vp_clone()
//@end
//@fn src/worksheet.rs insert_shape impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => *final(self) == *final(p) && p.shapes.m() == old(self).shapes.m().insert((row, col, 0, 0), Shape { x_offset: 0, y_offset: 0, ..*shape }) && *p == (Worksheet { shapes: p.shapes, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs insert_button_with_offset impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => row < ROW_MAX && col < COL_MAX && *final(self) == *final(p) && p.buttons.m() == old(self).buttons.m().insert((row, col, y_offset, x_offset), Button { x_offset, y_offset, ..*button }) && *p == (Worksheet { buttons: p.buttons, has_vml: true, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@rewrite (image|chart|shape|button)\.clone\(\) => \1.vp_clone()
//@end
//@fn src/worksheet.rs insert_button impl="impl Worksheet" ret=r
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => *final(self) == *final(p) && p.buttons.m() == old(self).buttons.m().insert((row, col, 0, 0), Button { x_offset: 0, y_offset: 0, ..*button }) && *p == (Worksheet { buttons: p.buttons, has_vml: true, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs insert_chart_with_offset impl="impl Worksheet" ret=r
| ensures (row >= ROW_MAX || col >= COL_MAX) ==> r is Err, match r { Ok(p) => row < ROW_MAX && col < COL_MAX && *final(self) == *final(p) && p.charts.m() == old(self).charts.m().insert(if old(self).is_chartsheet { (0u32, 0u16, y_offset, x_offset) } else { (row, col, y_offset, x_offset) }, Chart { x_offset: if old(self).is_chartsheet { 0 } else { x_offset }, y_offset: if old(self).is_chartsheet { 0 } else { y_offset }, is_chartsheet: old(self).is_chartsheet, ..*chart }) && *p == (Worksheet { charts: p.charts, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@rewrite (image|chart|shape|button)\.clone\(\) => \1.vp_clone()
//@end
//@fn src/worksheet.rs insert_chart impl="impl Worksheet" ret=r
| ensures (row >= ROW_MAX || col >= COL_MAX) ==> r is Err, match r { Ok(p) => *final(self) == *final(p) && p.charts.m() == old(self).charts.m().insert(if old(self).is_chartsheet { (0u32, 0u16, 0u32, 0u32) } else { (row, col, 0u32, 0u32) }, Chart { x_offset: 0, y_offset: 0, is_chartsheet: old(self).is_chartsheet, ..*chart }) && *p == (Worksheet { charts: p.charts, ..*old(self) }), Err(_) => *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs insert_image_fit_to_cell impl="impl Worksheet" ret=r
| requires sizes_ok(*old(self)), px(image.width) > 0real, px(image.height) > 0real, px(image.width_dpi) > 0real, px(image.height_dpi) > 0real,
| ensures r is Ok <==> row < ROW_MAX && col < COL_MAX, match r { Ok(p) => *final(self) == *final(p) && *p == (Worksheet { images: p.images, ..*old(self) }) && exists|i: Image| #[trigger] fitted(*old(self), row, col, *image, keep_aspect_ratio, i) && p.images.m() == old(self).images.m().insert((row, col, 0, 0), i), Err(_) => *final(self) == *old(self) },
//@rewrite (?s)let image = image\s*\.clone\(\) => let vp_i = image.vp_clone()
//@rewrite 0, 0\), image\) => 0, 0), vp_i)
//@after /set_scale_to_size[^;]*;/
| proof { assert(fitted(*self, row, col, *image, keep_aspect_ratio, vp_i)); }
//@end
}
/// the image as large as its cell, or as large as possible in the cell with the ratio of its sides kept
pub open spec fn fitted(w: Worksheet, row: u32, col: u16, a: Image, keep: bool, b: Image) -> bool {
    let cw = col_size(w.changed_cols@, col as int, a.object_movement);
    let ch = row_size(w.changed_rows@, px(w.user_default_row_height), row as int, a.object_movement);
    b == (Image { scale_width: b.scale_width, scale_height: b.scale_height, ..a }) && (cw == 0 || ch == 0 ==> b == a)
    && (cw > 0 && ch > 0 && !keep ==> b.w() == cw as real && b.h() == ch as real)
    && (cw > 0 && ch > 0 && keep ==> px(b.scale_width) == px(b.scale_height) && b.w() <= cw as real && b.h() <= ch as real && (b.w() == cw as real || b.h() == ch as real))
}
impl Note {
//@fn src/note.rs row impl="impl Note" ret=r
| requires self.cell_row < ROW_MAX, self.row is None,
| ensures r == note_row(*self), r < ROW_MAX,
//@end
//@fn src/note.rs col impl="impl Note" ret=r
| requires self.cell_col < COL_MAX, self.col is None,
| ensures r == note_col(*self), r < COL_MAX,
//@end
}
/// a note is shown next to its cell: a row higher and a column to the right, or where there is room
pub open spec fn note_row(n: Note) -> int { let r = n.cell_row as int; if r == 0 { 0 } else if r >= ROW_MAX - 3 { r - 4 } else { r - 1 } }
pub open spec fn note_col(n: Note) -> int { let c = n.cell_col as int; if c >= COL_MAX - 3 { c - 3 } else { c + 1 } }
// ---------------------------------------------------------------- what is written
pub open spec fn point(tag: Seq<char>, c: DrawingCoordinates) -> Seq<Tag> { seq![Tag::Open(tag, seq![]), Tag::Data("xdr:col"@, seq![], dec(c.col as nat)), Tag::Data("xdr:colOff"@, seq![], f_text(c.col_offset)), Tag::Data("xdr:row"@, seq![], dec(c.row as nat)), Tag::Data("xdr:rowOff"@, seq![], f_text(c.row_offset)), Tag::Close(tag)] }
pub open spec fn edit_as(m: ObjectMovement) -> Attrs { match m { ObjectMovement::MoveButDontSizeWithCells => seq![("editAs"@, "oneCell"@)], ObjectMovement::DontMoveOrSizeWithCells => seq![("editAs"@, "absolute"@)], _ => seq![] } }
pub open spec fn corner(i: DrawingInfo) -> Seq<Tag> { seq![Tag::Empty("a:off"@, seq![("x"@, dec(i.col_absolute as nat)), ("y"@, dec(i.row_absolute as nat))]), Tag::Empty("a:ext"@, seq![("cx"@, f_text(i.width)), ("cy"@, f_text(i.height))])] }
pub open spec fn rect() -> Seq<Tag> { seq![Tag::Open("a:prstGeom"@, seq![("prst"@, "rect"@)]), Tag::Empty("a:avLst"@, seq![]), Tag::Close("a:prstGeom"@)] }
pub open spec fn sp_pr(i: DrawingInfo, more: Seq<Tag>) -> Seq<Tag> { seq![Tag::Open("xdr:spPr"@, seq![]), Tag::Open("a:xfrm"@, seq![])] + corner(i) + seq![Tag::Close("a:xfrm"@)] + rect() + more + seq![Tag::Close("xdr:spPr"@)] }
// what does not say where the object is
pub uninterp spec fn pic_pr(n: u32, i: DrawingInfo) -> Seq<Tag>;
pub uninterp spec fn blip(r: u32) -> Seq<Tag>;
pub uninterp spec fn frame(n: u32, i: DrawingInfo) -> Seq<Tag>;
pub uninterp spec fn shape_pr(n: u32, i: DrawingInfo) -> Seq<Tag>;
pub uninterp spec fn looks(s: Shape) -> Seq<Tag>;
pub uninterp spec fn style() -> Seq<Tag>;
pub uninterp spec fn body(i: DrawingInfo, s: Shape) -> Seq<Tag>;
pub open spec fn picture(n: u32, i: DrawingInfo) -> Seq<Tag> { seq![Tag::Open("xdr:pic"@, seq![])] + pic_pr(n, i) + blip(i.rel_id) + sp_pr(i, seq![]) + seq![Tag::Close("xdr:pic"@)] }
pub open spec fn shape_tags(n: u32, i: DrawingInfo, s: Shape) -> Seq<Tag> { seq![Tag::Open("xdr:sp"@, seq![("macro"@, ""@), ("textlink"@, match s.text_link { Some(f) => f.formula_string@, None => ""@ })])] + shape_pr(n, i) + sp_pr(i, looks(s)) + style() + body(i, s) + seq![Tag::Close("xdr:sp"@)] }
pub open spec fn shape_count(d: Seq<DrawingInfo>, k: int) -> int decreases k { if k <= 0 { 0 } else { shape_count(d, k - 1) + if d[k - 1].drawing_type is Shape { 1int } else { 0 } } }
/// one anchor: from, to and the object itself
pub open spec fn anchor(n: u32, i: DrawingInfo, s: Shape) -> Seq<Tag> {
    seq![Tag::Open("xdr:twoCellAnchor"@, edit_as(i.object_movement))] + point("xdr:from"@, i.from) + point("xdr:to"@, i.to)
    + (match i.drawing_type { DrawingType::Image => picture(n, i), DrawingType::Chart => frame(n, i), DrawingType::Shape => shape_tags(n, i, s), _ => seq![] })
    + seq![Tag::Empty("xdr:clientData"@, seq![]), Tag::Close("xdr:twoCellAnchor"@)]
}
/// the anchors of the drawings in order, shapes in their order
pub open spec fn anchors(d: Seq<DrawingInfo>, s: Seq<Shape>, k: int) -> Seq<Tag> decreases k { if k <= 0 { seq![] } else { anchors(d, s, k - 1) + anchor(k as u32, d[k - 1], s[shape_count(d, k - 1)]) } }
pub proof fn anchors_next(d: Seq<DrawingInfo>, s: Seq<Shape>, k: int) requires 0 <= k ensures anchors(d, s, k + 1) == anchors(d, s, k) + anchor((k + 1) as u32, d[k], s[shape_count(d, k)]), shape_count(d, k + 1) == shape_count(d, k) + if d[k].drawing_type is Shape { 1int } else { 0 } { }
pub proof fn count_le(d: Seq<DrawingInfo>, k: int, n: int) requires 0 <= k <= n ensures 0 <= shape_count(d, k) <= shape_count(d, n) decreases n { if k < n { count_le(d, k, n - 1); } else if k > 0 { count_le(d, k - 1, k - 1); } }
impl VpText for u64 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpFmt for f64 { open spec fn disp(&self) -> Seq<char> { f_text(*self) } #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl Drawing {
#[verifier::external_body] fn write_nv_pic_pr(&mut self, index: u32, drawing_info: &DrawingInfo) ensures final(self).writer.log() == old(self).writer.log() + pic_pr(index, *drawing_info), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_blip_fill(&mut self, index: u32) ensures final(self).writer.log() == old(self).writer.log() + blip(index), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_graphic_frame(&mut self, index: u32, drawing_info: &DrawingInfo) ensures final(self).writer.log() == old(self).writer.log() + frame(index, *drawing_info), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_nv_sp_pr(&mut self, index: u32, drawing_info: &DrawingInfo) ensures final(self).writer.log() == old(self).writer.log() + shape_pr(index, *drawing_info), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_shape_formatting(&mut self, s: &Shape) ensures final(self).writer.log() == old(self).writer.log() + looks(*s), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_style(&mut self) ensures final(self).writer.log() == old(self).writer.log() + style(), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
#[verifier::external_body] fn write_tx_body(&mut self, drawing_info: &DrawingInfo, shape: &Shape) ensures final(self).writer.log() == old(self).writer.log() + body(*drawing_info, *shape), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
//@fn src/drawing.rs write_from impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + point("xdr:from"@, *coords), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_to impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + point("xdr:to"@, *coords), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_a_off impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![corner(*drawing_info)[0]], *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_a_ext impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![corner(*drawing_info)[1]], *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_a_prst_geom impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + rect(), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_sp_pr impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + sp_pr(*drawing_info, seq![]), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_shape_sp_pr impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + sp_pr(*drawing_info, looks(*shape)), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@rewrite &shape\.format => shape
//@end
//@fn src/drawing.rs write_pic impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + picture(index, *drawing_info), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@end
//@fn src/drawing.rs write_sp impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + shape_tags(index, *drawing_info, *shape), *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@rewrite String::new\(\) => "".vp_text()
//@rewrite text_link\.formula_string\.clone\(\) => vp_copy(&text_link.formula_string)
//@before /xml_start_tag/
| assert(av(attributes@) =~= seq![("macro"@, ""@), ("textlink"@, match shape.text_link { Some(f) => f.formula_string@, None => ""@ })]);
//@end
//@fn src/drawing.rs write_two_cell_anchor impl="impl Drawing"
| requires drawing_info.drawing_type is Shape ==> old(self).shape_id < old(self).shapes@.len(),
| ensures final(self).writer.log() =~= old(self).writer.log() + anchor(index, *drawing_info, old(self).shapes@[old(self).shape_id as int]), *final(self) == (Drawing { writer: final(self).writer, shape_id: final(self).shape_id, ..*old(self) }), final(self).shape_id == old(self).shape_id + if drawing_info.drawing_type is Shape { 1int } else { 0 },
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@rewrite self\.shapes\[self\.shape_id\]\.clone\(\) => self.shapes[self.shape_id].vp_clone()
//@before /self\.shape_id \+= 1;/
| let vp_n = self.shapes.len();
//@before /xml_start_tag/
| assert(av(attributes@) =~= edit_as(drawing_info.object_movement));
//@end
//@fn src/drawing.rs write_ws_dr impl="impl Drawing"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![ws_dr()], *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)\("(\w+)", ("[^"]*")\) => ("\1", \2.vp_text())
//@at body-start
| broadcast use av_push, av_none, av_one, av_two;
//@rewrite (?s)\(\s*("xmlns:\w+"),\s*("[^"]*"),\s*\) => (\1, \2.vp_text())
//@end
#[verifier::external_body] fn write_absolute_anchor(&mut self, drawing_info: &DrawingInfo) ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }) { unimplemented!() }
//@fn src/drawing.rs assemble_xml_file impl="impl Drawing"
| requires old(self).shape_id == 0, old(self).drawings@.len() < u32::MAX, shape_count(old(self).drawings@, old(self).drawings@.len() as int) <= old(self).shapes@.len(), forall|i: int| 0 <= i < old(self).drawings@.len() ==> !((#[trigger] old(self).drawings@[i]).drawing_type is ChartSheet),
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![ws_dr()] + anchors(old(self).drawings@, old(self).shapes@, old(self).drawings@.len() as int) + seq![Tag::Close("xdr:wsDr"@)],
//@rewrite for drawing in &self\.drawings\.clone\(\) \{ => let vp_d = self.drawings.vp_clone(); for vp_k in 0..vp_d.len() { let drawing = &vp_d[vp_k];
//@loop 1
| invariant vp_d@ == old(self).drawings@, self.shapes == old(self).shapes, self.drawings == old(self).drawings, index == vp_k + 1, vp_d@.len() < u32::MAX, shape_count(vp_d@, vp_d@.len() as int) <= self.shapes@.len(), self.shape_id == shape_count(vp_d@, vp_k as int), forall|i: int| 0 <= i < vp_d@.len() ==> !((#[trigger] vp_d@[i]).drawing_type is ChartSheet), self.writer.log() =~= old(self).writer.log() + seq![ws_dr()] + anchors(vp_d@, self.shapes@, vp_k as int),
//@at loop 1 start
| proof { anchors_next(vp_d@, self.shapes@, vp_k as int); count_le(vp_d@, vp_k as int + 1, vp_d@.len() as int); count_le(vp_d@, 0, vp_k as int); }
//@end
}
pub open spec fn ws_dr() -> Tag { Tag::Open("xdr:wsDr"@, seq![("xmlns:xdr"@, "http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing"@), ("xmlns:a"@, "http://schemas.openxmlformats.org/drawingml/2006/main"@)]) }
pub broadcast proof fn av_one(a: [(&'static str, String); 1]) ensures #[trigger] av(a@) == seq![(a@[0].0@, a@[0].1@)] { assert(av(a@) =~= seq![(a@[0].0@, a@[0].1@)]); }
pub broadcast proof fn av_two(a: [(&'static str, String); 2]) ensures #[trigger] av(a@) == seq![(a@[0].0@, a@[0].1@), (a@[1].0@, a@[1].1@)] { assert(av(a@) =~= seq![(a@[0].0@, a@[0].1@), (a@[1].0@, a@[1].1@)]); }
pub open spec fn anchor_text(i: DrawingInfo) -> Seq<char> { dec(i.from.col as nat) + ", "@ + f_text(i.from.col_offset) + ", "@ + dec(i.from.row as nat) + ", "@ + f_text(i.from.row_offset) + ", "@ + dec(i.to.col as nat) + ", "@ + f_text(i.to.col_offset) + ", "@ + dec(i.to.row as nat) + ", "@ + f_text(i.to.row_offset) }
impl Vml {
//@fn src/vml.rs write_anchor impl="impl Vml"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Data("x:Anchor"@, seq![], anchor_text(vml_info.drawing_info))],
//@before /xml_data_element_only/
| assert(anchor@ =~= anchor_text(vml_info.drawing_info));
//@end
}
} // verus!
fn main() {}
