// C27: tabs, visibility, panes, selections and views.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs enum Visible derive=Clone,Copy
//@item src/worksheet.rs enum PageView derive=Clone,Copy
//@item src/worksheet.rs struct Panes derive=
//@item src/worksheet.rs struct Worksheet keep=writer,name,active,selected,visible,default_active_state,first_sheet,zoom,panes,selected_range,top_left_cell,screen_gridlines,right_to_left,page_view,is_chartsheet,page_setup_changed derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/workbook.rs struct Workbook keep=writer,worksheets,active_tab,first_sheet,default_active_tab derive= sub=Cursor<Vec<u8>>=>Writer
pub enum XlsxError { RowColumnLimitError, Other }

// ---------------------------------------------------------------- specification
/// the A1 form of a cell (unit c01 proves the two functions)
pub uninterp spec fn a1(r: int, c: int) -> Seq<char>;
pub open spec fn a1_range(r: int, c: int, r2: int, c2: int) -> Seq<char> { if r == r2 && c == c2 { a1(r, c) } else { a1(r, c) + seq![':'] + a1(r2, c2) } }
#[verifier::external_body] pub fn row_col_to_cell(r: u32, c: u16) -> (t: String) ensures t@ == a1(r as int, c as int), t@.len() > 0 { String::new() }
#[verifier::external_body] pub fn cell_range(r: u32, c: u16, r2: u32, c2: u16) -> (t: String) ensures t@ == a1_range(r as int, c as int, r2 as int, c2 as int), t@.len() > 0 { String::new() }
/// trusted: std String
#[verifier::external_body] pub fn vp_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_clear(s: &mut String) ensures final(s)@.len() == 0 { s.clear() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
pub open spec fn lo(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn hi(a: int, b: int) -> int { if a <= b { b } else { a } }
pub open spec fn inside(r: u32, c: u16) -> bool { r < ROW_MAX && c < COL_MAX }
/// the first visible tab is the last one flagged, or else the first
pub open spec fn is_first(v: Seq<Worksheet>, n: int, k: int) -> bool {
    0 <= k && (if exists|j: int| 0 <= j < n && (#[trigger] v[j]).first_sheet { k < n && v[k].first_sheet && forall|j: int| k < j < n ==> !(#[trigger] v[j]).first_sheet } else { k == 0 })
}
pub open spec fn any_active(v: Seq<Worksheet>) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).active }
/// one tab is active: the last one the user activated, or else the first; it is visible and selected; no other sheet changes
pub open spec fn tabs_set(a: Workbook, b: Workbook) -> bool {
    &&& a.worksheets@.len() == b.worksheets@.len() && b.active_tab < b.worksheets@.len() && b.first_sheet < b.worksheets@.len() && is_first(a.worksheets@, a.worksheets@.len() as int, b.first_sheet as int)
    &&& forall|i: int| 0 <= i < a.worksheets@.len() && i != b.active_tab ==> #[trigger] b.worksheets@[i] == a.worksheets@[i]
    &&& ({ let (x, y) = (a.worksheets@[b.active_tab as int], b.worksheets@[b.active_tab as int]);
        &&& y.active && y.selected && y.visible is Default
        &&& if any_active(a.worksheets@) { x.active && (forall|j: int| b.active_tab < j < a.worksheets@.len() ==> !(#[trigger] a.worksheets@[j]).active) && y == Worksheet { selected: true, visible: Visible::Default, ..x } && b.default_active_tab == a.default_active_tab }
            else { b.active_tab == 0 && b.default_active_tab && y == Worksheet { active: true, selected: true, visible: Visible::Default, default_active_state: (x.selected, x.visible), ..x } } })
    &&& b.writer == a.writer
}
pub open spec fn t(s: &'static str) -> Seq<char> { s@ }
pub open spec fn one() -> Seq<char> { "1"@ }
pub open spec fn view_kind(p: PageView) -> Seq<char> { match p { PageView::PageLayout => "pageLayout"@, _ => "pageBreakPreview"@ } }
pub open spec fn zoom_kind(p: PageView) -> Seq<char> { match p { PageView::PageLayout => "zoomScalePageLayoutView"@, PageView::PageBreaks => "zoomScaleSheetLayoutView"@, PageView::Normal => "zoomScaleNormal"@ } }
/// the attributes of the view: only what is not the default, and the zoom for the view in use
pub open spec fn view_attrs(w: Worksheet) -> Attrs {
    let a = add(Seq::empty(), !w.screen_gridlines, "showGridLines"@, "0"@);
    let a = add(a, w.right_to_left, "rightToLeft"@, "1"@);
    let a = add(a, w.selected, "tabSelected"@, "1"@);
    let a = add(a, !(w.page_view is Normal), "view"@, view_kind(w.page_view));
    let a = add(a, w.top_left_cell@.len() > 0, "topLeftCell"@, w.top_left_cell@);
    let a = add(a, w.zoom != 100, "zoomScale"@, dec(w.zoom as nat));
    let a = add(a, w.zoom != 100 && !(w.page_view is Normal && w.is_chartsheet), zoom_kind(w.page_view), dec(w.zoom as nat));
    a.push(("workbookViewId"@, "0"@))
}
pub open spec fn frozen(p: Panes) -> bool { p.freeze_cell.0 > 0 || p.freeze_cell.1 > 0 }
/// the cell at the top left of the pane that scrolls
pub open spec fn scrolled_to(p: Panes) -> Seq<char> {
    if p.top_cell.0 == 0 && p.top_cell.1 == 0 { a1(p.freeze_cell.0 as int, p.freeze_cell.1 as int) } else { a1(p.top_cell.0 as int, p.top_cell.1 as int) }
}
pub open spec fn pane_attrs(p: Panes, active: Seq<char>) -> Attrs {
    let a = add(Seq::empty(), p.freeze_cell.1 > 0, "xSplit"@, dec(p.freeze_cell.1 as nat));
    let a = add(a, p.freeze_cell.0 > 0, "ySplit"@, dec(p.freeze_cell.0 as nat));
    a.push(("topLeftCell"@, scrolled_to(p))).push(("activePane"@, active)).push(("state"@, "frozen"@))
}
pub open spec fn selection_tag(pane: Seq<char>, cell: Seq<char>, range: Seq<char>) -> Tag {
    let a = add(Seq::empty(), pane.len() > 0, "pane"@, pane);
    let a = add(a, cell.len() > 0, "activeCell"@, cell);
    Tag::Empty("selection"@, add(a, range.len() > 0, "sqref"@, range))
}
/// the frozen rows and columns, with a selection in each of the panes they make
pub open spec fn pane_tags(p: Panes) -> Seq<Tag> {
    let (r, c) = (p.freeze_cell.0 as int, p.freeze_cell.1 as int);
    if r > 0 && c > 0 { seq![Tag::Empty("pane"@, pane_attrs(p, "bottomRight"@)), selection_tag("topRight"@, a1(0, c), a1(0, c)), selection_tag("bottomLeft"@, a1(r, 0), a1(r, 0)), selection_tag("bottomRight"@, seq![], seq![])] }
    else if c > 0 { seq![Tag::Empty("pane"@, pane_attrs(p, "topRight"@)), selection_tag("topRight"@, seq![], seq![])] }
    else if r > 0 { seq![Tag::Empty("pane"@, pane_attrs(p, "bottomLeft"@)), selection_tag("bottomLeft"@, seq![], seq![])] }
    else { seq![] }
}
pub open spec fn selected_tags(w: Worksheet) -> Seq<Tag> { if w.selected_range.0@.len() > 0 { seq![selection_tag(seq![], w.selected_range.0@, w.selected_range.1@)] } else { seq![] } }
pub open spec fn view_tags(w: Worksheet) -> Seq<Tag> {
    if !frozen(w.panes) && w.selected_range.0@.len() == 0 { seq![Tag::Empty("sheetView"@, view_attrs(w))] }
    else { seq![Tag::Open("sheetView"@, view_attrs(w))] + pane_tags(w.panes) + selected_tags(w) + seq![Tag::Close("sheetView"@)] }
}
pub open spec fn sheet_tag(name: Seq<char>, v: Visible, n: int) -> Tag {
    let a = Seq::empty().push(("name"@, name)).push(("sheetId"@, dec(n as nat)));
    let a = match v { Visible::Default => a, Visible::Hidden => a.push(("state"@, "hidden"@)), Visible::VeryHidden => a.push(("state"@, "veryHidden"@)) };
    Tag::Empty("sheet"@, a.push(("r:id"@, "rId"@ + dec(n as nat))))
}
/// one element per sheet, in order
pub open spec fn sheet_tags(v: Seq<Worksheet>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { sheet_tags(v, n - 1).push(sheet_tag(v[n - 1].name@, v[n - 1].visible, n)) } }
pub open spec fn book_view(first: int, active: int) -> Attrs {
    let a = Seq::empty().push(("xWindow"@, "240"@)).push(("yWindow"@, "15"@)).push(("windowWidth"@, "16095"@)).push(("windowHeight"@, "9660"@));
    let a = add(a, first > 0, "firstSheet"@, dec((first + 1) as nat));
    add(a, active > 0, "activeTab"@, dec(active as nat))
}
impl Panes {
//@fn src/worksheet.rs is_empty impl="impl Panes" ret=r
| ensures r == !frozen(*self),
//@end
//@fn src/worksheet.rs top_left impl="impl Panes" ret=r
| ensures r@ == scrolled_to(*self),
//@rewrite utility:: =>
//@end
}
impl Worksheet {
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=r
| ensures r == inside(row, col), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs set_active impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if enable { Worksheet { active: true, selected: true, visible: Visible::Default, ..*old(self) } } else { Worksheet { active: false, ..*old(self) } }),
//@end
//@fn src/worksheet.rs set_selected impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if enable { Worksheet { selected: true, visible: Visible::Default, ..*old(self) } } else { Worksheet { selected: false, ..*old(self) } }),
//@end
//@fn src/worksheet.rs set_hidden impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if enable { Worksheet { visible: Visible::Hidden, selected: false, active: false, ..*old(self) } } else { Worksheet { visible: Visible::Default, ..*old(self) } }),
//@rewrite self\.visible == Visible::Hidden => matches!(self.visible, Visible::Hidden)
//@end
//@fn src/worksheet.rs set_very_hidden impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if enable { Worksheet { visible: Visible::VeryHidden, selected: false, active: false, ..*old(self) } } else { Worksheet { visible: Visible::Default, ..*old(self) } }),
//@rewrite self\.visible == Visible::VeryHidden => matches!(self.visible, Visible::VeryHidden)
//@end
//@fn src/worksheet.rs set_first_tab impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if enable { Worksheet { first_sheet: true, visible: Visible::Default, ..*old(self) } } else { Worksheet { first_sheet: false, ..*old(self) } }),
//@end
//@fn src/worksheet.rs set_default_active impl="impl Worksheet"
| ensures *final(self) == (Worksheet { active: true, selected: true, visible: Visible::Default, default_active_state: (old(self).selected, old(self).visible), ..*old(self) }),
//@end
//@fn src/worksheet.rs set_zoom impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if 10 <= zoom <= 400 { Worksheet { zoom: zoom, ..*old(self) } } else { *old(self) }),
//@rewrite !\(10\.\.=400\)\.contains\(&zoom\) => !(10 <= zoom && zoom <= 400)
//@rewrite eprintln!\([^;]*\); =>
//@end
//@fn src/worksheet.rs set_right_to_left impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { right_to_left: enable, ..*old(self) }),
//@end
//@fn src/worksheet.rs set_screen_gridlines impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { screen_gridlines: enable, ..*old(self) }),
//@end
//@fn src/worksheet.rs set_view_normal impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::Normal, ..*old(self) }),
//@end
//@fn src/worksheet.rs set_view_page_layout impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::PageLayout, page_setup_changed: true, ..*old(self) }),
//@end
//@fn src/worksheet.rs set_view_page_break_preview impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { page_view: PageView::PageBreaks, page_setup_changed: true, ..*old(self) }),
//@end
//@fn src/worksheet.rs set_freeze_panes impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => inside(row, col) && *final(self) == *final(p) && *p == (Worksheet { panes: Panes { freeze_cell: (row, col), ..old(self).panes }, ..*old(self) }), Err(_) => !inside(row, col) && *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs set_freeze_panes_top_cell impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => inside(row, col) && *final(self) == *final(p) && *p == (Worksheet { panes: Panes { top_cell: (row, col), ..old(self).panes }, ..*old(self) }), Err(_) => !inside(row, col) && *final(self) == *old(self) },
//@end
//@fn src/worksheet.rs set_selection impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => inside(first_row, first_col) && inside(last_row, last_col) && *final(self) == *final(p)
|     && p.selected_range.0@ == a1(first_row as int, first_col as int) && p.selected_range.0@.len() > 0 && p.selected_range.1@.len() > 0
|     && p.selected_range.1@ == a1_range(lo(first_row as int, last_row as int), lo(first_col as int, last_col as int), hi(first_row as int, last_row as int), hi(first_col as int, last_col as int))
|     && *p == (Worksheet { selected_range: p.selected_range, ..*old(self) }),
|   Err(_) => !(inside(first_row, first_col) && inside(last_row, last_col)) && *final(self) == *old(self) },
//@rewrite utility:: =>
//@rewrite std::mem::swap => vp_swap
//@end
//@fn src/worksheet.rs set_top_left_cell impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => inside(row, col) && *final(self) == *final(p) && *p == (Worksheet { top_left_cell: p.top_left_cell, ..*old(self) }) && (if row == 0 && col == 0 { p.top_left_cell@.len() == 0 } else { p.top_left_cell@ == a1(row as int, col as int) && p.top_left_cell@.len() > 0 }),
|   Err(_) => !inside(row, col) && *final(self) == *old(self) },
//@rewrite utility:: =>
//@rewrite self\.top_left_cell\.clear\(\) => vp_clear(&mut self.top_left_cell)
//@end
//@fn src/worksheet.rs write_sheet_views impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log().push(Tag::Open("sheetViews"@, seq![])) + view_tags(*old(self)) + seq![Tag::Close("sheetViews"@)], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@end
//@fn src/worksheet.rs write_sheet_view impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + view_tags(*old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite self\.(top_left_cell|selected_range\.0)\.is_empty\(\) => vp_is_empty(&self.\1)
//@rewrite self\.top_left_cell\.clone\(\) => vp_copy(&self.top_left_cell)
//@at body-start
| broadcast use {av_push, av_none};
//@before /if self\.panes\.is_empty\(\)/
| proof { assert(av(attributes@) == view_attrs(*old(self))); }
//@end
//@fn src/worksheet.rs write_selections impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + selected_tags(*old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite self\.selected_range\.0\.is_empty\(\) => vp_is_empty(&self.selected_range.0)
//@rewrite self\.selected_range\.(\d)\.clone\(\) => vp_copy(&self.selected_range.\1)
//@rewrite &active_cell, &range => active_cell.as_str(), range.as_str()
//@at body-start
| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn src/worksheet.rs write_panes impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + pane_tags(old(self).panes), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite &utility::row_col_to_cell\((\w+), (\w+)\) => row_col_to_cell(\1, \2).as_str()
//@at body-start
| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn src/worksheet.rs write_pane impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("pane"@, pane_attrs(old(self).panes, active_pane@))), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use {av_push, av_none};
//@end
//@fn src/worksheet.rs write_selection impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(selection_tag(position@, active_cell@, range@)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite (\w+)\.is_empty\(\) => vp_is_empty(\1)
//@at body-start
| broadcast use {av_push, av_none};
//@end
}
/// trusted: std::mem::swap
#[verifier::external_body] pub fn vp_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
impl Workbook {
//@fn src/workbook.rs set_active_worksheets impl="impl Workbook"
| requires 0 < old(self).worksheets@.len() <= 65535,
| ensures tabs_set(*old(self), *final(self)),
//@at body-start
| let ghost w0 = *self;
//@rewrite for \(i, worksheet\) in self\.worksheets\.iter\(\)\.enumerate\(\) \{ => for i in 0..self.worksheets.len() { let worksheet = &self.worksheets[i];
//@loop 1
| invariant self.worksheets == w0.worksheets, w0 == *old(self), self.default_active_tab == w0.default_active_tab, self.writer == w0.writer, 0 < self.worksheets@.len() <= 65535,
|   has_active == (exists|j: int| 0 <= j < i && (#[trigger] self.worksheets@[j]).active), active_index < self.worksheets@.len(),
|   has_active ==> active_index < i && self.worksheets@[active_index as int].active && forall|j: int| active_index < j < i ==> !(#[trigger] self.worksheets@[j]).active,
|   !has_active ==> active_index == 0,
|   is_first(self.worksheets@, i as int, self.first_sheet as int),
//@end
//@fn src/workbook.rs write_workbook_view impl="impl Workbook"
| requires old(self).first_sheet < 65535,
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("workbookView"@, book_view(old(self).first_sheet as int, old(self).active_tab as int))), *final(self) == (Workbook { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use {av_push, av_none};
//@before /if self\.first_sheet > 0/
| proof { assert(av(attributes@) =~= Seq::empty().push(("xWindow"@, "240"@)).push(("yWindow"@, "15"@)).push(("windowWidth"@, "16095"@)).push(("windowHeight"@, "9660"@))); }
//@end
//@fn src/workbook.rs write_sheets impl="impl Workbook"
| requires old(self).worksheets@.len() <= 65535,
| ensures final(self).writer.log() =~= old(self).writer.log().push(Tag::Open("sheets"@, seq![])) + sheet_tags(old(self).worksheets@, old(self).worksheets@.len() as int) + seq![Tag::Close("sheets"@)], *final(self) == (Workbook { writer: final(self).writer, ..*old(self) }),
//@rewrite let mut worksheet_data = vec!\[\] => let mut worksheet_data: Vec<(String, Visible)> = vec![]
//@rewrite worksheet\.name\.clone\(\) => vp_copy(&worksheet.name)
//@rewrite for worksheet in &self\.worksheets \{ => for vp_i in 0..self.worksheets.len() { let worksheet = &self.worksheets[vp_i];
//@rewrite for \(index, data\) in worksheet_data\.iter\(\)\.enumerate\(\) \{ => for index in 0..worksheet_data.len() { let data = &worksheet_data[index];
//@rewrite &data\.0 => data.0.as_str()
//@loop 1
| invariant self.worksheets == old(self).worksheets, *self == (Workbook { writer: self.writer, ..*old(self) }), self.writer.log() == old(self).writer.log().push(Tag::Open("sheets"@, seq![])), worksheet_data@.len() == vp_i,
|   forall|i: int| 0 <= i < vp_i ==> (#[trigger] worksheet_data@[i]).0@ == self.worksheets@[i].name@ && worksheet_data@[i].1 == self.worksheets@[i].visible,
//@loop 2
| invariant *self == (Workbook { writer: self.writer, ..*old(self) }), worksheet_data@.len() == self.worksheets@.len() <= 65535,
|   forall|i: int| 0 <= i < worksheet_data@.len() ==> (#[trigger] worksheet_data@[i]).0@ == self.worksheets@[i].name@ && worksheet_data@[i].1 == self.worksheets@[i].visible,
|   self.writer.log() =~= old(self).writer.log().push(Tag::Open("sheets"@, seq![])) + sheet_tags(old(self).worksheets@, index as int),
//@end
//@fn src/workbook.rs write_sheet impl="impl Workbook"
| ensures final(self).writer.log() == old(self).writer.log().push(sheet_tag(name@, visible, index as int)), *final(self) == (Workbook { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use {av_push, av_none};
//@before /match visible/
| proof { assert(av(attributes@) =~= Seq::empty().push(("name"@, name@)).push(("sheetId"@, dec(index as nat)))); }
//@before /attributes\.push\(\("r:id", rel_id\)\)/
| proof { assert(rel_id@ =~= "rId"@ + dec(index as nat)); }
//@end
}
}
fn main() {}
