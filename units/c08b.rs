// C08: the styles part.  Extracted from /repo/src/{styles,format,workbook}.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@item src/color.rs enum Color derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatPattern derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatBorder derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatDiagonalBorder derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatUnderline derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatScript derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatAlign derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs struct Fill derive=
//@item src/format.rs struct Border derive=
//@item src/format.rs struct Alignment derive=Clone,Copy
//@item src/format.rs struct Font derive=
//@item src/format.rs struct Format derive=
//@item src/styles.rs struct Styles derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/workbook.rs struct Workbook keep=xf_formats,dxf_formats,num_formats derive=
// ---------------------------------------------------------------- specification
/// proved in unit c22
pub uninterp spec fn fill_tags(f: Fill, dxf: bool) -> Seq<Tag>;
pub uninterp spec fn border_tags(k: Seq<char>, s: FormatBorder, c: Color) -> Seq<Tag>;
pub uninterp spec fn color_tags(c: Color, dxf: bool) -> Seq<Tag>;
pub open spec fn valid(c: Color) -> bool { match c { Color::RGB(n) => n <= 0xFFFFFF, Color::Theme(t, s) => t <= 9 && s <= 5, _ => true } }
pub open spec fn unset(c: Color) -> bool { c == Color::Default || c == Color::Automatic }
pub open spec fn when(b: bool, s: Seq<Tag>) -> Seq<Tag> { if b { s } else { seq![] } }
pub open spec fn inside(k: Seq<char>, a: Attrs, s: Seq<Tag>) -> Seq<Tag> { seq![Tag::Open(k, a)] + s + seq![Tag::Close(k)] }
pub open spec fn val(k: Seq<char>, v: Seq<char>) -> Tag { Tag::Empty(k, seq![("val"@, v)]) }
/// single underline is the default
pub open spec fn underline_tag(u: FormatUnderline) -> Tag {
    match u { FormatUnderline::Double => val("u"@, "double"@), FormatUnderline::SingleAccounting => val("u"@, "singleAccounting"@), FormatUnderline::DoubleAccounting => val("u"@, "doubleAccounting"@), _ => Tag::Empty("u"@, seq![]) }
}
pub open spec fn script_tag(s: FormatScript) -> Tag {
    match s { FormatScript::Superscript => val("vertAlign"@, "superscript"@), FormatScript::Subscript => val("vertAlign"@, "subscript"@), FormatScript::None => Tag::Empty("vertAlign"@, seq![]) }
}
/// the switches of a font
pub open spec fn font_flags(f: Font) -> Seq<Tag> {
    when(f.bold, seq![Tag::Empty("b"@, seq![])]) + when(f.italic, seq![Tag::Empty("i"@, seq![])]) + when(f.strikethrough, seq![Tag::Empty("strike"@, seq![])])
    + when(f.underline != FormatUnderline::None, seq![underline_tag(f.underline)]) + when(f.script != FormatScript::None, seq![script_tag(f.script)])
}
/// the typeface of a font
pub open spec fn font_face(f: Font, rich: bool) -> Seq<Tag> {
    seq![val(if rich { "rFont"@ } else { "name"@ }, f.name@)] + when(f.family > 0, seq![val("family"@, dec(f.family as nat))]) + when(f.charset > 0, seq![val("charset"@, dec(f.charset as nat))])
    + when(f.scheme@.len() > 0, seq![val("scheme"@, f.scheme@)])
}
/// a font: in full, or (differential) what it changes
pub open spec fn font_tags(f: Font, dxf: bool, rich: bool) -> Seq<Tag> {
    inside(if rich { "rPr"@ } else { "font"@ }, seq![], font_flags(f) + when(!dxf, seq![val("sz"@, f.size@)]) + color_tags(f.color, dxf) + when(!dxf, font_face(f, rich)))
}
pub open spec fn note_font() -> Seq<Tag> { inside("font"@, seq![], seq![val("sz"@, "8"@), Tag::Empty("color"@, seq![("indexed"@, "81"@)]), val("name"@, "Tahoma"@), val("family"@, "2"@)]) }
pub open spec fn fonts(v: Seq<Format>, rich: bool) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { fonts(v.drop_last(), rich) + when(v.last().has_font, font_tags(v.last().font, false, rich)) } }
pub open spec fn count_fonts(v: Seq<Format>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { count_fonts(v.drop_last()) + if v.last().has_font { 1nat } else { 0 } } }
/// the record of the font of hyperlinks: the last one that has its own record
pub open spec fn link_font(v: Seq<Format>, start: nat) -> nat decreases v.len() {
    if v.len() == 0 { start } else if v.last().has_font && v.last().font.is_hyperlink { count_fonts(v.drop_last()) } else { link_font(v.drop_last(), start) }
}
pub open spec fn pattern_only(p: Seq<char>) -> Seq<Tag> { inside("fill"@, seq![], seq![Tag::Empty("patternFill"@, seq![("patternType"@, p)])]) }
pub open spec fn fills(v: Seq<Format>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { pattern_only("none"@) + pattern_only("gray125"@) } else { fills(v.drop_last()) + when(v.last().has_fill, fill_tags(v.last().fill, false)) } }
pub open spec fn borders(v: Seq<Format>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { borders(v.drop_last()) + when(v.last().has_border, box_tags(v.last().borders, false)) } }
pub open spec fn diagonal(d: FormatDiagonalBorder) -> Attrs {
    match d { FormatDiagonalBorder::None => seq![], FormatDiagonalBorder::BorderUp => seq![("diagonalUp"@, "1"@)], FormatDiagonalBorder::BorderDown => seq![("diagonalDown"@, "1"@)], FormatDiagonalBorder::BorderUpDown => seq![("diagonalUp"@, "1"@), ("diagonalDown"@, "1"@)] }
}
/// a border: four sides, and the diagonal in cell formats
pub open spec fn box_tags(b: Border, dxf: bool) -> Seq<Tag> {
    inside("border"@, diagonal(b.diagonal_type), border_tags("left"@, b.left_style, b.left_color) + border_tags("right"@, b.right_style, b.right_color) + border_tags("top"@, b.top_style, b.top_color) + border_tags("bottom"@, b.bottom_style, b.bottom_color)
        + when(!dxf, border_tags("diagonal"@, b.diagonal_style, b.diagonal_color)) + when(dxf, seq![Tag::Empty("vertical"@, seq![]), Tag::Empty("horizontal"@, seq![])]))
}
/// an indentation needs an alignment it can work with, otherwise it is to the left
pub open spec fn across(a: Alignment) -> FormatAlign {
    let can = a.horizontal == FormatAlign::Left || a.horizontal == FormatAlign::Right || a.horizontal == FormatAlign::Distributed || a.vertical == FormatAlign::Top || a.vertical == FormatAlign::Bottom || a.vertical == FormatAlign::Distributed;
    if a.indent > 0 && !can { FormatAlign::Left } else { a.horizontal }
}
pub open spec fn across_text(h: FormatAlign) -> Option<Seq<char>> {
    match h { FormatAlign::Center => Some("center"@), FormatAlign::CenterAcross => Some("centerContinuous"@), FormatAlign::Distributed => Some("distributed"@), FormatAlign::Fill => Some("fill"@), FormatAlign::Justify => Some("justify"@), FormatAlign::Left => Some("left"@), FormatAlign::Right => Some("right"@), _ => None }
}
pub open spec fn upright_text(v: FormatAlign) -> Option<Seq<char>> {
    match v { FormatAlign::VerticalCenter => Some("center"@), FormatAlign::VerticalDistributed => Some("distributed"@), FormatAlign::VerticalJustify => Some("justify"@), FormatAlign::Top => Some("top"@), _ => None }
}
pub open spec fn opt(a: Attrs, k: Seq<char>, v: Option<Seq<char>>) -> Attrs { match v { Some(t) => a.push((k, t)), None => a } }
/// shrinking and wrapping exclude each other, and filled, justified and distributed text doesn't shrink
pub open spec fn shrinks(a: Alignment) -> bool { a.shrink && !a.text_wrap && across(a) != FormatAlign::Fill && across(a) != FormatAlign::Justify && across(a) != FormatAlign::Distributed }
pub open spec fn align_head(a: Alignment) -> Attrs { opt(opt(seq![], "horizontal"@, across_text(across(a))), "vertical"@, upright_text(a.vertical)) }
pub open spec fn align_rest(h: Attrs, a: Alignment) -> Attrs {
    add(add(add(add(add(h, a.rotation != 0, "textRotation"@, sdec(a.rotation as int)), a.indent != 0, "indent"@, dec(a.indent as nat)), a.text_wrap, "wrapText"@, "1"@), shrinks(a), "shrinkToFit"@, "1"@),
        0 < a.reading_direction <= 2, "readingOrder"@, dec(a.reading_direction as nat))
}
pub open spec fn align_tag(a: Alignment) -> Tag { Tag::Empty("alignment"@, align_rest(align_head(a), a)) }
/// something is set: to the bottom is the default of the file, but it is set
pub open spec fn aligned(a: Alignment) -> bool { a.horizontal != FormatAlign::General || a.vertical != FormatAlign::General || a.indent != 0 || a.rotation != 0 || a.text_wrap || a.shrink || a.reading_direction != 0 }
pub open spec fn align_seen(a: Alignment) -> bool { a.horizontal != FormatAlign::General || (a.vertical != FormatAlign::General && a.vertical != FormatAlign::Bottom) || a.indent != 0 || a.rotation != 0 || a.text_wrap || a.shrink || a.reading_direction != 0 }
/// cells are locked and shown unless told otherwise
pub open spec fn protect_tag(f: Format) -> Tag { Tag::Empty("protection"@, add(add(seq![], !f.locked, "locked"@, "0"@), f.hidden, "hidden"@, "1"@)) }
pub open spec fn ext(uri: Seq<char>, k: Seq<char>) -> Seq<Tag> {
    inside("extLst"@, seq![], inside("ext"@, seq![("uri"@, uri), ("xmlns:xfpb"@, "http://schemas.microsoft.com/office/spreadsheetml/2022/featurepropertybag"@)], seq![Tag::Empty(k, seq![("i"@, "0"@)])]))
}
pub open spec fn xf_ids(f: Format) -> Attrs {
    seq![("numFmtId"@, dec(f.num_format_index as nat)), ("fontId"@, dec(f.font_index as nat)), ("fillId"@, dec(f.fill_index as nat)), ("borderId"@, dec(f.border_index as nat)), ("xfId"@, dec(if f.font.is_hyperlink { 1 } else { 0 }))]
}
/// what of a record differs from the style it is based on
pub open spec fn xf_attrs(f: Format) -> Attrs {
    add(add(add(add(add(add(add(xf_ids(f), f.quote_prefix, "quotePrefix"@, "1"@), f.num_format_index > 0, "applyNumberFormat"@, "1"@), f.font_index > 0 && !f.font.is_hyperlink, "applyFont"@, "1"@),
        f.fill_index > 0, "applyFill"@, "1"@), f.border_index > 0, "applyBorder"@, "1"@), aligned(f.alignment) || f.font.is_hyperlink, "applyAlignment"@, "1"@), f.hidden || !f.locked || f.font.is_hyperlink, "applyProtection"@, "1"@)
}
pub open spec fn xf_inner(f: Format) -> Seq<Tag> {
    when(align_seen(f.alignment), seq![align_tag(f.alignment)]) + when(f.hidden || !f.locked, seq![protect_tag(f)]) + when(f.checkbox, ext("{C7286773-470A-42A8-94C5-96B5CB345126}"@, "xfpb:xfComplement"@))
}
pub open spec fn xf_tags(f: Format) -> Seq<Tag> { if align_seen(f.alignment) || f.hidden || !f.locked || f.checkbox { inside("xf"@, xf_attrs(f), xf_inner(f)) } else { seq![Tag::Empty("xf"@, xf_attrs(f))] } }
pub open spec fn xfs(v: Seq<Format>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { xfs(v.drop_last()) + xf_tags(v.last()) } }
pub open spec fn num_tag(n: nat, t: Seq<char>) -> Tag { Tag::Empty("numFmt"@, seq![("numFmtId"@, dec(n)), ("formatCode"@, t)]) }
pub open spec fn font_changed(f: Font) -> bool { f.bold || f.italic || f.underline != FormatUnderline::None || f.strikethrough || !unset(f.color) }
pub open spec fn fill_changed(f: Fill) -> bool { f.pattern != FormatPattern::None || !unset(f.background_color) || !unset(f.foreground_color) }
/// a differential format: only what it changes
pub open spec fn dxf_tags(f: Format, rich: bool) -> Seq<Tag> {
    inside("dxf"@, seq![], when(font_changed(f.font), font_tags(f.font, true, rich)) + when(f.num_format_index > 0, seq![num_tag(f.num_format_index as nat, f.num_format@)]) + when(fill_changed(f.fill), fill_tags(f.fill, true))
        + when(f.has_border, box_tags(f.borders, true)) + when(f.checkbox, ext("{0417FA29-78FA-4A13-93AC-8FF0FAFDF519}"@, "xfpb:DXFComplement"@)))
}
pub open spec fn dxfs(v: Seq<Format>, rich: bool) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { dxfs(v.drop_last(), rich) + dxf_tags(v.last(), rich) } }
pub open spec fn num_fmts(v: Seq<String>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { num_fmts(v.drop_last()).push(num_tag((163 + v.len()) as nat, v.last()@)) } }
pub open spec fn count(n: nat) -> Attrs { seq![("count"@, dec(n))] }
pub open spec fn colors_exist(f: Format) -> bool {
    valid(f.font.color) && valid(f.fill.foreground_color) && valid(f.fill.background_color) && valid(f.borders.left_color) && valid(f.borders.right_color) && valid(f.borders.top_color) && valid(f.borders.bottom_color) && valid(f.borders.diagonal_color)
}
pub open spec fn all_colors(v: Seq<Format>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] colors_exist(v[i]) }
pub open spec fn link_xf(id: nat) -> Seq<Tag> {
    inside("xf"@, seq![("numFmtId"@, "0"@), ("fontId"@, dec(id)), ("fillId"@, "0"@), ("borderId"@, "0"@), ("applyNumberFormat"@, "0"@), ("applyFill"@, "0"@), ("applyBorder"@, "0"@), ("applyAlignment"@, "0"@), ("applyProtection"@, "0"@)],
        seq![Tag::Empty("alignment"@, seq![("vertical"@, "top"@)]), Tag::Empty("protection"@, seq![("locked"@, "0"@)])])
}
pub open spec fn plain_xf() -> Tag { Tag::Empty("xf"@, seq![("numFmtId"@, "0"@), ("fontId"@, "0"@), ("fillId"@, "0"@), ("borderId"@, "0"@)]) }
pub open spec fn style_xfs(link: bool, id: nat) -> Seq<Tag> { inside("cellStyleXfs"@, count(if link { 2 } else { 1 }), seq![plain_xf()] + when(link, link_xf(id))) }
pub open spec fn style_tag(n: Seq<char>, x: Seq<char>, b: Seq<char>) -> Tag { Tag::Empty("cellStyle"@, seq![("name"@, n), ("xfId"@, x), ("builtinId"@, b)]) }
pub open spec fn cell_styles(link: bool) -> Seq<Tag> { inside("cellStyles"@, count(if link { 2 } else { 1 }), when(link, seq![style_tag("Hyperlink"@, "1"@, "8"@)]) + seq![style_tag("Normal"@, "0"@, "0"@)]) }
pub open spec fn num_part(v: Seq<String>) -> Seq<Tag> { when(v.len() > 0, inside("numFmts"@, count(v.len()), num_fmts(v))) }
pub open spec fn font_part(s: Styles) -> Seq<Tag> { inside("fonts"@, count((s.font_count + if s.has_comments { 1int } else { 0 }) as nat), fonts(s.xf_formats@, s.is_rich_string_style) + when(s.has_comments, note_font())) }
pub open spec fn fill_part(s: Styles) -> Seq<Tag> { inside("fills"@, count(s.fill_count as nat), fills(s.xf_formats@)) }
pub open spec fn border_part(s: Styles) -> Seq<Tag> { inside("borders"@, count(s.border_count as nat), borders(s.xf_formats@)) }
pub open spec fn xf_part(s: Styles) -> Seq<Tag> { inside("cellXfs"@, count(s.xf_formats@.len()), xfs(s.xf_formats@)) }
pub open spec fn dxf_part(s: Styles) -> Seq<Tag> { if s.dxf_formats@.len() == 0 { seq![Tag::Empty("dxfs"@, count(0))] } else { inside("dxfs"@, count(s.dxf_formats@.len()), dxfs(s.dxf_formats@, s.is_rich_string_style)) } }
/// a record for every format in the order of their numbers, after the parts it refers to
pub open spec fn styles(s: Styles) -> Seq<Tag> {
    inside("styleSheet"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/spreadsheetml/2006/main"@)],
        num_part(s.num_formats@) + font_part(s) + fill_part(s) + border_part(s) + style_xfs(s.has_hyperlink_style, link_font(s.xf_formats@, s.hyperlink_font_id as nat)) + xf_part(s) + cell_styles(s.has_hyperlink_style) + dxf_part(s)
        + seq![Tag::Empty("tableStyles"@, seq![("count"@, "0"@), ("defaultTableStyle"@, "TableStyleMedium9"@), ("defaultPivotStyle"@, "PivotStyleLight16"@)])])
}
/// a format with a number format of its own, that has no number yet
pub open spec fn own(f: Format) -> bool { f.num_format_index == 0 && f.num_format@.len() > 0 }
pub open spec fn renumbered(f: Format, n: u16) -> Format { Format { num_format_index: n, ..f } }
/// only the numbers of formats without one changed
pub open spec fn numbers_only(a: Seq<Format>, b: Seq<Format>, n: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if i < n && own(a[i]) { renumbered(a[i], b[i].num_format_index) } else { a[i] })
}
pub open spec fn at(x: Seq<Format>, d: Seq<Format>, i: int) -> Format { if i < x.len() { x[i] } else { d[i - x.len()] } }
/// the numbers given so far: what the table of used number formats says
pub open spec fn given(x0: Seq<Format>, d0: Seq<Format>, x: Seq<Format>, d: Seq<Format>, m: Map<Seq<char>, u16>, n: int, next: int) -> bool {
    &&& forall|i: int| 0 <= i < n && own(#[trigger] at(x0, d0, i)) ==> m.dom().contains(at(x0, d0, i).num_format@) && at(x, d, i).num_format_index == m[at(x0, d0, i).num_format@]
    &&& forall|c: Seq<char>| #[trigger] m.dom().contains(c) ==> 164 <= m[c] < next
    &&& forall|c: Seq<char>, e: Seq<char>| #![trigger m.dom().contains(c), m.dom().contains(e)] m.dom().contains(c) && m.dom().contains(e) && m[c] == m[e] ==> c == e
}
/// the number formats of cell formats are those of the file, in the order of their numbers from 164
pub open spec fn listed(x0: Seq<Format>, x: Seq<Format>, l: Seq<String>, n: int) -> bool {
    forall|i: int| 0 <= i < n && i < x.len() && own(#[trigger] x0[i]) ==> 164 <= x[i].num_format_index < 164 + l.len() && l[x[i].num_format_index - 164]@ == x0[i].num_format@
}
/// equal number formats have one number, different ones different numbers, in cells and in differential formats
pub open spec fn distinct(x0: Seq<Format>, d0: Seq<Format>, x: Seq<Format>, d: Seq<Format>) -> bool {
    forall|i: int, j: int| #![trigger at(x0, d0, i), at(x0, d0, j)] 0 <= i < x0.len() + d0.len() && 0 <= j < x0.len() + d0.len() && own(at(x0, d0, i)) && own(at(x0, d0, j)) ==>
        (at(x, d, i).num_format_index == at(x, d, j).num_format_index <==> at(x0, d0, i).num_format@ == at(x0, d0, j).num_format@)
}
/// trusted: std HashMap with the text as the key
#[verifier::external_body] pub struct VpCodes { m: std::collections::HashMap<String, u16> }
impl VpCodes {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, u16>;
    #[verifier::external_body] pub fn new() -> (r: VpCodes) ensures r@ == Map::<Seq<char>, u16>::empty() { VpCodes { m: std::collections::HashMap::new() } }
    #[verifier::external_body] pub fn find(&self, k: &String) -> (r: Option<u16>) ensures r == (if self@.dom().contains(k@) { Some(self@[k@]) } else { None }) { self.m.get(k).copied() }
    #[verifier::external_body] pub fn put(&mut self, k: String, v: u16) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k, v); }
}
// ---------------------------------------------------------------- helpers (verified)
pub fn vp_flag(a: &mut Vec<(&'static str, String)>, c: bool, k: &'static str, v: &str) ensures av(final(a)@) == add(av(old(a)@), c, k@, v@) { broadcast use av_push; if c { a.push((k, v.vp_text())); } }
pub fn vp_put(a: &mut Vec<(&'static str, String)>, c: bool, k: &'static str, v: String) ensures av(final(a)@) == add(av(old(a)@), c, k@, v@) { broadcast use av_push; if c { a.push((k, v)); } }
broadcast proof fn av_lit1(s: Seq<(&'static str, String)>) requires s.len() == 1 ensures #[trigger] av(s) == seq![(s[0].0@, s[0].1@)] { assert(av(s) =~= seq![(s[0].0@, s[0].1@)]); }
broadcast proof fn av_lit2(s: Seq<(&'static str, String)>) requires s.len() == 2 ensures #[trigger] av(s) == seq![(s[0].0@, s[0].1@), (s[1].0@, s[1].1@)] { assert(av(s) =~= seq![(s[0].0@, s[0].1@), (s[1].0@, s[1].1@)]); }
broadcast proof fn assoc(a: Seq<Tag>, b: Seq<Tag>, c: Seq<Tag>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn push_add(a: Seq<Tag>, x: Tag) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
broadcast proof fn none_add(a: Seq<Tag>) ensures #[trigger] (a + Seq::<Tag>::empty()) == a { assert(a + Seq::<Tag>::empty() =~= a); }
proof fn count_less(v: Seq<Format>, i: int) requires 0 <= i <= v.len() ensures count_fonts(v.take(i)) <= count_fonts(v) decreases v.len()
{ if i == v.len() { assert(v.take(i) =~= v); } else { count_less(v.drop_last(), i); assert(v.drop_last().take(i) =~= v.take(i)); } }
proof fn same_parts(a: Styles) ensures
    forall|b: Styles| b == (Styles { writer: b.writer, ..a }) ==> #[trigger] font_part(b) == font_part(a),
    forall|b: Styles| b == (Styles { writer: b.writer, ..a }) ==> #[trigger] fill_part(b) == fill_part(a),
    forall|b: Styles| b == (Styles { writer: b.writer, hyperlink_font_id: b.hyperlink_font_id, ..a }) ==> #[trigger] fill_part(b) == fill_part(a),
    forall|b: Styles| b == (Styles { writer: b.writer, hyperlink_font_id: b.hyperlink_font_id, ..a }) ==> #[trigger] border_part(b) == border_part(a),
    forall|b: Styles| b == (Styles { writer: b.writer, hyperlink_font_id: b.hyperlink_font_id, ..a }) ==> #[trigger] xf_part(b) == xf_part(a),
    forall|b: Styles| b == (Styles { writer: b.writer, hyperlink_font_id: b.hyperlink_font_id, ..a }) ==> #[trigger] dxf_part(b) == dxf_part(a) { }
/// trusted: the text of a signed number
pub uninterp spec fn sdec(n: int) -> Seq<char>;
impl VpText for i16 { open spec fn text(&self) -> Seq<char> { sdec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
#[verifier::external_body] proof fn sdec_dec() ensures forall|n: int| 0 <= n ==> #[trigger] sdec(n) == dec(n as nat) { }
impl VpText for i32 { open spec fn text(&self) -> Seq<char> { sdec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
#[verifier::external_body] pub fn vp_none(a: &String) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
impl Color { #[verifier::external_body] pub fn is_auto_or_default(self) -> (r: bool) ensures r == unset(self) { true } }
proof fn step_formats(v: Seq<Format>, i: int, rich: bool, start: nat)
    requires 0 <= i < v.len()
    ensures fonts(v.take(i + 1), rich) == fonts(v.take(i), rich) + when(v[i].has_font, font_tags(v[i].font, false, rich)), count_fonts(v.take(i + 1)) == count_fonts(v.take(i)) + if v[i].has_font { 1nat } else { 0 },
        link_font(v.take(i + 1), start) == (if v[i].has_font && v[i].font.is_hyperlink { count_fonts(v.take(i)) } else { link_font(v.take(i), start) }),
        fills(v.take(i + 1)) == fills(v.take(i)) + when(v[i].has_fill, fill_tags(v[i].fill, false)), borders(v.take(i + 1)) == borders(v.take(i)) + when(v[i].has_border, box_tags(v[i].borders, false)),
        xfs(v.take(i + 1)) == xfs(v.take(i)) + xf_tags(v[i]), dxfs(v.take(i + 1), rich) == dxfs(v.take(i), rich) + dxf_tags(v[i], rich)
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
proof fn step_num(v: Seq<String>, i: int) requires 0 <= i < v.len() ensures num_fmts(v.take(i + 1)) == num_fmts(v.take(i)).push(num_tag((164 + i) as nat, v[i]@))
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
pub open spec fn only(a: Styles, b: Styles) -> bool { b == (Styles { writer: b.writer, ..a }) }
impl<'a> Styles<'a> {
    #[verifier::external_body] pub fn write_font_color(&mut self, font: &Font, dxf_format: bool) requires valid(font.color) ensures only(*old(self), *final(self)), final(self).writer.log() == old(self).writer.log() + color_tags(font.color, dxf_format) { }
    #[verifier::external_body] pub fn write_default_fill(&mut self, pattern: String) ensures only(*old(self), *final(self)), final(self).writer.log() == old(self).writer.log() + pattern_only(pattern@) { }
    #[verifier::external_body] pub fn write_fill(&mut self, fill: &Fill, dxf_format: bool) requires valid(fill.foreground_color), valid(fill.background_color) ensures only(*old(self), *final(self)), final(self).writer.log() == old(self).writer.log() + fill_tags(*fill, dxf_format) { }
    #[verifier::external_body] pub fn write_sub_border(&mut self, border_type: &str, border_style: FormatBorder, border_color: Color) requires valid(border_color) ensures only(*old(self), *final(self)), final(self).writer.log() == old(self).writer.log() + border_tags(border_type@, border_style, border_color) { }
}
// ---------------------------------------------------------------- verified code
impl Format {
//@fn src/format.rs has_dxf_font impl="impl Format$" ret=r
| ensures r == font_changed(self.font)
//@end
//@fn src/format.rs has_dxf_fill impl="impl Format$" ret=r
| ensures r == fill_changed(self.fill)
//@end
//@fn src/format.rs has_alignment impl="impl Format$" ret=r
| ensures r == align_seen(self.alignment)
//@end
//@fn src/format.rs apply_alignment impl="impl Format$" ret=r
| ensures r == aligned(self.alignment)
//@end
//@fn src/format.rs has_protection impl="impl Format$" ret=r
| ensures r == (self.hidden || !self.locked)
//@end
//@fn src/format.rs set_num_format_index_u16 impl="impl Format$"
| ensures *final(self) == renumbered(*old(self), num_format_index)
//@end
//@fn src/format.rs has_checkbox impl="impl Format$" ret=r
| ensures r == self.checkbox
//@end
}
impl<'a> Styles<'a> {
//@fn src/styles.rs write_style_sheet impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Open("styleSheet"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/spreadsheetml/2006/main"@)])]
//@rewrite ("http[^"]*"),? => \1.vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_size impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![val("sz"@, font.size@)]
//@rewrite font\.size\.as_str\(\) => font.size.vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_name impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![val(if old(self).is_rich_string_style { "rFont"@ } else { "name"@ }, font.name@)]
//@rewrite font\.name\.as_ref\(\) => font.name.vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_family impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![val("family"@, dec(font.family as nat))]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_charset impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![val("charset"@, dec(font.charset as nat))]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_scheme impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(font.scheme@.len() > 0, seq![val("scheme"@, font.scheme@)])
//@rewrite font\.scheme\.is_empty\(\) => vp_none(&font.scheme)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_font_underline impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![underline_tag(font.underline)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_vert_align impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![script_tag(font.script)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_comment_font impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + note_font()
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
    pub fn vp_tag(&mut self, c: bool, k: &str) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![Tag::Empty(k@, seq![])]) { if c { xml_empty_tag_only(&mut self.writer, k); } }
    pub fn vp_underline(&mut self, font: &Font) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(font.underline != FormatUnderline::None, seq![underline_tag(font.underline)]) { if font.underline != FormatUnderline::None { self.write_font_underline(font); } }
    pub fn vp_script(&mut self, font: &Font) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(font.script != FormatScript::None, seq![script_tag(font.script)]) { if font.script != FormatScript::None { self.write_vert_align(font); } }
    pub fn vp_family(&mut self, font: &Font) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(font.family > 0, seq![val("family"@, dec(font.family as nat))]) { if font.family > 0 { self.write_font_family(font); } }
    pub fn vp_charset(&mut self, font: &Font) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(font.charset > 0, seq![val("charset"@, dec(font.charset as nat))]) { if font.charset > 0 { self.write_font_charset(font); } }
    pub fn vp_open(&mut self) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Open(if old(self).is_rich_string_style { "rPr"@ } else { "font"@ }, seq![])] { if self.is_rich_string_style { xml_start_tag_only(&mut self.writer, "rPr"); } else { xml_start_tag_only(&mut self.writer, "font"); } }
    pub fn vp_close(&mut self) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Close(if old(self).is_rich_string_style { "rPr"@ } else { "font"@ })] { if self.is_rich_string_style { xml_end_tag(&mut self.writer, "rPr"); } else { xml_end_tag(&mut self.writer, "font"); } }
    pub fn vp_size(&mut self, c: bool, font: &Font) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![val("sz"@, font.size@)]) { if c { self.write_font_size(font); } }
//@fn src/styles.rs write_font impl="Styles" attr=#[verifier::rlimit(60)]
| requires valid(font.color)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + font_tags(*font, dxf_format, old(self).is_rich_string_style)
//@rewrite (?#opt)if (font\.\w+) \{\s*xml_empty_tag_only\(&mut self\.writer, ("\w+")\);\s*\} => self.vp_tag(\1, \2);
//@rewrite (?#opt)if font\.underline != FormatUnderline::None \{\s*self\.write_font_underline\(font\);\s*\} => self.vp_underline(font);
//@rewrite (?#opt)if font\.script != FormatScript::None \{\s*self\.write_vert_align\(font\);\s*\} => self.vp_script(font);
//@rewrite (?#opt)if font\.family > 0 \{\s*self\.write_font_family\(font\);\s*\} => self.vp_family(font);
//@rewrite (?#opt)if font\.charset > 0 \{\s*self\.write_font_charset\(font\);\s*\} => self.vp_charset(font);
//@rewrite (?#opt)if self\.is_rich_string_style \{\s*xml_start_tag_only\(&mut self\.writer, "rPr"\);\s*\} else \{\s*xml_start_tag_only\(&mut self\.writer, "font"\);\s*\} => self.vp_open();
//@rewrite (?#opt)if self\.is_rich_string_style \{\s*xml_end_tag\(&mut self\.writer, "rPr"\);\s*\} else \{\s*xml_end_tag\(&mut self\.writer, "font"\);\s*\} => self.vp_close();
//@rewrite (?#opt)if !dxf_format \{\s*self\.write_font_size\(font\);\s*\} => self.vp_size(!dxf_format, font);
//@at body-start
| hide(when); hide(val);
| broadcast use assoc, push_add, none_add;
| proof { assert(when(false, font_face(*font, self.is_rich_string_style)) =~= seq![]) by { reveal(when); } assert(when(true, font_face(*font, self.is_rich_string_style)) == font_face(*font, self.is_rich_string_style)) by { reveal(when); } }
//@end
//@fn src/styles.rs write_fonts impl="Styles" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(40)]
| requires all_colors(old(self).xf_formats@), old(self).font_count < 65535, count_fonts(old(self).xf_formats@) <= 65535
| ensures final(self).hyperlink_font_id == link_font(old(self).xf_formats@, old(self).hyperlink_font_id as nat), *final(self) == (Styles { writer: final(self).writer, hyperlink_font_id: final(self).hyperlink_font_id, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + font_part(*old(self))
//@rewrite in self\.xf_formats => in self.xf_formats.iter()
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite let mut font_id = 0; => let mut font_id: u16 = 0;
//@loop 1 iter=it
| invariant it.seq().len() == old(self).xf_formats@.len(), forall|vp_i: int| 0 <= vp_i < it.seq().len() ==> *(#[trigger] it.seq()[vp_i]) == old(self).xf_formats@[vp_i],
|     font_id == count_fonts(old(self).xf_formats@.take(it.index@ as int)), self.hyperlink_font_id == link_font(old(self).xf_formats@.take(it.index@ as int), old(self).hyperlink_font_id as nat), *self == (Styles { writer: self.writer, hyperlink_font_id: self.hyperlink_font_id, ..*old(self) }),
|     self.writer.log() =~= vp_l0 + fonts(old(self).xf_formats@.take(it.index@ as int), old(self).is_rich_string_style),
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@at before-loop 1
| let ghost vp_l0 = self.writer.log();
| proof { assert(old(self).xf_formats@.take(0) =~= Seq::<Format>::empty());  }
//@at loop 1 start
| proof { count_less(old(self).xf_formats@, it.index@ + 1); step_formats(old(self).xf_formats@, it.index@ as int, old(self).is_rich_string_style, old(self).hyperlink_font_id as nat); assert(colors_exist(old(self).xf_formats@[it.index@ as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_l0 + fonts(old(self).xf_formats@.take((it.index@ + 1) as int), old(self).is_rich_string_style)); }
//@at after-loop 1
| proof { assert(old(self).xf_formats@.take(old(self).xf_formats@.len() as int) =~= old(self).xf_formats@); }
//@end
//@fn src/styles.rs write_fills impl="Styles" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(40)]
| requires all_colors(old(self).xf_formats@)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + fill_part(*old(self))
//@rewrite in self\.xf_formats => in self.xf_formats.iter()
//@rewrite \.to_string\(\) => .vp_text()
//@loop 1 iter=it
| invariant it.seq().len() == old(self).xf_formats@.len(), forall|vp_i: int| 0 <= vp_i < it.seq().len() ==> *(#[trigger] it.seq()[vp_i]) == old(self).xf_formats@[vp_i],
|     only(*old(self), *self),
|     self.writer.log() =~= vp_l0 + fills(old(self).xf_formats@.take(it.index@ as int)),
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@after /xml_start_tag\(&mut self.writer, "fills", &attributes\);/
| let ghost vp_l0 = self.writer.log();
//@at before-loop 1
| proof { assert(old(self).xf_formats@.take(0) =~= Seq::<Format>::empty());  }
//@at loop 1 start
| proof { step_formats(old(self).xf_formats@, it.index@ as int, old(self).is_rich_string_style, old(self).hyperlink_font_id as nat); assert(colors_exist(old(self).xf_formats@[it.index@ as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_l0 + fills(old(self).xf_formats@.take((it.index@ + 1) as int))); }
//@at after-loop 1
| proof { assert(old(self).xf_formats@.take(old(self).xf_formats@.len() as int) =~= old(self).xf_formats@); }
//@end
    pub fn vp_slash(&mut self, c: bool, b: &Border) requires valid(b.diagonal_color) ensures only(*old(self), *final(self)), final(self).writer.log() == old(self).writer.log() + when(c, border_tags("diagonal"@, b.diagonal_style, b.diagonal_color)) { if c { self.write_sub_border("diagonal", b.diagonal_style, b.diagonal_color); } proof { broadcast use none_add; } }
    pub fn vp_inner(&mut self, c: bool) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![Tag::Empty("vertical"@, seq![]), Tag::Empty("horizontal"@, seq![])]) { if c { xml_empty_tag_only(&mut self.writer, "vertical"); xml_empty_tag_only(&mut self.writer, "horizontal"); } }
//@fn src/styles.rs write_border impl="Styles" attr=#[verifier::rlimit(60)]
| requires valid(borders.left_color), valid(borders.right_color), valid(borders.top_color), valid(borders.bottom_color), valid(borders.diagonal_color)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + box_tags(*borders, dxf_format)
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@rewrite (?#opt)if !dxf_format \{\s*self\.write_sub_border\("diagonal", borders\.diagonal_style, borders\.diagonal_color\);\s*\} => self.vp_slash(!dxf_format, borders);
//@rewrite (?#opt)if dxf_format \{\s*xml_empty_tag_only\(&mut self\.writer, "vertical"\);\s*xml_empty_tag_only\(&mut self\.writer, "horizontal"\);\s*\} => self.vp_inner(dxf_format);
//@at body-start
| hide(when);
| broadcast use av_lit1, av_lit2, av_push, av_none, assoc, push_add, none_add;
//@before /self\.write_sub_border\("left"/
| proof { assert(self.writer.log() == old(self).writer.log() + seq![Tag::Open("border"@, diagonal(borders.diagonal_type))]); }
//@end
//@fn src/styles.rs write_borders impl="Styles" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(40)]
| requires all_colors(old(self).xf_formats@)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + border_part(*old(self))
//@rewrite in self\.xf_formats => in self.xf_formats.iter()
//@rewrite \.to_string\(\) => .vp_text()
//@loop 1 iter=it
| invariant it.seq().len() == old(self).xf_formats@.len(), forall|vp_i: int| 0 <= vp_i < it.seq().len() ==> *(#[trigger] it.seq()[vp_i]) == old(self).xf_formats@[vp_i],
|     only(*old(self), *self),
|     self.writer.log() =~= vp_l0 + borders(old(self).xf_formats@.take(it.index@ as int)),
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@at before-loop 1
| let ghost vp_l0 = self.writer.log();
| proof { assert(old(self).xf_formats@.take(0) =~= Seq::<Format>::empty());  }
//@at loop 1 start
| proof { step_formats(old(self).xf_formats@, it.index@ as int, old(self).is_rich_string_style, old(self).hyperlink_font_id as nat); assert(colors_exist(old(self).xf_formats@[it.index@ as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_l0 + borders(old(self).xf_formats@.take((it.index@ + 1) as int))); }
//@at after-loop 1
| proof { assert(old(self).xf_formats@.take(old(self).xf_formats@.len() as int) =~= old(self).xf_formats@); }
//@end
//@fn src/styles.rs write_normal_style_xf impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![plain_xf()]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("numFmtId"@, "0"@), ("fontId"@, "0"@), ("fillId"@, "0"@), ("borderId"@, "0"@)]); }
//@end
//@fn src/styles.rs write_hyperlink_alignment impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("alignment"@, seq![("vertical"@, "top"@)])]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_hyperlink_protection impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("protection"@, seq![("locked"@, "0"@)])]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_hyperlink_style_xf impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + link_xf(old(self).hyperlink_font_id as nat)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /xml_start_tag/
| proof { assert(av(attributes@) =~= link_xf(old(self).hyperlink_font_id as nat)[0]->Open_1); }
//@end
//@fn src/styles.rs write_cell_style_xfs impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + style_xfs(old(self).has_hyperlink_style, old(self).hyperlink_font_id as nat)
//@rewrite let mut count = 1; => let mut count: u32 = 1;
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_protection impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![protect_tag(*xf_format)]
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ("\w+")\.to_string\(\)\)\);\s*\} => vp_flag(&mut attributes, \1, \2, \3);
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ([\w.]+)\.to_string\(\)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3.vp_text());
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_alignment impl="Styles" attr=#[verifier::rlimit(40)]
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![align_tag(alignment)]
//@rewrite if alignment\.reading_direction > 0 && alignment\.reading_direction <= 2 \{\s*attributes\.push\(\("readingOrder", alignment\.reading_direction\.to_string\(\)\)\);\s*\} => vp_put(&mut attributes, alignment.reading_direction > 0 && alignment.reading_direction <= 2, "readingOrder", alignment.reading_direction.vp_text());
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ("\w+")\.to_string\(\)\)\);\s*\} => vp_flag(&mut attributes, \1, \2, \3);
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ([\w.]+)\.to_string\(\)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3.vp_text());
//@rewrite (?#opt)attributes\.push\(\("(horizontal|vertical)", ("\w+")\.to_string\(\)\)\); => attributes.push(("\1", \2.vp_text()));
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /(if alignment.rotation|vp_put\(&mut attributes, alignment.rotation)/
| proof { assert(horizontal_align == across(alignment)); assert(shrink == shrinks(alignment)); assert(av(attributes@) =~= align_head(alignment)); }
//@end
//@fn src/styles.rs write_xf_format_extensions impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + ext("{C7286773-470A-42A8-94C5-96B5CB345126}"@, "xfpb:xfComplement"@)
//@rewrite \(\s*("[\w:]+"),\s*("[^"]*"),?\s*\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_dxf_format_extensions impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + ext("{0417FA29-78FA-4A13-93AC-8FF0FAFDF519}"@, "xfpb:DXFComplement"@)
//@rewrite \(\s*("[\w:]+"),\s*("[^"]*"),?\s*\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
    pub fn vp_align(&mut self, c: bool, a: Alignment) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![align_tag(a)]) { if c { self.write_alignment(a); } }
    pub fn vp_protect(&mut self, c: bool, f: &Format) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![protect_tag(*f)]) { if c { self.write_protection(f); } }
    pub fn vp_ext(&mut self, c: bool) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, ext("{C7286773-470A-42A8-94C5-96B5CB345126}"@, "xfpb:xfComplement"@)) { if c { self.write_xf_format_extensions(); } }
//@fn src/styles.rs write_cell_xf impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + xf_tags(*xf_format)
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ("\w+")\.to_string\(\)\)\);\s*\} => vp_flag(&mut attributes, \1, \2, \3);
//@rewrite (?#opt)if ([^{}]+?) \{\s*attributes\.push\(\(("\w+"), ([\w.]+)\.to_string\(\)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3.vp_text());
//@rewrite (?#opt)if (\w+) \{\s*self\.write_alignment\(xf_format\.alignment\);\s*\} => self.vp_align(\1, xf_format.alignment);
//@rewrite (?#opt)if (\w+) \{\s*self\.write_protection\(xf_format\);\s*\} => self.vp_protect(\1, xf_format);
//@rewrite (?#opt)if (\w+) \{\s*self\.write_xf_format_extensions\(\);\s*\} => self.vp_ext(\1);
//@rewrite i32::from\(is_hyperlink\) => (if is_hyperlink { 1i32 } else { 0i32 })
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@after /\("xfId"[^;]*\];/
| proof { sdec_dec(); assert(av(attributes@) =~= xf_ids(*xf_format)); }
//@end
//@fn src/styles.rs write_cell_xfs impl="Styles" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(40)]
| requires all_colors(old(self).xf_formats@)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + xf_part(*old(self))
//@rewrite in self\.xf_formats => in self.xf_formats.iter()
//@rewrite format!\("\{\}", ([^;]*)\); => \1.vp_text();
//@loop 1 iter=it
| invariant it.seq().len() == old(self).xf_formats@.len(), forall|vp_i: int| 0 <= vp_i < it.seq().len() ==> *(#[trigger] it.seq()[vp_i]) == old(self).xf_formats@[vp_i],
|     only(*old(self), *self),
|     self.writer.log() =~= vp_l0 + xfs(old(self).xf_formats@.take(it.index@ as int)),
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@at before-loop 1
| let ghost vp_l0 = self.writer.log();
| proof { assert(old(self).xf_formats@.take(0) =~= Seq::<Format>::empty());  }
//@at loop 1 start
| proof { step_formats(old(self).xf_formats@, it.index@ as int, old(self).is_rich_string_style, old(self).hyperlink_font_id as nat); assert(colors_exist(old(self).xf_formats@[it.index@ as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_l0 + xfs(old(self).xf_formats@.take((it.index@ + 1) as int))); }
//@at after-loop 1
| proof { assert(old(self).xf_formats@.take(old(self).xf_formats@.len() as int) =~= old(self).xf_formats@); }
//@end
//@fn src/styles.rs write_normal_cell_style impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![style_tag("Normal"@, "0"@, "0"@)]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("name"@, "Normal"@), ("xfId"@, "0"@), ("builtinId"@, "0"@)]); }
//@end
//@fn src/styles.rs write_hyperlink_cell_style impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![style_tag("Hyperlink"@, "1"@, "8"@)]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("name"@, "Hyperlink"@), ("xfId"@, "1"@), ("builtinId"@, "8"@)]); }
//@end
//@fn src/styles.rs write_cell_styles impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + cell_styles(old(self).has_hyperlink_style)
//@rewrite let mut count = 1; => let mut count: u32 = 1;
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
//@fn src/styles.rs write_table_styles impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("tableStyles"@, seq![("count"@, "0"@), ("defaultTableStyle"@, "TableStyleMedium9"@), ("defaultPivotStyle"@, "PivotStyleLight16"@)])]
//@rewrite \(("[\w:]+"), ("[^"]*")\) => (\1, \2.vp_text())
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@before /xml_empty_tag/
| proof { assert(av(attributes@) =~= seq![("count"@, "0"@), ("defaultTableStyle"@, "TableStyleMedium9"@), ("defaultPivotStyle"@, "PivotStyleLight16"@)]); }
//@end
//@fn src/styles.rs write_num_fmt impl="Styles"
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + seq![num_tag(num_format_index as nat, num_format@)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@end
    pub fn vp_dfont(&mut self, c: bool, f: &Font) requires valid(f.color) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, font_tags(*f, true, old(self).is_rich_string_style)) { if c { self.write_font(f, true); } }
    pub fn vp_dnum(&mut self, c: bool, n: u16, t: &String) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, seq![num_tag(n as nat, t@)]) { if c { self.write_num_fmt(n, t); } }
    pub fn vp_dfill(&mut self, c: bool, f: &Fill) requires valid(f.foreground_color), valid(f.background_color) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, fill_tags(*f, true)) { if c { self.write_fill(f, true); } }
    pub fn vp_dbox(&mut self, c: bool, b: &Border) requires valid(b.left_color), valid(b.right_color), valid(b.top_color), valid(b.bottom_color), valid(b.diagonal_color) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, box_tags(*b, true)) { if c { self.write_border(b, true); } }
    pub fn vp_dext(&mut self, c: bool) ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + when(c, ext("{0417FA29-78FA-4A13-93AC-8FF0FAFDF519}"@, "xfpb:DXFComplement"@)) { if c { self.write_dxf_format_extensions(); } }
//@fn src/styles.rs write_dxfs impl="Styles" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| requires all_colors(old(self).dxf_formats@)
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + dxf_part(*old(self))
//@rewrite in self\.dxf_formats => in self.dxf_formats.iter()
//@rewrite (?#opt)if (dxf_format\.has_dxf_font\(\)) \{\s*self\.write_font\(&dxf_format\.font, true\);\s*\} => self.vp_dfont(\1, &dxf_format.font);
//@rewrite (?#opt)if (dxf_format\.num_format_index > 0) \{\s*self\.write_num_fmt\(dxf_format\.num_format_index, &dxf_format\.num_format\);\s*\} => self.vp_dnum(\1, dxf_format.num_format_index, &dxf_format.num_format);
//@rewrite (?#opt)if (dxf_format\.has_dxf_fill\(\)) \{\s*self\.write_fill\(&dxf_format\.fill, true\);\s*\} => self.vp_dfill(\1, &dxf_format.fill);
//@rewrite (?#opt)if (dxf_format\.has_border) \{\s*self\.write_border\(&dxf_format\.borders, true\);\s*\} => self.vp_dbox(\1, &dxf_format.borders);
//@rewrite (?#opt)if (dxf_format\.has_checkbox\(\)) \{\s*self\.write_dxf_format_extensions\(\);\s*\} => self.vp_dext(\1);
//@rewrite self\.dxf_formats\.is_empty\(\) => self.dxf_formats.len() == 0
//@rewrite \.to_string\(\) => .vp_text()
//@loop 1 iter=it
| invariant it.seq().len() == old(self).dxf_formats@.len(), forall|vp_i: int| 0 <= vp_i < it.seq().len() ==> *(#[trigger] it.seq()[vp_i]) == old(self).dxf_formats@[vp_i],
|     only(*old(self), *self),
|     self.writer.log() =~= vp_l0 + dxfs(old(self).dxf_formats@.take(it.index@ as int), old(self).is_rich_string_style),
//@at body-start
| hide(font_tags); hide(box_tags); hide(font_changed); hide(fill_changed); hide(num_tag); hide(ext); hide(when);
| broadcast use av_lit1, assoc, push_add, none_add;
//@at before-loop 1
| let ghost vp_l0 = self.writer.log();
| proof { assert(old(self).dxf_formats@.take(0) =~= Seq::<Format>::empty());  }
//@at loop 1 start
| proof { step_formats(old(self).dxf_formats@, it.index@ as int, old(self).is_rich_string_style, old(self).hyperlink_font_id as nat); assert(colors_exist(old(self).dxf_formats@[it.index@ as int])); }
//@at loop 1 end
| proof { assert(self.writer.log() =~= vp_l0 + dxfs(old(self).dxf_formats@.take((it.index@ + 1) as int), old(self).is_rich_string_style)); }
//@at after-loop 1
| proof { assert(old(self).dxf_formats@.take(old(self).dxf_formats@.len() as int) =~= old(self).dxf_formats@); }
//@end
//@fn src/styles.rs write_num_fmts impl="Styles" attr=#[verifier::loop_isolation(false)]
| requires old(self).num_formats@.len() <= 65000
| ensures only(*old(self), *final(self)), final(self).writer.log() =~= old(self).writer.log() + num_part(old(self).num_formats@)
//@rewrite self\.num_formats\.is_empty\(\) => self.num_formats.len() == 0
//@rewrite for \(index, num_format\) in self\.num_formats\.clone\(\)\.iter\(\)\.enumerate\(\) \{ => for index in 0..self.num_formats.len() { let num_format = self.num_formats[index].vp_text();
//@rewrite self\.write_num_fmt\(index as u16 \+ 164, num_format\) => self.write_num_fmt(index as u16 + 164, &num_format)
//@rewrite \.to_string\(\) => .vp_text()
//@loop 1
| invariant only(*old(self), *self), self.writer.log() =~= vp_l0 + num_fmts(old(self).num_formats@.take(index as int)),
//@at body-start
| broadcast use av_lit1, av_lit2, av_push, av_none;
//@at before-loop 1
| let ghost vp_l0 = self.writer.log();
| proof { assert(old(self).num_formats@.take(0) =~= Seq::<String>::empty()); }
//@at loop 1 start
| proof { step_num(old(self).num_formats@, index as int); }
//@at after-loop 1
| proof { assert(old(self).num_formats@.take(old(self).num_formats@.len() as int) =~= old(self).num_formats@); }
//@end
//@fn src/styles.rs assemble_xml_file impl="Styles" attr=#[verifier::rlimit(40)]
| requires all_colors(old(self).xf_formats@), all_colors(old(self).dxf_formats@), old(self).font_count < 65535, count_fonts(old(self).xf_formats@) <= 65535, old(self).num_formats@.len() <= 65000
| ensures final(self).writer.log() =~= old(self).writer.log() + styles(*old(self))
//@at body-start
| hide(num_part); hide(font_part); hide(fill_part); hide(border_part); hide(style_xfs); hide(xf_part); hide(cell_styles); hide(dxf_part); hide(link_font); hide(count_fonts);
| broadcast use assoc, push_add;
| proof { same_parts(*self); }
//@end
}
impl Workbook {
//@fn src/workbook.rs prepare_num_formats impl="impl Workbook" attr=#[verifier::rlimit(40)]
| requires old(self).xf_formats@.len() + old(self).dxf_formats@.len() < 65000, forall|i: int| 0 <= i < old(self).xf_formats@.len() ==> !(#[trigger] old(self).xf_formats@[i]).is_dxf_format,
|   forall|i: int| 0 <= i < old(self).dxf_formats@.len() ==> (#[trigger] old(self).dxf_formats@[i]).is_dxf_format,
| ensures numbers_only(old(self).xf_formats@, final(self).xf_formats@, old(self).xf_formats@.len() as int), numbers_only(old(self).dxf_formats@, final(self).dxf_formats@, old(self).dxf_formats@.len() as int),
|   listed(old(self).xf_formats@, final(self).xf_formats@, final(self).num_formats@, old(self).xf_formats@.len() as int),
|   distinct(old(self).xf_formats@, old(self).dxf_formats@, final(self).xf_formats@, final(self).dxf_formats@),
|   final(self).num_formats@.len() <= old(self).xf_formats@.len(),
//@rewrite HashMap<String, u16> = HashMap::new\(\) => VpCodes = VpCodes::new()
//@rewrite let xf_formats = \[&mut self\.xf_formats, &mut self\.dxf_formats\]; => let vp_n = self.xf_formats.len(); let vp_t = vp_n + self.dxf_formats.len();
//@rewrite for xf_format in xf_formats\.into_iter\(\)\.flatten\(\) \{ => for vp_k in 0..vp_t { let xf_format = if vp_k < vp_n { &mut self.xf_formats[vp_k] } else { &mut self.dxf_formats[vp_k - vp_n] };
//@rewrite \{\s*continue;\s*\} => { } else {
//@rewrite (self\.num_formats\.push\(num_format_string\);\s*\}\s*\}\s*\}) => \1 } }
//@rewrite xf_format\.num_format\.is_empty\(\) => vp_none(&xf_format.num_format)
//@rewrite \.clone\(\) => .vp_text()
//@rewrite let mut index = 164; => let mut index: u16 = 164;
//@rewrite unique_num_formats\.get\( => unique_num_formats.find(
//@rewrite \*index => index
//@rewrite unique_num_formats\.insert\( => unique_num_formats.put(
//@loop 1
| invariant vp_n == old(self).xf_formats@.len(), vp_t == vp_n + old(self).dxf_formats@.len(), vp_t < 65000, 164 <= index <= 164 + vp_k,
|   forall|i: int| 0 <= i < vp_n ==> !(#[trigger] old(self).xf_formats@[i]).is_dxf_format, forall|i: int| 0 <= i < vp_t - vp_n ==> (#[trigger] old(self).dxf_formats@[i]).is_dxf_format,
|   numbers_only(old(self).xf_formats@, self.xf_formats@, vp_k as int), numbers_only(old(self).dxf_formats@, self.dxf_formats@, vp_k - vp_n),
|   given(old(self).xf_formats@, old(self).dxf_formats@, self.xf_formats@, self.dxf_formats@, unique_num_formats@, vp_k as int, index as int),
|   listed(old(self).xf_formats@, self.xf_formats@, self.num_formats@, vp_k as int), self.num_formats@.len() <= vp_n, vp_k <= vp_n ==> self.num_formats@.len() == index - 164,
|   vp_k <= vp_n ==> forall|c: Seq<char>| #[trigger] unique_num_formats@.dom().contains(c) ==> self.num_formats@[unique_num_formats@[c] - 164]@ == c,
//@at loop 1 start
| let ghost vp_x = self.xf_formats@; let ghost vp_d = self.dxf_formats@;
| proof { assert(at(vp_x, vp_d, vp_k as int) == at(old(self).xf_formats@, old(self).dxf_formats@, vp_k as int)); }
//@end
}
fn main() {}
}
