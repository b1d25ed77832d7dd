// C22: colours.  Extracted from /repo/src/{color,styles,format,chart,shape,drawing,conditional_format,sparkline,note,worksheet,workbook}.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@item src/color.rs enum Color derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatPattern derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatBorder derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs struct Fill derive=
//@item src/format.rs struct Border keep=bottom_color,top_color,left_color,right_color,diagonal_color derive=
//@item src/format.rs struct Font keep=color derive=
//@item src/format.rs struct Format keep=font,fill,borders,fill_index,has_fill derive=
//@item src/workbook.rs struct Workbook keep=xf_formats,fill_count derive=
//@item src/styles.rs struct Styles keep=writer derive= sub=Cursor<Vec<u8>>=>Writer;<'a>=>
//@item src/worksheet.rs struct Worksheet keep=writer,tab_color derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/chart.rs struct Chart keep=writer derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/drawing.rs struct Drawing keep=writer derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/chart.rs struct ChartSeries keep=inverted_color,invert_if_negative derive=
//@item src/chart.rs struct ChartLine keep=color derive=
//@item src/chart.rs struct ChartSolidFill keep=color derive=
//@item src/chart.rs struct ChartPatternFill keep=background_color,foreground_color,pattern derive=
//@item src/chart.rs enum ChartPatternFillType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/chart.rs struct ChartFont keep=color derive=
//@item src/chart.rs struct ChartGradientStop derive=
//@item src/shape.rs struct ShapeLine keep=color derive=
//@item src/shape.rs struct ShapeSolidFill keep=color derive=
//@item src/shape.rs struct ShapePatternFill keep=background_color,foreground_color,pattern derive=
//@item src/shape.rs enum ShapePatternFillType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/shape.rs struct ShapeFont keep=color derive=
//@item src/shape.rs struct ShapeGradientStop derive=
//@item src/note.rs struct Note keep=format derive=
//@item src/sparkline.rs struct Sparkline keep=series_color,negative_points_color,markers_color,first_point_color,last_point_color,high_point_color,low_point_color,show_high_point,show_low_point,show_first_point,show_last_point,show_negative_points,show_markers derive=
//@item src/conditional_format.rs struct ConditionalFormat2ColorScale keep=min_color,max_color derive=
//@item src/conditional_format.rs struct ConditionalFormat3ColorScale keep=min_color,mid_color,max_color derive=
//@item src/conditional_format.rs struct ConditionalFormatDataBar keep=fill_color,border_color,negative_fill_color,negative_border_color,axis_color derive=
// ---------------------------------------------------------------- specification
/// the number of a named colour, as documented
pub open spec fn named(c: Color) -> Option<int> {
    match c {
        Color::Black => Some(0), Color::Blue => Some(0x0000FF), Color::Brown => Some(0x800000), Color::Cyan => Some(0x00FFFF), Color::Gray => Some(0x808080), Color::Green => Some(0x008000), Color::Lime => Some(0x00FF00), Color::Magenta => Some(0xFF00FF),
        Color::Navy => Some(0x000080), Color::Orange => Some(0xFF6600), Color::Pink => Some(0xFFC0CB), Color::Purple => Some(0x800080), Color::Red => Some(0xFF0000), Color::Silver => Some(0xC0C0C0), Color::White => Some(0xFFFFFF), Color::Yellow => Some(0xFFFF00),
        Color::RGB(n) => Some(n as int), _ => None,
    }
}
pub open spec fn hex_char(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (55 + d) as u8 as char } }
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn lower_text(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
/// six hexadecimal digits
pub open spec fn hex6(n: int) -> Seq<char> { seq![hex_char(n / 1048576 % 16), hex_char(n / 65536 % 16), hex_char(n / 4096 % 16), hex_char(n / 256 % 16), hex_char(n / 16 % 16), hex_char(n % 16)] }
pub open spec fn rgb(c: Color) -> Seq<char> { match named(c) { Some(n) => hex6(n), None => hex6(0) } }
pub open spec fn unset(c: Color) -> bool { c == Color::Default || c == Color::Automatic }
/// the colours that exist
pub open spec fn valid(c: Color) -> bool { match c { Color::RGB(n) => n <= 0xFFFFFF, Color::Theme(t, s) => t <= 9 && s <= 5, _ => true } }
/// lighter or darker in percent: the shades of the palette of the application
pub open spec fn shade(c: int, s: int) -> int {
    if s == 0 { 0 }
    else if c == 0 { if s == 1 { -5 } else if s == 2 { -15 } else if s == 3 { -25 } else if s == 4 { -35 } else { -50 } }
    else if c == 1 { if s == 1 { 50 } else if s == 2 { 35 } else if s == 3 { 25 } else if s == 4 { 15 } else { 5 } }
    else if c == 2 { if s == 1 { -10 } else if s == 2 { -25 } else if s == 3 { -50 } else if s == 4 { -75 } else { -90 } }
    else { if s == 1 { 80 } else if s == 2 { 60 } else if s == 3 { 40 } else if s == 4 { -25 } else { -50 } }
}
/// the tint the application stores for a shade
pub open spec fn tint(p: int) -> Seq<char> {
    if p == -5 { "-4.9989318521683403E-2"@ } else if p == -15 { "-0.14999847407452621"@ } else if p == -25 { "-0.249977111117893"@ } else if p == -35 { "-0.34998626667073579"@ } else if p == -50 { "-0.499984740745262"@ }
    else if p == 50 { "0.499984740745262"@ } else if p == 35 { "0.34998626667073579"@ } else if p == 25 { "0.249977111117893"@ } else if p == 15 { "0.14999847407452621"@ } else if p == 5 { "4.9989318521683403E-2"@ }
    else if p == -10 { "-9.9978637043366805E-2"@ } else if p == -75 { "-0.749992370372631"@ } else if p == -90 { "-0.89999084444715716"@ }
    else if p == 80 { "0.79998168889431442"@ } else if p == 60 { "0.59999389629810485"@ } else { "0.39997558519241921"@ }
}
/// the attributes of a colour in a spreadsheet part
pub open spec fn color_attrs(c: Color) -> Attrs {
    match c {
        Color::Theme(t, s) => if 1 <= s <= 5 { seq![("theme"@, dec(t as nat)), ("tint"@, tint(shade(t as int, s as int)))] } else { seq![("theme"@, dec(t as nat))] },
        _ => seq![("rgb"@, "FF"@ + rgb(c))],
    }
}
pub open spec fn scheme(t: int) -> Seq<char> {
    if t == 0 { "bg1"@ } else if t == 1 { "tx1"@ } else if t == 2 { "bg2"@ } else if t == 3 { "tx2"@ } else if t == 4 { "accent1"@ } else if t == 5 { "accent2"@ } else if t == 6 { "accent3"@ } else if t == 7 { "accent4"@ } else if t == 8 { "accent5"@ } else { "accent6"@ }
}
/// darker: so much of the luminance; lighter: so much of it and the rest of white
pub open spec fn lum_mod(p: int) -> int { if p == 0 { 0 } else if p > 0 { 1000 * (100 - p) } else { 1000 * (100 + p) } }
pub open spec fn lum_off(p: int) -> int { if p > 0 { 1000 * p } else { 0 } }
pub open spec fn when(b: bool, s: Seq<Tag>) -> Seq<Tag> { if b { s } else { seq![] } }
pub open spec fn num_tag(k: Seq<char>, n: int) -> Tag { Tag::Empty(k, seq![("val"@, dec(n as nat))]) }
pub open spec fn alpha(t: int) -> Tag { num_tag("a:alpha"@, (100 - t) * 1000) }
pub open spec fn scheme_tags(name: Seq<char>, m: int, o: int, t: int) -> Seq<Tag> {
    if m > 0 || o > 0 || t > 0 { seq![Tag::Open("a:schemeClr"@, seq![("val"@, name)])] + when(m > 0, seq![num_tag("a:lumMod"@, m)]) + when(o > 0, seq![num_tag("a:lumOff"@, o)]) + when(t > 0, seq![alpha(t)]) + seq![Tag::Close("a:schemeClr"@)] }
    else { seq![Tag::Empty("a:schemeClr"@, seq![("val"@, name)])] }
}
/// the elements of a colour in a drawing
pub open spec fn drawn(c: Color, t: int) -> Seq<Tag> {
    match c {
        Color::Theme(n, s) => scheme_tags(scheme(n as int), lum_mod(shade(n as int, s as int)), lum_off(shade(n as int, s as int)), t),
        Color::Automatic => seq![Tag::Empty("a:sysClr"@, seq![("val"@, "window"@), ("lastClr"@, "FFFFFF"@)])],
        _ => if t > 0 { seq![Tag::Open("a:srgbClr"@, seq![("val"@, rgb(c))]), alpha(t), Tag::Close("a:srgbClr"@)] } else { seq![Tag::Empty("a:srgbClr"@, seq![("val"@, rgb(c))])] },
    }
}
pub open spec fn inside(k: Seq<char>, a: Attrs, s: Seq<Tag>) -> Seq<Tag> { seq![Tag::Open(k, a)] + s + seq![Tag::Close(k)] }
/// a pattern fill: the colours that are set, and white behind a foreground without one
pub open spec fn patt(p: Seq<char>, fg: Color, bg: Color) -> Seq<Tag> {
    inside("a:pattFill"@, seq![("prst"@, p)], when(fg != Color::Default, inside("a:fgClr"@, seq![], drawn(fg, 0))) + when(bg != Color::Default || fg != Color::Default, inside("a:bgClr"@, seq![], drawn(if bg != Color::Default { bg } else { Color::White }, 0))))
}
/// the fill of a cell format: the application shows the foreground of a solid fill, so two colours change places there
pub open spec fn fill_tags(f: Fill, dxf: bool) -> Seq<Tag> {
    if f.pattern != FormatPattern::None && unset(f.foreground_color) && unset(f.background_color) { inside("fill"@, seq![], seq![Tag::Empty("patternFill"@, seq![("patternType"@, pattern_text(f.pattern))])]) }
    else {
        let swap = !dxf && f.pattern == FormatPattern::Solid && !unset(f.foreground_color) && !unset(f.background_color);
        let plain = dxf && (f.pattern == FormatPattern::None || f.pattern == FormatPattern::Solid);
        inside("fill"@, seq![], inside("patternFill"@, if plain { seq![] } else { seq![("patternType"@, pattern_text(f.pattern))] },
            when(!unset(f.foreground_color), seq![Tag::Empty("fgColor"@, color_attrs(if swap { f.background_color } else { f.foreground_color }))])
            + seq![Tag::Empty("bgColor"@, if unset(f.background_color) { seq![("indexed"@, "64"@)] } else { color_attrs(if swap { f.foreground_color } else { f.background_color }) })]))
    }
}
/// a fill as it is stored: one colour without a pattern is a solid fill of that colour
pub open spec fn stored(f: Fill) -> Fill {
    let plain = f.pattern == FormatPattern::None || f.pattern == FormatPattern::Solid;
    if plain && !unset(f.background_color) && unset(f.foreground_color) { Fill { foreground_color: f.background_color, background_color: Color::Default, pattern: FormatPattern::Solid } }
    else if plain && unset(f.background_color) && !unset(f.foreground_color) { Fill { background_color: Color::Default, pattern: FormatPattern::Solid, ..f } }
    else { f }
}
pub open spec fn border_tags(k: Seq<char>, s: FormatBorder, c: Color) -> Seq<Tag> {
    if s == FormatBorder::None { seq![Tag::Empty(k, seq![])] } else { inside(k, seq![("style"@, border_text(s))], seq![Tag::Empty("color"@, if unset(c) { seq![("auto"@, "1"@)] } else { color_attrs(c) })]) }
}
pub open spec fn font_tags(c: Color, dxf: bool) -> Seq<Tag> {
    match c { Color::Automatic => seq![], Color::Default => if dxf { seq![] } else { seq![Tag::Empty("color"@, seq![("theme"@, "1"@)])] }, _ => seq![Tag::Empty("color"@, color_attrs(c))] }
}
/// the value of a text of hexadecimal digits
pub open spec fn digit(c: char) -> Option<int> { if '0' <= c <= '9' { Some(c as int - 48) } else if 'A' <= c <= 'F' { Some(c as int - 55) } else if 'a' <= c <= 'f' { Some(c as int - 87) } else { None } }
pub open spec fn hex_value(s: Seq<char>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (hex_value(s.drop_last()), digit(s.last())) { (Some(a), Some(b)) => Some(a * 16 + b), _ => None } }
}
/// a colour text: hexadecimal digits after at most one #
pub open spec fn color_text(s: Seq<char>) -> Option<int> {
    let h = if s.len() > 0 && s[0] == '#' { s.skip(1) } else { s };
    if h.len() == 0 { None } else { hex_value(h) }
}
/// setting: a colour that exists is taken, anything else changes nothing
pub open spec fn set(old: Color, new: Color) -> Color { if valid(new) { new } else { old } }
/// setting where there always is a colour: automatic and default keep the default
pub open spec fn put(old: Color, new: Color) -> Color { if valid(new) && !unset(new) { new } else { old } }
pub open spec fn takes(new: Color) -> bool { valid(new) && !unset(new) }
// how fills are numbered: equal fills have equal numbers, 0 and 1 are the built-in ones, new ones are listed in order
pub open spec fn new_fills(f: Seq<Format>, n: int) -> int decreases n { if n <= 0 { 0 } else { new_fills(f, n - 1) + if f[n - 1].has_fill { 1int } else { 0 } } }
pub open spec fn none_fill() -> Fill { Fill { foreground_color: Color::Default, background_color: Color::Default, pattern: FormatPattern::None } }
pub open spec fn gray_fill() -> Fill { Fill { foreground_color: Color::Default, background_color: Color::Default, pattern: FormatPattern::Gray125 } }
#[verifier::opaque] pub open spec fn seen(f: Seq<Format>, n: int, x: Fill) -> bool { x == none_fill() || x == gray_fill() || exists|j: int| 0 <= j < n && (#[trigger] f[j]).fill == x }
#[verifier::opaque] pub open spec fn numbered(f: Seq<Format>, i: int) -> bool {
    f[i].has_fill == !seen(f, i, f[i].fill) && (f[i].has_fill ==> f[i].fill_index == 2 + new_fills(f, i))
    && (f[i].fill == none_fill() ==> f[i].fill_index == 0) && (f[i].fill == gray_fill() ==> f[i].fill_index == 1)
    && forall|j: int| 0 <= j < i && (#[trigger] f[j]).fill == f[i].fill ==> f[j].fill_index == f[i].fill_index
}
proof fn new_fills_same(f: Seq<Format>, g: Seq<Format>, n: int) requires n <= f.len(), n <= g.len(), forall|j: int| 0 <= j < n ==> f[j].has_fill == g[j].has_fill ensures new_fills(f, n) == new_fills(g, n) decreases n { if n > 0 { new_fills_same(f, g, n - 1); } }
proof fn seen_same(f: Seq<Format>, g: Seq<Format>, n: int, x: Fill) requires n <= f.len(), n <= g.len(), forall|j: int| 0 <= j < n ==> f[j] == g[j] ensures seen(f, n, x) == seen(g, n, x) {
    reveal(seen);
    if exists|j: int| 0 <= j < n && (#[trigger] f[j]).fill == x { let j = choose|j: int| 0 <= j < n && (#[trigger] f[j]).fill == x; assert(g[j].fill == x); }
    if exists|j: int| 0 <= j < n && (#[trigger] g[j]).fill == x { let j = choose|j: int| 0 <= j < n && (#[trigger] g[j]).fill == x; assert(f[j].fill == x); }
}
proof fn seen_next(f: Seq<Format>, k: int, x: Fill) requires 0 <= k < f.len() ensures seen(f, k + 1, x) == (seen(f, k, x) || f[k].fill == x) {
    reveal(seen);
    if exists|j: int| 0 <= j < k && (#[trigger] f[j]).fill == x { let j = choose|j: int| 0 <= j < k && (#[trigger] f[j]).fill == x; assert(0 <= j < k + 1 && f[j].fill == x); }
    if f[k].fill == x { assert(0 <= k < k + 1 && f[k].fill == x); }
}
proof fn numbered_same(f: Seq<Format>, g: Seq<Format>, i: int) requires 0 <= i < f.len(), i < g.len(), forall|j: int| 0 <= j <= i ==> f[j] == g[j], numbered(f, i) ensures numbered(g, i) {
    reveal(numbered); new_fills_same(f, g, i); seen_same(f, g, i, f[i].fill); assert(f[i] == g[i]);
    assert forall|j: int| 0 <= j < i && (#[trigger] g[j]).fill == g[i].fill implies g[j].fill_index == g[i].fill_index by { assert(f[j] == g[j]); }
}
proof fn step(f: Seq<Format>, b: Seq<Format>, k: int, m: Map<Fill, u16>, n: Map<Fill, u16>)
    requires
        f.len() == b.len(), 0 <= k < f.len() < 65_000, forall|j: int| 0 <= j < k ==> f[j] == b[j], forall|i: int| 0 <= i < k ==> #[trigger] numbered(b, i),
        0 <= new_fills(b, k) <= k, forall|x: Fill| (#[trigger] m.contains_key(x)) == seen(b, k, x),
        m.contains_key(none_fill()) && m[none_fill()] == 0, m.contains_key(gray_fill()) && m[gray_fill()] == 1,
        forall|j: int| 0 <= j < k ==> m.contains_key((#[trigger] b[j]).fill) && m[b[j].fill] == b[j].fill_index,
        m.contains_key(f[k].fill) ==> f[k].fill_index == m[f[k].fill] && !f[k].has_fill && n == m,
        !m.contains_key(f[k].fill) ==> f[k].fill_index == 2 + new_fills(b, k) && f[k].has_fill && n == m.insert(f[k].fill, f[k].fill_index),
    ensures
        forall|i: int| 0 <= i < k + 1 ==> #[trigger] numbered(f, i), forall|x: Fill| (#[trigger] n.contains_key(x)) == seen(f, k + 1, x),
        new_fills(f, k + 1) == new_fills(b, k) + if f[k].has_fill { 1int } else { 0 },
        n.contains_key(none_fill()) && n[none_fill()] == 0, n.contains_key(gray_fill()) && n[gray_fill()] == 1,
        forall|j: int| 0 <= j < k + 1 ==> n.contains_key((#[trigger] f[j]).fill) && n[f[j].fill] == f[j].fill_index,
{
    new_fills_same(f, b, k);
    assert forall|x: Fill| (#[trigger] n.contains_key(x)) == seen(f, k + 1, x) by { seen_next(f, k, x); seen_same(f, b, k, x); assert(m.contains_key(x) == seen(b, k, x)); }
    assert forall|j: int| 0 <= j < k + 1 implies n.contains_key((#[trigger] f[j]).fill) && n[f[j].fill] == f[j].fill_index by { if j < k { assert(f[j] == b[j]); } }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] numbered(f, i) by {
        if i < k { assert(numbered(b, i)); numbered_same(b, f, i); }
        else { reveal(numbered); seen_same(f, b, k, f[k].fill); assert(m.contains_key(f[k].fill) == seen(b, k, f[k].fill)); assert forall|j: int| 0 <= j < k && (#[trigger] f[j]).fill == f[k].fill implies f[j].fill_index == f[k].fill_index by { assert(f[j] == b[j]); assert(m.contains_key(b[j].fill)); } }
    }
}
// ---------------------------------------------------------------- trusted
pub uninterp spec fn pattern_text(p: FormatPattern) -> Seq<char>;
pub uninterp spec fn border_text(p: FormatBorder) -> Seq<char>;
pub uninterp spec fn chart_pattern_text(p: ChartPatternFillType) -> Seq<char>;
pub uninterp spec fn shape_pattern_text(p: ShapePatternFillType) -> Seq<char>;
impl VpText for FormatPattern { open spec fn text(&self) -> Seq<char> { pattern_text(*self) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { unimplemented!() } }
impl VpText for FormatBorder { open spec fn text(&self) -> Seq<char> { border_text(*self) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { unimplemented!() } }
impl VpText for ChartPatternFillType { open spec fn text(&self) -> Seq<char> { chart_pattern_text(*self) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { unimplemented!() } }
impl VpText for ShapePatternFillType { open spec fn text(&self) -> Seq<char> { shape_pattern_text(*self) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { unimplemented!() } }
/// {:06X}
#[verifier::external_body] pub fn vp_hex6(n: u32) -> (r: String) ensures n <= 0xFFFFFF ==> r@ == hex6(n as int) { format!("{n:06X}") }
#[verifier::external_body] pub fn vp_lower(s: &String) -> (r: String) ensures (forall|i: int| 0 <= i < s@.len() ==> (s@[i] as u32) < 128) ==> r@ == lower_text(s@) { s.to_lowercase() }
/// str::strip_prefix('#').unwrap_or(itself)
#[verifier::external_body] pub fn vp_strip_hash<'a>(s: &'a str, d: &'a str) -> (r: &'a str) ensures r@ == (if s@.len() > 0 && s@[0] == '#' { s@.skip(1) } else { d@ }) { s.strip_prefix('#').unwrap_or(d) }
#[verifier::external_body] pub fn vp_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
/// u32::from_str_radix(_, 16): digits after at most one plus sign
#[verifier::external_body] pub fn vp_radix16(s: &str) -> (r: Result<u32, ()>)
    ensures ({ let h = if s@.len() > 0 && s@[0] == '+' { s@.skip(1) } else { s@ }; match r { Ok(n) => h.len() > 0 && hex_value(h) == Some(n as int), Err(_) => h.len() == 0 || hex_value(h) is None || hex_value(h)->0 > u32::MAX } })
{ u32::from_str_radix(s, 16).map_err(|_| ()) }
#[verifier::external_body] pub fn vp_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
#[verifier::external_body] pub fn vp_append<T>(a: &mut Vec<T>, b: &mut Vec<T>) ensures final(a)@ == old(a)@ + old(b)@, final(b)@.len() == 0 { a.append(b) }
impl Clone for Fill { #[verifier::external_body] fn clone(&self) -> (r: Fill) ensures r == *self { unimplemented!() } }
/// HashMap<Fill, u16> (unit c03 proves that Eq and Hash of formats follow their fields)
#[verifier::external_body] pub struct VpFills { }
impl VpFills {
    pub uninterp spec fn view(&self) -> Map<Fill, u16>;
    #[verifier::external_body] pub fn start() -> (r: VpFills) ensures r@ == map![none_fill() => 0u16, gray_fill() => 1u16] { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, f: &Fill) -> (r: Option<&u16>) ensures match r { Some(n) => self@.contains_key(*f) && self@[*f] == *n, None => !self@.contains_key(*f) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, f: Fill, n: u16) ensures final(self)@ == old(self)@.insert(f, n) { unimplemented!() }
}
proof fn ascii(n: int) requires 0 <= n ensures forall|i: int| 0 <= i < 6 ==> (#[trigger] hex6(n)[i] as u32) < 128 {
    assert(forall|d: int| 0 <= d < 16 ==> (#[trigger] hex_char(d) as u32) < 128);
}
pub proof fn lits()
    ensures "FF0000"@ =~= hex6(0xFF0000), "0000FF"@ =~= hex6(0xFF), "00FFFF"@ =~= hex6(0xFFFF), "808080"@ =~= hex6(0x808080), "00FF00"@ =~= hex6(0xFF00), "000080"@ =~= hex6(0x80), "FFC0CB"@ =~= hex6(0xFFC0CB), "800000"@ =~= hex6(0x800000), "008000"@ =~= hex6(0x8000), "FFFFFF"@ =~= hex6(0xFFFFFF), "FF6600"@ =~= hex6(0xFF6600), "800080"@ =~= hex6(0x800080), "C0C0C0"@ =~= hex6(0xC0C0C0), "FFFF00"@ =~= hex6(0xFFFF00), "FF00FF"@ =~= hex6(0xFF00FF), "000000"@ =~= hex6(0)
{
    reveal_strlit("FF0000"); reveal_strlit("0000FF"); reveal_strlit("00FFFF"); reveal_strlit("808080"); reveal_strlit("00FF00"); reveal_strlit("000080"); reveal_strlit("FFC0CB"); reveal_strlit("800000"); reveal_strlit("008000"); reveal_strlit("FFFFFF"); reveal_strlit("FF6600"); reveal_strlit("800080"); reveal_strlit("C0C0C0"); reveal_strlit("FFFF00"); reveal_strlit("FF00FF"); reveal_strlit("000000");
}
pub broadcast proof fn av_one(s: Seq<(&'static str, String)>) requires s.len() == 1 ensures #[trigger] av(s) == seq![(s[0].0@, s[0].1@)] { assert(av(s) =~= seq![(s[0].0@, s[0].1@)]); }
pub broadcast proof fn av_two(s: Seq<(&'static str, String)>) requires s.len() == 2 ensures #[trigger] av(s) == seq![(s[0].0@, s[0].1@), (s[1].0@, s[1].1@)] { assert(av(s) =~= seq![(s[0].0@, s[0].1@), (s[1].0@, s[1].1@)]); }
// ---------------------------------------------------------------- code
impl Color {
//@fn src/color.rs rgb_hex_value impl="impl Color" ret=r
| requires valid(self)
| ensures r@ == rgb(self)
//@rewrite format!\("\{color:06X\}"\) => vp_hex6(color)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| proof { lits(); }
//@end
//@fn src/color.rs vml_rgb_hex_value impl="impl Color" ret=r
| requires valid(self)
| ensures r@ == (if named(self) is Some { "#"@ + lower_text(rgb(self)) } else { "#ffffe1"@ })
//@rewrite Self::rgb_hex_value\(self\)\.to_lowercase\(\) => vp_lower(&Self::rgb_hex_value(self))
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| proof { reveal_strlit("#"); if named(self) is Some { ascii(named(self)->0); } assert("#"@ =~= seq!['#']); }
//@end
//@fn src/color.rs argb_hex_value impl="impl Color" ret=r
| requires valid(self)
| ensures r@ == "FF"@ + rgb(self)
//@at body-start
| proof { reveal_strlit("FF"); assert("FF"@ =~= seq!['F', 'F']); }
//@end
//@fn src/color.rs attributes impl="impl Color" ret=r attr=#[verifier::rlimit(60)]
| requires valid(self)
| ensures av(r@) == color_attrs(self)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two;
//@end
//@fn src/color.rs chart_scheme impl="impl Color" ret=r attr=#[verifier::rlimit(60)]
| ensures match self { Color::Theme(t, s) => valid(self) ==> r.0@ == scheme(t as int) && r.1 == lum_mod(shade(t as int, s as int)) && r.2 == lum_off(shade(t as int, s as int)), _ => r.0@.len() == 0 }
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => vp_new()
//@end
//@fn src/color.rs is_valid impl="impl Color" ret=r
| ensures r == valid(self)
//@rewrite eprintln!\([^;]*\); =>
//@end
//@fn src/color.rs is_auto_or_default impl="impl Color" ret=r
| ensures r == unset(self)
//@end
//@fn src/color.rs from impl="From<u32> for Color" as=from_number ret=r
| ensures r == Color::RGB(value)
//@end
//@fn src/color.rs from impl="From<&str> for Color" as=from_text ret=r
| ensures match color_text(value@) { Some(n) => n <= u32::MAX ==> r == Color::RGB(n as u32), None => r == Color::Default }, color_text(value@) is Some && color_text(value@)->0 > u32::MAX ==> r == Color::Default
//@rewrite value\.strip_prefix\('#'\)\.unwrap_or\(value\) => vp_strip_hash(value, value)
//@rewrite u32::from_str_radix\(hex_string, 16\) => vp_radix16(hex_string)
//@rewrite hex_string\.starts_with\('\+'\) => vp_starts(hex_string, '+')
//@rewrite eprintln!\([^;]*\); =>
//@at body-start
| proof { plus(if value@.len() > 0 && value@[0] == '#' { value@.skip(1) } else { value@ }); }
//@end
}
/// a sign is no digit
proof fn plus(s: Seq<char>) ensures s.len() > 0 && s[0] == '+' ==> hex_value(s) is None decreases s.len() { if s.len() > 1 { plus(s.drop_last()); } else if s.len() == 1 { assert(s.last() == s[0]); } }
#[verifier::external_body] pub fn vp_new() -> (r: String) ensures r@.len() == 0 { String::new() }

impl Chart {
//@fn src/chart.rs write_a_lum_mod impl="impl Chart" strlits
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![num_tag("a:lumMod"@, lum_mod as int)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/chart.rs write_a_lum_off impl="impl Chart" strlits
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![num_tag("a:lumOff"@, lum_off as int)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/chart.rs write_a_alpha impl="impl Chart" strlits
| requires transparency <= 100
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![alpha(transparency as int)]
//@rewrite u32::from\(100 - transparency\) => ((100 - transparency) as u32)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/chart.rs write_a_scheme_clr impl="impl Chart" strlits
| requires transparency <= 100
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + scheme_tags(scheme@, lum_mod as int, lum_off as int, transparency as int)
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/chart.rs write_color impl="impl Chart" strlits
| requires valid(color), transparency <= 100
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + drawn(color, transparency as int)
//@rewrite \("(val|lastClr)", "(\w+)"\) => ("\1", "\2".vp_text())
//@rewrite !scheme\.is_empty\(\) => scheme.as_str().unicode_len() != 0
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
| proof { reveal_strlit("bg1"); reveal_strlit("tx1"); reveal_strlit("bg2"); reveal_strlit("tx2"); reveal_strlit("accent1"); reveal_strlit("accent2"); reveal_strlit("accent3"); reveal_strlit("accent4"); reveal_strlit("accent5"); reveal_strlit("accent6"); }
//@end
//@fn src/chart.rs write_a_solid_fill impl="impl Chart" strlits
| requires valid(color), transparency <= 100
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + inside("a:solidFill"@, seq![], drawn(color, transparency as int))
//@end
//@fn src/chart.rs write_a_patt_fill impl="impl Chart" strlits
| requires valid(fill.foreground_color), valid(fill.background_color)
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + patt(chart_pattern_text(fill.pattern), fill.foreground_color, fill.background_color)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/chart.rs write_gradient_stop impl="impl Chart" strlits
| requires valid(gradient_stop.color)
| ensures *final(self) == (Chart { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + inside("a:gs"@, seq![("pos"@, dec((1000 * gradient_stop.position) as nat))], drawn(gradient_stop.color, 0))
//@rewrite u32::from\(gradient_stop\.position\) => (gradient_stop.position as u32)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
}
impl Drawing {
//@fn src/drawing.rs write_a_lum_mod impl="impl Drawing" strlits
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![num_tag("a:lumMod"@, lum_mod as int)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/drawing.rs write_a_lum_off impl="impl Drawing" strlits
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![num_tag("a:lumOff"@, lum_off as int)]
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/drawing.rs write_a_alpha impl="impl Drawing" strlits
| requires transparency <= 100
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![alpha(transparency as int)]
//@rewrite u32::from\(100 - transparency\) => ((100 - transparency) as u32)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/drawing.rs write_a_scheme_clr impl="impl Drawing" strlits
| requires transparency <= 100
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + scheme_tags(scheme@, lum_mod as int, lum_off as int, transparency as int)
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/drawing.rs write_color impl="impl Drawing" strlits
| requires valid(color), transparency <= 100
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + drawn(color, transparency as int)
//@rewrite \("(val|lastClr)", "(\w+)"\) => ("\1", "\2".vp_text())
//@rewrite !scheme\.is_empty\(\) => scheme.as_str().unicode_len() != 0
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
| proof { reveal_strlit("bg1"); reveal_strlit("tx1"); reveal_strlit("bg2"); reveal_strlit("tx2"); reveal_strlit("accent1"); reveal_strlit("accent2"); reveal_strlit("accent3"); reveal_strlit("accent4"); reveal_strlit("accent5"); reveal_strlit("accent6"); }
//@end
//@fn src/drawing.rs write_a_solid_fill impl="impl Drawing" strlits
| requires valid(color), transparency <= 100
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + inside("a:solidFill"@, seq![], drawn(color, transparency as int))
//@end
//@fn src/drawing.rs write_a_patt_fill impl="impl Drawing" strlits
| requires valid(fill.foreground_color), valid(fill.background_color)
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + patt(shape_pattern_text(fill.pattern), fill.foreground_color, fill.background_color)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/drawing.rs write_gradient_stop impl="impl Drawing" strlits
| requires valid(gradient_stop.color)
| ensures *final(self) == (Drawing { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + inside("a:gs"@, seq![("pos"@, dec((1000 * gradient_stop.position) as nat))], drawn(gradient_stop.color, 0))
//@rewrite u32::from\(gradient_stop\.position\) => (gradient_stop.position as u32)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
}
impl Styles {
//@fn src/styles.rs write_font_color impl="Styles" strlits
| requires valid(font.color)
| ensures final(self).writer.log() =~= old(self).writer.log() + font_tags(font.color, dxf_format)
//@rewrite attributes\.append\(&mut font\.color\.attributes\(\)\) => vp_append(&mut attributes, &mut font.color.attributes())
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@before /attributes.push/
| let ghost vp_a = attributes@;
//@after /vp_append[^;]*;/
| proof { assert(av(attributes@) =~= color_attrs(font.color)); }
//@end
//@fn src/styles.rs write_default_fill impl="Styles" strlits
| ensures final(self).writer.log() =~= old(self).writer.log() + inside("fill"@, seq![], seq![Tag::Empty("patternFill"@, seq![("patternType"@, pattern@)])])
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/styles.rs write_fill impl="Styles" strlits
| requires valid(fill.foreground_color), valid(fill.background_color)
| ensures final(self).writer.log() =~= old(self).writer.log() + fill_tags(*fill, dxf_format)
//@rewrite mem::swap => vp_swap
//@rewrite \("indexed", "64"\) => ("indexed", "64".vp_text())
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/styles.rs write_sub_border impl="Styles" strlits
| requires valid(border_color)
| ensures final(self).writer.log() =~= old(self).writer.log() + border_tags(border_type@, border_style, border_color)
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
}
impl Worksheet {
//@fn src/worksheet.rs write_tab_color impl="impl Worksheet" strlits
| requires valid(old(self).tab_color)
| ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + when(!unset(old(self).tab_color), seq![Tag::Empty("tabColor"@, color_attrs(old(self).tab_color))])
//@at body-start
| broadcast use av_one, av_two, av_push, av_none;
//@end
//@fn src/worksheet.rs write_sparkline_color impl="impl Worksheet" strlits
| requires valid(color)
| ensures *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }), final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty(name@, color_attrs(color))]
//@end
//@fn src/worksheet.rs set_tab_color impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { tab_color: set(old(self).tab_color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ConditionalFormat2ColorScale {
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormat2ColorScale" strlits
| requires valid(color)
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty("color"@, color_attrs(color))]
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
//@fn src/conditional_format.rs set_minimum_color impl="impl ConditionalFormat2ColorScale" ret=r
| ensures r == (ConditionalFormat2ColorScale { min_color: put(self.min_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_maximum_color impl="impl ConditionalFormat2ColorScale" ret=r
| ensures r == (ConditionalFormat2ColorScale { max_color: put(self.max_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ConditionalFormat3ColorScale {
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormat3ColorScale" strlits
| requires valid(color)
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty("color"@, color_attrs(color))]
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
//@fn src/conditional_format.rs set_minimum_color impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (ConditionalFormat3ColorScale { min_color: put(self.min_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_midpoint_color impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (ConditionalFormat3ColorScale { mid_color: put(self.mid_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_maximum_color impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (ConditionalFormat3ColorScale { max_color: put(self.max_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ConditionalFormatDataBar {
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormatDataBar" strlits
| requires valid(color)
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty(color_tag@, color_attrs(color))]
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
//@fn src/conditional_format.rs set_fill_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { fill_color: put(self.fill_color, color), border_color: put(self.border_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_border_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { border_color: put(self.border_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_negative_fill_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { negative_fill_color: put(self.negative_fill_color, color), negative_border_color: put(self.negative_border_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_negative_border_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { negative_border_color: put(self.negative_border_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_axis_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { axis_color: put(self.axis_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl Sparkline {
//@fn src/sparkline.rs set_sparkline_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { series_color: put(self.series_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_high_point_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { high_point_color: put(self.high_point_color, color), show_high_point: self.show_high_point || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_low_point_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { low_point_color: put(self.low_point_color, color), show_low_point: self.show_low_point || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_first_point_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { first_point_color: put(self.first_point_color, color), show_first_point: self.show_first_point || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_last_point_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { last_point_color: put(self.last_point_color, color), show_last_point: self.show_last_point || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_negative_points_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { negative_points_color: put(self.negative_points_color, color), show_negative_points: self.show_negative_points || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/sparkline.rs set_markers_color impl="impl Sparkline" ret=r
| ensures r == (Sparkline { markers_color: put(self.markers_color, color), show_markers: self.show_markers || takes(color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl Format {
//@fn src/format.rs set_font_color impl="impl Format" ret=r
| ensures r == (Format { font: Font { color: set(self.font.color, color), ..self.font }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_background_color impl="impl Format" ret=r
| ensures r == (Format { fill: Fill { background_color: set(self.fill.background_color, color), ..self.fill }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_foreground_color impl="impl Format" ret=r
| ensures r == (Format { fill: Fill { foreground_color: set(self.fill.foreground_color, color), ..self.fill }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_top_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { top_color: set(self.borders.top_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_bottom_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { bottom_color: set(self.borders.bottom_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_left_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { left_color: set(self.borders.left_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_right_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { right_color: set(self.borders.right_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_diagonal_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { diagonal_color: set(self.borders.diagonal_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_border_color impl="impl Format" ret=r
| ensures r == (Format { borders: Border { top_color: set(self.borders.top_color, color), bottom_color: set(self.borders.bottom_color, color), left_color: set(self.borders.left_color, color), right_color: set(self.borders.right_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/format.rs set_fill_index impl="impl Format"
| ensures *final(self) == (Format { fill_index: fill_index, has_fill: has_fill, ..*old(self) })
//@end
}
impl ShapeLine {
//@fn src/shape.rs set_color impl="impl ShapeLine" ret=r
| ensures r == (ShapeLine { color: set(self.color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ShapeSolidFill {
//@fn src/shape.rs set_color impl="impl ShapeSolidFill" ret=r
| ensures r == (ShapeSolidFill { color: set(self.color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ShapePatternFill {
//@fn src/shape.rs set_background_color impl="impl ShapePatternFill" ret=r
| ensures r == (ShapePatternFill { background_color: set(self.background_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/shape.rs set_foreground_color impl="impl ShapePatternFill" ret=r
| ensures r == (ShapePatternFill { foreground_color: set(self.foreground_color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ShapeFont {
//@fn src/shape.rs set_color impl="impl ShapeFont" ret=r
| ensures r == (ShapeFont { color: set(self.color, color), ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl Note {
//@fn src/note.rs set_background_color impl="impl Note" ret=r
| ensures r == (Note { format: Format { fill: Fill { background_color: set(self.format.fill.background_color, color), ..self.format.fill }, ..self.format }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ChartLine {
//@fn src/chart.rs set_color impl="impl ChartLine" ret=r
| ensures *final(self) == *final(r), *r == (ChartLine { color: set(old(self).color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ChartSolidFill {
//@fn src/chart.rs set_color impl="impl ChartSolidFill" ret=r
| ensures *final(self) == *final(r), *r == (ChartSolidFill { color: set(old(self).color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ChartPatternFill {
//@fn src/chart.rs set_background_color impl="impl ChartPatternFill" ret=r
| ensures *final(self) == *final(r), *r == (ChartPatternFill { background_color: set(old(self).background_color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
//@fn src/chart.rs set_foreground_color impl="impl ChartPatternFill" ret=r
| ensures *final(self) == *final(r), *r == (ChartPatternFill { foreground_color: set(old(self).foreground_color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ChartFont {
//@fn src/chart.rs set_color impl="impl ChartFont" ret=r
| ensures *final(self) == *final(r), *r == (ChartFont { color: set(old(self).color, color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ChartSeries {
//@fn src/chart.rs set_invert_if_negative_color impl="impl ChartSeries" ret=r
| ensures *final(self) == *final(r), *r == (ChartSeries { inverted_color: set(old(self).inverted_color, color), invert_if_negative: old(self).invert_if_negative || valid(color), ..*old(self) })
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@end
}
impl ChartGradientStop {
//@fn src/chart.rs new impl="impl ChartGradientStop" ret=r
| ensures r.color == color, r.position == position
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite eprintln!\([^;]*\); =>
//@rewrite !\(0\.\.=100\)\.contains\(&position\) => position > 100
//@end
//@fn src/chart.rs is_valid impl="impl ChartGradientStop" ret=r
| ensures r == (valid(self.color) && self.position <= 100)
//@rewrite \(0\.\.=100\)\.contains\(&self\.position\) => self.position <= 100
//@end
}
impl ShapeGradientStop {
//@fn src/shape.rs new impl="impl ShapeGradientStop" ret=r
| ensures r.color == color, r.position == position
//@rewrite sig:impl Into<Color> => Color
//@rewrite color\.into\(\) => color
//@rewrite eprintln!\([^;]*\); =>
//@rewrite !\(0\.\.=100\)\.contains\(&position\) => position > 100
//@end
//@fn src/shape.rs is_valid impl="impl ShapeGradientStop" ret=r
| ensures r == (valid(self.color) && self.position <= 100)
//@rewrite \(0\.\.=100\)\.contains\(&self\.position\) => self.position <= 100
//@end
}
impl Workbook {
//@fn src/workbook.rs prepare_fills impl="impl Workbook"
| requires old(self).xf_formats@.len() < 65_000
| ensures
|   final(self).xf_formats@.len() == old(self).xf_formats@.len(), final(self).fill_count == 2 + new_fills(final(self).xf_formats@, final(self).xf_formats@.len() as int),
|   forall|i: int| 0 <= i < final(self).xf_formats@.len() ==> (#[trigger] final(self).xf_formats@[i]).fill == stored(old(self).xf_formats@[i].fill), forall|i: int| 0 <= i < final(self).xf_formats@.len() ==> #[trigger] numbered(final(self).xf_formats@, i),
|   forall|i: int| 0 <= i < final(self).xf_formats@.len() ==> (#[trigger] final(self).xf_formats@[i]).font == old(self).xf_formats@[i].font && final(self).xf_formats@[i].borders == old(self).xf_formats@[i].borders,
//@rewrite HashMap::from\(\[[\s\S]*?\]\); => VpFills::start();
//@rewrite for xf_format in &mut self\.xf_formats \{ => for vp_i in 0..self.xf_formats.len() { let xf_format = &mut self.xf_formats[vp_i];
//@at before-loop 1
| proof { assert forall|x: Fill| (#[trigger] fill_indices@.contains_key(x)) == seen(self.xf_formats@, 0, x) by { reveal(seen); } assert(gray_fill() != none_fill()); }
//@loop 1
| invariant
|   self.xf_formats@.len() == old(self).xf_formats@.len(), self.xf_formats@.len() < 65_000, fill_count == 2 + new_fills(self.xf_formats@, vp_i as int), 0 <= new_fills(self.xf_formats@, vp_i as int) <= vp_i,
|   forall|i: int| 0 <= i < vp_i ==> (#[trigger] self.xf_formats@[i]).fill == stored(old(self).xf_formats@[i].fill), forall|i: int| 0 <= i < vp_i ==> #[trigger] numbered(self.xf_formats@, i),
|   forall|i: int| 0 <= i < self.xf_formats@.len() ==> (#[trigger] self.xf_formats@[i]).font == old(self).xf_formats@[i].font && self.xf_formats@[i].borders == old(self).xf_formats@[i].borders,
|   forall|i: int| vp_i <= i < self.xf_formats@.len() ==> self.xf_formats@[i] == old(self).xf_formats@[i],
|   forall|x: Fill| (#[trigger] fill_indices@.contains_key(x)) == seen(self.xf_formats@, vp_i as int, x),
|   fill_indices@.contains_key(none_fill()) && fill_indices@[none_fill()] == 0, fill_indices@.contains_key(gray_fill()) && fill_indices@[gray_fill()] == 1,
|   forall|j: int| 0 <= j < vp_i ==> fill_indices@.contains_key((#[trigger] self.xf_formats@[j]).fill) && fill_indices@[self.xf_formats@[j].fill] == self.xf_formats@[j].fill_index,
//@at loop 1 start
| let ghost vp_b = self.xf_formats@; let ghost vp_m = fill_indices@;
//@at loop 1 end
| proof { step(self.xf_formats@, vp_b, vp_i as int, vp_m, fill_indices@); }
//@end
}
}
fn main() {}
