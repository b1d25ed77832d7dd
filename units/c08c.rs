// C08: what a format is made of: every property setter, its opposite, and the combination of two formats.  Extracted from /repo/src/format.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@item src/color.rs enum Color derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatPattern derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatBorder derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatDiagonalBorder derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatUnderline derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatScript derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs enum FormatAlign derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/format.rs struct Fill derive=
//@item src/format.rs struct Border derive=
//@item src/format.rs struct Alignment derive=Clone,Copy
//@item src/format.rs struct Font derive=
//@item src/format.rs struct Format derive=
// ---------------------------------------------------------------- trusted
/// derived Clone gives an equal value
#[verifier::external_body] pub fn vp_copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// equality of texts
#[verifier::external_body] pub fn vp_same_text(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vp_same(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vp_none(a: &String) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
#[verifier::external_body] pub fn vp_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
// ---------------------------------------------------------------- specification
/// the colours that exist (unit c22 proves is_valid)
pub open spec fn valid(c: Color) -> bool { match c { Color::RGB(n) => n <= 0xFFFFFF, Color::Theme(t, s) => t <= 9 && s <= 5, _ => true } }
pub open spec fn set(old: Color, new: Color) -> Color { if valid(new) { new } else { old } }
impl Color { #[verifier::external_body] pub fn is_valid(self) -> (r: bool) ensures r == valid(self) { true } }
/// an alignment is horizontal or vertical; the general one is both
pub open spec fn horizontal(a: FormatAlign) -> bool { match a { FormatAlign::General | FormatAlign::Left | FormatAlign::Center | FormatAlign::Right | FormatAlign::Fill | FormatAlign::Justify | FormatAlign::CenterAcross | FormatAlign::Distributed => true, _ => false } }
pub open spec fn vertical(a: FormatAlign) -> bool { a == FormatAlign::General || !horizontal(a) }
/// degrees upwards as the file counts them: 0 to 90 up, 91 to 180 down, 255 stacked; others are refused
pub open spec fn turned(old: i16, d: i16) -> i16 { if d == 270 { 255i16 } else if -90 <= d < 0 { (90 - d) as i16 } else if 0 <= d <= 90 { d } else { old } }
/// the formats built into the application
pub open spec fn builtin(n: int) -> Option<Seq<char>> {
    if n == 1 { Some("0"@) }
    else if n == 2 { Some("0.00"@) }
    else if n == 3 { Some("#,##0"@) }
    else if n == 4 { Some("#,##0.00"@) }
    else if n == 5 { Some("($#,##0_);($#,##0)"@) }
    else if n == 6 { Some("($#,##0_);[Red]($#,##0)"@) }
    else if n == 7 { Some("($#,##0.00_);($#,##0.00)"@) }
    else if n == 8 { Some("($#,##0.00_);[Red]($#,##0.00)"@) }
    else if n == 9 { Some("0%"@) }
    else if n == 10 { Some("0.00%"@) }
    else if n == 11 { Some("0.00E+00"@) }
    else if n == 12 { Some("# ?/?"@) }
    else if n == 13 { Some("# ??/??"@) }
    else if n == 14 { Some("m/d/yy"@) }
    else if n == 15 { Some("d-mmm-yy"@) }
    else if n == 16 { Some("d-mmm"@) }
    else if n == 17 { Some("mmm-yy"@) }
    else if n == 18 { Some("h:mm AM/PM"@) }
    else if n == 19 { Some("h:mm:ss AM/PM"@) }
    else if n == 20 { Some("h:mm"@) }
    else if n == 21 { Some("h:mm:ss"@) }
    else if n == 22 { Some("m/d/yy h:mm"@) }
    else if n == 37 { Some("(#,##0_);(#,##0)"@) }
    else if n == 38 { Some("(#,##0_);[Red](#,##0)"@) }
    else if n == 39 { Some("(#,##0.00_);(#,##0.00)"@) }
    else if n == 40 { Some("(#,##0.00_);[Red](#,##0.00)"@) }
    else if n == 41 { Some("_(* #,##0_);_(* (#,##0);_(* \"-\"_);_(_)"@) }
    else if n == 42 { Some("_($* #,##0_);_($* (#,##0);_($* \"-\"_);_(_)"@) }
    else if n == 43 { Some("_(* #,##0.00_);_(* (#,##0.00);_(* \"-\"??_);_(_)"@) }
    else if n == 44 { Some("_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(_)"@) }
    else if n == 45 { Some("mm:ss"@) }
    else if n == 46 { Some("[h]:mm:ss"@) }
    else if n == 47 { Some("mm:ss.0"@) }
    else if n == 48 { Some("##0.0E+0"@) }
    else if n == 49 { Some("@"@) }
    else { None }
}
/// a property of one of two formats: the first one's if it was set
pub open spec fn first<T>(a: T, b: T, unset: T) -> T { if a == unset { b } else { a } }
pub open spec fn first_text(r: Seq<char>, a: Seq<char>, b: Seq<char>, unset: Seq<char>) -> bool { r == (if a == unset { b } else { a }) }
pub open spec fn plain_font(f: Font) -> bool {
    !f.bold && !f.italic && !f.strikethrough && !f.condense && !f.extend && !f.is_hyperlink && f.underline == FormatUnderline::None && f.script == FormatScript::None && f.color == Color::Default
    && f.name@ == "Calibri"@ && f.size@ == "11"@ && f.scheme@ == "minor"@ && f.family == 2 && f.charset == 0
}
pub open spec fn plain_border() -> Border {
    Border { bottom_style: FormatBorder::None, top_style: FormatBorder::None, left_style: FormatBorder::None, right_style: FormatBorder::None, diagonal_style: FormatBorder::None,
        bottom_color: Color::Default, top_color: Color::Default, left_color: Color::Default, right_color: Color::Default, diagonal_color: Color::Default, diagonal_type: FormatDiagonalBorder::None }
}
pub open spec fn plain_alignment() -> Alignment { Alignment { horizontal: FormatAlign::General, vertical: FormatAlign::General, text_wrap: false, rotation: 0, indent: 0, shrink: false, reading_direction: 0 } }
pub open spec fn plain_fill() -> Fill { Fill { foreground_color: Color::Default, background_color: Color::Default, pattern: FormatPattern::None } }
pub open spec fn both_fills(a: Fill, b: Fill) -> Fill { Fill { foreground_color: first(a.foreground_color, b.foreground_color, Color::Default), background_color: first(a.background_color, b.background_color, Color::Default), pattern: first(a.pattern, b.pattern, FormatPattern::None) } }
pub open spec fn both_borders(a: Border, b: Border) -> Border {
    Border { bottom_style: first(a.bottom_style, b.bottom_style, FormatBorder::None), top_style: first(a.top_style, b.top_style, FormatBorder::None), left_style: first(a.left_style, b.left_style, FormatBorder::None), right_style: first(a.right_style, b.right_style, FormatBorder::None), diagonal_style: first(a.diagonal_style, b.diagonal_style, FormatBorder::None),
        bottom_color: first(a.bottom_color, b.bottom_color, Color::Default), top_color: first(a.top_color, b.top_color, Color::Default), left_color: first(a.left_color, b.left_color, Color::Default), right_color: first(a.right_color, b.right_color, Color::Default), diagonal_color: first(a.diagonal_color, b.diagonal_color, Color::Default), diagonal_type: first(a.diagonal_type, b.diagonal_type, FormatDiagonalBorder::None) }
}
pub open spec fn both_alignments(a: Alignment, b: Alignment) -> Alignment {
    Alignment { horizontal: first(a.horizontal, b.horizontal, FormatAlign::General), vertical: first(a.vertical, b.vertical, FormatAlign::General), text_wrap: a.text_wrap || b.text_wrap, rotation: first(a.rotation, b.rotation, 0), indent: first(a.indent, b.indent, 0), shrink: a.shrink || b.shrink, reading_direction: first(a.reading_direction, b.reading_direction, 0) }
}
pub open spec fn both_fonts(r: Font, a: Font, b: Font) -> bool {
    r.bold == (a.bold || b.bold) && r.italic == (a.italic || b.italic) && r.strikethrough == (a.strikethrough || b.strikethrough) && r.condense == (a.condense || b.condense) && r.extend == (a.extend || b.extend)
    && r.underline == first(a.underline, b.underline, FormatUnderline::None) && r.script == first(a.script, b.script, FormatScript::None) && r.color == first(a.color, b.color, Color::Default)
    && r.family == first(a.family, b.family, 2) && r.charset == first(a.charset, b.charset, 0)
    && first_text(r.name@, a.name@, b.name@, "Calibri"@) && first_text(r.size@, a.size@, b.size@, "11"@) && first_text(r.scheme@, a.scheme@, b.scheme@, "minor"@)
}
/// the first format's value if it was set (verified)
pub trait VpFirst: Sized + Copy { fn vp_first(self, b: Self, unset: Self) -> (r: Self) ensures r == first(self, b, unset); }
impl VpFirst for u8 { fn vp_first(self, b: u8, unset: u8) -> (r: u8) { if self == unset { b } else { self } } }
impl VpFirst for i16 { fn vp_first(self, b: i16, unset: i16) -> (r: i16) { if self == unset { b } else { self } } }
impl VpFirst for Color { fn vp_first(self, b: Color, unset: Color) -> (r: Color) { if self == unset { b } else { self } } }
impl VpFirst for FormatBorder { fn vp_first(self, b: FormatBorder, unset: FormatBorder) -> (r: FormatBorder) { if self == unset { b } else { self } } }
impl VpFirst for FormatDiagonalBorder { fn vp_first(self, b: FormatDiagonalBorder, unset: FormatDiagonalBorder) -> (r: FormatDiagonalBorder) { if self == unset { b } else { self } } }
impl VpFirst for FormatUnderline { fn vp_first(self, b: FormatUnderline, unset: FormatUnderline) -> (r: FormatUnderline) { if self == unset { b } else { self } } }
impl VpFirst for FormatScript { fn vp_first(self, b: FormatScript, unset: FormatScript) -> (r: FormatScript) { if self == unset { b } else { self } } }
impl VpFirst for FormatAlign { fn vp_first(self, b: FormatAlign, unset: FormatAlign) -> (r: FormatAlign) { if self == unset { b } else { self } } }
impl VpFirst for FormatPattern { fn vp_first(self, b: FormatPattern, unset: FormatPattern) -> (r: FormatPattern) { if self == unset { b } else { self } } }
pub fn vp_first_text(a: &mut String, b: &String, unset: &String) ensures first_text(final(a)@, old(a)@, b@, unset@) { if vp_same_text(a, unset) { *a = vp_copy(b); } }
impl Border {
    #[verifier::external_body] pub fn default() -> (r: Border) ensures r == plain_border() { unimplemented!() }
    #[verifier::external_body] pub fn is_default(&self) -> (r: bool) ensures r == (*self == plain_border()) { true }
}
impl Alignment { #[verifier::external_body] pub fn default() -> (r: Alignment) ensures r == plain_alignment() { unimplemented!() } }
impl Fill { #[verifier::external_body] pub fn default() -> (r: Fill) ensures r == plain_fill() { unimplemented!() } }
// ---------------------------------------------------------------- verified code
impl Font {
//@fn src/format.rs default impl="Default for Font" ret=r strlits
| ensures plain_font(r)
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite (bold|italic|strikethrough|condense|extend|is_hyperlink): Default::default\(\) => \1: false
//@rewrite charset: Default::default\(\) => charset: 0
//@rewrite FormatUnderline::default\(\) => FormatUnderline::None
//@rewrite FormatScript::default\(\) => FormatScript::None
//@rewrite Color::default\(\) => Color::Default
//@end
}
impl Format {
//@fn src/format.rs new impl="impl Format$" ret=r
| ensures plain_font(r.font), r.borders == plain_border(), r.fill == plain_fill(), r.alignment == plain_alignment(), r.num_format@ == Seq::<char>::empty(), r.num_format_index == 0, r.locked, !r.hidden, !r.checkbox, !r.quote_prefix, !r.is_dxf_format, !r.has_font, !r.has_fill, !r.has_border, r.font_index == 0, r.fill_index == 0, r.border_index == 0
//@rewrite String::new\(\) => vp_empty()
//@end
//@fn src/format.rs set_num_format impl="impl Format$" ret=r
| ensures r == (Format { num_format: num_format, num_format_index: 0, ..self })
//@rewrite sig:impl Into<String> => String
//@rewrite sig:mut self => self
//@rewrite num_format\.into\(\) => num_format
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_num_format_index impl="impl Format$" ret=r strlits
| ensures r == (Format { num_format: r.num_format, num_format_index: num_format_index as u16, ..self }), match builtin(num_format_index as int) { Some(t) => r.num_format@ == t, None => r.num_format == self.num_format }
//@rewrite sig:mut self => self
//@rewrite let num_formats = HashMap::from\(\[ => let mut vp_found: Option<&str> = None;
//@rewrite \((\d+), ("(?:[^"\\]|\\.)*")\),? => if num_format_index == \1 { vp_found = Some(\2); }
//@rewrite \]\); => 
//@rewrite u16::from\(num_format_index\) => (num_format_index as u16)
//@rewrite num_formats\.get\(&num_format_index\) => vp_found
//@rewrite \(\*num_format\)\.to_string\(\) => num_format.vp_text()
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_bold impl="impl Format$" ret=r
| ensures r == (Format { font: Font { bold: true, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_bold impl="impl Format$" ret=r
| ensures r == (Format { font: Font { bold: false, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_italic impl="impl Format$" ret=r
| ensures r == (Format { font: Font { italic: true, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_italic impl="impl Format$" ret=r
| ensures r == (Format { font: Font { italic: false, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_strikethrough impl="impl Format$" ret=r
| ensures r == (Format { font: Font { strikethrough: true, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_font_strikethrough impl="impl Format$" ret=r
| ensures r == (Format { font: Font { strikethrough: false, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_color impl="impl Format$" ret=r
| ensures r == (Format { font: Font { color: set(self.font.color, color), ..self.font }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_name impl="impl Format$" ret=r attr=#[verifier::rlimit(80)]
| ensures r == (Format { font: Font { name: font_name, scheme: r.font.scheme, ..self.font }, ..self }), r.font.scheme@ == (if font_name@ == "Calibri"@ { self.font.scheme@ } else { Seq::<char>::empty() })
//@rewrite sig:impl Into<String> => String
//@rewrite sig:mut self => self
//@rewrite font_name\.into\(\) => font_name
//@rewrite self\.font\.name != "Calibri" => !vp_same(&self.font.name, "Calibri")
//@rewrite String::new\(\) => vp_empty()
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_size impl="impl Format$" ret=r
| ensures r == (Format { font: Font { size: r.font.size, ..self.font }, ..self }), r.font.size@ == f_text(font_size)
//@rewrite sig:<T>\s*\( => (
//@rewrite sig:font_size: T => font_size: f64
//@rewrite sig:where\s+T: Into<f64>,? => 
//@rewrite sig:mut self => self
//@rewrite font_size\.into\(\)\.to_string\(\) => font_size.vp_text()
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_scheme impl="impl Format$" ret=r
| ensures r == (Format { font: Font { scheme: font_scheme, ..self.font }, ..self })
//@rewrite sig:impl Into<String> => String
//@rewrite sig:mut self => self
//@rewrite font_scheme\.into\(\) => font_scheme
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_family impl="impl Format$" ret=r
| ensures r == (Format { font: Font { family: font_family, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_charset impl="impl Format$" ret=r
| ensures r == (Format { font: Font { charset: font_charset, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_underline impl="impl Format$" ret=r
| ensures r == (Format { font: Font { underline: underline, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_font_script impl="impl Format$" ret=r
| ensures r == (Format { font: Font { script: font_script, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_align impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { horizontal: if horizontal(align) { align } else { self.alignment.horizontal }, vertical: if vertical(align) { align } else { self.alignment.vertical }, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_text_wrap impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { text_wrap: true, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_text_wrap impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { text_wrap: false, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_shrink impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { shrink: true, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_shrink impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { shrink: false, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_indent impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { indent: indent, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_rotation impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { rotation: turned(self.alignment.rotation, rotation), ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite eprintln!\([^;]*?\)(?=,?\s*\}) => ()
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_reading_direction impl="impl Format$" ret=r
| ensures r == (Format { alignment: Alignment { reading_direction: if reading_direction <= 2 { reading_direction } else { self.alignment.reading_direction }, ..self.alignment }, ..self })
//@rewrite sig:mut self => self
//@rewrite eprintln!\([^;]*\); => 
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_pattern impl="impl Format$" ret=r
| ensures r == (Format { fill: Fill { pattern: pattern, ..self.fill }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_background_color impl="impl Format$" ret=r
| ensures r == (Format { fill: Fill { background_color: set(self.fill.background_color, color), ..self.fill }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_foreground_color impl="impl Format$" ret=r
| ensures r == (Format { fill: Fill { foreground_color: set(self.fill.foreground_color, color), ..self.fill }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { top_style: border, left_style: border, right_style: border, bottom_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { top_color: set(self.borders.top_color, color), left_color: set(self.borders.left_color, color), right_color: set(self.borders.right_color, color), bottom_color: set(self.borders.bottom_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_top impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { top_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_top_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { top_color: set(self.borders.top_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_bottom impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { bottom_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_bottom_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { bottom_color: set(self.borders.bottom_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_left impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { left_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_left_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { left_color: set(self.borders.left_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_right impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { right_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_right_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { right_color: set(self.borders.right_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_diagonal impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { diagonal_style: border, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_diagonal_color impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { diagonal_color: set(self.borders.diagonal_color, color), ..self.borders }, ..self })
//@rewrite sig:impl Into<Color> => Color
//@rewrite sig:mut self => self
//@rewrite let color = color\.into\(\); => let color = color;
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_border_diagonal_type impl="impl Format$" ret=r
| ensures r == (Format { borders: Border { diagonal_type: border_type, ..self.borders }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_hyperlink impl="impl Format$" ret=r
| ensures r == (Format { font: Font { is_hyperlink: true, color: Color::Theme(10, 0), underline: FormatUnderline::Single, scheme: r.font.scheme, ..self.font }, ..self }), r.font.scheme@ == Seq::<char>::empty()
//@rewrite sig:mut self => self
//@rewrite String::new\(\) => vp_empty()
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_hyperlink_style impl="impl Format$" ret=r
| ensures r == (Format { font: Font { is_hyperlink: false, ..self.font }, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_unlocked impl="impl Format$" ret=r
| ensures r == (Format { locked: false, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_locked impl="impl Format$" ret=r
| ensures r == (Format { locked: true, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_hidden impl="impl Format$" ret=r
| ensures r == (Format { hidden: true, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_hidden impl="impl Format$" ret=r
| ensures r == (Format { hidden: false, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_quote_prefix impl="impl Format$" ret=r
| ensures r == (Format { quote_prefix: true, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_quote_prefix impl="impl Format$" ret=r
| ensures r == (Format { quote_prefix: false, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs set_checkbox impl="impl Format$" ret=r
| ensures r == (Format { checkbox: true, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs unset_checkbox impl="impl Format$" ret=r
| ensures r == (Format { checkbox: false, ..self })
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
//@fn src/format.rs merge impl="impl Format$" ret=r
| ensures
|     r.fill == both_fills(self.fill, other.fill), r.borders == both_borders(self.borders, other.borders), r.alignment == both_alignments(self.alignment, other.alignment), both_fonts(r.font, self.font, other.font),
|     r.hidden == (self.hidden || other.hidden), r.locked == (self.locked && other.locked), r.checkbox == (self.checkbox || other.checkbox), r.quote_prefix == (self.quote_prefix || other.quote_prefix),
|     if self.num_format@.len() == 0 && self.num_format_index == 0 { r.num_format@ == other.num_format@ && r.num_format_index == other.num_format_index } else { r.num_format@ == self.num_format@ && r.num_format_index == self.num_format_index }
//@rewrite self\.clone\(\) => vp_copy(self)
//@end
//@fn src/format.rs merge_with impl="impl Format$"
| ensures
|     final(self).fill == both_fills(old(self).fill, other.fill), final(self).borders == both_borders(old(self).borders, other.borders), final(self).alignment == both_alignments(old(self).alignment, other.alignment), both_fonts(final(self).font, old(self).font, other.font),
|     final(self).hidden == (old(self).hidden || other.hidden), final(self).locked == (old(self).locked && other.locked), final(self).checkbox == (old(self).checkbox || other.checkbox), final(self).quote_prefix == (old(self).quote_prefix || other.quote_prefix),
|     if old(self).num_format@.len() == 0 && old(self).num_format_index == 0 { final(self).num_format@ == other.num_format@ && final(self).num_format_index == other.num_format_index } else { final(self).num_format@ == old(self).num_format@ && final(self).num_format_index == old(self).num_format_index }
//@rewrite (self\.[\w.]+) \|= (other\.\w+); => \1 = \1 || \2;
//@rewrite self\.locked &= other\.locked; => self.locked = self.locked && other.locked;
//@rewrite self\.num_format\.is_empty\(\) => vp_none(&self.num_format)
//@rewrite self\.num_format\.clone_from\(&other\.num_format\); => self.num_format = vp_copy(&other.num_format);
//@end
//@fn src/format.rs merge_fill impl="impl Format$"
| ensures *final(self) == (Format { fill: both_fills(old(self).fill, *other), ..*old(self) })
//@rewrite (?#opt)if (self\.\w+\.\w+) == ([\w:.]+) \{\s*\1 = (other\.\w+);\s*\} => \1 = \1.vp_first(\3, \2);
//@end
//@fn src/format.rs merge_font impl="impl Format$" attr=#[verifier::rlimit(80)]
| ensures *final(self) == (Format { font: final(self).font, ..*old(self) }), both_fonts(final(self).font, old(self).font, *other)
//@rewrite (self\.[\w.]+) \|= (other\.\w+); => \1 = \1 || \2;
//@rewrite (?#opt)if (self\.\w+\.\w+) == ([\w:.]+) \{\s*\1 = (other\.\w+);\s*\} => \1 = \1.vp_first(\3, \2);
//@rewrite (?#opt)if self\.font\.(\w+) == default\.(\w+) \{\s*self\.font\.\1\.clone_from\(&other\.(\w+)\);\s*\} => vp_first_text(&mut self.font.\1, &other.\3, &default.\2);
//@rewrite (?#opt)self\.font\.(name|size|scheme) == default\.(\w+) => vp_same_text(&self.font.\1, &default.\2)
//@rewrite (?#opt)self\.font\.(\w+)\.clone_from\(&other\.(\w+)\); => self.font.\1 = vp_copy(&other.\2);
//@end
//@fn src/format.rs merge_border impl="impl Format$"
| ensures *final(self) == (Format { borders: both_borders(old(self).borders, *other), ..*old(self) })
//@rewrite (?#opt)if (self\.\w+\.\w+) == ([\w:.]+) \{\s*\1 = (other\.\w+);\s*\} => \1 = \1.vp_first(\3, \2);
//@end
//@fn src/format.rs merge_alignment impl="impl Format$"
| ensures *final(self) == (Format { alignment: both_alignments(old(self).alignment, other), ..*old(self) })
//@rewrite (self\.[\w.]+) \|= (other\.\w+); => \1 = \1 || \2;
//@rewrite (?#opt)if (self\.\w+\.\w+) == ([\w:.]+) \{\s*\1 = (other\.\w+);\s*\} => \1 = \1.vp_first(\3, \2);
//@end
}
fn main() {}
}
