//! Formats: a random specification, the Format it builds, and the reading of a style record back into a specification.
use crate::common::*;
use crate::xl::*;
use rust_xlsxwriter::*;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct FmtSpec {
    pub bold: bool, pub italic: bool, pub strike: bool, pub under: u8, pub script: u8,
    pub size: String, pub name: String, pub color: Option<u32>,
    pub num: Num, pub h: u8, pub v: u8, pub wrap: bool, pub rot: i16, pub indent: u8, pub shrink: bool, pub reading: u8,
    pub unlocked: bool, pub hidden: bool, pub quote: bool,
    pub pat: u8, pub fg: Option<u32>, pub bg: Option<u32>,
    /// left right top bottom diagonal
    pub border: [(u8, Option<u32>); 5], pub diag: u8, pub link: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Num { None, Id(u8), Text(String) }
impl Default for FmtSpec {
    fn default() -> Self {
        FmtSpec { bold: false, italic: false, strike: false, under: 0, script: 0, size: "11".into(), name: "Calibri".into(), color: None, num: Num::None, h: 0, v: 0, wrap: false, rot: 0, indent: 0,
            shrink: false, reading: 0, unlocked: false, hidden: false, quote: false, pat: 0, fg: None, bg: None, border: [(0, None); 5], diag: 0, link: false }
    }
}
const UNDER: [&str; 5] = ["", "single", "double", "singleAccounting", "doubleAccounting"];
const HAL: [&str; 8] = ["", "left", "center", "right", "fill", "justify", "centerContinuous", "distributed"];
const VAL: [&str; 6] = ["", "top", "center", "", "justify", "distributed"]; // 3 = bottom, the default
pub const PAT: [&str; 19] = ["none", "solid", "mediumGray", "darkGray", "lightGray", "darkHorizontal", "darkVertical", "darkDown", "darkUp", "darkGrid", "darkTrellis", "lightHorizontal", "lightVertical", "lightDown", "lightUp", "lightGrid", "lightTrellis", "gray125", "gray0625"];
pub const BOR: [&str; 14] = ["", "thin", "medium", "dashed", "dotted", "thick", "double", "hair", "mediumDashed", "dashDot", "mediumDashDot", "dashDotDot", "mediumDashDotDot", "slantDashDot"];
fn pattern(i: u8) -> FormatPattern {
    use FormatPattern::*;
    [None, Solid, MediumGray, DarkGray, LightGray, DarkHorizontal, DarkVertical, DarkDown, DarkUp, DarkGrid, DarkTrellis, LightHorizontal, LightVertical, LightDown, LightUp, LightGrid, LightTrellis, Gray125, Gray0625][i as usize]
}
fn border(i: u8) -> FormatBorder {
    use FormatBorder::*;
    [None, Thin, Medium, Dashed, Dotted, Thick, Double, Hair, MediumDashed, DashDot, MediumDashDot, DashDotDot, MediumDashDotDot, SlantDashDot][i as usize]
}
fn halign(i: u8) -> FormatAlign {
    use FormatAlign::*;
    [General, Left, Center, Right, Fill, Justify, CenterAcross, Distributed][i as usize]
}
fn valign(i: u8) -> FormatAlign {
    use FormatAlign::*;
    [General, Top, VerticalCenter, Bottom, VerticalJustify, VerticalDistributed][i as usize]
}
fn rgb(r: &mut Rng) -> u32 { *r.pick(&[0x000001u32, 0xFF0000, 0x00FF00, 0x0000FF, 0x123456, 0xFFFFFE, 0x00000A, 0xABCDEF]) }

impl FmtSpec {
    /// `k` limits how many properties are set: few properties give many near misses
    pub fn random(r: &mut Rng) -> FmtSpec {
        let mut f = FmtSpec::default();
        let n = if r.chance(1, 4) { 12 } else { 1 + r.below(3) };
        for _ in 0..n {
            match r.below(22) {
                0 => f.bold = true, 1 => f.italic = true, 2 => f.strike = true, 3 => f.under = r.below(5) as u8, 4 => f.script = r.below(3) as u8,
                5 => f.size = (*r.pick(&["8", "10", "11", "12.5", "20", "409"])).into(), 6 => f.name = (*r.pick(&["Arial", "Calibri", "Consolas", "A & B"])).into(),
                7 => f.color = Some(rgb(r)),
                8 => f.num = Num::Id(*r.pick(&[1u8, 2, 3, 4, 9, 10, 14, 15, 22, 37, 44, 49])),
                9 => f.num = Num::Text((*r.pick(&["0.000", "0.00", "yyyy-mm-dd", "#,##0 \"k\"", "[Red]0;<b>", "@", "General;-General"])).into()),
                10 => f.h = r.below(8) as u8, 11 => f.v = r.below(6) as u8, 12 => f.wrap = true, 13 => f.rot = *r.pick(&[0i16, 1, 45, 90, -1, -45, -90, 270]),
                14 => { f.h = *r.pick(&[1u8, 3, 7]); f.indent = *r.pick(&[1u8, 2, 15]); }
                15 => f.shrink = true, 16 => f.reading = r.below(3) as u8, 17 => f.unlocked = true, 18 => f.hidden = true,
                19 => { f.pat = r.below(19) as u8; if r.bits() { f.fg = Some(rgb(r)); } if r.bits() { f.bg = Some(rgb(r)); } if f.pat == 0 && f.fg.is_some() { f.bg = None; } }
                20 => { let i = r.below(5) as usize; f.border[i] = (r.below(14) as u8, if r.bits() { Some(rgb(r)) } else { None }); if i == 4 { f.diag = r.below(4) as u8; } }
                _ => if r.chance(1, 3) { f.quote = true } else { f.border[r.below(4) as usize].0 = 1 },
            }
        }
        f
    }
    pub fn build(&self) -> Format {
        let mut f = Format::new();
        if self.bold { f = f.set_bold(); }
        if self.italic { f = f.set_italic(); }
        if self.strike { f = f.set_font_strikethrough(); }
        if self.under > 0 { f = f.set_underline([FormatUnderline::None, FormatUnderline::Single, FormatUnderline::Double, FormatUnderline::SingleAccounting, FormatUnderline::DoubleAccounting][self.under as usize]); }
        if self.script > 0 { f = f.set_font_script([FormatScript::None, FormatScript::Superscript, FormatScript::Subscript][self.script as usize]); }
        if self.size != "11" { f = f.set_font_size(self.size.parse::<f64>().unwrap()); }
        if self.name != "Calibri" { f = f.set_font_name(self.name.as_str()); }
        if let Some(c) = self.color { f = f.set_font_color(Color::RGB(c)); }
        match &self.num { Num::None => {} Num::Id(i) => f = f.set_num_format_index(*i), Num::Text(t) => f = f.set_num_format(t.as_str()) }
        if self.h > 0 { f = f.set_align(halign(self.h)); }
        if self.v > 0 { f = f.set_align(valign(self.v)); }
        if self.wrap { f = f.set_text_wrap(); }
        if self.rot != 0 { f = f.set_rotation(self.rot); }
        if self.indent > 0 { f = f.set_indent(self.indent); }
        if self.shrink { f = f.set_shrink(); }
        if self.reading > 0 { f = f.set_reading_direction(self.reading); }
        if self.unlocked { f = f.set_unlocked(); }
        if self.hidden { f = f.set_hidden(); }
        if self.quote { f = f.set_quote_prefix(); }
        if self.pat > 0 { f = f.set_pattern(pattern(self.pat)); }
        if let Some(c) = self.fg { f = f.set_foreground_color(Color::RGB(c)); }
        if let Some(c) = self.bg { f = f.set_background_color(Color::RGB(c)); }
        let b = &self.border;
        if b[0].0 > 0 { f = f.set_border_left(border(b[0].0)); }
        if b[1].0 > 0 { f = f.set_border_right(border(b[1].0)); }
        if b[2].0 > 0 { f = f.set_border_top(border(b[2].0)); }
        if b[3].0 > 0 { f = f.set_border_bottom(border(b[3].0)); }
        if b[4].0 > 0 { f = f.set_border_diagonal(border(b[4].0)); }
        if let Some(c) = b[0].1 { f = f.set_border_left_color(Color::RGB(c)); }
        if let Some(c) = b[1].1 { f = f.set_border_right_color(Color::RGB(c)); }
        if let Some(c) = b[2].1 { f = f.set_border_top_color(Color::RGB(c)); }
        if let Some(c) = b[3].1 { f = f.set_border_bottom_color(Color::RGB(c)); }
        if let Some(c) = b[4].1 { f = f.set_border_diagonal_color(Color::RGB(c)); }
        if self.diag > 0 { f = f.set_border_diagonal_type([FormatDiagonalBorder::None, FormatDiagonalBorder::BorderUp, FormatDiagonalBorder::BorderDown, FormatDiagonalBorder::BorderUpDown][self.diag as usize]); }
        if self.link { f = f.set_hyperlink(); }
        f
    }
    /// row format over column format: what the row leaves at its default comes from the column
    pub fn over(&self, o: &FmtSpec) -> FmtSpec {
        let d = FmtSpec::default();
        let mut f = self.clone();
        f.bold |= o.bold; f.italic |= o.italic; f.strike |= o.strike; f.wrap |= o.wrap; f.shrink |= o.shrink; f.unlocked |= o.unlocked; f.hidden |= o.hidden; f.quote |= o.quote;
        macro_rules! take { ($($x:ident),*) => { $( if f.$x == d.$x { f.$x = o.$x.clone(); } )* } }
        take!(under, script, size, name, color, num, h, v, rot, indent, reading, pat, fg, bg, diag);
        for i in 0..5 { if f.border[i].0 == 0 { f.border[i].0 = o.border[i].0; } if f.border[i].1.is_none() { f.border[i].1 = o.border[i].1; } }
        f
    }
    /// what a spreadsheet shows for it: the same visible format has the same normal form
    pub fn shown(&self) -> FmtSpec {
        let mut f = self.clone();
        // an indent overrides the other horizontal alignments (but not next to an explicit top or bottom)
        if f.indent > 0 && ![1, 3, 7].contains(&f.h) && ![1, 3].contains(&f.v) { f.h = 1; }
        if f.v == 3 { f.v = 0; }
        if f.rot == 270 { f.rot = 255; } else if f.rot < 0 { f.rot = 90 - f.rot; }
        if f.wrap || f.h == 4 || f.h == 5 || f.h == 7 { f.shrink = false; }
        if f.pat <= 1 {
            // a solid fill is shown in the background colour, or the foreground colour when it is the only one
            match (f.fg, f.bg) {
                (None, Some(b)) => { f.pat = 1; f.fg = Some(b); f.bg = None; }
                (Some(_), None) => f.pat = 1,
                (Some(a), Some(b)) if f.pat == 1 => { f.fg = Some(b); f.bg = Some(a); }
                _ => {}
            }
        }
        for b in &mut f.border { if b.0 == 0 { b.1 = None; } }
        if f.link { f.color = Some(0xEE00_000A); f.under = 1; }
        f
    }
}

pub struct Sheetstyles { pub xfs: Vec<FmtSpec>, pub raw: Vec<String>, pub dxfs: Vec<El> }
const AUTO: u32 = 0xFF00_0000;
fn color(e: Option<&El>) -> Result<Option<u32>, String> {
    let Some(e) = e else { return Ok(None) };
    if let Some(v) = e.a("rgb") {
        if v.len() != 8 || !v.starts_with("FF") { return Err(format!("rgb {v}")); }
        return Ok(Some(u32::from_str_radix(&v[2..], 16).map_err(|e| e.to_string())?));
    }
    if e.a("theme") == Some("1") && e.a("tint").is_none() { return Ok(None); }
    if e.a("theme") == Some("10") { return Ok(Some(0xEE00_000A)); }
    if e.a("auto") == Some("1") || e.a("indexed") == Some("64") { return Ok(None); }
    Err(format!("colour {:?}", e.attrs))
}
fn idx(t: &[&str], v: Option<&str>) -> Result<u8, String> {
    match v { None => Ok(0), Some(v) => t.iter().position(|x| *x == v).map(|i| i as u8).ok_or(format!("unknown value {v:?}")) }
}
impl Sheetstyles {
    pub fn parse(b: &Book) -> Result<Sheetstyles, String> {
        let _ = AUTO;
        let st = b.xml.get("xl/styles.xml").ok_or("no styles")?;
        let list = |n: &str, c: &str| -> Result<Vec<El>, String> {
            let Some(e) = st.get(n) else { return Ok(vec![]) };
            let v: Vec<El> = e.els().cloned().collect();
            if v.iter().any(|x| x.name != c) { return Err(format!("{n} has children other than {c}")); }
            if e.a("count").map(|c| c.parse::<usize>().unwrap_or(usize::MAX)) != Some(v.len()) { return Err(format!("{n} count {:?} but {} children", e.a("count"), v.len())); }
            Ok(v)
        };
        let numfmts = list("numFmts", "numFmt")?;
        let fonts = list("fonts", "font")?;
        let fills = list("fills", "fill")?;
        let borders = list("borders", "border")?;
        let csx = list("cellStyleXfs", "xf")?;
        let xfs = list("cellXfs", "xf")?;
        list("cellStyles", "cellStyle")?;
        let dxfs = list("dxfs", "dxf")?;
        let mut ids = std::collections::HashSet::new();
        for n in &numfmts { if !ids.insert(n.a("numFmtId").unwrap_or("").to_string()) { return Err("duplicate numFmtId".into()); } }
        let mut out = vec![];
        let mut raw = vec![];
        for x in &xfs {
            raw.push(format!("{:?}{:?}", x.attrs, x.kids));
            let n = |a: &str| -> Result<usize, String> { x.a(a).ok_or(format!("xf without {a}"))?.parse::<usize>().map_err(|e| e.to_string()) };
            let mut f = FmtSpec::default();
            let (fi, li, bi, ni, xi) = (n("fontId")?, n("fillId")?, n("borderId")?, n("numFmtId")?, n("xfId")?);
            let font = fonts.get(fi).ok_or(format!("fontId {fi} of {}", fonts.len()))?;
            let fill = fills.get(li).ok_or(format!("fillId {li} of {}", fills.len()))?;
            let bord = borders.get(bi).ok_or(format!("borderId {bi} of {}", borders.len()))?;
            if xi >= csx.len() { return Err(format!("xfId {xi} of {}", csx.len())); }
            f.link = xi == 1;
            let on = |a: &str| x.a(a) == Some("1");
            if li > 0 && !on("applyFill") || bi > 0 && !on("applyBorder") || ni > 0 && !on("applyNumberFormat") || fi > 0 && !on("applyFont") && !f.link { return Err(format!("xf does not apply its parts: {:?}", x.attrs)); }
            f.bold = font.get("b").is_some(); f.italic = font.get("i").is_some(); f.strike = font.get("strike").is_some();
            f.under = match font.get("u") { None => 0, Some(u) => idx(&UNDER, Some(u.a("val").unwrap_or("single")))? };
            f.script = idx(&["", "superscript", "subscript"], font.get("vertAlign").and_then(|v| v.a("val")))?;
            f.size = font.get("sz").and_then(|s| s.a("val")).unwrap_or("").into();
            f.name = font.get("name").and_then(|s| s.a("val")).unwrap_or("").into();
            f.color = color(font.get("color"))?;
            f.num = if ni == 0 { Num::None } else if ni < 164 { Num::Id(ni as u8) } else {
                let e = numfmts.iter().find(|e| e.a("numFmtId") == Some(ni.to_string().as_str())).ok_or(format!("numFmtId {ni} undefined"))?;
                Num::Text(e.a("formatCode").unwrap_or("").into())
            };
            if let Some(a) = x.get("alignment") {
                if !on("applyAlignment") { return Err("alignment not applied".into()); }
                f.h = idx(&HAL, a.a("horizontal"))?;
                f.v = idx(&VAL, a.a("vertical"))?;
                f.rot = a.a("textRotation").unwrap_or("0").parse().unwrap_or(-1);
                f.indent = a.a("indent").unwrap_or("0").parse().unwrap_or(99);
                f.wrap = a.a("wrapText") == Some("1"); f.shrink = a.a("shrinkToFit") == Some("1");
                f.reading = a.a("readingOrder").unwrap_or("0").parse().unwrap_or(99);
            }
            if let Some(p) = x.get("protection") {
                if !on("applyProtection") { return Err("protection not applied".into()); }
                f.unlocked = p.a("locked") == Some("0"); f.hidden = p.a("hidden") == Some("1");
            }
            f.quote = x.a("quotePrefix") == Some("1");
            let pf = fill.get("patternFill").ok_or("no patternFill")?;
            f.pat = idx(&PAT, pf.a("patternType"))?;
            f.fg = color(pf.get("fgColor"))?;
            f.bg = color(pf.get("bgColor"))?;
            for (i, s) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
                let e = bord.get(s).ok_or(format!("border without {s}"))?;
                f.border[i] = (idx(&BOR, e.a("style"))?, color(e.get("color"))?);
            }
            f.diag = u8::from(bord.a("diagonalUp") == Some("1")) + 2 * u8::from(bord.a("diagonalDown") == Some("1"));
            out.push(f);
        }
        if out.is_empty() || out[0] != FmtSpec::default() { return Err(format!("style 0 is not the default style: {:?}", out.first())); }
        Ok(Sheetstyles { xfs: out, raw, dxfs })
    }
    pub fn get(&self, s: u32) -> Result<&FmtSpec, String> { self.xfs.get(s as usize).ok_or(format!("style index {s} of {}", self.xfs.len())) }
}
