//! C22 executable contract: colours are recorded exactly wherever they are used.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

#[derive(Clone, Debug)]
pub enum Spec { Named(usize), Num(u32), Text(String), Theme(u8, u8), Auto, Default }
const NAMED: [(Color, u32); 15] = [(Color::Black, 0x000000), (Color::Blue, 0x0000FF), (Color::Brown, 0x800000), (Color::Cyan, 0x00FFFF), (Color::Gray, 0x808080), (Color::Green, 0x008000), (Color::Lime, 0x00FF00), (Color::Magenta, 0xFF00FF), (Color::Navy, 0x000080), (Color::Orange, 0xFF6600), (Color::Pink, 0xFFC0CB), (Color::Purple, 0x800080), (Color::Red, 0xFF0000), (Color::Silver, 0xC0C0C0), (Color::White, 0xFFFFFF)];
const YELLOW: u32 = 0xFFFF00;
/// what a colour denotes; Unset is the default of the place it is used in
#[derive(Clone, Debug, PartialEq)]
pub enum Col { Rgb(u32), Theme(u8, u8), Auto, Unset }
impl Spec {
    pub fn color(&self) -> Color {
        match self {
            Spec::Named(i) => if *i < 15 { NAMED[*i].0 } else { Color::Yellow },
            Spec::Num(n) => (*n).into(),
            Spec::Text(s) => s.as_str().into(),
            Spec::Theme(c, s) => Color::Theme(*c, *s),
            Spec::Auto => Color::Automatic,
            Spec::Default => Color::Default,
        }
    }
    pub fn means(&self) -> Col {
        let rgb = |n: u64| if n <= 0xFF_FFFF { Col::Rgb(n as u32) } else { Col::Unset };
        match self {
            Spec::Named(i) => Col::Rgb(if *i < 15 { NAMED[*i].1 } else { YELLOW }),
            Spec::Num(n) => rgb(u64::from(*n)),
            Spec::Text(s) => {
                let h = s.strip_prefix('#').unwrap_or(s);
                if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) { return Col::Unset; }
                rgb(h.chars().fold(0u64, |n, c| (n.saturating_mul(16)).saturating_add(u64::from(c.to_digit(16).unwrap()))))
            }
            Spec::Theme(c, s) => if *c <= 9 && *s <= 5 { Col::Theme(*c, *s) } else { Col::Unset },
            Spec::Auto => Col::Auto,
            Spec::Default => Col::Unset,
        }
    }
    pub fn random(g: &mut Rng) -> Spec {
        match g.below(12) {
            0 => Spec::Named(g.below(16) as usize),
            1 | 2 => Spec::Num(g.below(1 << 24) as u32),
            3 => Spec::Num(*g.pick(&[0, 1, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0x100_0000, u32::MAX, 0xFF00_0000, 0x80_0000, 0x7F_FFFF])),
            4 | 5 => Spec::Theme(g.below(10) as u8, g.below(6) as u8),
            6 => Spec::Theme(g.below(13) as u8, g.below(8) as u8),
            7 => { let n = g.below(1 << 24); Spec::Text(match g.below(4) { 0 => format!("#{n:06X}"), 1 => format!("{n:06x}"), 2 => format!("#{n:x}"), _ => format!("{n:08X}") }) }
            8 => Spec::Text((*g.pick(&["", "#", "##FF0000", "red", "#GG0000", "+FF", "#+12", "-1", "FF0000 ", " FF0000", "1000000", "FFFFFFFFFF", "#FFFFFFFF", "fF00aA", "#0", "0x12", "\u{661}", "é", "#\u{10FFFF}", "00000000000000ff"])).to_string()),
            9 => Spec::Text(rand_string(g, 8)),
            10 => Spec::Auto,
            _ => Spec::Default,
        }
    }
    /// a colour proper
    fn solid(g: &mut Rng) -> Spec { loop { let s = Spec::random(g); if matches!(s.means(), Col::Rgb(_) | Col::Theme(..)) { return s; } } }
    fn no_auto(g: &mut Rng) -> Spec { loop { let s = Spec::random(g); if s.means() != Col::Auto { return s; } } }
}
/// the tint of a theme shade, as the palette of the application shows it
fn tint(c: u8, s: u8) -> f64 {
    let t = match c { 0 => [0.0, -0.05, -0.15, -0.25, -0.35, -0.5], 1 => [0.0, 0.5, 0.35, 0.25, 0.15, 0.05], 2 => [0.0, -0.1, -0.25, -0.5, -0.75, -0.9], _ => [0.0, 0.8, 0.6, 0.4, -0.25, -0.5] };
    t[usize::from(s)]
}
/// a colour in a spreadsheet part: rgb or theme and tint
pub fn cell(e: &El, want: &Col) -> Result<(), String> {
    match want {
        Col::Rgb(n) => ensure!(e.attrs.len() == 1 && e.a("rgb") == Some(format!("FF{n:06X}").as_str()), "{:?}, not {want:?}", e.attrs),
        Col::Theme(c, s) => {
            let t: f64 = e.a("tint").unwrap_or("0").parse().map_err(|_| "tint".to_string())?;
            ensure!(e.a("theme") == Some(c.to_string().as_str()) && (t - tint(*c, *s)).abs() < 0.001 && e.a("rgb").is_none(), "{:?}, not {want:?}", e.attrs);
        }
        _ => return Err(format!("{:?} for {want:?}", e.attrs)),
    }
    Ok(())
}
/// a colour or nothing, where nothing is the default
fn maybe(e: Option<&El>, want: &Col) -> Result<(), String> {
    match (e, want) { (None, Col::Unset | Col::Auto) => Ok(()), (None, w) => Err(format!("no colour, not {w:?}")), (Some(e), w) => cell(e, w) }
}
/// a colour in a drawing: the element that holds the colour element
fn drawn(e: Option<&El>, want: &Col) -> Result<(), String> {
    let c = e.and_then(|e| e.els().next());
    match (c, want) {
        (None, Col::Unset) => Ok(()),
        (Some(c), Col::Rgb(n)) => { ensure!(c.name == "a:srgbClr" && c.a("val") == Some(format!("{n:06X}").as_str()), "{} {:?}, not {want:?}", c.name, c.attrs); Ok(()) }
        (Some(c), Col::Theme(t, s)) => {
            let names = ["bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6"];
            ensure!(c.name == "a:schemeClr" && c.a("val") == Some(names[usize::from(*t)]), "{} {:?}, not {want:?}", c.name, c.attrs);
            let lum = |k: &str| c.get(k).map(|e| e.a("val").unwrap_or("").to_string());
            let v = (tint(*t, *s) * 100_000.0).round() as i64;
            let (m, o) = if v == 0 { (None, None) } else if v > 0 { (Some((100_000 - v).to_string()), Some(v.to_string())) } else { (Some((100_000 + v).to_string()), None) };
            ensure!(lum("a:lumMod") == m && lum("a:lumOff") == o, "luminance {:?} {:?}, not {m:?} {o:?} for {want:?}", lum("a:lumMod"), lum("a:lumOff"));
            Ok(())
        }
        (c, w) => Err(format!("{:?} for {w:?}", c.map(|c| (&c.name, &c.attrs)))),
    }
}
fn save(wb: &mut Workbook) -> Result<Book, String> { Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?) }
fn part<'a>(b: &'a Book, prefix: &str) -> Result<&'a El, String> { b.xml.iter().find(|(n, _)| n.starts_with(prefix) && !n.contains("_rels")).map(|(_, e)| e).ok_or(format!("no part {prefix}")) }
fn fill_check(p: &El, pattern: Option<FormatPattern>, bg: &Col, fg: &Col, dxf: bool) -> Result<(), String> {
    let unset = |c: &Col| matches!(c, Col::Unset | Col::Auto);
    let t = p.a("patternType");
    let (ef, eb) = (p.get("fgColor"), p.get("bgColor"));
    let back = |want: &Col| match eb { Some(e) if e.a("indexed") == Some("64") => { ensure!(unset(want), "background of {want:?} is automatic"); Ok(()) } Some(e) => cell(e, want), None => { ensure!(unset(want), "no background for {want:?}"); Ok(()) } };
    match pattern {
        Some(FormatPattern::DarkGrid) => { ensure!(t == Some("darkGrid"), "pattern {t:?}"); maybe(ef, fg)?; back(bg) }
        // one colour fills the cell
        _ if dxf => { maybe(ef, fg)?; back(bg) }
        _ if unset(bg) && unset(fg) => { ensure!(ef.is_none() && eb.map_or(true, |e| e.a("indexed") == Some("64")), "colours in a plain fill"); Ok(()) }
        _ if unset(bg) || unset(fg) => { ensure!(t == Some("solid"), "pattern {t:?}"); maybe(ef, if unset(bg) { fg } else { bg })?; back(&Col::Unset) }
        Some(_) => { ensure!(t == Some("solid"), "pattern {t:?}"); maybe(ef, bg)?; back(fg) }
        None => Ok(()),
    }
}
/// cell formats: fonts, fills and borders, also of rules and of rich text
fn formats(s: &[Spec]) -> Result<(), String> {
    let c: Vec<Color> = s.iter().map(Spec::color).collect();
    let m: Vec<Col> = s.iter().map(Spec::means).collect();
    let pats = [None, Some(FormatPattern::Solid), Some(FormatPattern::DarkGrid)];
    let pick = |k: usize| pats[(k + s.len()) % 3];
    let mut f = Format::new().set_font_color(c[0]).set_background_color(c[1]).set_foreground_color(c[2]);
    let p = pick(match &s[0] { Spec::Num(n) => *n as usize, Spec::Theme(a, b) => usize::from(a + b), Spec::Text(t) => t.len(), _ => 0 });
    if let Some(p) = p { f = f.set_pattern(p); }
    f = f.set_border_left(FormatBorder::Thin).set_border_right(FormatBorder::Medium).set_border_top(FormatBorder::Dashed).set_border_bottom(FormatBorder::Hair).set_border_diagonal(FormatBorder::Thin).set_border_diagonal_type(FormatDiagonalBorder::BorderUp);
    f = f.set_border_left_color(c[3]).set_border_right_color(c[4]).set_border_top_color(c[5]).set_border_bottom_color(c[6]).set_border_diagonal_color(c[7]);
    let all = Format::new().set_border(FormatBorder::Thin).set_border_color(c[8]);
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    w.write_with_format(0, 0, 1, &f).map_err(|e| e.to_string())?;
    w.write_with_format(1, 0, 1, &all).map_err(|e| e.to_string())?;
    let red = Format::new().set_font_color(c[9]);
    w.write_rich_string(2, 0, &[(&Format::default(), "a"), (&red, "b")]).map_err(|e| e.to_string())?;
    w.set_tab_color(c[10]);
    let fit = s[1].color() == Color::Default;
    if fit { w.set_print_fit_to_pages(1, 1); }
    // a rule with a format of its own
    let d = Format::new().set_font_color(c[11]).set_background_color(c[12]).set_bold().set_border(FormatBorder::Thin).set_border_color(c[13]);
    w.add_conditional_format(5, 5, 6, 6, &ConditionalFormatBlank::new().set_format(d)).map_err(|e| e.to_string())?;
    let note = Note::new("n").set_background_color(c[14]);
    w.insert_note(9, 1, &note).map_err(|e| e.to_string())?;
    let b = save(&mut wb)?;
    let st = &b.xml["xl/styles.xml"];
    let list = |n: &str| -> Vec<&El> { st.get(n).map(|e| e.els().collect()).unwrap_or_default() };
    let (xfs, fonts, fills, borders) = (list("cellXfs"), list("fonts"), list("fills"), list("borders"));
    let xf = |r: &str| -> Result<&El, String> { let c = b.sheet(0).find_all("c").into_iter().find(|e| e.a("r") == Some(r)).ok_or("cell")?; Ok(xfs[c.a("s").unwrap_or("0").parse::<usize>().map_err(|_| "s")?]) };
    let at = |v: &[&El], x: &El, k: &str| -> usize { let i = x.a(k).unwrap_or("0").parse::<usize>().unwrap_or(999); assert!(i < v.len()); i };
    let x = xf("A1")?;
    let font = fonts[at(&fonts, x, "fontId")].get("color");
    let font_ok = |e: Option<&El>, m: &Col| match m { Col::Unset => { let e = e.ok_or("no default font colour")?; ensure!(e.a("theme") == Some("1"), "default font colour {:?}", e.attrs); Ok(()) } m => maybe(e, m) };
    font_ok(font, &m[0]).map_err(|e| format!("font: {e}"))?;
    fill_check(fills[at(&fills, x, "fillId")].get("patternFill").ok_or("patternFill")?, p, &m[1], &m[2], false).map_err(|e| format!("fill {p:?}: {e}"))?;
    let side = |bd: &El, k: &str, m: &Col| -> Result<(), String> {
        let e = bd.path(&[k, "color"]).ok_or(format!("no {k} border colour"))?;
        if e.a("auto") == Some("1") { ensure!(matches!(m, Col::Unset | Col::Auto), "{k} border automatic, not {m:?}"); Ok(()) } else { cell(e, m).map_err(|x| format!("{k} border: {x}")) }
    };
    let bd = borders[at(&borders, x, "borderId")];
    for (k, i) in [("left", 3), ("right", 4), ("top", 5), ("bottom", 6), ("diagonal", 7)] { side(bd, k, &m[i])?; }
    let bd = borders[at(&borders, xf("A2")?, "borderId")];
    for k in ["left", "right", "top", "bottom"] { side(bd, k, &m[8])?; }
    let si = part(&b, "xl/sharedStrings")?.find_all("rPr");
    let e = si.last().ok_or("no run properties")?.get("color");
    font_ok(e, &m[9]).map_err(|x| format!("run: {x}"))?;
    maybe(b.sheet(0).path(&["sheetPr", "tabColor"]), &m[10]).map_err(|x| format!("tab: {x}"))?;
    let dx = list("dxfs");
    ensure!(dx.len() == 1, "{} dxfs", dx.len());
    maybe(dx[0].path(&["font", "color"]), &m[11]).map_err(|x| format!("rule font: {x}"))?;
    match dx[0].path(&["fill", "patternFill"]) { Some(p) => fill_check(p, None, &m[12], &Col::Unset, true), None => { ensure!(matches!(m[12], Col::Unset | Col::Auto), "no fill for {:?}", m[12]); Ok(()) } }.map_err(|x| format!("rule fill: {x}"))?;
    let bd = dx[0].get("border").ok_or("no rule border")?;
    for k in ["left", "right", "top", "bottom"] { side(bd, k, &m[13])?; }
    let v = part(&b, "xl/drawings/vmlDrawing")?.find_all("v:shape");
    let want = match m[14] { Col::Rgb(n) => format!("#{n:06x}"), _ => "#ffffe1".to_string() };
    ensure!(v.len() == 1 && v[0].a("fillcolor") == Some(want.as_str()), "note {:?}, not {want}", v[0].a("fillcolor"));
    Ok(())
}
/// colour scales, data bars and sparklines
fn rules(s: &[Spec]) -> Result<(), String> {
    let c: Vec<Color> = s.iter().map(Spec::color).collect();
    let m: Vec<Col> = s.iter().map(Spec::means).collect();
    let or = |i: usize, d: Col| if matches!(m[i], Col::Unset | Col::Auto) { d } else { m[i].clone() };
    let err = |e: XlsxError| e.to_string();
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    w.add_conditional_format(0, 0, 1, 1, &ConditionalFormat2ColorScale::new().set_minimum_color(c[0]).set_maximum_color(c[1])).map_err(err)?;
    w.add_conditional_format(2, 0, 3, 1, &ConditionalFormat3ColorScale::new().set_minimum_color(c[2]).set_midpoint_color(c[3]).set_maximum_color(c[4])).map_err(err)?;
    w.add_conditional_format(4, 0, 5, 1, &ConditionalFormatDataBar::new().set_fill_color(c[5]).set_border_color(c[6]).set_negative_fill_color(c[7]).set_negative_border_color(c[8]).set_axis_color(c[9])).map_err(err)?;
    let sp = Sparkline::new().set_range("Sheet1!A1:B1").set_sparkline_color(c[10]).set_high_point_color(c[11]).set_low_point_color(c[12]).set_first_point_color(c[13]).set_last_point_color(c[14]).set_negative_points_color(c[15]).set_markers_color(c[16]);
    w.add_sparkline(0, 5, &sp).map_err(err)?;
    let b = save(&mut wb)?;
    let sh = b.sheet(0);
    let scales = sh.find_all("colorScale");
    ensure!(scales.len() == 2, "{} scales", scales.len());
    for (e, want) in [(scales[0], vec![or(0, Col::Rgb(0xFFEF9C)), or(1, Col::Rgb(0x63BE7B))]), (scales[1], vec![or(2, Col::Rgb(0xF8696B)), or(3, Col::Rgb(0xFFEB84)), or(4, Col::Rgb(0x63BE7B))])] {
        let v: Vec<&El> = e.all("color").collect();
        ensure!(v.len() == want.len(), "{} colours", v.len());
        for (k, (e, w)) in v.iter().zip(&want).enumerate() { cell(e, w).map_err(|x| format!("scale colour {k}: {x}"))?; }
    }
    let bar = sh.find_all("dataBar");
    let fill = or(5, Col::Rgb(0x638EC6));
    cell(bar[0].get("color").ok_or("bar colour")?, &fill).map_err(|x| format!("bar: {x}"))?;
    let x = sh.find_all("x14:dataBar");
    let border = or(6, fill.clone());
    let neg = or(7, Col::Rgb(0xFF0000));
    let nb = or(8, neg.clone());
    cell(x[0].get("x14:borderColor").ok_or("border colour")?, &border).map_err(|x| format!("bar border: {x}"))?;
    match x[0].get("x14:negativeFillColor") { Some(e) => { ensure!(x[0].a("negativeBarColorSameAsPositive") != Some("1"), "same as positive"); cell(e, &neg) } None => { ensure!(x[0].a("negativeBarColorSameAsPositive") == Some("1") && neg == fill, "no negative fill for {neg:?}"); Ok(()) } }.map_err(|x| format!("negative fill: {x}"))?;
    match x[0].get("x14:negativeBorderColor") { Some(e) => { ensure!(x[0].a("negativeBarBorderColorSameAsPositive") == Some("0"), "border same as positive"); cell(e, &nb) } None => { ensure!(x[0].a("negativeBarBorderColorSameAsPositive").is_none() && nb == fill, "no negative border for {nb:?}"); Ok(()) } }.map_err(|x| format!("negative border: {x}"))?;
    cell(x[0].get("x14:axisColor").ok_or("axis colour")?, &or(9, Col::Rgb(0))).map_err(|x| format!("axis: {x}"))?;
    let g = sh.find_all("x14:sparklineGroup")[0];
    for (k, flag, i, d) in [("x14:colorSeries", "", 10, Col::Theme(4, 5)), ("x14:colorHigh", "high", 11, Col::Theme(4, 0)), ("x14:colorLow", "low", 12, Col::Theme(4, 0)), ("x14:colorFirst", "first", 13, Col::Theme(4, 3)), ("x14:colorLast", "last", 14, Col::Theme(4, 3)), ("x14:colorNegative", "negative", 15, Col::Theme(5, 0)), ("x14:colorMarkers", "markers", 16, Col::Theme(4, 5))] {
        cell(g.get(k).ok_or("sparkline colour")?, &or(i, d)).map_err(|x| format!("{k}: {x}"))?;
        if !flag.is_empty() && matches!(m[i], Col::Rgb(_) | Col::Theme(..)) { ensure!(g.a(flag) == Some("1"), "{flag} points are off"); }
    }
    Ok(())
}
/// charts and shapes
fn drawings(s: &[Spec], alpha: u8) -> Result<(), String> {
    let c: Vec<Color> = s.iter().map(Spec::color).collect();
    let m: Vec<Col> = s.iter().map(Spec::means).collect();
    let err = |e: XlsxError| e.to_string();
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    let mut ch = Chart::new(ChartType::Column);
    let solid = |c: Color| { let mut f = ChartSolidFill::new(); f.set_color(c).set_transparency(alpha); f };
    ch.add_series().set_values("Sheet1!$A$1:$A$3").set_format(ChartFormat::new().set_solid_fill(&solid(c[0])).set_line(ChartLine::new().set_color(c[1]).set_transparency(alpha))).set_invert_if_negative().set_invert_if_negative_color(c[2]);
    ch.add_series().set_values("Sheet1!$A$1:$A$3").set_point_colors(&[c[0], c[3]]);
    ch.title().set_name("t").set_font(ChartFont::new().set_color(c[4]));
    ch.x_axis().set_font(ChartFont::new().set_color(c[5]));
    ch.chart_area().set_format(ChartFormat::new().set_pattern_fill(ChartPatternFill::new().set_pattern(ChartPatternFillType::Wave).set_background_color(c[6]).set_foreground_color(c[7])));
    ch.plot_area().set_format(ChartFormat::new().set_gradient_fill(ChartGradientFill::new().set_gradient_stops(&[ChartGradientStop::new(c[0], 0), ChartGradientStop::new(c[3], 40), ChartGradientStop::new(c[8], 100)])));
    w.insert_chart(0, 0, &ch).map_err(err)?;
    let line = ShapeLine::new().set_color(c[9]).set_transparency(alpha);
    let sf = ShapeFormat::new().set_line(&line);
    let fills = [sf.clone().set_solid_fill(&ShapeSolidFill::new().set_color(c[10]).set_transparency(alpha)), sf.clone().set_pattern_fill(&ShapePatternFill::new().set_pattern(ShapePatternFillType::Wave).set_background_color(c[11]).set_foreground_color(c[12])), sf.set_gradient_fill(&ShapeGradientFill::new().set_gradient_stops(&[ShapeGradientStop::new(c[10], 0), ShapeGradientStop::new(c[13], 100)]))];
    for (k, f) in fills.iter().enumerate() { w.insert_shape(30 * (k as u32 + 1), 0, &Shape::textbox().set_text("x").set_format(f).set_font(&ShapeFont::new().set_color(c[14]))).map_err(err)?; }
    let b = save(&mut wb)?;
    let x = part(&b, "xl/charts/chart")?;
    let ser = x.find_all("c:ser");
    let sp = ser[0].get("c:spPr").ok_or("spPr")?;
    let at = |l: &'static str| move |e: String| format!("{l}: {e}");
    drawn(sp.get("a:solidFill"), &m[0]).map_err(at("series fill"))?;
    drawn(sp.path(&["a:ln", "a:solidFill"]), &m[1]).map_err(at("series line"))?;
    let inv = ser[0].find_all("c14:spPr");
    drawn(inv.first().and_then(|e| e.get("a:solidFill")), &m[2]).map_err(at("inverted"))?;
    let pts: Vec<&El> = ser[1].all("c:dPt").collect();
    ensure!(pts.len() == 2, "{} points", pts.len());
    for (p, k) in pts.iter().zip([0, 3]) { drawn(p.path(&["c:spPr", "a:solidFill"]), &m[k]).map_err(at("point"))?; }
    let ch = x.get("c:chart").ok_or("chart")?;
    let t = ch.get("c:title").ok_or("title")?.find_all("a:rPr");
    drawn(t[0].get("a:solidFill"), &m[4]).map_err(at("title font"))?;
    let ax = x.find_all("c:catAx");
    let ax = ax[0].get("c:txPr").map(|e| e.find_all("a:defRPr"));
    drawn(ax.as_ref().and_then(|v| v[0].get("a:solidFill")), &m[5]).map_err(at("axis font"))?;
    let p = x.path(&["c:spPr", "a:pattFill"]).ok_or("pattern")?;
    let patt = |p: &El, bg: &Col, fg: &Col| -> Result<(), String> {
        drawn(p.get("a:fgClr"), fg).map_err(at("pattern foreground"))?;
        if *bg == Col::Unset && *fg != Col::Unset { drawn(p.get("a:bgClr"), &Col::Rgb(0xFF_FFFF)) } else { drawn(p.get("a:bgClr"), bg) }.map_err(at("pattern background"))
    };
    patt(p, &m[6], &m[7])?;
    let gs = ch.path(&["c:plotArea", "c:spPr"]).ok_or("plot area")?.find_all("a:gs");
    ensure!(gs.len() == 3, "{} stops", gs.len());
    for (e, k) in gs.iter().zip([0, 3, 8]) { drawn(Some(e), &m[k]).map_err(at("gradient"))?; }
    let d = part(&b, "xl/drawings/drawing")?.find_all("xdr:sp");
    ensure!(d.len() == 3, "{} shapes", d.len());
    for (k, e) in d.iter().enumerate() {
        let sp = e.get("xdr:spPr").ok_or("spPr")?;
        drawn(sp.path(&["a:ln", "a:solidFill"]), &match &m[9] { Col::Unset => { if let Some(f) = sp.path(&["a:ln", "a:solidFill"]) { ensure!(f.els().next().map(|e| e.name.as_str()) == Some("a:schemeClr"), "shape line"); } continue; } c => c.clone() }).map_err(at("shape line"))?;
        match k {
            0 => drawn(sp.get("a:solidFill"), &m[10]).map_err(at("shape fill"))?,
            1 => patt(sp.get("a:pattFill").ok_or("shape pattern")?, &m[11], &m[12])?,
            _ => { let gs = sp.find_all("a:gs"); ensure!(gs.len() == 2, "{} stops", gs.len()); for (e, k) in gs.iter().zip([10, 13]) { drawn(Some(e), &m[k]).map_err(at("shape gradient"))?; } }
        }
        let r = e.find_all("a:rPr");
        drawn(r.first().and_then(|e| e.get("a:solidFill")), &m[14]).map_err(at("shape font"))?;
    }
    Ok(())
}
pub fn run(run: &mut Run) {
    // every theme colour and named colour, every place
    for c in 0..13u8 { for s in 0..8u8 {
        let t = Spec::Theme(c, s);
        run.case("formats", &format!("{t:?}"), || formats(&vec![t.clone(); 15]));
        run.case("rules", &format!("{t:?}"), || rules(&vec![t.clone(); 17]));
        if c < 10 && s < 6 { run.case("drawings", &format!("{t:?}"), || drawings(&vec![t.clone(); 15], s * 7)); }
    } }
    for i in 0..16usize { let t = Spec::Named(i); run.case("formats", &format!("{t:?}"), || formats(&vec![t.clone(); 15])); run.case("rules", &format!("{t:?}"), || rules(&vec![t.clone(); 17])); run.case("drawings", &format!("{t:?}"), || drawings(&vec![t.clone(); 15], 0)); }
    let mut g = run.rng(22);
    for _ in 0..run.n(700, 9000) {
        let v: Vec<Spec> = (0..15).map(|_| Spec::random(&mut g)).collect();
        run.case("formats", &format!("{v:?}"), || formats(&v));
        let v: Vec<Spec> = (0..17).map(|_| Spec::random(&mut g)).collect();
        run.case("rules", &format!("{v:?}"), || rules(&v));
        let v: Vec<Spec> = (0..15).map(|k| if [0, 3, 8, 10, 13].contains(&k) { Spec::solid(&mut g) } else { Spec::no_auto(&mut g) }).collect();
        let a = if g.bits() { 0 } else { g.below(101) as u8 };
        run.case("drawings", &format!("{v:?} transparency {a}"), || drawings(&v, a));
    }
}
