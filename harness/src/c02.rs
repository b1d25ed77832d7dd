//! C02 executable contract: every part well formed, user text read back, in every text position.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

type B = Result<Workbook, XlsxError>;
type Pos = (&'static str, fn(&str) -> B, fn(&Book) -> Option<String>);

fn one(f: impl FnOnce(&mut Worksheet) -> Result<(), XlsxError>) -> B {
    let mut wb = Workbook::new();
    f(wb.add_worksheet())?;
    Ok(wb)
}
fn doc<'a>(b: &'a Book, n: &str) -> Option<&'a El> { b.xml.get(n) }
fn t(b: &Book, part: &str, path: &[&str]) -> Option<String> { doc(b, part)?.path(path).map(|e| e.deep_text()) }
fn a(b: &Book, part: &str, path: &[&str], at: &str) -> Option<String> { doc(b, part)?.path(path)?.a(at).map(String::from) }
fn first(b: &Book, part: &str, el: &str) -> Option<El> { doc(b, part)?.find_all(el).first().map(|e| (*e).clone()) }
fn fa(b: &Book, part: &str, el: &str, at: &str) -> Option<String> { first(b, part, el)?.a(at).map(String::from) }
fn ft(b: &Book, part: &str, el: &str) -> Option<String> { first(b, part, el).map(|e| e.deep_text()) }
const S: &str = "xl/worksheets/sheet1.xml";
const CH: &str = "xl/charts/chart1.xml";
const DR: &str = "xl/drawings/drawing1.xml";
const CO: &str = "xl/comments1.xml";
const VM: &str = "xl/drawings/vmlDrawing1.vml";
const TB: &str = "xl/tables/table1.xml";
const CORE: &str = "docProps/core.xml";
const APP: &str = "docProps/app.xml";
const ST: &str = "xl/styles.xml";
pub const PNG: &[u8] = &[137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13, 73, 72, 68, 82, 0, 0, 0, 10, 0, 0, 0, 12, 8, 2, 0, 0, 0, 1, 2, 3, 4, 0, 0, 0, 0, 73, 69, 78, 68, 174, 66, 96, 130];

fn chart(f: impl FnOnce(&mut Chart)) -> B {
    one(|w| {
        for i in 0..3 { w.write(i, 0, i)?; }
        let mut c = Chart::new(ChartType::Line);
        c.add_series().set_values("Sheet1!$A$1:$A$3");
        f(&mut c);
        w.insert_chart(1, 1, &c)?;
        Ok(())
    })
}
fn table(f: impl FnOnce(Table) -> Table) -> B {
    one(|w| { w.add_table(1, 1, 4, 2, &f(Table::new()))?; Ok(()) })
}
fn dv(f: impl FnOnce(DataValidation) -> Result<DataValidation, XlsxError>) -> B {
    one(|w| { let d = f(DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1)))?; w.add_data_validation(0, 0, 1, 1, &d)?; Ok(()) })
}
fn note(f: impl FnOnce(Note) -> Note) -> B { one(|w| { w.insert_note(1, 1, &f(Note::new("note")))?; Ok(()) }) }
fn button(f: impl FnOnce(Button) -> Button) -> B { one(|w| { w.insert_button(1, 1, &f(Button::new()))?; Ok(()) }) }
fn shape(f: impl FnOnce(Shape) -> Result<Shape, XlsxError>) -> B { one(|w| { w.insert_shape(1, 1, &f(Shape::textbox())?)?; Ok(()) }) }
fn img(f: impl FnOnce(Image) -> Result<Image, XlsxError>) -> B { one(|w| { w.insert_image(1, 1, &f(Image::new_from_buffer(PNG)?)?)?; Ok(()) }) }
fn cf<T: ConditionalFormat + Send + Sync>(c: T) -> B { one(|w| { w.add_conditional_format(0, 0, 4, 4, &c)?; Ok(()) }) }
fn props(f: impl FnOnce(DocProperties) -> DocProperties) -> B {
    let mut wb = Workbook::new();
    wb.add_worksheet();
    wb.set_properties(&f(DocProperties::new()));
    Ok(wb)
}
fn cell(b: &Book) -> Option<String> {
    match b.cells(0).ok()?.get(&(0, 0)).map(|c| c.v.clone()) {
        Some(Val::Str(s)) => Some(s), Some(Val::Rich(_, s)) => Some(s), Some(Val::Formula { f, .. }) => Some(f),
        _ => None,
    }
}
fn none(_: &Book) -> Option<String> { None }

pub fn positions() -> Vec<Pos> {
    vec![
        ("cell string", |s| one(|w| { w.write_string(0, 0, s)?; Ok(()) }), cell),
        ("inline string", |s| { let mut wb = Workbook::new(); let w = wb.add_worksheet_with_constant_memory_or_std(); w.write_string(0, 0, s)?; Ok(wb) }, cell),
        ("rich string", |s| one(|w| { let (p, q) = (Format::new(), Format::new().set_bold()); w.write_rich_string(0, 0, &[(&p, "x"), (&q, s)])?; Ok(()) }),
            |b| cell(b).map(|s| s.strip_prefix('x').unwrap_or(&s).to_string())),
        ("formula string", |s| one(|w| { w.write_formula(0, 0, Formula::new(format!("=\"{}\"", s.replace('"', "\"\""))))?; Ok(()) }),
            |b| cell(b).map(|s| if s.len() >= 2 { s[1..s.len() - 1].replace("\"\"", "\"") } else { s })),
        ("formula result", |s| one(|w| { w.write_formula(0, 0, Formula::new("=A2").set_result(s))?; Ok(()) }),
            |b| match b.cells(0).ok()?.get(&(0, 0)).map(|c| c.v.clone()) { Some(Val::Formula { v, .. }) => Some(v), _ => None }),
        ("array formula", |s| one(|w| { w.write_array_formula(0, 0, 1, 1, Formula::new(format!("{{=\"{}\"}}", s.replace('"', "\"\""))))?; Ok(()) }), none),
        ("merge string", |s| one(|w| { w.merge_range(0, 0, 1, 1, s, &Format::new())?; Ok(()) }), cell),
        ("url", |s| one(|w| { w.write_url(0, 0, format!("http://x.y/{s}").as_str())?; Ok(()) }), none),
        ("internal url", |s| one(|w| { w.write_url(0, 0, format!("internal:{s}").as_str())?; Ok(()) }), |b| fa(b, S, "hyperlink", "location")),
        ("file url", |s| one(|w| { w.write_url(0, 0, format!("file:///C:/{s}").as_str())?; Ok(()) }), none),
        ("url text", |s| one(|w| { w.write_url_with_text(0, 0, "http://x.y", s)?; Ok(()) }), cell),
        ("url tip", |s| one(|w| { w.write_url(0, 0, Url::new("http://x.y").set_tip(s))?; Ok(()) }), |b| fa(b, S, "hyperlink", "tooltip")),
        ("header", |s| one(|w| { w.set_header(s); Ok(()) }), |b| ft(b, S, "oddHeader")),
        ("footer", |s| one(|w| { w.set_footer(s); Ok(()) }), |b| ft(b, S, "oddFooter")),
        ("sheet name", |s| one(|w| { w.set_name(s)?; Ok(()) }), |b| a(b, "xl/workbook.xml", &["sheets", "sheet"], "name")),
        ("sheet name in app", |s| one(|w| { w.set_name(s)?; Ok(()) }), |b| first(b, APP, "TitlesOfParts").map(|e| e.find_all("vt:lpstr")[0].text())),
        ("sheet name in print area", |s| one(|w| { w.set_name(s)?; w.set_print_area(0, 0, 3, 3)?; Ok(()) }), none),
        ("defined name formula", |s| { let mut wb = Workbook::new(); wb.add_worksheet(); wb.define_name("abc", &format!("=\"{s}\""))?; Ok(wb) },
            |b| ft(b, "xl/workbook.xml", "definedName").map(|s| if s.len() >= 2 { s[1..s.len() - 1].to_string() } else { s })),
        ("defined name", |s| { let mut wb = Workbook::new(); wb.add_worksheet(); wb.define_name(s, "=1")?; Ok(wb) }, none),
        ("vba name", |s| one(|w| { w.set_vba_name(s)?; Ok(()) }), none),
        ("nan value", |s| one(|w| { w.set_nan_value(s); w.write_number(0, 0, f64::NAN)?; Ok(()) }), none),
        ("unprotect range name", |s| one(|w| { w.protect(); w.unprotect_range_with_options(0, 0, 1, 1, s, "")?; Ok(()) }), |b| fa(b, S, "protectedRange", "name")),
        ("note text", |s| note(|_| Note::new(s).add_author_prefix(false)), |b| ft(b, CO, "text")),
        ("note author", |s| note(|n| if s.chars().count() > 52 { n } else { n.set_author(s) }), |b| { let c = first(b, CO, "comment")?; let i: usize = c.a("authorId")?.parse().ok()?; Some(doc(b, CO)?.get("authors")?.all("author").nth(i)?.text()) }),
        ("note prefix", |s| note(|n| n.set_author(s)), |b| ft(b, CO, "text").map(|x| x.strip_suffix(":\nnote").unwrap_or(&x).to_string())),
        ("note alt text", |s| note(|n| n.set_alt_text(s)), |b| fa(b, VM, "v:shape", "alt")),
        ("note font", |s| note(|n| n.set_font_name(s)), |b| fa(b, CO, "rFont", "val")),
        ("button caption", |s| button(|n| n.set_caption(s)), |b| first(b, VM, "v:textbox").map(|e| e.deep_text().trim_matches(|c| c == '\n').to_string())),
        ("button macro", |s| button(|n| n.set_macro(s)), none),
        ("button alt text", |s| button(|n| n.set_alt_text(s)), |b| fa(b, VM, "v:shape", "alt")),
        ("shape text", |s| shape(|n| Ok(n.set_text(s))), |b| { let e = first(b, DR, "xdr:txBody")?; let p: Vec<String> = e.all("a:p").map(|p| p.deep_text()).collect(); Some(p.join("\n")) }),
        ("shape text link", |s| shape(|n| Ok(n.set_text_link(s))), none),
        ("shape alt text", |s| shape(|n| Ok(n.set_alt_text(s))), |b| fa(b, DR, "xdr:cNvPr", "descr")),
        ("shape url", |s| shape(|n| n.set_url(format!("http://x.y/{s}").as_str())), none),
        ("shape url tip", |s| shape(|n| n.set_url(Url::new("http://x.y").set_tip(s))), |b| fa(b, DR, "a:hlinkClick", "tooltip")),
        ("shape font", |s| shape(|n| Ok(n.set_text("x").set_font(&ShapeFont::new().set_name(s)))), |b| fa(b, DR, "a:latin", "typeface")),
        ("image alt text", |s| img(|n| Ok(n.set_alt_text(s))), |b| fa(b, DR, "xdr:cNvPr", "descr")),
        ("image url tip", |s| img(|n| n.set_url(Url::new("http://x.y").set_tip(s))), |b| fa(b, DR, "a:hlinkClick", "tooltip")),
        ("image url", |s| img(|n| n.set_url(format!("http://x.y/{s}").as_str())), none),
        ("image url internal", |s| img(|n| n.set_url(format!("internal:{s}").as_str())), none),
        ("embedded image alt", |s| one(|w| { w.embed_image(0, 0, &Image::new_from_buffer(PNG)?.set_alt_text(s))?; Ok(()) }), none),
        ("chart name", |s| chart(|c| { c.set_name(s); }), |b| fa(b, DR, "xdr:cNvPr", "name")),
        ("chart alt text", |s| chart(|c| { c.set_alt_text(s); }), |b| fa(b, DR, "xdr:cNvPr", "descr")),
        ("chart title", |s| chart(|c| { c.title().set_name(s); }), |b| first(b, CH, "c:title").and_then(|e| e.find_all("a:t").first().map(|t| t.deep_text()))),
        ("chart axis title", |s| chart(|c| { c.x_axis().set_name(s); }), |b| first(b, CH, "c:catAx").and_then(|e| e.find_all("a:t").first().map(|t| t.deep_text()))),
        ("chart series name", |s| chart(|c| { c.add_series().set_values("Sheet1!$A$1:$A$3").set_name(s); }), |b| first(b, CH, "c:tx").and_then(|e| e.find_all("c:v").first().map(|t| t.deep_text()))),
        ("chart values string", |s| chart(|c| { c.add_series().set_values(s); }), none),
        ("chart data label", |s| chart(|c| { c.add_series().set_values("Sheet1!$A$1:$A$3").set_custom_data_labels(&[ChartDataLabel::new().set_value(s).to_custom()]); }), |b| first(b, CH, "c:dLbl").and_then(|e| e.find_all("a:t").first().map(|t| t.deep_text()))),
        ("chart label num format", |s| chart(|c| { c.add_series().set_values("Sheet1!$A$1:$A$3").set_data_label(ChartDataLabel::new().show_value().set_num_format(s)); }), |b| fa(b, CH, "c:dLbls", "x").or(first(b, CH, "c:dLbls").and_then(|e| e.get("c:numFmt").and_then(|n| n.a("formatCode").map(String::from))))),
        ("chart axis num format", |s| chart(|c| { c.y_axis().set_num_format(s); }), |b| first(b, CH, "c:valAx").and_then(|e| e.get("c:numFmt").and_then(|n| n.a("formatCode").map(String::from)))),
        ("chart font", |s| chart(|c| { c.title().set_name("x").set_font(ChartFont::new().set_name(s)); }), |b| fa(b, CH, "a:latin", "typeface")),
        ("chart trendline", |s| chart(|c| { c.add_series().set_values("Sheet1!$A$1:$A$3").set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Linear).set_name(s)); }), |b| first(b, CH, "c:trendline").and_then(|e| e.get("c:name").map(|n| n.text()))),
        ("chart data cache", |s| one(|w| { w.write(0, 0, s)?; w.write(1, 0, 1)?; let mut c = Chart::new(ChartType::Line); c.add_series().set_values("Sheet1!$B$1:$B$2").set_categories("Sheet1!$A$1:$A$2"); w.insert_chart(4, 4, &c)?; Ok(()) }), |b| first(b, CH, "c:strCache").and_then(|e| e.find_all("c:v").first().map(|t| t.deep_text()))),
        ("table name", |s| table(|t| t.set_name(s)), |b| doc(b, TB)?.a("displayName").map(String::from)),
        ("table header", |s| table(|t| t.set_columns(&[TableColumn::new().set_header(s)])), |b| fa(b, TB, "tableColumn", "name")),
        ("table header cell", |s| table(|t| t.set_columns(&[TableColumn::new().set_header(s)])), |b| match b.cells(0).ok()?.get(&(1, 1)).map(|c| c.v.clone()) { Some(Val::Str(s)) => Some(s), _ => None }),
        ("table total label", |s| table(|t| t.set_total_row(true).set_columns(&[TableColumn::new().set_total_label(s)])), |b| fa(b, TB, "tableColumn", "totalsRowLabel")),
        ("table formula", |s| table(|t| t.set_columns(&[TableColumn::new().set_formula(Formula::new(format!("=\"{s}\"")))])), none),
        ("table custom total", |s| table(|t| t.set_total_row(true).set_columns(&[TableColumn::new().set_total_function(TableFunction::Custom(Formula::new(format!("=\"{s}\""))))])), none),
        ("dv input title", |s| dv(|d| d.set_input_title(s)), |b| fa(b, S, "dataValidation", "promptTitle")),
        ("dv input message", |s| dv(|d| d.set_input_message(s)), |b| fa(b, S, "dataValidation", "prompt")),
        ("dv error title", |s| dv(|d| d.set_error_title(s)), |b| fa(b, S, "dataValidation", "errorTitle")),
        ("dv error message", |s| dv(|d| d.set_error_message(s)), |b| fa(b, S, "dataValidation", "error")),
        ("dv list", |s| dv(|d| d.allow_list_strings(&[s, "b"])), none),
        ("dv custom", |s| dv(|d| Ok(d.allow_custom(Formula::new(format!("=\"{s}\""))))), none),
        ("dv range", |s| dv(|d| Ok(d.set_multi_range(s))), none),
        ("cf text", |s| cf(ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains(s.to_string()))), |b| fa(b, S, "cfRule", "text")),
        ("cf cell string", |s| cf(ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(s.to_string()))), none),
        ("cf formula", |s| cf(ConditionalFormatFormula::new().set_rule(Formula::new(format!("=\"{s}\"")))), none),
        ("cf colour value", |s| cf(ConditionalFormat2ColorScale::new().set_minimum(ConditionalFormatType::Formula, Formula::new(format!("=\"{s}\"")))), none),
        ("cf data bar value", |s| cf(ConditionalFormatDataBar::new().set_minimum(ConditionalFormatType::Formula, Formula::new(format!("=\"{s}\"")))), none),
        ("cf icon value", |s| cf(ConditionalFormatIconSet::new().set_icon_type(ConditionalFormatIconType::ThreeFlags).set_icons(&[ConditionalFormatCustomIcon::new().set_rule(ConditionalFormatType::Formula, Formula::new(format!("=\"{s}\""))), ConditionalFormatCustomIcon::new(), ConditionalFormatCustomIcon::new()])), none),
        ("cf range", |s| cf(ConditionalFormatBlank::new().set_multi_range(s)), none),
        ("sparkline range", |s| one(|w| { w.add_sparkline(0, 0, &Sparkline::new().set_range(s))?; Ok(()) }), none),
        ("sparkline sheet", |s| one(|w| { w.add_sparkline(0, 0, &Sparkline::new().set_range((s, 0, 0, 0, 3)))?; Ok(()) }), none),
        ("font name", |s| one(|w| { w.write_blank(0, 0, &Format::new().set_font_name(s))?; Ok(()) }), |b| { let d = doc(b, ST)?; let f = d.path(&["fonts"])?.all("font").nth(1)?.clone(); f.get("name").and_then(|n| n.a("val").map(String::from)) }),
        ("font scheme", |s| one(|w| { w.write_blank(0, 0, &Format::new().set_font_scheme(s))?; Ok(()) }), none),
        ("num format", |s| one(|w| { w.write_blank(0, 0, &Format::new().set_num_format(s))?; Ok(()) }), |b| fa(b, ST, "numFmt", "formatCode")),
        ("dxf num format", |s| cf(ConditionalFormatBlank::new().set_format(Format::new().set_num_format(s))), |b| fa(b, ST, "numFmt", "formatCode")),
        ("filter list", |s| one(|w| { w.autofilter(0, 0, 4, 1)?; w.filter_column(0, &FilterCondition::new().add_list_filter(s))?; Ok(()) }), |b| fa(b, S, "filter", "val")),
        ("filter custom", |s| one(|w| { w.autofilter(0, 0, 4, 1)?; w.filter_column(0, &FilterCondition::new().add_custom_filter(FilterCriteria::GreaterThan, s))?; Ok(()) }), |b| fa(b, S, "customFilter", "val")),
        ("title", |s| props(|p| p.set_title(s)), |b| t(b, CORE, &["dc:title"])),
        ("subject", |s| props(|p| p.set_subject(s)), |b| t(b, CORE, &["dc:subject"])),
        ("author", |s| props(|p| p.set_author(s)), |b| t(b, CORE, &["dc:creator"])),
        ("keywords", |s| props(|p| p.set_keywords(s)), |b| t(b, CORE, &["cp:keywords"])),
        ("comment", |s| props(|p| p.set_comment(s)), |b| t(b, CORE, &["dc:description"])),
        ("category", |s| props(|p| p.set_category(s)), |b| t(b, CORE, &["cp:category"])),
        ("status", |s| props(|p| p.set_status(s)), |b| t(b, CORE, &["cp:contentStatus"])),
        ("manager", |s| props(|p| p.set_manager(s)), |b| t(b, APP, &["Manager"])),
        ("company", |s| props(|p| p.set_company(s)), |b| t(b, APP, &["Company"])),
        ("hyperlink base", |s| props(|p| p.set_hyperlink_base(s)), |b| t(b, APP, &["HyperlinkBase"])),
        ("custom name", |s| props(|p| p.set_custom_property(s, "v")), |b| fa(b, "docProps/custom.xml", "property", "name")),
        ("custom value", |s| props(|p| p.set_custom_property("n", s)), |b| ft(b, "docProps/custom.xml", "vt:lpwstr")),
        ("chart sheet name", |s| { let mut wb = Workbook::new(); wb.add_worksheet().write(0, 0, 1)?; let mut c = Chart::new(ChartType::Line); c.add_series().set_values("Sheet1!$A$1:$A$3"); let w = wb.add_chartsheet(); w.set_name(s)?; w.insert_chart(0, 0, &c)?; Ok(wb) }, |b| Some(b.sheets.get(1)?.0.clone())),
        ("chart on named sheet", |s| one(|w| { w.set_name(s)?; w.write(0, 0, 1)?; let mut c = Chart::new(ChartType::Line); c.add_series().set_values((s, 0, 0, 3, 0)); w.insert_chart(0, 1, &c)?; Ok(()) }), none),
        ("vml image name", |s| one(|w| { let i = Image::new_from_buffer(PNG)?.set_vml_name(s); w.set_header("&C&G").set_header_image(&i, HeaderImagePosition::Center)?; Ok(()) }), none),
        ("header image alt", |s| one(|w| { let i = Image::new_from_buffer(PNG)?.set_alt_text(s); w.set_header("&C&G").set_header_image(&i, HeaderImagePosition::Center)?; Ok(()) }), none),
    ]
}
trait Cm { fn add_worksheet_with_constant_memory_or_std(&mut self) -> &mut Worksheet; }
impl Cm for Workbook {
    #[cfg(feature = "constmem")]
    fn add_worksheet_with_constant_memory_or_std(&mut self) -> &mut Worksheet { self.add_worksheet_with_constant_memory() }
    #[cfg(not(feature = "constmem"))]
    fn add_worksheet_with_constant_memory_or_std(&mut self) -> &mut Worksheet { self.add_worksheet() }
}
fn illegal(c: char) -> bool { !matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}') }
/// the text with what XML cannot carry replaced by the _xHHHH_ escape
fn carried(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { if illegal(c) { o.push_str(&format!("_x{:04X}_", c as u32)); } else { o.push(c); } }
    o
}
pub fn check_one(p: &Pos, s: &str) -> Result<(), String> {
    let Ok(mut wb) = (p.1)(s) else { return Ok(()) };
    let buf = match wb.save_to_buffer() { Ok(b) => b, Err(_) => return Ok(()) };
    let b = Book::open(&buf)?;
    if let Some(got) = (p.2)(&b) {
        // documented limits: longer author names are ignored; a trailing line break of a caption or text box opens no further line
        if p.0.starts_with("note ") && s.chars().count() > 52 { return Ok(()); }
        let norm = |x: &str| carried(x).trim_matches('\n').lines().collect::<Vec<_>>().join("\n");
        if (p.0 == "shape text" || p.0 == "button caption") && norm(s) == norm(&got) { return Ok(()); }
        ensure!(s.is_empty() || got == s || got == carried(s) || xstring(&got) == s || xstring(&got) == xstring(s), "{}: text read back as {got:?}", p.0);
    }
    Ok(())
}
pub fn run(run: &mut Run) {
    let ps = positions();
    let only: Option<String> = std::env::var("VP_POS").ok();
    for p in &ps {
        if only.as_ref().map_or(false, |o| o != p.0) { continue; }
        for s in NASTY { run.case(p.0, s, || check_one(p, s)); }
    }
    run.exhaustive.push(format!("{} text positions x {} corner strings", ps.len(), NASTY.len()));
    let mut g = run.rng(2);
    for c in 0..0x3000u32 {
        // every code point of the lower planes, packed 64 to a string, rotating over the positions
        if c % 64 != 0 { continue; }
        let s: String = (c..c + 64).filter_map(char::from_u32).collect();
        for p in [&ps[0], &ps[12], g.pick(&ps)] { run.case(p.0, &s, || check_one(p, &s)); }
    }
    for _ in 0..run.n(1500, 40_000) {
        let p = g.pick(&ps);
        if only.as_ref().map_or(false, |o| o != p.0) { continue; }
        let s = rand_string(&mut g, 24);
        run.case(p.0, &s, || check_one(p, &s));
    }
}
