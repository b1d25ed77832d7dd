//! Random workbooks using every feature: a list of items, each applied deterministically from its own seed.
use crate::c02::PNG;
use crate::common::*;
use crate::fmt::FmtSpec;
use rust_xlsxwriter::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Item { pub sheet: u8, pub kind: u8, pub seed: u64 }
pub const KINDS: &[&str] = &[
    "cells", "formula", "rich", "image", "image", "embed", "chart", "chart", "table", "note", "button", "checkbox", "shape", "url", "url", "background", "header image", "footer image", "cond format", "data validation",
    "sparkline", "sparkline group", "print area", "repeat", "autofilter", "filter", "row", "column", "group rows", "group columns", "autofit", "panes", "protect", "dynamic", "page", "tab", "add sheet", "chartsheet", "define name",
    "properties", "vba", "rename", "merge", "clear", "checkbox format", "ignore error", "fit image", "header", "url image", "signature", "swap", "theme", "note options", "view", "default row", "formats", "read only", "password", "array", "breaks", "combined chart", "unprotect range",
];
const CHARTSHEET: &[&str] = &["header", "header image", "footer image", "page", "tab", "protect", "password", "rename"];
pub fn kind(n: &str) -> u8 { KINDS.iter().position(|k| *k == n).unwrap() as u8 }
pub fn gif(w: u16, h: u16) -> Vec<u8> { let mut v = b"GIF89a".to_vec(); v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes()); v.extend([0; 8]); v }
pub fn bmp(w: u32, h: u32) -> Vec<u8> { let mut v = b"BM".to_vec(); v.extend([0; 16]); v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes()); v.extend([0; 8]); v }
pub fn png(w: u32, h: u32) -> Vec<u8> { let mut v = PNG.to_vec(); v[16..20].copy_from_slice(&w.to_be_bytes()); v[20..24].copy_from_slice(&h.to_be_bytes()); v }
pub fn jpg(w: u16, h: u16) -> Vec<u8> {
    let mut v = vec![0xFF, 0xD8, 0xFF, 0xC0, 0, 11, 8]; v.extend(h.to_be_bytes()); v.extend(w.to_be_bytes()); v.extend([1, 0, 0, 0, 0xFF, 0xD9]); v
}
pub fn image_bytes(g: &mut Rng) -> Vec<u8> {
    let (w, h) = (1 + g.below(4) as u32 * 37, 1 + g.below(3) as u32 * 50);
    match g.below(6) { 0 => gif(w as u16, h as u16), 1 => bmp(w, h), 2 => jpg(w as u16, h as u16), _ => png(w, h) }
}
pub fn image(g: &mut Rng) -> Image {
    let mut i = Image::new_from_buffer(&image_bytes(g)).unwrap();
    if g.chance(1, 4) { i = i.set_alt_text(*g.pick(&["alt", "other <alt>"])); }
    if g.chance(1, 5) { i = i.set_decorative(true); }
    if g.chance(1, 5) { i = i.set_scale_width(0.5 + g.below(4) as f64).set_scale_height(0.25 + g.below(4) as f64); }
    if g.chance(1, 5) { i = i.set_object_movement(*g.pick(&[ObjectMovement::MoveAndSizeWithCells, ObjectMovement::MoveButDontSizeWithCells, ObjectMovement::DontMoveOrSizeWithCells, ObjectMovement::MoveAndSizeWithCellsAfter])); }
    i
}
pub fn url(g: &mut Rng) -> String { (*g.pick(&["http://a.b/", "http://a.b/", "https://x.y/z#frag", "mailto:me@x.y", "internal:Sheet1!A1", "internal:'x y'!B2", "file:///C:/a.xlsx", "external:b.xlsx#Sheet1!A1", "ftp://q.r", "http://u.v/a b?c=d"])).to_string() }
pub fn chart(g: &mut Rng, full: bool) -> Chart {
    let t = *g.pick(&[ChartType::Line, ChartType::Column, ChartType::Bar, ChartType::Pie, ChartType::Doughnut, ChartType::Scatter, ChartType::Area, ChartType::Radar, ChartType::LineStacked, ChartType::BarPercentStacked, ChartType::ScatterSmooth, ChartType::Stock]);
    let mut c = Chart::new(t);
    for _ in 0..1 + g.below(3) {
        let (a, b) = (1 + g.below(5), 1 + g.below(9));
        let s = c.add_series().set_values(format!("Sheet1!$A${a}:$A${}", a + b).as_str());
        if g.bits() { s.set_categories(format!("Sheet1!$B${a}:$B${}", a + b).as_str()); }
        match g.below(3) { 0 => { s.set_name("Sheet1!$C$1"); } 1 => { s.set_name("series"); } _ => {} }
        if g.chance(1, 4) { s.set_data_label(ChartDataLabel::new().show_value()); }
        if g.chance(1, 4) { s.set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Linear)); }
        if g.chance(1, 4) { s.set_format(ChartFormat::new().set_solid_fill(ChartSolidFill::new().set_color(Color::RGB(g.below(1 << 24) as u32)))); }
        if g.chance(1, 6) { s.set_custom_data_labels(&[ChartDataLabel::new().set_value("=Sheet1!$C$2").to_custom(), ChartDataLabel::new().set_value("lab").to_custom()]); }
        if full && g.chance(1, 6) { s.set_secondary_axis(true); }
    }
    if g.bits() { c.title().set_name(*g.pick(&["Title", "=Sheet1!$C$3"])); }
    if g.chance(1, 3) { c.x_axis().set_name("x"); c.y_axis().set_name("=Sheet1!$C$4").set_max(20).set_min(-1); }
    if g.chance(1, 4) { c.set_style(1 + g.below(48) as u8); }
    if g.chance(1, 4) { c.set_data_table(&ChartDataTable::new()); }
    if g.chance(1, 4) { c.set_width(200 + g.below(500) as u32).set_height(100 + g.below(400) as u32); }
    if g.chance(1, 5) { c.set_name("my chart").set_alt_text("alt"); }
    c
}
pub fn table(g: &mut Rng) -> Table {
    let mut t = Table::new();
    if g.chance(1, 3) { t = t.set_header_row(false); }
    if g.chance(1, 3) { t = t.set_total_row(true); }
    if g.chance(1, 3) { t = t.set_autofilter(g.bits()); }
    if g.chance(1, 4) { t = t.set_banded_columns(true).set_first_column(true); }
    if g.chance(1, 4) { t = t.set_name(format!("Table_{}", g.below(1_000_000))); }
    if g.bits() {
        let cols: Vec<TableColumn> = (0..1 + g.below(3)).map(|k| {
            let mut c = TableColumn::new();
            if g.bits() { c = c.set_header(format!("Head {k}")); }
            if g.chance(1, 3) { c = c.set_total_label("Totals"); }
            if g.chance(1, 3) { c = c.set_total_function(g.pick(&[TableFunction::Sum, TableFunction::Average, TableFunction::Count]).clone()); }
            if g.chance(1, 4) { c = c.set_formula("SUM(Table10[@[Column1]:[Column3]])"); }
            if g.chance(1, 3) { c = c.set_format(FmtSpec::random(g).build()); }
            c
        }).collect();
        t = t.set_columns(&cols);
    }
    t
}
pub fn cond(g: &mut Rng, w: &mut Worksheet, r: u32, c: u16, r2: u32, c2: u16) -> Result<(), XlsxError> {
    let f = FmtSpec::random(g).build();
    let stop = g.chance(1, 5);
    match g.below(12) {
        0 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(g.below(100) as f64)).set_format(f).set_stop_if_true(stop))?,
        1 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatDuplicate::new().set_format(f))?,
        2 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatAverage::new().set_rule(ConditionalFormatAverageRule::AboveAverage).set_format(f))?,
        3 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatTop::new().set_rule(ConditionalFormatTopRule::Top(1 + g.below(9) as u16)).set_format(f))?,
        4 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains("x<y".into())).set_format(f))?,
        5 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatFormula::new().set_rule("=ISODD(A1)").set_format(f).set_stop_if_true(stop))?,
        6 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatDate::new().set_rule(ConditionalFormatDateRule::Today).set_format(f))?,
        7 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormat2ColorScale::new())?,
        8 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormat3ColorScale::new())?,
        9 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatDataBar::new().set_fill_color(Color::RGB(g.below(1 << 24) as u32)))?,
        10 => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatDataBar::new().use_classic_style())?,
        _ => w.add_conditional_format(r, c, r2, c2, &ConditionalFormatIconSet::new().set_icon_type(*g.pick(&[ConditionalFormatIconType::ThreeFlags, ConditionalFormatIconType::ThreeStars, ConditionalFormatIconType::FiveBoxes, ConditionalFormatIconType::FourTrafficLights])))?,
    };
    Ok(())
}
fn cells(g: &mut Rng, w: &mut Worksheet) -> Result<(), XlsxError> {
    let (r, c) = (g.below(30) as u32, g.below(8) as u16);
    for i in 0..1 + g.below(12) as u32 {
        let (r, c) = (r + i / 3, c + (i % 3) as u16);
        let f = FmtSpec::random(g).build();
        match g.below(8) {
            0 => w.write_string(r, c, *g.pick(&["abc", "def", "abc", " sp ", "a<b", "x\ny"]))?,
            1 => w.write_string_with_format(r, c, *g.pick(&["abc", "zz"]), &f)?,
            2 => w.write_number_with_format(r, c, g.below(50) as f64, &f)?,
            3 => w.write_boolean(r, c, g.bits())?,
            4 => w.write_blank(r, c, &f)?,
            5 => w.write_datetime_with_format(r, c, ExcelDateTime::from_ymd(2020, 1, 1 + g.below(28) as u8)?, &Format::new().set_num_format("yyyy-mm-dd"))?,
            6 => w.write_url(r, c, url(g).as_str())?,
            _ => w.write_number(r, c, g.below(50) as f64)?,
        };
    }
    Ok(())
}
/// apply one item; a rejected call is as much part of the history as an accepted one
pub fn apply(wb: &mut Workbook, it: &Item) {
    let g = &mut Rng::new(it.seed);
    match KINDS[it.kind as usize] {
        "add sheet" => { wb.add_worksheet(); return; }
        "chartsheet" => { let c = chart(g, true); let _ = wb.add_chartsheet().insert_chart(0, 0, &c); return; }
        "define name" => { let n = *g.pick(&["Abc", "xyz", "Sheet1!Local", "'Sheet1'!Other", "_Under", "Zeta", "bad name", "A1"]); let _ = wb.define_name(n, "=Sheet1!$A$1:$B$2"); return; }
        "properties" => {
            let mut p = DocProperties::new().set_title("t").set_author("a").set_company("c");
            if let Ok(d) = ExcelDateTime::from_ymd(2023, 1, 1) { p = p.set_creation_datetime(&d); }
            if g.bits() { p = p.set_custom_property("n", "v").set_custom_property("k", 5); }
            wb.set_properties(&p); return;
        }
        "vba" => { let _ = wb.add_vba_project("/repo/examples/vbaProject.bin"); return; }
        "signature" => { if g.chance(1, 3) { let _ = wb.add_vba_project_with_signature("/repo/examples/vbaProject.bin", "/repo/examples/vbaProjectSignature.bin"); } return; }
        "read only" => { wb.read_only_recommended(); return; }
        "swap" => { let v = wb.worksheets_mut(); let n = v.len() as u64; if n > 1 { let (a, b) = (g.below(n) as usize, g.below(n) as usize); v.swap(a, b); } return; }
        "theme" => return,
        _ => {}
    }
    let v = wb.worksheets_mut();
    if v.is_empty() { return; }
    let k = usize::from(it.sheet) % v.len();
    // a chartsheet holds its chart and the page and tab settings only
    if v[k].name().starts_with("Chart") && !CHARTSHEET.contains(&KINDS[it.kind as usize]) { return; }
    let _ = sheet_item(&mut v[k], it, g);
}
pub fn sheet_item(w: &mut Worksheet, it: &Item, g: &mut Rng) -> Result<(), XlsxError> {
    let (r, c) = (g.below(30) as u32, g.below(10) as u16);
    let (r2, c2) = (r + g.below(6) as u32, c + g.below(4) as u16);
    let (ox, oy) = (g.below(150) as u32, g.below(60) as u32);
    match KINDS[it.kind as usize] {
        "cells" => cells(g, w)?,
        "formula" => { w.write_formula(r, c, Formula::new(*g.pick(&["=A1+1", "=SUM(B1:B9)", "=XLOOKUP(1,A1:A3,B1:B3)"])).set_result(*g.pick(&["1", "abc", ""])))?; }
        "rich" => { let b = Format::new().set_bold(); w.write_rich_string(r, c, &[(&Format::default(), "plain"), (&b, *g.pick(&["bold", "bolder"]))])?; }
        "image" => { let i = image(g); w.insert_image_with_offset(r, c, &i, ox, oy)?; }
        "url image" => { let u = url(g); let i = image(g).set_url(Url::new(u).set_tip("tip"))?; w.insert_image(r, c, &i)?; }
        "fit image" => { let i = image(g); w.insert_image_fit_to_cell(r, c, &i, g.bits())?; }
        "embed" => { let mut i = image(g); if g.chance(1, 3) { i = i.set_url(url(g).as_str())?; } if g.bits() { w.embed_image(r, c, &i)?; } else { let f = FmtSpec::random(g).build(); w.embed_image_with_format(r, c, &i, &f)?; } }
        "chart" => { let ch = chart(g, true); w.insert_chart_with_offset(r, c, &ch, ox, oy)?; }
        "combined chart" => { let mut a = chart(g, false); let b = chart(g, false); a.combine(&b); w.insert_chart(r, c, &a)?; }
        "table" => { let t = table(g); w.add_table(r, c, r2 + 2, c2, &t)?; }
        "note" => { let mut n = Note::new(*g.pick(&["a note", "another\nnote"])); if g.bits() { n = n.set_author(*g.pick(&["me", "you"])); } w.insert_note(r, c, &n)?; }
        "note options" => { if g.bits() { w.show_all_notes(g.bits()); } w.set_default_note_author("someone"); let n = Note::new("n").set_visible(g.bits()).set_width(200).set_background_color(Color::Red); w.insert_note(r, c, &n)?; }
        "button" => { let mut b = Button::new(); if g.bits() { b = b.set_caption("press").set_macro("say_hello"); } w.insert_button_with_offset(r, c, &b, ox, oy)?; }
        "checkbox" => { w.insert_checkbox(r, c, g.bits())?; }
        "checkbox format" => { if g.bits() { w.insert_checkbox_with_format(r, c, g.bits(), &FmtSpec::random(g).build())?; } else { w.write_boolean_with_format(r, c, true, &Format::new().set_checkbox().set_italic())?; } }
        "shape" => { let mut s = Shape::textbox(); if g.bits() { s = s.set_text("text\nlines"); } if g.chance(1, 3) { s = s.set_url(Url::new(url(g)).set_tip("t"))?; } if g.chance(1, 4) { s = s.set_text_link("=$A$1"); } w.insert_shape_with_offset(r, c, &s, ox, oy)?; }
        "url" => { match g.below(3) { 0 => w.write_url(r, c, url(g).as_str())?, 1 => w.write_url_with_text(r, c, url(g).as_str(), "text")?, _ => { let u = url(g); w.write_url_with_options(r, c, Url::new(u), "", "tip", Some(&FmtSpec::random(g).build()))? } }; }
        "background" => { let i = image(g); w.insert_background_image(&i); }
        "header image" => { let i = image(g); w.set_header("&L&G&C&G&R&G").set_header_image(&i, g.pick(&[HeaderImagePosition::Left, HeaderImagePosition::Center, HeaderImagePosition::Right]).clone())?; }
        "footer image" => { let i = image(g); w.set_footer("&L&G&C&G&R&G").set_footer_image(&i, g.pick(&[HeaderImagePosition::Left, HeaderImagePosition::Center, HeaderImagePosition::Right]).clone())?; }
        "header" => { w.set_header(*g.pick(&["&Chead", "&Lleft&G", ""])); w.set_footer("&P"); }
        "cond format" => cond(g, w, r, c, r2, c2)?,
        "data validation" => {
            let d = match g.below(4) { 0 => DataValidation::new().allow_list_strings(&["a", "b"])?, 1 => DataValidation::new().allow_whole_number(DataValidationRule::Between(1, 9)), 2 => DataValidation::new().allow_list_formula("=$A$1:$A$3".into()), _ => DataValidation::new().allow_text_length(DataValidationRule::LessThan(5)) };
            w.add_data_validation(r, c, r2, c2, &d.set_input_title("title")?)?;
        }
        "sparkline" => { let s = Sparkline::new().set_range("Sheet1!A1:E1").show_high_point(g.bits()).set_style(1 + g.below(36) as u8); w.add_sparkline(r, c, &s)?; }
        "sparkline group" => { let s = Sparkline::new().set_range(format!("Sheet1!A1:E{}", r2 - r + 1).as_str()).set_type(*g.pick(&[SparklineType::Line, SparklineType::Column, SparklineType::WinLose])); w.add_sparkline_group(r, c, r2, c, &s)?; }
        "print area" => { w.set_print_area(r, c, r2, c2)?; }
        "repeat" => { if g.bits() { w.set_repeat_rows(r, r2)?; } if g.bits() { w.set_repeat_columns(c, c2)?; } }
        "autofilter" => { w.autofilter(r, c, r2 + 3, c2)?; }
        "filter" => { let f = match g.below(3) { 0 => FilterCondition::new().add_list_filter("abc").add_list_filter("1"), 1 => FilterCondition::new().add_custom_filter(FilterCriteria::GreaterThan, 10), _ => FilterCondition::new().add_list_blanks_filter() }; w.filter_column(c, &f)?; }
        "row" => { match g.below(4) { 0 => w.set_row_height(r, 10 + g.below(40) as u32)?, 1 => w.set_row_format(r, &FmtSpec::random(g).build())?, 2 => w.set_row_hidden(r)?, _ => w.set_row_height_pixels(r, 5 + g.below(60) as u16)? }; }
        "column" => { match g.below(5) { 0 => w.set_column_width(c, 3 + g.below(40) as u32)?, 1 => w.set_column_format(c, &FmtSpec::random(g).build())?, 2 => w.set_column_hidden(c)?, 3 => w.set_column_range_width(c, c2, 4 + g.below(20) as u32)?, _ => w.set_column_width_pixels(c, 5 + g.below(90) as u16)? }; }
        "group rows" => { if g.bits() { w.group_rows(r, r2)?; } else { w.group_rows_collapsed(r, r2)?; } if g.chance(1, 3) { w.group_symbols_above(g.bits()); } }
        "group columns" => { if g.bits() { w.group_columns(c, c2)?; } else { w.group_columns_collapsed(c, c2)?; } if g.chance(1, 3) { w.group_symbols_to_left(g.bits()); } }
        "autofit" => { if g.bits() { w.autofit(); } else { w.autofit_to_max_width(120); } }
        "panes" => { w.set_freeze_panes(g.below(5) as u32, g.below(5) as u16)?; if g.bits() { w.set_freeze_panes_top_cell(9, 9)?; } }
        "view" => { match g.below(5) { 0 => w.set_selection(r, c, r2, c2)?, 1 => w.set_top_left_cell(r, c)?, 2 => w.set_zoom(50 + g.below(200) as u16), 3 => w.set_view_page_layout(), _ => w.set_right_to_left(g.bits()) }; }
        "protect" => { if g.bits() { w.protect(); } else { w.protect_with_password("pass"); } }
        "password" => { w.protect_with_options(&ProtectionOptions { sort: g.bits(), insert_rows: g.bits(), ..ProtectionOptions::default() }); }
        "unprotect range" => { w.unprotect_range(r, c, r2, c2)?; }
        "dynamic" => { if g.bits() { w.write_dynamic_formula(r, c, "=UNIQUE(A1:A5)")?; } else { w.write_dynamic_array_formula(r, c, r2, c2, "=LEN(A1:A5)")?; } }
        "array" => { w.write_array_formula(r, c, r2, c2, "{=SUM(A1:A2*B1:B2)}")?; }
        "page" => { match g.below(8) { 0 => w.set_landscape(), 1 => w.set_paper_size(1 + g.below(60) as u8), 2 => w.set_print_scale(10 + g.below(300) as u16), 3 => w.set_print_fit_to_pages(g.below(3) as u16, g.below(3) as u16), 4 => w.set_margins(0.5, 0.6, 0.7, 0.8, 0.3, 0.4), 5 => w.set_print_gridlines(true), 6 => w.set_print_headings(true), _ => w.set_print_first_page_number(3) }; }
        "breaks" => { w.set_page_breaks(&[3 + r, 2, 2])?; w.set_vertical_page_breaks(&[1 + u32::from(c)])?; }
        "tab" => { match g.below(5) { 0 => w.set_active(g.bits()), 1 => w.set_selected(g.bits()), 2 => w.set_first_tab(g.bits()), 3 => w.set_hidden(g.bits()), _ => w.set_tab_color(Color::RGB(g.below(1 << 24) as u32)) }; }
        "rename" => { let pre = if w.name().starts_with("Chart") { "Chart" } else { "Name" }; w.set_name(format!("{pre} {}", g.below(1 << 40)))?; }
        "merge" => { w.merge_range(r, c, r2, c2, *g.pick(&["merged", "", "m2"]), &FmtSpec::random(g).build())?; }
        "clear" => { if g.bits() { w.clear_cell(r, c); } else { w.clear_cell_format(r, c); } }
        "ignore error" => { w.ignore_error_range(r, c, r2, c2, *g.pick(&[IgnoreError::NumberStoredAsText, IgnoreError::FormulaDiffers]))?; }
        "default row" => { if g.bits() { w.set_default_row_height(10 + g.below(20) as u32); } else { w.hide_unused_rows(g.bits()); } }
        "formats" => { let f = FmtSpec::random(g).build(); if g.bits() { w.set_range_format(r, c, r2, c2, &f)?; } else { w.set_range_format_with_border(r, c, r2, c2, &f, &Format::new().set_border(FormatBorder::Thin))?; } }
        _ => {}
    }
    Ok(())
}
#[derive(Clone, Debug)]
pub struct Scene { pub items: Vec<Item> }
impl Scene {
    pub fn random(g: &mut Rng, n: u64) -> Scene {
        let mut items = vec![];
        for _ in 0..1 + g.below(3) { items.push(Item { sheet: 0, kind: kind("add sheet"), seed: 1 }); }
        // a few kinds per scene, so that their combinations are dense
        let some: Vec<u8> = (0..2 + g.below(6)).map(|_| g.below(KINDS.len() as u64) as u8).collect();
        let dense = g.bits();
        for _ in 0..n {
            let kind = if dense { *g.pick(&some) } else { g.below(KINDS.len() as u64) as u8 };
            // few seeds, so that the same object is inserted repeatedly
            let seed = if g.bits() { g.below(6) } else { g.next() };
            items.push(Item { sheet: g.below(4) as u8, kind, seed });
        }
        Scene { items }
    }
    pub fn text(&self) -> String { self.items.iter().map(|i| format!("{}@{}:{:x}", KINDS[i.kind as usize], i.sheet, i.seed)).collect::<Vec<_>>().join(", ") }
    pub fn build(&self) -> Workbook { let mut wb = Workbook::new(); for i in &self.items { apply(&mut wb, i); } wb }
    /// whether a macro project was added (the signature item adds one only sometimes)
    pub fn build_has_macros(&self) -> bool { self.items.iter().any(|i| match KINDS[i.kind as usize] { "vba" => true, "signature" => Rng::new(i.seed).chance(1, 3), _ => false }) }
    /// drop items while the failure stays
    pub fn shrink(&self, fails: &dyn Fn(&Scene) -> bool) -> Scene {
        let mut s = self.clone();
        let mut step = (s.items.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < s.items.len() {
                let mut t = s.clone();
                t.items.drain(i..(i + step).min(t.items.len()));
                if fails(&t) { s = t; } else { i += step; }
            }
            if step == 1 { return s; }
            step = (step / 2).max(1);
        }
    }
}
