//! C25 executable contract: autofitted columns are as wide as their widest cell.
use crate::c12::px_of_file;
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, BTreeSet};

/// the widths of Calibri 11's characters in pixels
fn char_px(c: char) -> u64 {
    match c {
        ' ' | '\'' => 3,
        ',' | '.' | ':' | ';' | 'I' | '`' | 'i' | 'j' | 'l' => 4,
        '!' | '(' | ')' | '-' | 'J' | '[' | ']' | 'f' | 'r' | 't' | '{' | '}' => 5,
        '"' | '/' | 'L' | '\\' | 'c' | 's' | 'z' => 6,
        '#' | '$' | '*' | '+' | '0'..='9' | '<' | '=' | '>' | '?' | 'E' | 'F' | 'S' | 'T' | 'Y' | 'Z' | '^' | '_' | 'a' | 'g' | 'k' | 'v' | 'x' | 'y' | '|' | '~' => 7,
        'A' | 'D' | 'G' | 'H' | 'U' | 'V' => 9,
        '&' | 'N' | 'O' | 'Q' => 10,
        '%' | 'w' => 11,
        'M' | 'm' => 12,
        '@' | 'W' => 13,
        _ => 8,
    }
}
pub fn text_px(s: &str) -> u64 { s.chars().map(char_px).sum::<u64>().min(1790) }
fn lines_px(s: &str) -> u64 { s.split('\n').map(|l| text_px(l.strip_suffix('\r').unwrap_or(l))).max().unwrap_or(0) }
fn text(g: &mut Rng, big: bool) -> String {
    let n = if big && g.chance(1, 6) { *g.pick(&[100, 137, 138, 220, 223, 224, 230, 232, 233, 234, 235, 255, 300, 448, 500, 597, 600, 700]) } else { g.below(14) as usize };
    match g.below(6) {
        0 => (0..n).map(|_| char::from(32 + g.below(95) as u8)).collect(),
        1 => { let c = char::from(32 + g.below(95) as u8); (0..n).map(|_| c).collect() }
        2 => { let c = *g.pick(&['i', 'l', '.', ' ', 'W', '@', 'é', '漢', '😀', 'm']); (0..n).map(|_| c).collect() }
        3 => (0..n).map(|_| *g.pick(&['é', 'ß', 'a', 'Z', '漢', '\u{a0}', '😀', '7'])).collect(),
        4 => { let k = 1 + g.below(4); (0..k).map(|_| (0..g.below(n as u64 + 1)).map(|_| char::from(33 + g.below(94) as u8)).collect::<String>()).collect::<Vec<_>>().join(*g.pick(&["\n", "\n", "\r\n", "\n\n"])) }
        _ => (0..n).map(|_| char::from(b'a' + g.below(26) as u8)).collect(),
    }
}
/// widths of columns in characters, as the user set them and as they are shown
fn px(w: f64) -> i64 { if w < 1.0 { (w * 12.0).round() as i64 } else { (w * 7.0).round() as i64 + 5 } }
fn chars(p: u64) -> f64 { if p < 12 { p as f64 / 12.0 } else { (p as f64 - 5.0) / 7.0 } }
#[derive(Default, Clone, Debug)]
struct Col { user: Option<f64>, shown: Option<f64>, hidden: bool, auto: bool }

pub fn run(r: &mut Run) {
    // the public measure of a text
    let mut g = r.rng(1);
    for n in 32u8..=126 { let s = char::from(n).to_string(); r.case("one character", &s, || { let p = cell_autofit_width(&s); ensure!(u64::from(p) == text_px(&s) + 7, "{p}"); Ok(()) }); }
    for _ in 0..r.n(400, 4000) {
        let s = text(&mut g, true).replace('\n', " ").replace('\r', "");
        r.case("text", &s, || { let p = cell_autofit_width(&s); ensure!(u64::from(p) == text_px(&s) + 7, "{p}, want {}", text_px(&s) + 7); Ok(()) });
    }
    for i in 0..r.n(900, 9000) {
        let mut g = r.rng(1000 + i);
        let (mut log, mut wb) = (String::new(), Workbook::new());
        let res = (|| -> Result<(), String> {
            let e = |x: XlsxError| format!("rejected: {x}");
            let ws = wb.add_worksheet();
            let (r0, c0) = (*g.pick(&[0u32, 0, 3, 1_048_560]), *g.pick(&[0u16, 0, 2, 16_376]));
            let mut cells: BTreeMap<(u32, u16), u64> = BTreeMap::new();
            let mut cols: BTreeMap<u16, Col> = BTreeMap::new();
            let mut arrows: BTreeSet<(u32, u16)> = BTreeSet::new();
            let mut dfl = 0u64; // the result of formulas
            let mut dfl_text = String::new();
            if g.chance(1, 5) { dfl_text = text(&mut g, false); if dfl_text == "0" { dfl_text.clear() } ws.set_formula_result_default(&dfl_text); dfl = lines_px(&dfl_text); log += &format!("default result {dfl_text:?}; "); }
            if g.chance(1, 6) {
                // a table, whose headers have arrows
                let (a, b) = (c0 + 4, c0 + 5 + g.below(2) as u16);
                let on = g.chance(3, 4);
                let names: Vec<String> = (a..=b).map(|k| format!("{}{k}", text(&mut g, false).replace(['\n', '\r'], " ").trim_start())).collect();
                let t = Table::new().set_autofilter(on).set_columns(&names.iter().map(|n| TableColumn::new().set_header(n)).collect::<Vec<_>>());
                log += &format!("table {a}..{b} {names:?} {on}; ");
                if ws.add_table(r0, a, r0 + 3, b, &t).is_ok() { for (k, c) in (a..=b).enumerate() { cells.insert((r0, c), lines_px(&names[k])); if on { arrows.insert((r0, c)); } } }
            }
            for _ in 0..1 + g.below(14) {
                let (rw, cl) = (r0 + g.below(6) as u32, c0 + g.below(4) as u16);
                match g.below(22) {
                    0..=3 => { let s = text(&mut g, true); log += &format!("({rw},{cl}) {s:?}; "); ws.write_string(rw, cl, &s).map_err(e)?; if !s.is_empty() { cells.insert((rw, cl), lines_px(&s)); } }
                    4 | 5 => { let v = match g.below(5) { 0 => g.below(100_000) as f64, 1 => g.range(-5000, 5000) as f64 / 8.0, 2 => f64::from_bits(g.next()), 3 => *g.pick(&[0.0, -0.0, 1e300, -1e-300, 0.1, f64::MAX, 5e-324, f64::NAN, f64::INFINITY]), _ => g.next() as f64 };
                        log += &format!("({rw},{cl}) {v:e}; "); ws.write_number(rw, cl, v).map_err(e)?;
                        cells.insert((rw, cl), if v.is_nan() { text_px("NAN") } else if v.is_infinite() { text_px("INF") } else { 7 * v.to_string().len() as u64 }); }
                    6 => { let b = g.bits(); log += &format!("({rw},{cl}) {b}; "); ws.write_boolean(rw, cl, b).map_err(e)?; cells.insert((rw, cl), text_px(if b { "TRUE" } else { "FALSE" })); }
                    7 => { log += &format!("({rw},{cl}) date; "); ws.write_datetime_with_format(rw, cl, ExcelDateTime::from_ymd(2025, 1, 2).map_err(e)?, &Format::new().set_num_format("yyyy-mm-dd")).map_err(e)?; cells.insert((rw, cl), 68); }
                    8 => { log += &format!("({rw},{cl}) blank; "); ws.write_blank(rw, cl, &Format::new().set_bold()).map_err(e)?; cells.insert((rw, cl), 0); }
                    9 | 10 => { let s = if g.chance(1, 4) { "0".to_string() } else { text(&mut g, true) }; log += &format!("({rw},{cl}) formula {s:?}; "); ws.write_formula(rw, cl, Formula::new("=1+1").set_result(&s)).map_err(e)?; cells.insert((rw, cl), if s == "0" { 0 } else if s.is_empty() { dfl } else { lines_px(&s) }); }
                    11 => { let s = text(&mut g, false); log += &format!("({rw},{cl}) array formula {s:?}; "); ws.write_array_formula(rw, cl, rw, cl, Formula::new("{=1+1}").set_result(&s)).map_err(e)?; cells.insert((rw, cl), if s == "0" { 0 } else if s.is_empty() { dfl } else { lines_px(&s) }); }
                    12 => { let (a, b) = (format!("a{}", text(&mut g, false)), format!("b{}", text(&mut g, false))); log += &format!("({rw},{cl}) rich {a:?} {b:?}; "); ws.write_rich_string(rw, cl, &[(&Format::new().set_bold(), a.as_str()), (&Format::default(), b.as_str())]).map_err(e)?; cells.insert((rw, cl), lines_px(&format!("{a}{b}"))); }
                    13 => { log += &format!("({rw},{cl}) cleared; "); ws.clear_cell(rw, cl); cells.remove(&(rw, cl)); }
                    14 => { let w = g.below(2600) as f64 / 10.0 + 0.1; log += &format!("col {cl} {w}; "); ws.set_column_width(cl, w).map_err(e)?; let k = cols.entry(cl).or_default(); k.user = Some(w.min(255.0)); k.shown = k.user; k.auto = false; }
                    15 => { let p = 1 + g.below(300) as u16; log += &format!("col {cl} {p}px; "); ws.set_column_width_pixels(cl, p).map_err(e)?; let k = cols.entry(cl).or_default(); k.user = Some(chars(p.into())); k.shown = k.user; k.auto = false; }
                    16 => { log += &format!("col {cl} format; "); ws.set_column_format(cl, &Format::new().set_italic()).map_err(e)?; cols.entry(cl).or_default(); }
                    17 => { log += &format!("col {cl} hidden; "); ws.set_column_hidden(cl).map_err(e)?; cols.entry(cl).or_default().hidden = true; }
                    18 => { let (a, b) = (c0, c0 + g.below(4) as u16); log += &format!("filter {rw} {a}..{b}; "); if ws.autofilter(rw, a, rw + 3, b).is_ok() { let t: BTreeSet<_> = arrows.iter().copied().filter(|k| k.1 >= c0 + 4).collect(); arrows = t; for c in a..=b { arrows.insert((rw, c)); } } }
                    19 => { let p = 1 + g.below(200) as u16; log += &format!("col {cl} autofit {p}px; "); ws.set_column_autofit_width(cl, p).map_err(e)?; fit(cols.entry(cl).or_default(), p.into()); }
                    20 => { log += "group; "; let _ = ws.group_columns(cl, cl + 1); cols.entry(cl).or_default(); cols.entry(cl + 1).or_default(); }
                    _ => { let limit = autofit(&mut g, ws, &mut log); apply(&cells, &arrows, &mut cols, limit); }
                }
            }
            let limit = autofit(&mut g, ws, &mut log);
            apply(&cells, &arrows, &mut cols, limit);
            let buf = wb.save_to_buffer().map_err(e)?;
            let b = Book::open(&buf)?;
            let mut got: BTreeMap<u32, (i64, bool)> = BTreeMap::new();
            if let Some(cs) = b.sheet(0).get("cols") {
                for c in cs.all("col") {
                    let n = |k: &str| c.a(k).unwrap_or("").parse::<f64>().map_err(|_| k.to_string());
                    for k in n("min")? as u32..=n("max")? as u32 { got.insert(k - 1, (px_of_file(n("width")?), c.a("bestFit") == Some("1"))); }
                }
            }
            for (c, k) in &cols {
                let (px, auto) = got.get(&u32::from(*c)).copied().unwrap_or((64, false));
                match k.shown { Some(w) => { let w = self::px(w); ensure!(px == w, "column {c}: {px} pixels, want {w}"); ensure!(auto == k.auto, "column {c}: bestFit {auto}") } None => ensure!(px == if k.hidden { 0 } else { 64 } && !auto, "column {c}: {px} pixels, it has no data and no width") }
            }
            for (c, v) in &got { ensure!(cols.contains_key(&(*c as u16)), "column {c}: {v:?}, it has no data and no settings"); }
            Ok(())
        })();
        r.case("sheet", &log, || res);
    }
}
fn autofit(g: &mut Rng, ws: &mut Worksheet, log: &mut String) -> u64 {
    if g.chance(1, 3) { let m = *g.pick(&[0u16, 1, 11, 12, 50, 64, 100, 300, 1789, 1790, 1791, 65535]); *log += &format!("autofit {m}; "); ws.autofit_to_max_width(m); u64::from(m).min(1790) } else { *log += "autofit; "; ws.autofit(); 1790 }
}
fn fit(k: &mut Col, p: u64) { let p = chars(p).min(255.0); if p > k.user.unwrap_or(0.0) { k.shown = Some(p); k.auto = true } else { k.shown = k.user; k.auto = false } }
fn apply(cells: &BTreeMap<(u32, u16), u64>, arrows: &BTreeSet<(u32, u16)>, cols: &mut BTreeMap<u16, Col>, limit: u64) {
    let mut need: BTreeMap<u16, u64> = BTreeMap::new();
    for ((r, c), w) in cells { if *w > 0 { let n = (w + if arrows.contains(&(*r, *c)) { 16 } else { 0 } + 7).min(limit); let k = need.entry(*c).or_insert(0); *k = (*k).max(n); } }
    for (c, n) in need { if n > 0 { fit(cols.entry(c).or_default(), n) } }
}
