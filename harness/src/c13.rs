//! C13 executable contract: objects are anchored where the user put them.
use crate::common::*;
use crate::ensure;
use crate::scene::png;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::BTreeMap;

const COLS: u64 = 16_384;
const ROWS: u64 = 1_048_576;
/// the layout of a sheet as the user gave it
#[derive(Default, Clone)]
struct Lay { cols: BTreeMap<u16, (Option<f64>, bool)>, rows: BTreeMap<u32, (Option<f64>, bool)>, row: Option<f64> }
fn col_px(w: f64) -> u64 { if w < 1.0 { (w * 12.0).round() as u64 } else { (w * 7.0).round() as u64 + 5 } }
fn row_px(h: f64) -> u64 { (h * 4.0 / 3.0) as u64 }
impl Lay {
    fn col(&self, c: u64, after: bool) -> u64 { match self.cols.get(&(c as u16)) { Some((_, true)) if !after => 0, Some((Some(w), _)) => col_px(*w), _ => 64 } }
    fn row(&self, r: u64, after: bool) -> u64 { match self.rows.get(&(r as u32)) { Some((_, true)) if !after => 0, Some((Some(h), _)) => row_px(*h), _ => row_px(self.row.unwrap_or(15.0)) } }
    fn left(&self, c: u64, after: bool) -> u64 { c * 64 + self.cols.keys().filter(|k| u64::from(**k) < c).map(|k| self.col(u64::from(*k), after)).sum::<u64>() - 64 * self.cols.keys().filter(|k| u64::from(**k) < c).count() as u64 }
    fn top(&self, r: u64, after: bool) -> u64 { let d = row_px(self.row.unwrap_or(15.0)); let n = self.rows.keys().filter(|k| u64::from(**k) < r).count() as u64; (r - n) * d + self.rows.keys().filter(|k| u64::from(**k) < r).map(|k| self.row(u64::from(*k), after)).sum::<u64>() }
}
fn layout(g: &mut Rng, w: &mut Worksheet, l: &mut Lay, r0: u32, c0: u16, log: &mut String) -> Result<(), XlsxError> {
    for _ in 0..g.below(8) {
        let c = (i64::from(c0) + g.range(-6, 9)).clamp(0, COLS as i64 - 1) as u16;
        let r = (i64::from(r0) + g.range(-6, 9)).clamp(0, ROWS as i64 - 1) as u32;
        let width = match g.below(5) { 0 => g.below(1000) as f64 / 1000.0, 1 => g.below(256) as f64, 2 => *g.pick(&[0.5, 0.99, 1.0, 8.43, 255.0, 0.04, 0.041, 0.042]), _ => g.below(3000) as f64 / 100.0 };
        let height = match g.below(5) { 0 => g.below(100) as f64 / 100.0, 1 => *g.pick(&[15.0, 0.75, 409.0, 0.5, 0.74, 14.9, 15.1]), _ => g.below(8000) as f64 / 100.0 };
        match g.below(15) {
            0 => { *log += &format!("col {c} w {width}; "); w.set_column_width(c, width)?; if width == 0.0 { l.cols.entry(c).or_default().1 = true } else { l.cols.entry(c).or_default().0 = Some(width) } }
            1 => { let p = g.below(400) as u16; *log += &format!("col {c} {p}px; "); w.set_column_width_pixels(c, p)?; if p == 0 { l.cols.entry(c).or_default().1 = true } else { l.cols.entry(c).or_default().0 = Some(if p < 12 { f64::from(p) / 12.0 } else { (f64::from(p) - 5.0) / 7.0 }) } }
            2 => { *log += &format!("col {c} hidden; "); w.set_column_hidden(c)?; l.cols.entry(c).or_default().1 = true }
            3 => { let c2 = (c + g.below(4) as u16).min(COLS as u16 - 1); *log += &format!("cols {c}..{c2} hidden; "); w.set_column_range_hidden(c, c2)?; for k in c..=c2 { l.cols.entry(k).or_default().1 = true } }
            4 => { let c2 = (c + g.below(4) as u16).min(COLS as u16 - 1); let wd = width + 0.01; *log += &format!("cols {c}..{c2} w {wd}; "); w.set_column_range_width(c, c2, wd)?; for k in c..=c2 { l.cols.entry(k).or_default().0 = Some(wd) } }
            5 => { *log += &format!("col {c} format; "); w.set_column_format(c, &Format::new().set_bold())?; l.cols.entry(c).or_default(); }
            6 | 7 => { *log += &format!("row {r} h {height}; "); w.set_row_height(r, height)?; if height == 0.0 { l.rows.entry(r).or_default().1 = true } else { l.rows.entry(r).or_default().0 = Some(height) } }
            8 => { let p = g.below(300) as u16; *log += &format!("row {r} {p}px; "); w.set_row_height_pixels(r, p)?; if p == 0 { l.rows.entry(r).or_default().1 = true } else { l.rows.entry(r).or_default().0 = Some(f64::from(p) * 0.75) } }
            9 => { *log += &format!("row {r} hidden; "); w.set_row_hidden(r)?; l.rows.entry(r).or_default().1 = true }
            10 => { *log += &format!("row {r} format; "); w.set_row_format(r, &Format::new().set_bold())?; l.rows.entry(r).or_default(); }
            11 => { let r2 = (r + g.below(3) as u32).min(ROWS as u32 - 1); *log += &format!("rows {r}..{r2} collapsed; "); if w.group_rows_collapsed(r, r2).is_err() { continue; } for k in r..=r2 { l.rows.entry(k).or_default().1 = true } }
            12 => { let c2 = (c + g.below(3) as u16).min(COLS as u16 - 1); *log += &format!("cols {c}..{c2} collapsed; "); if w.group_columns_collapsed(c, c2).is_err() { continue; } for k in c..=c2 { l.cols.entry(k).or_default().1 = true } }
            13 if g.chance(1, 3) => { let p = 1 + g.below(60) as u16; *log += &format!("default row {p}px; "); w.set_default_row_height_pixels(p); l.row = Some(f64::from(p) * 0.75) }
            14 => { *log += &format!("write {r},{c}; "); w.write(r, c, 1)?; }
            _ => {}
        }
    }
    Ok(())
}
struct Point { cell: u64, off: f64 }
/// the point is exactly at `at`, in the cell that contains it, or at the end of the last cell if that is beyond the sheet
fn at(what: &str, p: &Point, want: f64, start: &dyn Fn(u64) -> u64, size: &dyn Fn(u64) -> u64, last: u64, eps: f64) -> Result<(), String> {
    ensure!(p.cell <= last, "{what}: cell {} beyond the sheet", p.cell);
    let (s, z) = (start(p.cell) as f64, size(p.cell) as f64);
    ensure!(p.off >= 0.0 && p.off <= z + 1e-9, "{what}: offset {} in cell {} of size {z}", p.off, p.cell);
    let end = (start(last) + size(last)) as f64;
    let want = want.min(end);
    ensure!((s + p.off - want).abs() <= eps, "{what}: cell {} offset {} is at {}, not {want}", p.cell, p.off, s + p.off);
    ensure!(p.cell == last || p.off < z || (p.off - z).abs() <= eps && want < s + z + eps, "{what}: offset {} is the end of cell {}", p.off, p.cell);
    Ok(())
}
fn movement(g: &mut Rng) -> ObjectMovement { *g.pick(&[ObjectMovement::MoveAndSizeWithCells, ObjectMovement::MoveButDontSizeWithCells, ObjectMovement::DontMoveOrSizeWithCells, ObjectMovement::MoveAndSizeWithCellsAfter]) }
fn size(g: &mut Rng) -> u32 { match g.below(6) { 0 => 1 + g.below(10) as u32, 1 => 64 * (1 + g.below(5) as u32), 2 => 20 * (1 + g.below(9) as u32), 3 => 1 + g.below(3000) as u32, _ => 1 + g.below(500) as u32 } }
/// a PNG image with its own resolution
fn dpi_png(w: u32, h: u32, x: u32, y: u32) -> Vec<u8> { let p = png(w, h); let mut v = p[..33].to_vec(); v.extend([0, 0, 0, 9]); v.extend(b"pHYs"); v.extend(x.to_be_bytes()); v.extend(y.to_be_bytes()); v.extend([1, 0, 0, 0, 0]); v.extend(&p[33..]); v }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Image, Fit, Chart, Shape, Button, Note }
fn one(g: &mut Rng, kind: Kind, log: &mut String) -> Result<(), String> {
    let e = |x: XlsxError| x.to_string();
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    let edge = g.chance(1, 12);
    let (r, c) = if edge { ((ROWS - 1 - g.below(20)) as u32, (COLS - 1 - g.below(12)) as u16) } else { (g.below(12) as u32, g.below(12) as u16) };
    let (xo, yo) = if kind == Kind::Fit { (0, 0) } else { (if g.chance(1, 3) { 0 } else { size(g) }, if g.chance(1, 3) { 0 } else { size(g) }) };
    let mv = movement(g);
    let mut l = Lay::default();
    layout(g, w, &mut l, r, c, log).map_err(e)?;
    // the natural size, 480x288 for charts, 192x120 for shapes, and what the user set
    let (sw, sh) = (if g.bits() { Some(size(g)) } else { None }, if g.bits() { Some(size(g)) } else { None });
    let scale = |g: &mut Rng| if g.bits() { Some(*g.pick(&[0.5, 2.0, 1.25, 0.333, 3.7, 0.01])) } else { None };
    let (fx, fy) = (scale(g), scale(g));
    *log += &format!("{kind:?} at {r},{c} +{xo},{yo} size {sw:?} {sh:?} scale {fx:?} {fy:?} {mv:?}; ");
    let after_insert = kind == Kind::Fit;
    let mut given = mv;
    let (mut ww, mut hh);
    match kind {
        Kind::Image | Kind::Fit => {
            let (iw, ih) = (size(g), size(g));
            let (dx, dy) = if g.bits() { (1 + g.below(20000) as u32, 1 + g.below(20000) as u32) } else { (0, 0) };
            let dpi = |d: u32| if dx > 0 { f64::from(d) * 0.0254 } else { 96.0 };
            *log += &format!("image {iw}x{ih} density {dx},{dy}; ");
            let mut i = Image::new_from_buffer(&if dx > 0 { dpi_png(iw, ih, dx, dy) } else { png(iw, ih) }).map_err(e)?;
            (ww, hh) = (f64::from(iw) * 96.0 / dpi(dx), f64::from(ih) * 96.0 / dpi(dy));
            if let Some(f) = fx { i = i.set_scale_width(f); ww *= f }
            if let Some(f) = fy { i = i.set_scale_height(f); hh *= f }
            if let Some(x) = sw { i = i.set_width(x); ww = f64::from(x) }
            if let Some(x) = sh { i = i.set_height(x); hh = f64::from(x) }
            if !g.chance(1, 4) { i = i.set_object_movement(mv); } else { given = ObjectMovement::MoveButDontSizeWithCells; }
            if kind == Kind::Fit {
                let keep = g.bits();
                let a = given == ObjectMovement::MoveAndSizeWithCellsAfter;
                let (cw, ch) = (l.col(u64::from(c), a) as f64, l.row(u64::from(r), a) as f64);
                w.insert_image_fit_to_cell(r, c, &i, keep).map_err(e)?;
                if cw > 0.0 && ch > 0.0 {
                    let (nw, nh) = (f64::from(iw) * 96.0 / dpi(dx), f64::from(ih) * 96.0 / dpi(dy));
                    if keep { let f = (cw / nw).min(ch / nh); ww = nw * f; hh = nh * f; } else { ww = cw; hh = ch; }
                }
            } else if xo == 0 && yo == 0 && g.bits() { w.insert_image(r, c, &i).map_err(e)?; } else { w.insert_image_with_offset(r, c, &i, xo, yo).map_err(e)?; }
        }
        Kind::Chart => {
            let mut i = Chart::new_column();
            i.add_series().set_values("Sheet1!$A$1:$A$3");
            (ww, hh) = (480.0, 288.0);
            if let Some(x) = sw { i.set_width(x); ww = f64::from(x) }
            if let Some(x) = sh { i.set_height(x); hh = f64::from(x) }
            if let Some(f) = fx { i.set_scale_width(f); ww *= f }
            if let Some(f) = fy { i.set_scale_height(f); hh *= f }
            if !g.chance(1, 4) { i.set_object_movement(mv); } else { given = ObjectMovement::MoveAndSizeWithCells; }
            if xo == 0 && yo == 0 && g.bits() { w.insert_chart(r, c, &i).map_err(e)?; } else { w.insert_chart_with_offset(r, c, &i, xo, yo).map_err(e)?; }
        }
        Kind::Shape => {
            let mut i = Shape::textbox().set_text("t");
            (ww, hh) = (192.0, 120.0);
            if let Some(x) = sw { i = i.set_width(x); if x >= 5 { ww = f64::from(x) } }
            if let Some(x) = sh { i = i.set_height(x); if x >= 5 { hh = f64::from(x) } }
            if !g.chance(1, 4) { i = i.set_object_movement(mv); } else { given = ObjectMovement::MoveAndSizeWithCells; }
            if xo == 0 && yo == 0 && g.bits() { w.insert_shape(r, c, &i).map_err(e)?; } else { w.insert_shape_with_offset(r, c, &i, xo, yo).map_err(e)?; }
        }
        Kind::Button => {
            let mut i = Button::new();
            (ww, hh) = (64.0, 20.0);
            if let Some(x) = sw { i = i.set_width(x); ww = f64::from(x) }
            if let Some(x) = sh { i = i.set_height(x); hh = f64::from(x) }
            if g.bits() { i = i.set_object_movement(mv); } else { given = ObjectMovement::MoveButDontSizeWithCells; }
            if xo == 0 && yo == 0 && g.bits() { w.insert_button(r, c, &i).map_err(e)?; } else { w.insert_button_with_offset(r, c, &i, xo, yo).map_err(e)?; }
        }
        Kind::Note => {
            let mut i = Note::new("n");
            (ww, hh) = (128.0, 74.0);
            if let Some(x) = sw { i = i.set_width(x); ww = f64::from(x) }
            if let Some(x) = sh { i = i.set_height(x); hh = f64::from(x) }
            if g.bits() { i = i.set_object_movement(mv); } else { given = ObjectMovement::MoveButDontSizeWithCells; }
            w.insert_note(r, c, &i).map_err(e)?;
        }
    }
    if !after_insert && g.bits() { layout(g, w, &mut l, r, c, log).map_err(e)?; }
    if g.chance(1, 8) { *log += "[saved] "; wb.save_to_buffer().map_err(e)?; if !after_insert { let w = wb.worksheet_from_index(0).map_err(e)?; layout(g, w, &mut l, r, c, log).map_err(e)?; } }
    let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
    let after = given == ObjectMovement::MoveAndSizeWithCellsAfter;
    let (lcol, lrow) = (|k: u64| l.col(k, after), |k: u64| l.row(k, after));
    let (left, top) = (|k: u64| l.left(k, after), |k: u64| l.top(k, after));
    let rels = b.rels_of(&b.sheets[0].1);
    let part = |ty: &str| rels.iter().find(|x| x.1.ends_with(ty)).map(|x| x.2.clone()).ok_or(format!("no {ty}"));
    let (mut x, mut y) = ((left(u64::from(c)) + u64::from(xo)) as f64, (top(u64::from(r)) + u64::from(yo)) as f64);
    let (fc, fr, tc, tr, eps);
    if matches!(kind, Kind::Button | Kind::Note) {
        let v = b.xml.get(&part("/vmlDrawing")?).ok_or("no vml part")?;
        let s = v.find_all("x:ClientData"); ensure!(s.len() == 1, "{} controls", s.len());
        let n: Vec<f64> = s[0].get("x:Anchor").ok_or("no anchor")?.text().split(", ").map(|t| t.parse().map_err(|_| format!("anchor {t:?}"))).collect::<Result<_, _>>()?;
        ensure!(n.len() == 8, "anchor {n:?}");
        (fc, fr, tc, tr) = (Point { cell: n[0] as u64, off: n[1] }, Point { cell: n[2] as u64, off: n[3] }, Point { cell: n[4] as u64, off: n[5] }, Point { cell: n[6] as u64, off: n[7] });
        eps = 1e-6;
        if kind == Kind::Note { x = left(fc.cell) as f64 + fc.off; y = top(fr.cell) as f64 + fr.off; }
        let (mv_e, sz_e) = (s[0].get("x:MoveWithCells").is_some(), s[0].get("x:SizeWithCells").is_some());
        let _ = (mv_e, sz_e);
    } else {
        let d = b.xml.get(&part("/drawing")?).ok_or("no drawing part")?;
        let all: Vec<&El> = d.els().collect(); ensure!(all.len() == 1 && all[0].name == "xdr:twoCellAnchor", "{} anchors", all.len());
        let a = all[0];
        let edit = match given { ObjectMovement::MoveButDontSizeWithCells => Some("oneCell"), ObjectMovement::DontMoveOrSizeWithCells => Some("absolute"), _ => None };
        ensure!(a.a("editAs") == edit, "editAs {:?}, not {edit:?}", a.a("editAs"));
        let num = |p: &[&str]| -> Result<f64, String> { let t = a.path(p).ok_or(format!("no {p:?}"))?.text(); t.parse::<i64>().map(|x| x as f64).map_err(|_| format!("{p:?} is {t:?}")) };
        fc = Point { cell: num(&["xdr:from", "xdr:col"])? as u64, off: num(&["xdr:from", "xdr:colOff"])? / 9525.0 };
        fr = Point { cell: num(&["xdr:from", "xdr:row"])? as u64, off: num(&["xdr:from", "xdr:rowOff"])? / 9525.0 };
        tc = Point { cell: num(&["xdr:to", "xdr:col"])? as u64, off: num(&["xdr:to", "xdr:colOff"])? / 9525.0 };
        tr = Point { cell: num(&["xdr:to", "xdr:row"])? as u64, off: num(&["xdr:to", "xdr:rowOff"])? / 9525.0 };
        eps = 0.51 / 9525.0 + 1e-6;
        if kind != Kind::Chart && x <= (left(COLS - 1) + lcol(COLS - 1)) as f64 && y <= (top(ROWS - 1) + lrow(ROWS - 1)) as f64 {
            let xf = a.find_all("a:xfrm"); ensure!(xf.len() == 1, "{} a:xfrm", xf.len());
            let v = |e: &str, n: &str| -> Result<f64, String> { xf[0].get(e).and_then(|k| k.a(n)).and_then(|t| t.parse::<i64>().ok()).map(|k| k as f64 / 9525.0).ok_or(format!("no {e} {n}")) };
            ensure!((v("a:off", "x")? - x).abs() <= eps && (v("a:off", "y")? - y).abs() <= eps, "absolute position {},{}, not {x},{y}", v("a:off", "x")?, v("a:off", "y")?);
            ensure!((v("a:ext", "cx")? - ww).abs() <= eps && (v("a:ext", "cy")? - hh).abs() <= eps, "size {},{}, not {ww},{hh}", v("a:ext", "cx")?, v("a:ext", "cy")?);
        }
    }
    let ends = |cell: u64, s: &dyn Fn(u64) -> u64, z: &dyn Fn(u64) -> u64| (s(cell) + z(cell)) as f64;
    at("from column", &fc, x, &left, &lcol, COLS - 1, eps)?;
    at("from row", &fr, y, &top, &lrow, ROWS - 1, eps)?;
    let (x, y) = (x.min(ends(COLS - 1, &left, &lcol)), y.min(ends(ROWS - 1, &top, &lrow)));
    at("to column", &tc, x + ww, &left, &lcol, COLS - 1, eps)?;
    at("to row", &tr, y + hh, &top, &lrow, ROWS - 1, eps)?;
    Ok(())
}
/// every width and height in whole pixels is that many pixels
fn pixel(p: u16) -> Result<(), String> {
    let e = |x: XlsxError| x.to_string();
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    w.set_column_width_pixels(1, p).map_err(e)?; w.set_row_height_pixels(1, p).map_err(e)?;
    w.insert_shape(0, 0, &Shape::textbox().set_width(64 + u32::from(p) + 7).set_height(20 + u32::from(p) + 7)).map_err(e)?;
    let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
    let to = b.xml["xl/drawings/drawing1.xml"].find_all("xdr:to")[0];
    let t: Vec<String> = to.els().map(|x| x.text()).collect();
    ensure!(t == ["2", &(7 * 9525).to_string(), "2", &(7 * 9525).to_string()], "{p} pixels: {t:?}");
    Ok(())
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(13);
    for p in 0..=1790u16 { if run.thorough || p < 100 || p % 7 == 0 { run.case("pixels", &p.to_string(), || pixel(p)); } }
    for kind in [Kind::Image, Kind::Fit, Kind::Chart, Kind::Shape, Kind::Button, Kind::Note] {
        for _ in 0..run.n(700, 15_000) { let seed = g.next(); let mut log = String::new(); let mut h = Rng::new(seed); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut h, kind, &mut log))); run.case(&format!("{kind:?}"), &log.clone(), || r.unwrap_or_else(|p| std::panic::resume_unwind(p))); }
    }
}
