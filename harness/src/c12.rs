//! C12 and C26 executable contracts: row and column records, grouping and spans.
use crate::common::*;
use crate::ensure;
use crate::model::same_file;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Op {
    Height(u32, f64), HeightPx(u32, u16), Hide(u32), Unhide(u32), RowFmt(u32, u8), Default(f64), DefaultPx(u16), HideUnused(bool),
    Width(u16, f64), WidthPx(u16, u16), RangeW(u16, u16, f64), RangePx(u16, u16, u16), HideCol(u16), RangeHide(u16, u16), ColFmt(u16, u8), AutoW(u16, u16),
    GroupRows(u32, u32, bool), GroupCols(u16, u16, bool), Above(bool), Left(bool), Cell(u32, u16), Note(u32, u16),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row { h: Option<f64>, hidden: bool, fmt: u8, level: u8, collapsed: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct Col { w: f64, hidden: bool, fmt: u8, level: u8, collapsed: bool, auto: bool, user: f64 }
impl Default for Col { fn default() -> Col { Col { user: 0.0, w: 8.43, hidden: false, fmt: 0, level: 0, collapsed: false, auto: false } } }
#[derive(Clone, Debug)]
pub struct M { rows: BTreeMap<u32, Row>, cols: BTreeMap<u16, Col>, def: f64, unused: bool, above: bool, left: bool, cells: BTreeMap<(u32, u16), bool> }
pub fn fmt(k: u8) -> Format { match k { 1 => Format::new().set_bold(), 2 => Format::new().set_italic(), _ => Format::new().set_num_format("0.000") } }
/// the pixels a spreadsheet shows for a width in characters
fn px_of_chars(w: f64) -> i64 { if w < 1.0 { (w * 12.0).round() as i64 } else { (w * 7.0).round() as i64 + 5 } }
/// the pixels a spreadsheet shows for the width in a file
pub fn px_of_file(w: f64) -> i64 { ((256.0 * w + (128.0f64 / 7.0).trunc()) / 256.0 * 7.0).trunc() as i64 }
fn px_chars(p: u16) -> f64 { if p < 12 { f64::from(p) / 12.0 } else { (f64::from(p) - 5.0) / 7.0 } }
impl M {
    pub fn new() -> M { M { rows: BTreeMap::new(), cols: BTreeMap::new(), def: 15.0, unused: false, above: false, left: false, cells: BTreeMap::new() } }
    fn row(&mut self, r: u32) -> &mut Row { self.rows.entry(r).or_default() }
    fn col(&mut self, c: u16) -> &mut Col { self.cols.entry(c).or_default() }
    fn width(&mut self, c: u16, w: f64, auto: bool) {
        if w == 0.0 { self.col(c).hidden = true; return; }
        let w = w.min(255.0);
        let k = self.col(c);
        if !auto { k.w = w; k.user = w; k.auto = false } else if w > k.user { k.w = w; k.auto = true } else { k.w = k.user; k.auto = false }
    }
    /// is the request valid?
    fn ok(&self, op: &Op) -> bool {
        let (rm, cm) = (1_048_576, 16_384);
        match op {
            Op::Height(r, _) | Op::HeightPx(r, _) | Op::Hide(r) | Op::Unhide(r) | Op::RowFmt(r, _) => *r < rm,
            Op::Width(c, _) | Op::WidthPx(c, _) | Op::HideCol(c) | Op::ColFmt(c, _) | Op::AutoW(c, _) => *c < cm,
            Op::RangeW(a, b, _) | Op::RangePx(a, b, _) | Op::RangeHide(a, b) => a <= b && *b < cm,
            Op::GroupRows(a, b, k) => a <= b && *b < rm && (!*k || *b + 1 < rm) && (*a..=*b).all(|r| self.rows.get(&r).map_or(0, |x| x.level) < 7),
            Op::GroupCols(a, b, k) => a <= b && *b < cm && (!*k || *b + 1 < cm) && (*a..=*b).all(|c| self.cols.get(&c).map_or(0, |x| x.level) < 7),
            Op::Cell(r, c) | Op::Note(r, c) => *r < rm && *c < cm,
            _ => true,
        }
    }
    fn add(&mut self, op: &Op) {
        match op {
            Op::Height(r, h) => if *h == 0.0 { self.row(*r).hidden = true } else { self.row(*r).h = Some(*h) },
            Op::HeightPx(r, p) => if *p == 0 { self.row(*r).hidden = true } else { self.row(*r).h = Some(f64::from(*p) * 0.75) },
            Op::Hide(r) => self.row(*r).hidden = true,
            Op::Unhide(r) => if self.rows.contains_key(r) { self.row(*r).hidden = false },
            Op::RowFmt(r, k) => self.row(*r).fmt = *k,
            Op::Default(h) => if *h > 0.0 { self.def = *h },
            Op::DefaultPx(p) => if *p > 0 { self.def = f64::from(*p) * 0.75 },
            Op::HideUnused(b) => self.unused = *b,
            Op::Width(c, w) => self.width(*c, *w, false),
            Op::WidthPx(c, p) => self.width(*c, px_chars(*p), false),
            Op::AutoW(c, p) => self.width(*c, px_chars(*p), true),
            Op::RangeW(a, b, w) => for c in *a..=*b { self.width(c, *w, false) },
            Op::RangePx(a, b, p) => for c in *a..=*b { self.width(c, px_chars(*p), false) },
            Op::HideCol(c) => self.col(*c).hidden = true,
            Op::RangeHide(a, b) => for c in *a..=*b { self.col(c).hidden = true },
            Op::ColFmt(c, k) => self.col(*c).fmt = *k,
            Op::GroupRows(a, b, k) => { for r in *a..=*b { let x = self.row(r); x.level += 1; x.hidden |= *k; } if *k { self.row(*b + 1).collapsed = true; } }
            Op::GroupCols(a, b, k) => { for c in *a..=*b { let x = self.col(c); x.level += 1; x.hidden |= *k; } if *k { self.col(*b + 1).collapsed = true; } }
            Op::Above(b) => self.above = *b,
            Op::Left(b) => self.left = *b,
            Op::Cell(r, c) => { self.cells.insert((*r, *c), true); }
            Op::Note(r, c) => { self.cells.entry((*r, *c)).or_insert(false); }
        }
    }
    /// the file says exactly this
    fn check(&self, b: &Book, groups: bool) -> Result<(), String> {
        let sh = b.sheet(0);
        let styles = b.xml["xl/styles.xml"].get("cellXfs").ok_or("no xfs")?;
        let kind = |s: Option<&str>| -> Result<u8, String> {
            let i: usize = s.unwrap_or("0").parse().map_err(|_| "style")?;
            let x = styles.all("xf").nth(i).ok_or(format!("style {i}"))?;
            let font: usize = x.a("fontId").unwrap_or("0").parse().unwrap_or(0);
            let f = b.xml["xl/styles.xml"].get("fonts").and_then(|f| f.all("font").nth(font)).ok_or("font")?;
            Ok(if f.get("b").is_some() { 1 } else if f.get("i").is_some() { 2 } else if x.a("numFmtId") != Some("0") { 3 } else { 0 })
        };
        let pr = sh.get("sheetFormatPr").ok_or("no sheetFormatPr")?;
        let def: f64 = pr.a("defaultRowHeight").unwrap_or("").parse().map_err(|_| "defaultRowHeight")?;
        let flag = |e: &El, k: &str| e.a(k) == Some("1");
        if !groups {
            ensure!(def == self.def, "default height {def}, set {}", self.def);
            ensure!(flag(pr, "customHeight") == (self.def != 15.0), "customHeight {:?}", pr.a("customHeight"));
            ensure!(flag(pr, "zeroHeight") == self.unused, "zeroHeight {:?}", pr.a("zeroHeight"));
        } else {
            let (mr, mc) = (self.rows.values().map(|r| r.level).max().unwrap_or(0), self.cols.values().map(|c| c.level).max().unwrap_or(0));
            ensure!(pr.a("outlineLevelRow").unwrap_or("0") == mr.to_string(), "outlineLevelRow {:?}, deepest {mr}", pr.a("outlineLevelRow"));
            ensure!(pr.a("outlineLevelCol").unwrap_or("0") == mc.to_string(), "outlineLevelCol {:?}, deepest {mc}", pr.a("outlineLevelCol"));
            let op = sh.path(&["sheetPr", "outlinePr"]);
            ensure!(op.and_then(|o| o.a("summaryBelow")).unwrap_or("1") == if self.above { "0" } else { "1" }, "summaryBelow");
            ensure!(op.and_then(|o| o.a("summaryRight")).unwrap_or("1") == if self.left { "0" } else { "1" }, "summaryRight");
        }
        // rows
        let mut seen: BTreeMap<u32, Row> = BTreeMap::new();
        let mut spans: BTreeMap<u32, Option<(u32, u32)>> = BTreeMap::new();
        for r in sh.get("sheetData").ok_or("no sheetData")?.all("row") {
            let n: u32 = r.a("r").unwrap_or("").parse().map_err(|_| "row number")?;
            let h: Option<f64> = match r.a("ht") { Some(t) => Some(t.parse().map_err(|_| "ht")?), None => None };
            ensure!(flag(r, "customHeight") == h.is_some(), "row {n}: height {h:?} customHeight {:?}", r.a("customHeight"));
            let level = r.a("outlineLevel").unwrap_or("0").parse().map_err(|_| "level")?;
            let row = Row { h, hidden: flag(r, "hidden"), fmt: if flag(r, "customFormat") { kind(r.a("s"))? } else { 0 }, level, collapsed: flag(r, "collapsed") };
            ensure!(seen.insert(n - 1, row).is_none(), "row {n} twice");
            if let Some(s) = r.a("spans") {
                let (x, y) = s.split_once(':').ok_or("spans")?;
                spans.insert(n - 1, Some((x.parse().map_err(|_| "span")?, y.parse().map_err(|_| "span")?)));
            } else { spans.insert(n - 1, None); }
        }
        let all: std::collections::BTreeSet<u32> = seen.keys().chain(self.rows.keys()).copied().chain(self.cells.iter().filter(|c| *c.1).map(|c| c.0 .0)).collect();
        for r in all {
            let none = Row::default();
            let (g, w) = (seen.get(&r).unwrap_or(&none), self.rows.get(&r).unwrap_or(&none));
            if groups {
                ensure!(g.level == w.level && g.collapsed == w.collapsed && g.hidden == w.hidden, "row {r}: {g:?}, want {w:?}");
            } else {
                ensure!(g.h.unwrap_or(def) == w.h.unwrap_or(self.def), "row {r}: height {:?} (default {def}), want {w:?} (default {})", g.h, self.def);
                ensure!(g.hidden == w.hidden && g.fmt == w.fmt, "row {r}: {g:?}, want {w:?}");
            }
        }
        for ((r, c), w) in &self.cells { if *w { ensure!(b.cells(0)?.contains_key(&(*r, u32::from(*c))), "cell {r},{c} is missing"); } }
        // columns
        let mut got: BTreeMap<u32, Col> = BTreeMap::new();
        if let Some(cs) = sh.get("cols") {
            let mut last = 0;
            for c in cs.all("col") {
                let n = |k: &str| -> Result<u32, String> { c.a(k).unwrap_or("").parse().map_err(|_| format!("col {k}")) };
                let (x, y) = (n("min")?, n("max")?);
                ensure!(x > last && y >= x && y <= 16_384, "column records {x}..{y} after {last}");
                last = y;
                let w: f64 = c.a("width").unwrap_or("").parse().map_err(|_| "width")?;
                ensure!(w.is_finite() && w >= 0.0, "width {w}");
                for k in x..=y { got.insert(k - 1, Col { w, user: 0.0, hidden: flag(c, "hidden"), fmt: kind(c.a("style"))?, level: c.a("outlineLevel").unwrap_or("0").parse().map_err(|_| "level")?, collapsed: flag(c, "collapsed"), auto: flag(c, "bestFit") }); }
                if w != 9.140625 && !groups { ensure!(flag(c, "customWidth"), "columns {x}..{y}: width {w} isn't custom"); }
            }
            ensure!(last > 0, "empty cols");
        }
        let all: std::collections::BTreeSet<u32> = got.keys().copied().chain(self.cols.keys().map(|c| u32::from(*c))).collect();
        for c in all {
            let none = Col { w: 9.140625, ..Col::default() };
            let (g, w) = (got.get(&c).unwrap_or(&none), self.cols.get(&(c as u16)).cloned().unwrap_or_default());
            if groups {
                ensure!(g.level == w.level && g.collapsed == w.collapsed && g.hidden == w.hidden, "column {c}: {g:?}, want {w:?}");
            } else {
                ensure!(g.hidden == w.hidden && g.fmt == w.fmt && g.auto == w.auto, "column {c}: {g:?}, want {w:?}");
                let want = if w.hidden && w.w == 8.43 { 0 } else { px_of_chars(w.w) };
                ensure!(px_of_file(g.w) == want, "column {c}: {} shows {} pixels, want {want} for {}", g.w, px_of_file(g.w), w.w);
            }
        }
        // spans: the smallest interval around the cells of each block of 16 rows
        if groups {
            let mut blocks: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
            for (r, c) in self.cells.keys() { let c = u32::from(*c) + 1; let e = blocks.entry(r / 16).or_insert((c, c)); e.0 = e.0.min(c); e.1 = e.1.max(c); }
            for (r, s) in &spans { ensure!(*s == blocks.get(&(r / 16)).copied(), "row {r}: span {s:?}, cells {:?}", blocks.get(&(r / 16))); }
        }
        Ok(())
    }
}
pub fn go(w: &mut Worksheet, op: &Op) -> Result<(), XlsxError> {
    match op {
        Op::Height(r, h) => w.set_row_height(*r, *h).map(|_| ()), Op::HeightPx(r, p) => w.set_row_height_pixels(*r, *p).map(|_| ()),
        Op::Hide(r) => w.set_row_hidden(*r).map(|_| ()), Op::Unhide(r) => w.set_row_unhidden(*r).map(|_| ()), Op::RowFmt(r, k) => w.set_row_format(*r, &fmt(*k)).map(|_| ()),
        Op::Default(h) => { w.set_default_row_height(*h); Ok(()) } Op::DefaultPx(p) => { w.set_default_row_height_pixels(*p); Ok(()) } Op::HideUnused(b) => { w.hide_unused_rows(*b); Ok(()) }
        Op::Width(c, x) => w.set_column_width(*c, *x).map(|_| ()), Op::WidthPx(c, p) => w.set_column_width_pixels(*c, *p).map(|_| ()),
        Op::RangeW(a, b, x) => w.set_column_range_width(*a, *b, *x).map(|_| ()), Op::RangePx(a, b, p) => w.set_column_range_width_pixels(*a, *b, *p).map(|_| ()),
        Op::HideCol(c) => w.set_column_hidden(*c).map(|_| ()), Op::RangeHide(a, b) => w.set_column_range_hidden(*a, *b).map(|_| ()),
        Op::ColFmt(c, k) => w.set_column_format(*c, &fmt(*k)).map(|_| ()), Op::AutoW(c, p) => w.set_column_autofit_width(*c, *p).map(|_| ()),
        Op::GroupRows(a, b, k) => if *k { w.group_rows_collapsed(*a, *b).map(|_| ()) } else { w.group_rows(*a, *b).map(|_| ()) },
        Op::GroupCols(a, b, k) => if *k { w.group_columns_collapsed(*a, *b).map(|_| ()) } else { w.group_columns(*a, *b).map(|_| ()) },
        Op::Above(b) => { w.group_symbols_above(*b); Ok(()) } Op::Left(b) => { w.group_symbols_to_left(*b); Ok(()) }
        Op::Cell(r, c) => w.write(*r, *c, 1).map(|_| ()), Op::Note(r, c) => w.insert_note(*r, *c, &Note::new("n")).map(|_| ()),
    }
}
pub fn rand_op(g: &mut Rng, groups: bool) -> Op {
    let r = |g: &mut Rng| if g.chance(1, if groups { 80 } else { 14 }) { *g.pick(&[1_048_574u32, 1_048_575, 1_048_576, 4_294_967_295]) } else if groups && g.chance(1, 3) { g.below(40) as u32 } else { g.below(8) as u32 };
    let c = |g: &mut Rng| if g.chance(1, 12) { *g.pick(&[16_382u16, 16_383, 16_384, 65_535]) } else { g.below(8) as u16 };
    let h = |g: &mut Rng| *g.pick(&[0.0, 15.0, 20.0, 30.0, 0.75, 12.75, 409.5, 15.5]);
    let w = |g: &mut Rng| *g.pick(&[0.0, 0.5, 0.08, 1.0, 1.5, 8.43, 10.0, 20.0, 25.3, 255.0, 300.0]);
    let p = |g: &mut Rng| *g.pick(&[0u16, 1, 5, 11, 12, 13, 20, 24, 64, 65, 100, 1790, 2000]);
    let k = |g: &mut Rng| 1 + g.below(3) as u8;
    let span = |g: &mut Rng| { let a = c(g); (a, if g.chance(1, 10) { c(g) } else { a.saturating_add(g.below(4) as u16) }) };
    match g.below(if groups { 14 } else { 20 }) {
        0 => Op::Height(r(g), h(g)), 1 => Op::RowFmt(r(g), k(g)), 2 => Op::Cell(r(g), c(g)), 3 => Op::WidthPx(c(g), p(g)), 4 => Op::Hide(r(g)), 5 => Op::HideCol(c(g)),
        6 | 13 if groups => { let a = r(g); let b = if g.chance(1, 10) { r(g) } else { a.saturating_add(g.below(6) as u32) }; Op::GroupRows(a, b, g.bits()) }
        7 | 12 if groups => { let (a, b) = span(g); Op::GroupCols(a, b, g.bits()) }
        8 if groups => Op::Above(g.bits()), 9 if groups => Op::Left(g.bits()), 10 if groups => Op::Note(r(g), c(g)), 11 if groups => Op::Cell(r(g), c(g)),
        6 => Op::HeightPx(r(g), p(g)), 7 => Op::Unhide(r(g)), 8 => Op::Default(h(g)), 9 => Op::DefaultPx(p(g)), 10 => Op::HideUnused(g.bits()),
        11 => Op::Width(c(g), w(g)), 12 => { let (a, b) = span(g); Op::RangeW(a, b, w(g)) } 13 => { let (a, b) = span(g); Op::RangePx(a, b, p(g)) } 14 => { let (a, b) = span(g); Op::RangeHide(a, b) }
        15 => Op::ColFmt(c(g), k(g)), 16 => Op::AutoW(c(g), p(g)), 17 => Op::Width(c(g), w(g)), 18 => Op::Height(r(g), h(g)), _ => Op::Cell(r(g), c(g)),
    }
}
pub fn run(run: &mut Run, groups: bool) {
    let mut g = run.rng(if groups { 26 } else { 12 });
    for _ in 0..run.n(700, 8000) {
        let mut ops: Vec<Op> = (0..1 + g.below(if groups { 20 } else { 14 })).map(|_| rand_op(&mut g, groups)).collect();
        if groups && g.chance(1, 3) { let k = g.bits(); for _ in 0..g.below(9) { ops.push(if g.bits() { Op::GroupRows(2, 5, k) } else { Op::GroupCols(2, 4, k) }); } ops.push(Op::GroupRows(0, 3, k)); ops.push(Op::GroupCols(0, 3, k)); }
        run.case("history", &format!("{ops:?}"), || {
            let (mut wb, mut clean) = (Workbook::new(), Workbook::new());
            let (w, w2) = (wb.add_worksheet(), clean.add_worksheet());
            let mut m = M::new();
            let mut bad = false;
            for op in &ops {
                // a rejected range width has no documented effect on the part inside the limits
                if matches!(op, Op::RangeW(a, b, _) | Op::RangePx(a, b, _) | Op::RangeHide(a, b) if a <= b && *b >= 16_384) { continue; }
                let ok = m.ok(op);
                let r = go(w, op);
                ensure!(r.is_ok() == ok, "{op:?}: accepted={} {:?}", r.is_ok(), r.err());
                if ok { m.add(op); go(w2, op).map_err(|e| e.to_string())?; } else { bad = true; }
            }
            let a = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            m.check(&a, groups)?;
            if bad { same_file(&a, &Book::open(&clean.save_to_buffer().map_err(|e| e.to_string())?)?).map_err(|e| format!("a rejected call changed the file: {e}"))?; }
            Ok(())
        });
    }
    if groups {
        for r in [0u32, 14, 15, 16, 17, 31, 32, 1_048_559, 1_048_560, 1_048_575] { for d in [0u32, 1, 15, 16] { for c in [0u16, 25, 26, 16_383] {
            let ops = vec![Op::Cell(r, c), Op::Cell((r + d).min(1_048_575), 5), Op::Note(r, 3)];
            run.case("spans", &format!("{ops:?}"), || {
                let mut wb = Workbook::new();
                let w = wb.add_worksheet();
                let mut m = M::new();
                for op in &ops { go(w, op).map_err(|e| e.to_string())?; m.add(op); }
                m.check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, true)
            });
        } } }
        return;
    }
    // every pixel width and height
    for base in (0..1791u32).step_by(64) {
        run.case("pixels", &format!("widths and heights {base}.."), || {
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            for i in 0..64u16 { let p = base as u16 + i; w.set_column_width_pixels(i, p).unwrap(); w.set_row_height_pixels(u32::from(i), p).unwrap(); }
            let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            let sh = b.sheet(0);
            for c in sh.get("cols").ok_or("cols")?.all("col") {
                let n: u32 = c.a("min").unwrap().parse().unwrap();
                let m: u32 = c.a("max").unwrap().parse().unwrap();
                let wd: f64 = c.a("width").unwrap().parse().map_err(|_| "width")?;
                for k in n..=m { let p = i64::from(base + k - 1); ensure!(px_of_file(wd) == p.min(1790), "{p} pixels is width {wd} which shows {} pixels", px_of_file(wd)); }
            }
            for r in sh.get("sheetData").unwrap().all("row") {
                let n: u32 = r.a("r").unwrap().parse().unwrap();
                let h: f64 = r.a("ht").unwrap_or("15").parse().map_err(|_| "ht")?;
                let p = base + n - 1;
                ensure!(p == 0 || h * 4.0 / 3.0 == f64::from(p), "{p} pixels is height {h}");
            }
            Ok(())
        });
    }
    run.exhaustive.push("every pixel width and height from 0 to 1790".into());
}
