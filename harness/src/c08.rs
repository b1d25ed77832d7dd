//! C08 executable contract: the style of a cell, row or column is the format it was given.
use crate::common::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::HashSet;

/// a format that differs from `f` in little
fn near(g: &mut Rng, f: &FmtSpec) -> FmtSpec {
    let mut h = f.clone();
    match g.below(12) {
        0 => h.bold = !h.bold, 1 => h.italic = !h.italic, 2 => h.unlocked = !h.unlocked, 3 => h.hidden = !h.hidden, 4 => h.wrap = !h.wrap, 5 => h.quote = !h.quote,
        6 => { let i = g.below(5) as usize; h.border[i].0 = (h.border[i].0 + 1) % 14; if i == 4 && h.diag == 0 { h.diag = 1; } }
        7 => { h.fg = match h.fg { None => Some(0xFF0000), Some(c) => Some(c ^ 1) } }
        8 => h.num = if h.num == Num::Id(2) { Num::Text("0.00".into()) } else { Num::Id(2) },
        9 => h.color = match h.color { None => Some(1), Some(c) => Some(c ^ 0x100) },
        10 => { h.border.swap(0, 1); }
        _ => { let c = h.fg; h.fg = h.bg; h.bg = c; }
    }
    h
}
fn cells_only(op: &Op) -> bool { !matches!(op, Op::RowFmt(..) | Op::ColFmt(..) | Op::ClearFmt(..)) }
pub fn run(run: &mut Run) {
    let mut g = run.rng(8);
    for k in 0..run.n(1500, 6000) {
        let mut fmts: Vec<FmtSpec> = (0..1 + g.below(3)).map(|_| FmtSpec::random(&mut g)).collect();
        for _ in 0..g.below(6) { let f = g.pick(&fmts).clone(); fmts.push(near(&mut g, &f)); }
        let rowcol = k % 2 == 1;
        if rowcol { fmts.retain(|f| f.shown() != FmtSpec::default()); if fmts.is_empty() { fmts.push(FmtSpec { italic: true, ..FmtSpec::default() }); } }
        let cfg = Cfg { rows: vec![0, 1, 2, 3], cols: vec![0, 1, 2, 3, 4], fmts, strings: vec!["a".into(), "b".into(), "".into()], kinds: vec![0, 1, 2, 3, 4, 5, 6], rowcol, wfmt: 7 };
        let ns = 1 + g.below(3) as usize;
        let mode = g.below(3);
        let mut ops: Vec<(usize, Op)> = vec![];
        if rowcol { for _ in 0..1 + g.below(6) {
            let i = g.below(ns as u64) as usize;
            let f = g.pick(&cfg.fmts).clone();
            ops.push((i, match g.below(4) { 0 | 1 => Op::RowFmt(*g.pick(&cfg.rows), f), 2 => Op::ColFmt(*g.pick(&cfg.cols), f), _ => if g.bits() { Op::Height(*g.pick(&cfg.rows), 30.0) } else { Op::Width(*g.pick(&cfg.cols), 20.0) } }));
        } }
        for _ in 0..3 + g.below(25) { let op = cfg.op(&mut g); if cells_only(&op) || !rowcol { ops.push((g.below(ns as u64) as usize, op)); } }
        let twice = g.chance(1, 4);
        run.case("history", &format!("{ns} sheets mode {mode} twice {twice} {ops:?}"), || {
            let mut wb = Workbook::new();
            let mut m = vec![Model::default(); ns];
            let mut pushed: Vec<Worksheet> = (0..ns).map(|_| Worksheet::new()).collect();
            for i in 0..ns { if mode == 0 || (mode == 1 && i == 0) { wb.add_worksheet(); } }
            for (i, op) in &ops {
                let w = if mode == 0 || (mode == 1 && *i == 0) { wb.worksheet_from_index(*i).map_err(|e| e.to_string())? } else { &mut pushed[*i] };
                apply(w, op)?;
                m[*i].apply(op);
            }
            for (i, w) in pushed.into_iter().enumerate() { if !(mode == 0 || (mode == 1 && i == 0)) { wb.push_worksheet(w); } }
            for _ in 0..1 + u8::from(twice) {
                let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
                for i in 0..ns { m[i].check(&b, i, true).map_err(|e| format!("sheet {i}: {e}"))?; }
                let st = Sheetstyles::parse(&b)?;
                // sharing: no more records than formats the user made, plus the combined ones
                let mut used: HashSet<FmtSpec> = HashSet::new();
                used.insert(FmtSpec::default());
                for (_, op) in &ops { match op {
                    Op::Write(_, _, _, Some(f)) | Op::Row(_, _, _, Some(f)) | Op::Col(_, _, _, Some(f)) | Op::Array(_, _, _, _, _, _, Some(f)) | Op::SetFmt(_, _, f) | Op::RangeFmt(_, _, _, _, f) | Op::RowFmt(_, f) | Op::ColFmt(_, f) => { used.insert(f.clone()); }
                    _ => {}
                } }
                let mut comb = 0;
                for x in &m { comb += x.rowf.len() * x.colf.len(); }
                ensure!(st.xfs.len() <= used.len() + comb + 1, "{} style records for {} formats", st.xfs.len(), used.len() + comb);
                if comb == 0 { let mut seen = HashSet::new(); for (i, x) in st.xfs.iter().enumerate() { if !seen.insert(st.raw[i].clone()) { let n = used.iter().filter(|f| f.shown() == *x).count(); ensure!(n > 1 || *x == FmtSpec::default(), "two equal style records: {}", x.diff()); } } }
            }
            Ok(())
        });
    }
    // every format kept apart: pairs of formats that differ in exactly one property, written in both orders
    let base: Vec<FmtSpec> = (0..run.n(6, 60)).map(|_| FmtSpec::random(&mut g)).collect();
    for b in &base { for _ in 0..run.n(12, 40) {
        let n = near(&mut g, b);
        run.case("pair", &format!("{:?} / {:?}", b, n), || {
            for sw in [false, true] {
                let (x, y) = if sw { (&n, b) } else { (b, &n) };
                let mut wb = Workbook::new();
                let w = wb.add_worksheet();
                w.write_with_format(0, 0, 1, &x.build()).map_err(|e| e.to_string())?;
                w.write_with_format(1, 0, 1, &y.build()).map_err(|e| e.to_string())?;
                w.write_with_format(2, 0, 1, &x.build()).map_err(|e| e.to_string())?;
                w.merge_range(4, 0, 5, 1, "m", &y.build()).map_err(|e| e.to_string())?;
                w.write_formula_with_format(6, 0, "=SORT(A1:A3)", &y.build()).map_err(|e| e.to_string())?;
                w.write_url_with_format(7, 0, "http://x.y", &y.build()).map_err(|e| e.to_string())?;
                w.set_range_format_with_border(9, 0, 11, 2, &y.build(), &Format::new().set_border(FormatBorder::Thick)).map_err(|e| e.to_string())?;
                let bk = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
                let st = Sheetstyles::parse(&bk)?;
                let cells = bk.cells(0)?;
                let fmt = |r: u32, c: u32| -> Result<FmtSpec, String> { Ok(match cells.get(&(r, c)) { Some(x) => st.get(x.s)?.shown_file(), None => FmtSpec::default() }) };
                for (r, c, want) in [(0, 0, x), (1, 0, y), (2, 0, x), (4, 0, y), (4, 1, y), (5, 0, y), (5, 1, y), (6, 0, y), (7, 0, y), (10, 1, y)] {
                    ensure!(fmt(r, c)? == want.shown(), "cell ({r},{c}) has {} instead of {}", fmt(r, c)?.diff(), want.shown().diff());
                }
                for (r, c, sides) in [(9u32, 0u32, [1, 0, 1, 0]), (9, 1, [0, 0, 1, 0]), (9, 2, [0, 1, 1, 0]), (10, 0, [1, 0, 0, 0]), (10, 2, [0, 1, 0, 0]), (11, 0, [1, 0, 0, 1]), (11, 1, [0, 0, 0, 1]), (11, 2, [0, 1, 0, 1])] {
                    let mut f = y.clone();
                    for i in 0..4 { if sides[i] == 1 { f.border[i] = (5, None); } }
                    let mut got = fmt(r, c)?;
                    for i in 0..4 { if sides[i] == 1 { got.border[i].1 = None; } }
                    ensure!(got == f.shown(), "bordered range cell ({r},{c}) has {} instead of {}", got.diff(), f.shown().diff());
                }
            }
            Ok(())
        });
    } }
    // a property that is set and unset again is not set
    run.case("unset", "every unset method", || {
        let f = |a: Format| a;
        let pairs: Vec<(&str, Format, Format)> = vec![
            ("bold", f(Format::new().set_italic().set_bold().unset_bold()), Format::new().set_italic()),
            ("italic", f(Format::new().set_bold().set_italic().unset_italic()), Format::new().set_bold()),
            ("strikethrough", f(Format::new().set_bold().set_font_strikethrough().unset_font_strikethrough()), Format::new().set_bold()),
            ("text wrap", f(Format::new().set_bold().set_text_wrap().unset_text_wrap()), Format::new().set_bold()),
            ("shrink", f(Format::new().set_bold().set_shrink().unset_shrink()), Format::new().set_bold()),
            ("locked", f(Format::new().set_bold().set_unlocked().set_locked()), Format::new().set_bold()),
            ("hidden", f(Format::new().set_bold().set_hidden().unset_hidden()), Format::new().set_bold()),
            ("quote prefix", f(Format::new().set_bold().set_quote_prefix().unset_quote_prefix()), Format::new().set_bold()),
        ];
        for (n, a, b) in pairs {
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            w.write_with_format(0, 0, 1, &a).map_err(|e| e.to_string())?;
            w.write_with_format(1, 0, 1, &b).map_err(|e| e.to_string())?;
            let cells = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?.cells(0)?;
            ensure!(cells[&(0, 0)].s == cells[&(1, 0)].s, "{n} is still set after it was unset");
        }
        let mut wb = Workbook::new();
        wb.add_worksheet().write_with_format(0, 0, 1, &Format::new().set_hyperlink().unset_hyperlink_style()).map_err(|e| e.to_string())?;
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        for x in b.xml["xl/styles.xml"].get("cellXfs").ok_or("no records")?.els() { ensure!(x.a("xfId") == Some("0"), "a cell still has the hyperlink style after it was unset"); }
        Ok(())
    });
    // conditional formats and tables refer to their own differential formats, on any mix of sheets
    for _ in 0..run.n(60, 1000) {
        let n = 1 + g.below(8) as usize;
        let spec: Vec<(usize, u32, bool, bool, Option<&str>, bool)> = (0..n).map(|_| (g.below(3) as usize, [0xFF0000u32, 0x00FF00, 0x0000FF, 0x123456][g.below(4) as usize], g.bits(), g.bits(), *g.pick(&[None, Some("0.000"), Some("0.00"), Some("yyyy")]), g.chance(1, 4))).collect();
        run.case("dxf", &format!("{spec:?}"), || {
            let mut wb = Workbook::new();
            for _ in 0..3 { wb.add_worksheet(); }
            wb.worksheet_from_index(1).unwrap().write_with_format(0, 50, 1, &Format::new().set_num_format("0.000")).unwrap();
            let mut tables = vec![];
            for (i, (s, c, bold, border, num, table)) in spec.iter().enumerate() {
                let mut f = Format::new().set_background_color(Color::RGB(*c));
                if *bold { f = f.set_bold(); }
                if *border { f = f.set_border(FormatBorder::Thin); }
                if let Some(t) = num { f = f.set_num_format(*t); }
                let w = wb.worksheet_from_index(*s).map_err(|e| e.to_string())?;
                if *table {
                    let cols = vec![TableColumn::new().set_format(&f), TableColumn::new()];
                    w.add_table(20 * i as u32, 5, 20 * i as u32 + 4, 6, &Table::new().set_columns(&cols)).map_err(|e| e.to_string())?;
                    tables.push(i);
                } else {
                    w.add_conditional_format(i as u32, 0, i as u32, 3, &ConditionalFormatBlank::new().set_format(f)).map_err(|e| e.to_string())?;
                }
            }
            let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            let st = Sheetstyles::parse(&b)?;
            let check = |id: Option<&str>, k: usize| -> Result<(), String> {
                let (_, c, bold, border, num, _) = &spec[k];
                let id: usize = id.and_then(|x| x.parse().ok()).ok_or("no dxfId")?;
                let d = st.dxfs.get(id).ok_or(format!("dxfId {id} of {}", st.dxfs.len()))?;
                let col = d.path(&["fill", "patternFill", "bgColor"]).or(d.path(&["fill", "patternFill", "fgColor"])).and_then(|e| e.a("rgb")).unwrap_or("");
                ensure!(col == format!("FF{c:06X}"), "rule {k} has colour {col} instead of {c:06X}");
                ensure!(d.path(&["font", "b"]).is_some() == *bold, "rule {k}: bold {bold} not kept");
                ensure!(d.get("border").is_some() == *border, "rule {k}: border {border} not kept");
                ensure!(d.get("numFmt").and_then(|e| e.a("formatCode")) == *num || (num == &Some("0.00") && d.get("numFmt").is_some()), "rule {k}: number format {num:?} not kept: {:?}", d.get("numFmt"));
                Ok(())
            };
            for s in 0..3 { for cf in b.sheet(s).all("conditionalFormatting") {
                let k = a1_decode(cf.a("sqref").unwrap_or("").split(':').next().unwrap_or("")).ok_or("sqref")?.0 as usize;
                ensure!(spec[k].0 == s, "rule {k} on the wrong sheet");
                check(cf.get("cfRule").and_then(|r| r.a("dxfId")), k)?;
            } }
            let nt = b.xml.keys().filter(|p| p.starts_with("xl/tables/")).count();
            ensure!(nt == tables.len(), "tables");
            for (_, x) in b.xml.iter().filter(|(p, _)| p.starts_with("xl/tables/")) {
                let r0 = a1_decode(x.a("ref").unwrap_or("").split(':').next().unwrap_or("")).ok_or("ref")?.0 as usize;
                let col = x.get("tableColumns").and_then(|t| t.get("tableColumn")).ok_or("no column")?;
                check(col.a("dataDxfId"), r0 / 20)?;
            }
            Ok(())
        });
    }
}
