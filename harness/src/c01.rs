//! C01 executable contract: A1 references.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::utility::*;
use rust_xlsxwriter::*;

fn abs(c: &str, r: u32) -> String { format!("${c}${}", r + 1) }

pub fn run(run: &mut Run) {
    let cols = all_columns(16_384);
    let rows = [0u32, 1, 8, 9, 10, 98, 99, 100, 998, 999, 1000, 9_999, 10_000, 65_535, 99_999, 1_048_574, 1_048_575];
    for (c, name) in cols.iter().enumerate() {
        let c = c as u16;
        run.case("column_name", &format!("col={c}"), || {
            ensure!(column_number_to_name(c) == *name, "column_number_to_name({c}) = {:?}, expected {name:?}", column_number_to_name(c));
            ensure!(column_name_to_number(name) == c, "column_name_to_number({name:?}) = {}, expected {c}", column_name_to_number(name));
            for r in [rows[c as usize % rows.len()], (u32::from(c) * 64 + 63) % 1_048_576] {
                ensure!(row_col_to_cell(r, c) == format!("{name}{}", r + 1), "row_col_to_cell({r},{c}) = {:?}", row_col_to_cell(r, c));
                ensure!(row_col_to_cell_absolute(r, c) == abs(name, r), "row_col_to_cell_absolute({r},{c}) = {:?}", row_col_to_cell_absolute(r, c));
            }
            Ok(())
        });
    }
    run.exhaustive.push("all 16384 columns".into());
    let mut g = run.rng(1);
    let pt = |g: &mut Rng| -> (u32, u16) {
        let r = if g.bits() { *g.pick(&rows) } else { g.below(1_048_576) as u32 };
        let c = if g.bits() { *g.pick(&[0u16, 1, 24, 25, 26, 27, 51, 52, 675, 676, 701, 702, 703, 16_383]) } else { g.below(16_384) as u16 };
        (r, c)
    };
    for _ in 0..run.n(20_000, 400_000) {
        let (r1, c1) = pt(&mut g);
        let (r2, c2) = match g.below(4) { 0 => (r1, c1), 1 => (r1, pt(&mut g).1), 2 => (pt(&mut g).0, c1), _ => pt(&mut g) };
        run.case("range", &format!("({r1},{c1})-({r2},{c2})"), || {
            let (a, b) = (format!("{}{}", cols[c1 as usize], r1 + 1), format!("{}{}", cols[c2 as usize], r2 + 1));
            let want = if (r1, c1) == (r2, c2) { a } else { format!("{a}:{b}") };
            ensure!(cell_range(r1, c1, r2, c2) == want, "cell_range = {:?}, expected {want:?}", cell_range(r1, c1, r2, c2));
            let (a, b) = (abs(&cols[c1 as usize], r1), abs(&cols[c2 as usize], r2));
            let want = if (r1, c1) == (r2, c2) { a } else { format!("{a}:{b}") };
            ensure!(cell_range_absolute(r1, c1, r2, c2) == want, "cell_range_absolute = {:?}, expected {want:?}", cell_range_absolute(r1, c1, r2, c2));
            let w = format!("Sheet1!{}", cell_range(r1, c1, r2, c2));
            ensure!(worksheet_range("Sheet1", r1, c1, r2, c2) == w, "worksheet_range = {:?}", worksheet_range("Sheet1", r1, c1, r2, c2));
            let w = format!("Sheet1!{want}");
            ensure!(worksheet_range_absolute("Sheet1", r1, c1, r2, c2) == w, "worksheet_range_absolute = {:?}", worksheet_range_absolute("Sheet1", r1, c1, r2, c2));
            Ok(())
        });
    }
    // the reference written in the file for a cell is the reference of that cell
    for k in 0..run.n(6, 40) {
        let cells: Vec<(u32, u16)> = if k == 0 {
            (0..16_384u16).map(|c| (0, c)).collect()
        } else {
            let mut s = std::collections::BTreeSet::new();
            while s.len() < 400 { s.insert(pt(&mut g)); }
            s.into_iter().collect()
        };
        let d = format!("workbook with {} numbered cells, first {:?} last {:?}", cells.len(), cells[0], cells[cells.len() - 1]);
        run.case("file_refs", &d, || {
            let mut wb = Workbook::new();
            let ws = wb.add_worksheet();
            for (i, (r, c)) in cells.iter().enumerate() { ws.write_number(*r, *c, i as f64).map_err(|e| e.to_string())?; }
            let (lr, lc) = cells[cells.len() / 2];
            if lr < 1_048_575 && lc < 16_383 {
                ws.merge_range(lr, lc, lr + 1, lc + 1, "", &Format::new()).map_err(|e| e.to_string())?;
            }
            let book = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            let got = book.cells(0)?;
            for (i, (r, c)) in cells.iter().enumerate() {
                if lr <= *r && *r <= lr + 1 && lc <= *c && *c <= lc + 1 { continue; }
                match got.get(&(*r, u32::from(*c))) {
                    Some(Cell { v: Val::Num(n), .. }) if *n == i.to_string() => {}
                    o => return Err(format!("cell ({r},{c}) should hold {i}, file has {o:?}")),
                }
            }
            let (r0, c0) = (cells.iter().map(|c| c.0).min().unwrap(), cells.iter().map(|c| c.1).min().unwrap());
            let (mut r9, mut c9) = (cells.iter().map(|c| c.0).max().unwrap(), cells.iter().map(|c| c.1).max().unwrap());
            if lr < 1_048_575 && lc < 16_383 {
                let want = format!("{}{}:{}{}", cols[lc as usize], lr + 1, cols[lc as usize + 1], lr + 2);
                let m = book.sheet(0).path(&["mergeCells", "mergeCell"]).and_then(|e| e.a("ref")).unwrap_or("").to_string();
                ensure!(m == want, "mergeCell ref {m:?}, expected {want:?}");
                r9 = r9.max(lr + 1); c9 = c9.max(lc + 1);
            }
            let want = format!("{}{}:{}{}", cols[c0 as usize], r0 + 1, cols[c9 as usize], r9 + 1);
            let dim = book.sheet(0).get("dimension").and_then(|e| e.a("ref")).unwrap_or("").to_string();
            ensure!(dim == want || (r0, c0) == (r9, c9), "dimension {dim:?}, expected {want:?}");
            Ok(())
        });
    }
}
