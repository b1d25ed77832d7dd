//! C07 executable contract: the cell grid.
use crate::common::*;
use crate::fmt::*;
use crate::model::*;
use crate::xl::*;
use rust_xlsxwriter::*;

pub fn strings(g: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = NASTY.iter().map(|s| s.to_string()).collect();
    for _ in 0..n { v.push(rand_string(g, 12)); }
    v
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(7);
    for k in 0..run.n(700, 8000) {
        let nf = 1 + g.below(4);
        let big = k % 10 == 9;
        let cfg = Cfg {
            rows: if big { vec![0, 15, 16, 17, 31, 32, 1000, 1_048_574, 1_048_575] } else { vec![0, 1, 2, 3] },
            cols: if big { vec![0, 1, 25, 26, 701, 702, 16_382, 16_383] } else { vec![0, 1, 2, 3] },
            fmts: (0..nf).map(|_| FmtSpec::random(&mut g)).collect(), strings: strings(&mut g, 10), kinds: vec![0, 0, 1, 1, 2, 3, 4, 5, 6], rowcol: k % 3 == 2, wfmt: 3,
        };
        let ops: Vec<Op> = (0..4 + g.below(25)).map(|_| cfg.op(&mut g)).collect();
        run.case("history", &format!("{ops:?}"), || {
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            let mut m = Model::default();
            for op in &ops { apply(w, op)?; m.apply(op); }
            let a = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            m.check(&a, 0, true)?;
            if ops.iter().any(|o| matches!(o, Op::Bad(_))) {
                // without the rejected calls the file is the same
                let mut wb = Workbook::new();
                let w = wb.add_worksheet();
                for op in &ops { if !matches!(op, Op::Bad(_)) { apply(w, op)?; } }
                same_file(&a, &Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?).map_err(|e| format!("a rejected call changed the file: {e}"))?;
            }
            Ok(())
        });
    }
    // every rejected call, alone and after a cell
    for k in 0..NBAD as u8 {
        for pre in [false, true] {
            run.case("rejected", &format!("call {k} pre={pre}"), || {
                let go = |bad_: bool| -> Result<Book, String> {
                    let mut wb = Workbook::new();
                    let w = wb.add_worksheet();
                    if pre { w.write(2, 1, 5).unwrap(); }
                    if bad_ { bad(w, k)?; }
                    if pre { w.write(3, 2, "x").unwrap(); }
                    Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)
                };
                same_file(&go(true)?, &go(false)?)
            });
        }
    }
    run.exhaustive.push("every kind of rejected write".into());
    // limits: exactly the last row and column are accepted, strings of exactly 32767 characters too
    run.case("limits", "last cell and longest string", || {
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        let s: String = "é".repeat(32_767);
        w.write(1_048_575, 16_383, 1).map_err(|e| e.to_string())?;
        w.write(0, 16_383, s.as_str()).map_err(|e| e.to_string())?;
        w.write_rich_string(1_048_575, 0, &[(&Format::new(), &s[..s.len() - 2]), (&Format::new().set_bold(), "z")]).map_err(|e| e.to_string())?;
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        let c = b.cells(0)?;
        crate::ensure!(c.len() == 3 && c[&(1_048_575, 16_383)].v == Val::Num("1".into()) && c[&(0, 16_383)].v == Val::Str(s.clone()), "limit cells wrong");
        Ok(())
    });
}
