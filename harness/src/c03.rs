//! C03 executable contract: strings are read back exactly and share entries.
use crate::common::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, HashSet};

/// the shared string table: consistent counts, one entry per text
pub fn check_sst(b: &Book) -> Result<(), String> {
    let Some(x) = b.xml.get("xl/sharedStrings.xml") else { return Ok(()) };
    let si: Vec<&El> = x.all("si").collect();
    ensure!(x.a("uniqueCount") == Some(si.len().to_string().as_str()), "uniqueCount {:?} but {} entries", x.a("uniqueCount"), si.len());
    let count: usize = x.a("count").and_then(|c| c.parse().ok()).unwrap_or(0);
    ensure!(count >= si.len(), "count {count} below the number of entries {}", si.len());
    let mut seen = HashSet::new();
    for s in &si { ensure!(seen.insert(format!("{s:?}")), "two shared strings are the same: {:?}", s); }
    Ok(())
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(3);
    for k in 0..run.n(500, 6000) {
        let n = 3 + g.below(12);
        let mut st: Vec<String> = (0..n).map(|_| if g.bits() { g.pick(NASTY).to_string() } else { rand_string(&mut g, 16) }).collect();
        // near misses: the same text with a blank or an escape more
        for i in 0..3 { let t = st[i].clone(); st.push(format!("{t} ")); st.push(format!(" {t}")); st.push(t.replace('_', "_x005F_")); st.push(format!("<r><t>{t}</t></r>")); }
        let cfg = Cfg { rows: vec![0, 1, 2, 3, 4, 5], cols: vec![0, 1, 2, 3], fmts: vec![FmtSpec::default(), FmtSpec { bold: true, ..FmtSpec::default() }], strings: st, kinds: vec![1, 1, 1, 2], rowcol: false, wfmt: 2 };
        let ns = 1 + g.below(3) as usize;
        let standalone = k % 5 == 4;
        let ops: Vec<(usize, Op)> = (0..5 + g.below(30)).map(|_| (g.below(ns as u64) as usize, cfg.op(&mut g))).collect();
        let again: Vec<(usize, Op)> = if g.chance(1, 3) { (0..1 + g.below(6)).map(|_| (g.below(ns as u64) as usize, cfg.op(&mut g))).collect() } else { vec![] };
        run.case("history", &format!("{ns} sheets {} {ops:?} then {again:?}", if standalone { "pushed" } else { "added" }), || {
            let mut wb = Workbook::new();
            let mut m = vec![Model::default(); ns];
            if standalone {
                let mut ws: Vec<Worksheet> = (0..ns).map(|_| Worksheet::new()).collect();
                for (i, op) in &ops { apply(&mut ws[*i], op)?; m[*i].apply(op); }
                for w in ws { wb.push_worksheet(w); }
            } else {
                for _ in 0..ns { wb.add_worksheet(); }
                for (i, op) in &ops { apply(wb.worksheet_from_index(*i).map_err(|e| e.to_string())?, op)?; m[*i].apply(op); }
            }
            let mut check = |wb: &mut Workbook, m: &[Model]| -> Result<(), String> {
                let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
                for i in 0..ns { m[i].check(&b, i, true).map_err(|e| format!("sheet {i}: {e}"))?; }
                check_sst(&b)
            };
            check(&mut wb, &m)?;
            if !again.is_empty() {
                for (i, op) in &again { apply(wb.worksheet_from_index(*i).map_err(|e| e.to_string())?, op)?; m[*i].apply(op); }
                check(&mut wb, &m).map_err(|e| format!("second save: {e}"))?;
            }
            Ok(())
        });
    }
    // every text alone, in all the ways a text gets into a cell
    let mut texts: Vec<String> = NASTY.iter().filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    for _ in 0..run.n(300, 6000) { let s = rand_string(&mut g, 30); if !s.is_empty() { texts.push(s); } }
    // all short texts over the letters the escape is made of
    let al = ['_', 'x', '0', 'F', 'g', 'é'];
    for n in 0..run.n(2000, 40000) { let l = 1 + g.below(14); let s: String = (0..l).map(|_| *g.pick(&al)).collect(); if n % 3 == 0 { texts.push(format!("_x{s}")); } else { texts.push(s); } }
    for chunk in texts.chunks(40) {
        run.case("ways", &format!("{chunk:?}"), || {
            let mut wb = Workbook::new();
            let mut want: BTreeMap<(u32, u32), Vec<String>> = BTreeMap::new();
            let bold = Format::new().set_bold();
            {
                let w = wb.add_worksheet();
                for (i, s) in chunk.iter().enumerate() {
                    let r = 2 * i as u32;
                    w.write_string(r, 0, s.as_str()).map_err(|e| e.to_string())?;
                    w.write(r, 1, s.as_str()).map_err(|e| e.to_string())?;
                    w.write_with_format(r, 2, s, &bold).map_err(|e| e.to_string())?;
                    w.merge_range(r, 3, r + 1, 4, s, &bold).map_err(|e| e.to_string())?;
                    w.write_rich_string(r, 5, &[(&Format::new(), s), (&bold, s)]).map_err(|e| e.to_string())?;
                    w.write_rich_string(r, 6, &[(&bold, s)]).map_err(|e| e.to_string())?;
                    w.write_url_with_text(r, 7, "http://x.y", s.as_str()).map_err(|e| e.to_string())?;
                    w.write_column(r, 8, [s.as_str()]).map_err(|e| e.to_string())?;
                    w.write(r, 9, Some(s.clone())).map_err(|e| e.to_string())?;
                    for c in [0, 1, 2, 3, 7, 8, 9] { want.insert((r, c), vec![s.clone()]); }
                    want.insert((r, 5), vec![s.clone(), s.clone()]);
                    want.insert((r, 6), vec![s.clone()]);
                }
            }
            let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            check_sst(&b)?;
            let cells = b.cells(0)?;
            for (k, t) in &want {
                match cells.get(k).map(|c| &c.v) {
                    Some(Val::Str(s)) if k.1 != 5 && k.1 != 6 => ensure!(*s == t[0], "cell {k:?}: wrote {:?}, read {s:?}", t[0]),
                    Some(Val::Rich(v, _)) if k.1 == 5 || k.1 == 6 => ensure!(v == t, "rich cell {k:?}: wrote {t:?}, read {v:?}"),
                    o => return Err(format!("cell {k:?}: wrote {t:?}, read {o:?}")),
                }
            }
            Ok(())
        });
    }
    // many distinct strings over several sheets, each with its own entry
    run.case("many", "2000 distinct and 2000 repeated strings on three sheets in alternating order", || {
        let mut wb = Workbook::new();
        for _ in 0..3 { wb.add_worksheet(); }
        for i in 0..2000u32 {
            let s = (i * 7 % 3) as usize;
            wb.worksheet_from_index(s).unwrap().write(i, 0, format!("s{i}")).unwrap();
            wb.worksheet_from_index((s + 1) % 3).unwrap().write(i, 1, format!("s{}", i * 13 % 2000)).unwrap();
        }
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        check_sst(&b)?;
        for s in 0..3usize { for ((r, c), x) in b.cells(s)? {
            let want = if c == 0 { format!("s{r}") } else { format!("s{}", r * 13 % 2000) };
            ensure!(x.v == Val::Str(want.clone()), "cell ({r},{c}) reads {:?}, not {want}", x.v);
        } }
        let n = b.xml["xl/sharedStrings.xml"].all("si").count();
        ensure!(n == 2000, "{n} entries for 2000 texts");
        Ok(())
    });
}
