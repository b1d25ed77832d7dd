//! C09 executable contract: merged ranges and tables never overlap.
use crate::common::*;
use crate::ensure;
use crate::model::{range, same_file};
use crate::xl::*;
use rust_xlsxwriter::*;

pub type R4 = (u32, u16, u32, u16);
#[derive(Clone, Debug)]
enum Op { Merge(R4), Table(R4, bool, bool, bool), Filter(R4), Write(u32, u16) }
fn cross(a: &R4, b: &R4) -> bool { a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3 }
fn inside(a: &R4) -> bool { a.0 < 1_048_576 && a.2 < 1_048_576 && a.1 < 16_384 && a.3 < 16_384 }

/// what a worksheet should have accepted so far
#[derive(Default, Clone)]
struct M { merges: Vec<R4>, tables: Vec<R4>, filter: Option<R4>, table_filters: Vec<R4> }
impl M {
    /// must the request be accepted?
    fn ok(&self, op: &Op) -> bool {
        let free = |r: &R4| inside(r) && r.0 <= r.2 && r.1 <= r.3 && !self.merges.iter().chain(&self.tables).any(|x| cross(x, r));
        match op {
            Op::Merge(r) => free(r) && (r.0, r.1) != (r.2, r.3),
            Op::Table(r, head, total, filter) => free(r) && r.2 - r.0 >= u32::from(*head) + u32::from(*total) && !(*filter && self.filter.is_some_and(|f| cross(&(f.0, f.1, f.0, f.3), &(r.0, r.1, r.0, r.3)))),
            Op::Filter(r) => inside(r) && r.0 <= r.2 && r.1 <= r.3 && !self.table_filters.iter().any(|t| cross(&(t.0, t.1, t.0, t.3), &(r.0, r.1, r.0, r.3))),
            Op::Write(..) => true,
        }
    }
    fn add(&mut self, op: &Op) {
        match op {
            Op::Merge(r) => self.merges.push(*r),
            Op::Table(r, _, _, f) => { self.tables.push(*r); if *f { self.table_filters.push(*r); } }
            Op::Filter(r) => self.filter = Some(*r),
            Op::Write(..) => {}
        }
    }
}
fn go(w: &mut Worksheet, op: &Op, n: usize) -> Result<(), XlsxError> {
    match op {
        Op::Merge(r) => w.merge_range(r.0, r.1, r.2, r.3, &format!("m{n}"), &Format::new()).map(|_| ()),
        Op::Table(r, h, t, f) => w.add_table(r.0, r.1, r.2, r.3, &Table::new().set_header_row(*h).set_total_row(*t).set_autofilter(*f)).map(|_| ()),
        Op::Filter(r) => w.autofilter(r.0, r.1, r.2, r.3).map(|_| ()),
        Op::Write(r, c) => w.write(*r, *c, n as u32).map(|_| ()),
    }
}
fn rect(g: &mut Rng, far: bool) -> R4 {
    let (rb, cb) = if far { (1_048_560, 16_370) } else { (0, 0) };
    let r = rb + g.below(14) as u32;
    let c = cb + g.below(12) as u16;
    let (h, w) = (g.below(4) as u32, g.below(4) as u16);
    match g.below(40) { 0 => (r + h + 1, c, r, c + w), 1 => (r, c + w + 1, r + h, c), 2 if far => (r, c, 1_048_576, c + w), 3 if far => (r, c, r + h, 16_384), _ => (r, c, r + h, c + w) }
}
fn check(b: &Book, i: usize, m: &M) -> Result<(), String> {
    let got: Vec<String> = b.sheet(i).get("mergeCells").map(|x| x.all("mergeCell").map(|c| c.a("ref").unwrap_or("").to_string()).collect()).unwrap_or_default();
    let want: Vec<String> = m.merges.iter().map(|r| range(r.0, r.1, r.2, r.3)).collect();
    ensure!(got == want, "merged ranges {got:?}, accepted {want:?}");
    if let Some(x) = b.sheet(i).get("mergeCells") { ensure!(x.a("count") == Some(&*want.len().to_string()), "merge count {:?}", x.a("count")); }
    let mut got: Vec<String> = vec![];
    for p in b.sheet(i).get("tableParts").map(|x| x.all("tablePart").collect::<Vec<_>>()).unwrap_or_default() {
        let id = p.a("r:id").ok_or("no id")?;
        let rel = b.rels_of(&b.sheets[i].1).into_iter().find(|r| r.0 == id).ok_or("no table rel")?;
        got.push(b.xml[&rel.2].a("ref").unwrap_or("").to_string());
    }
    let want: Vec<String> = m.tables.iter().map(|r| range(r.0, r.1, r.2, r.3)).collect();
    ensure!(got == want, "tables {got:?}, accepted {want:?}");
    Ok(())
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(9);
    // all pairs of small rectangles, for each kind
    let mut rects: Vec<R4> = vec![];
    for r in 1..4u32 { for c in 1..4u16 { for r2 in r..4 { for c2 in c..4 { rects.push((r, c, r2, c2)); } } } }
    for a in &rects {
        for b in &rects {
            for kind in 0..4 {
                let x = if kind & 1 == 0 { Op::Merge(*a) } else { Op::Table(*a, false, false, false) };
                let y = if kind & 2 == 0 { Op::Merge(*b) } else { Op::Table(*b, false, false, false) };
                run.case("pair", &format!("{x:?} {y:?}"), || {
                    let mut w = Worksheet::new();
                    let mut m = M::default();
                    for (n, op) in [&x, &y].into_iter().enumerate() {
                        let (r, want) = (go(&mut w, op, n), m.ok(op));
                        ensure!(r.is_ok() == want, "{op:?}: accepted={} ({:?})", r.is_ok(), r.err());
                        if want { m.add(op); }
                    }
                    Ok(())
                });
            }
        }
    }
    run.exhaustive.push("all pairs of rectangles on a 3 x 3 grid as merges and tables".into());
    for k in 0..run.n(600, 8000) {
        let far = k % 4 == 3;
        let ops: Vec<Op> = (0..2 + g.below(14)).map(|_| { let r = rect(&mut g, far); match g.below(10) { 0..=4 => Op::Merge(r), 5..=7 => Op::Table(r, !g.chance(1, 4), g.chance(1, 3), !g.chance(1, 4)), 8 => Op::Filter(r), _ => Op::Write(r.0.min(1_048_575), r.1) } }).collect();
        let late = g.chance(1, 4);
        run.case("history", &format!("{ops:?} save halfway={late}"), || {
            let mut wb = Workbook::new();
            wb.add_worksheet();
            let mut m = M::default();
            let mut done: Vec<(usize, Op)> = vec![];
            for (n, op) in ops.iter().enumerate() {
                let w = wb.worksheet_from_index(0).unwrap();
                let (r, want) = (go(w, op, n), m.ok(op));
                ensure!(r.is_ok() == want, "{op:?}: accepted={} ({:?})", r.is_ok(), r.as_ref().err());
                if let Err(e) = r {
                    let t = (match op { Op::Merge(r) | Op::Table(r, ..) | Op::Filter(r) => Some(*r), _ => None }).unwrap();
                    if inside(&t) && t.0 <= t.2 && t.1 <= t.3 {
                        match op {
                            Op::Merge(r) if (r.0, r.1) == (r.2, r.3) => ensure!(matches!(e, XlsxError::MergeRangeSingleCell), "{e}"),
                            Op::Merge(_) => ensure!(matches!(e, XlsxError::MergeRangeOverlaps(..)), "{e}"),
                            Op::Table(..) => ensure!(matches!(e, XlsxError::TableRangeOverlaps(..) | XlsxError::TableError(_) | XlsxError::AutofilterRangeOverlaps(..)), "{e}"),
                            _ => ensure!(matches!(e, XlsxError::AutofilterRangeOverlaps(..)), "{e}"),
                        }
                    }
                }
                if want { m.add(op); done.push((n, op.clone())); }
                if late && n == ops.len() / 2 { wb.save_to_buffer().map_err(|e| e.to_string())?; }
            }
            let a = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
            check(&a, 0, &m)?;
            // the rejected requests left nothing behind
            if late { return Ok(()); }
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            for (n, op) in &done { go(w, op, *n).map_err(|e| e.to_string())?; }
            same_file(&a, &Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?).map_err(|e| format!("a rejected request changed the file: {e}"))
        });
    }
}
