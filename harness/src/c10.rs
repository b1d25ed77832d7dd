//! C10 executable contract: tables agree with their cells, names and ids are unique.
use crate::c09::R4;
use crate::common::*;
use crate::ensure;
use crate::model::{range, same_file};
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
struct Col { header: Option<String>, label: String, func: u8, formula: Option<String>, fmt: bool, hfmt: bool }
#[derive(Clone, Debug)]
struct T { at: R4, head: bool, total: bool, filter: bool, name: String, cols: Vec<Col>, banded: [bool; 4], style: u8, pre: Vec<(u16, String)> }

const FUNCS: [(&str, u32); 9] = [("", 0), ("average", 101), ("count", 103), ("countNums", 102), ("max", 104), ("min", 105), ("sum", 109), ("stdDev", 107), ("var", 110)];
fn func(k: u8) -> TableFunction {
    match k { 1 => TableFunction::Average, 2 => TableFunction::Count, 3 => TableFunction::CountNumbers, 4 => TableFunction::Max, 5 => TableFunction::Min, 6 => TableFunction::Sum, 7 => TableFunction::StdDev, 8 => TableFunction::Var,
        9 => TableFunction::Custom(Formula::new("=SUM([x])+1")), _ => TableFunction::None }
}
fn build(t: &T) -> Table {
    let cols: Vec<TableColumn> = t.cols.iter().map(|c| {
        let mut k = TableColumn::new();
        if let Some(h) = &c.header { k = k.set_header(h); }
        if !c.label.is_empty() { k = k.set_total_label(&c.label); }
        k = k.set_total_function(func(c.func));
        if let Some(f) = &c.formula { k = k.set_formula(f.as_str()); }
        if c.fmt { k = k.set_format(Format::new().set_num_format("0.0000").set_bold()); }
        if c.hfmt { k = k.set_header_format(Format::new().set_italic()); }
        k
    }).collect();
    let mut x = Table::new().set_header_row(t.head).set_total_row(t.total).set_autofilter(t.filter).set_columns(&cols)
        .set_banded_rows(t.banded[0]).set_banded_columns(t.banded[1]).set_first_column(t.banded[2]).set_last_column(t.banded[3]);
    x = match t.style { 0 => x, 1 => x.set_style(TableStyle::None), 2 => x.set_style(TableStyle::Light1), 3 => x.set_style(TableStyle::Dark11), _ => x.set_style(TableStyle::Medium28) };
    if !t.name.is_empty() { x = x.set_name(&t.name); }
    x
}
/// the header names the table should have
fn headers(t: &T) -> Vec<String> {
    (t.at.1..=t.at.3).map(|c| {
        let i = usize::from(c - t.at.1);
        match t.cols.get(i).and_then(|c| c.header.clone()) {
            Some(h) if !h.is_empty() => h,
            _ => t.pre.iter().find(|p| p.0 == c && t.head && !p.1.is_empty()).map(|p| p.1.clone()).unwrap_or(format!("Column{}", i + 1)),
        }
    }).collect()
}
fn ok(t: &T, others: &[T]) -> bool {
    let h: HashSet<String> = headers(t).iter().map(|s| s.to_lowercase()).collect();
    t.at.2 >= t.at.0 && t.at.2 - t.at.0 >= u32::from(t.head) + u32::from(t.total) && h.len() == headers(t).len()
        && !others.iter().any(|o| o.at.0 <= t.at.2 && t.at.0 <= o.at.2 && o.at.1 <= t.at.3 && t.at.1 <= o.at.3)
}
fn strip(f: &str) -> String { f.trim_start_matches('=').to_string() }
fn structured(name: &str) -> String {
    let mut o = String::new();
    for c in name.chars() { if ['[', ']', '#', '\''].contains(&c) { o.push('\''); } o.push(c); }
    o
}
fn check(b: &Book, want: &[Vec<T>]) -> Result<(), String> {
    let (mut ids, mut names) = (HashSet::new(), HashSet::new());
    for (i, ts) in want.iter().enumerate() {
        let cells = b.cells(i)?;
        let parts: Vec<&El> = b.sheet(i).get("tableParts").map(|x| x.all("tablePart").collect()).unwrap_or_default();
        ensure!(parts.len() == ts.len(), "{} tables, accepted {}", parts.len(), ts.len());
        for (p, t) in parts.iter().zip(ts) {
            let rel = b.rels_of(&b.sheets[i].1).into_iter().find(|r| Some(r.0.as_str()) == p.a("r:id")).ok_or("no table rel")?;
            let x = b.xml.get(&rel.2).ok_or("no table part")?;
            let at = |k: &str| x.a(k).unwrap_or("").to_string();
            ensure!(ids.insert(at("id")) && at("id").parse::<u32>().is_ok_and(|n| n > 0), "table id {}", at("id"));
            ensure!(names.insert(at("name").to_lowercase()) && at("name") == at("displayName") && !at("name").is_empty(), "table name {}", at("name"));
            if !t.name.is_empty() { ensure!(at("name") == t.name, "table name {} for {}", at("name"), t.name); }
            ensure!(at("ref") == range(t.at.0, t.at.1, t.at.2, t.at.3), "ref {}", at("ref"));
            ensure!(x.a("headerRowCount").unwrap_or("1") == if t.head { "1" } else { "0" }, "headerRowCount");
            ensure!(x.a("totalsRowCount").unwrap_or("0") == if t.total { "1" } else { "0" }, "totalsRowCount");
            let last_data = t.at.2 - u32::from(t.total);
            let af = x.get("autoFilter").and_then(|f| f.a("ref")).map(String::from);
            ensure!(af == if t.head && t.filter { Some(range(t.at.0, t.at.1, last_data, t.at.3)) } else { None }, "autofilter {af:?}");
            let cs = x.get("tableColumns").ok_or("no columns")?;
            let list: Vec<&El> = cs.all("tableColumn").collect();
            let hs = headers(t);
            ensure!(cs.a("count") == Some(&*hs.len().to_string()) && list.len() == hs.len(), "{} columns, range has {}", list.len(), hs.len());
            let lower: HashSet<String> = list.iter().map(|c| c.a("name").unwrap_or("").to_lowercase()).collect();
            ensure!(lower.len() == list.len(), "repeated column names");
            for (k, (c, h)) in list.iter().zip(&hs).enumerate() {
                let col = u32::from(t.at.1) + k as u32;
                ensure!(c.a("id") == Some(&*(k + 1).to_string()), "column id {:?}", c.a("id"));
                let name = xstring(c.a("name").unwrap_or(""));
                ensure!(name == *h, "column name {name:?} for {h:?}");
                if t.head {
                    let v = cells.get(&(t.at.0, col)).map(|c| c.v.clone());
                    ensure!(v == Some(Val::Str(h.clone())), "header cell {v:?}, column {h:?}");
                }
                let none = Col { header: None, label: String::new(), func: 0, formula: None, fmt: false, hfmt: false };
                let d = t.cols.get(k).unwrap_or(&none);
                if t.total {
                    let v = cells.get(&(t.at.2, col)).map(|c| c.v.clone());
                    if !d.label.is_empty() {
                        ensure!(c.a("totalsRowLabel").map(xstring).as_deref() == Some(&d.label) && v == Some(Val::Str(d.label.clone())), "total label {:?} cell {v:?}", c.a("totalsRowLabel"));
                    } else if d.func > 0 {
                        let (fname, num) = if d.func == 9 { ("custom", 0) } else { FUNCS[d.func as usize] };
                        let want = if d.func == 9 { "SUM([x])+1".to_string() } else { format!("SUBTOTAL({num},[{}])", structured(h)) };
                        ensure!(c.a("totalsRowFunction") == Some(fname), "total function {:?}", c.a("totalsRowFunction"));
                        ensure!(matches!(&v, Some(Val::Formula { f, .. }) if *f == want || xstring(f) == want), "total cell {v:?}, want {want}");
                        if d.func == 9 { ensure!(c.get("totalsRowFormula").map(|e| e.text()) == Some(want), "totalsRowFormula"); }
                    } else { ensure!(c.a("totalsRowLabel").is_none() && c.a("totalsRowFunction").is_none(), "unexpected total"); }
                }
                if let Some(f) = &d.formula {
                    let got = c.get("calculatedColumnFormula").map(|e| e.text());
                    ensure!(got.as_deref() == Some(&*strip(f)), "column formula {got:?} for {f}");
                    for r in t.at.0 + u32::from(t.head)..=last_data {
                        let v = cells.get(&(r, col)).map(|c| c.v.clone());
                        ensure!(matches!(&v, Some(Val::Formula { f: g, .. }) if *g == strip(f)), "cell {r},{col} is {v:?}");
                    }
                } else { ensure!(c.get("calculatedColumnFormula").is_none(), "unexpected formula"); }
                if d.fmt {
                    let dx: usize = c.a("dataDxfId").ok_or("no dataDxfId")?.parse().map_err(|_| "dxf")?;
                    let dxfs = b.xml["xl/styles.xml"].get("dxfs").ok_or("no dxfs")?;
                    let e = dxfs.all("dxf").nth(dx).ok_or(format!("dxf {dx} of {}", dxfs.els().count()))?;
                    ensure!(e.get("numFmt").and_then(|n| n.a("formatCode")) == Some("0.0000"), "dxf {dx} is another format");
                } else { ensure!(c.a("dataDxfId").is_none(), "unexpected dxf"); }
            }
            let s = x.get("tableStyleInfo").ok_or("no style")?;
            for (k, n) in ["showRowStripes", "showColumnStripes", "showFirstColumn", "showLastColumn"].iter().enumerate() { ensure!(s.a(n) == Some(if t.banded[k] { "1" } else { "0" }), "{n} {:?}", s.a(n)); }
            let st = match t.style { 0 => Some("TableStyleMedium9"), 1 => None, 2 => Some("TableStyleLight1"), 3 => Some("TableStyleDark11"), _ => Some("TableStyleMedium28") };
            ensure!(s.a("name") == st, "style {:?}", s.a("name"));
        }
    }
    Ok(())
}
fn rand_table(g: &mut Rng, hs: &[String]) -> T {
    let (r, c) = (g.below(30) as u32, g.below(30) as u16);
    let (h, w) = (g.below(6) as u32, g.below(5) as u16);
    let n = g.below(u64::from(w) + 3);
    let text = |g: &mut Rng| hs[g.below(hs.len() as u64) as usize].clone();
    let cols = (0..n).map(|_| Col {
        header: if g.chance(1, 2) { Some(text(g)) } else { None }, label: if g.chance(1, 4) { text(g) } else { String::new() }, func: g.below(10) as u8,
        formula: if g.chance(1, 4) { Some(["=1+2", "SUM(A1)", "=Table1[[a b]:[c]]"][g.below(3) as usize].to_string()) } else { None }, fmt: g.chance(1, 4), hfmt: g.chance(1, 4),
    }).collect();
    let pre = if g.chance(1, 3) { (0..1 + g.below(4)).map(|_| (c + g.below(u64::from(w) + 1) as u16, text(g))).collect::<BTreeMap<_, _>>().into_iter().collect() } else { vec![] };
    T { at: (r, c, r + h, c + w), head: !g.chance(1, 4), total: g.chance(1, 2), filter: !g.chance(1, 3), name: if g.chance(1, 4) { ["Sales", "sales", "Table7", "T_é"][g.below(4) as usize].into() } else { String::new() }, cols, banded: [g.bits(), g.bits(), g.bits(), g.bits()], style: g.below(5) as u8, pre }
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(10);
    for k in 0..run.n(900, 12_000) {
        let mut hs: Vec<String> = ["Name", "name", "Column2", "Column1", "a b", "a[b]c", "it's #1", "É", "é", "x@y", "日本", "_x0041_", "a&b<c>\"d\"", " lead", "Table1", "a\nb", "A,B", "q]q"].iter().map(|s| s.to_string()).collect();
        if k % 4 == 3 { for _ in 0..6 { let s = rand_string(&mut g, 10); if !s.is_empty() { hs.push(s); } } }
        let sheets = 1 + g.below(3) as usize;
        let ts: Vec<(usize, T)> = (0..1 + g.below(6)).map(|_| (g.below(sheets as u64) as usize, rand_table(&mut g, &hs))).collect();
        let twice = g.chance(1, 5);
        run.case("tables", &format!("{ts:?} twice={twice}"), || {
            let mut wb = Workbook::new();
            for _ in 0..sheets { wb.add_worksheet(); }
            let mut m: Vec<Vec<T>> = vec![vec![]; sheets];
            let mut ops: Vec<(usize, T)> = vec![];
            let mut bad = false;
            for (i, t) in &ts {
                let w = wb.worksheet_from_index(*i).unwrap();
                let want = ok(t, &m[*i]);
                // the cells the table would take its names from
                let clear = m[*i].iter().all(|o| o.at.0 > t.at.0 || o.at.2 < t.at.0 || o.at.1 > t.at.3 || o.at.3 < t.at.1);
                if clear { for (c, s) in &t.pre { w.write(t.at.0, *c, s.as_str()).map_err(|e| e.to_string())?; } }
                let taken: Vec<(u16, String)> = if clear { t.pre.clone() } else { vec![] };
                let mut t = t.clone();
                // a name from an earlier write may be on the row already
                let earlier: Vec<(u16, String)> = ops.iter().filter(|o| o.0 == *i && o.1.at.0 == t.at.0).flat_map(|o| o.1.pre.clone()).filter(|p| p.0 >= t.at.1 && p.0 <= t.at.3 && !taken.iter().any(|q| q.0 == p.0)).collect();
                if !earlier.is_empty() || !want && ok(&t, &m[*i]) { return Ok(()); }
                // cells of other tables (totals, formulas) in the header row would change the names; keep to fresh rows
                t.pre = taken;
                ops.push((*i, t.clone()));
                let want = ok(&t, &m[*i]);
                let r = w.add_table(t.at.0, t.at.1, t.at.2, t.at.3, &build(&t));
                ensure!(r.is_ok() == want, "add_table {t:?}: accepted={} {:?}", r.is_ok(), r.err());
                if want { m[*i].push(t); } else { bad = true; }
            }
            let named: Vec<String> = { let mut v = vec![]; let mut id = 0; for s in &m { for t in s { id += 1; v.push(if t.name.is_empty() { format!("table{id}") } else { t.name.to_lowercase() }); } } v };
            let dup = named.iter().collect::<HashSet<_>>().len() < named.len();
            let r = wb.save_to_buffer();
            if dup { ensure!(matches!(r, Err(XlsxError::TableNameReused(_))), "repeated table names saved"); return Ok(()); }
            let mut buf = r.map_err(|e| e.to_string())?;
            if twice { buf = wb.save_to_buffer().map_err(|e| format!("second save: {e}"))?; }
            let a = Book::open(&buf)?;
            check(&a, &m)?;
            if bad {
                let mut wb = Workbook::new();
                for _ in 0..sheets { wb.add_worksheet(); }
                let mut m2: Vec<Vec<T>> = vec![vec![]; sheets];
                for (i, t) in &ops {
                    let w = wb.worksheet_from_index(*i).unwrap();
                    for (c, s) in &t.pre { w.write(t.at.0, *c, s.as_str()).map_err(|e| e.to_string())?; }
                    if ok(t, &m2[*i]) { w.add_table(t.at.0, t.at.1, t.at.2, t.at.3, &build(t)).map_err(|e| e.to_string())?; m2[*i].push(t.clone()); }
                }
                same_file(&a, &Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?).map_err(|e| format!("a rejected table changed the file: {e}"))?;
            }
            Ok(())
        });
    }
    // sizes
    for head in [false, true] { for total in [false, true] { for rows in 0..4u32 { for filter in [false, true] {
        run.case("size", &format!("{} rows head={head} total={total} filter={filter}", rows + 1), || {
            for r in [0, 5, 1_048_575 - rows] {
                let mut w = Worksheet::new();
                let a = w.add_table(r, 2, r + rows, 3, &Table::new().set_header_row(head).set_total_row(total).set_autofilter(filter)).is_ok();
                ensure!(a == (rows >= u32::from(head) + u32::from(total)), "accepted={a} at row {r}");
            }
            Ok(())
        });
    } } } }
    run.exhaustive.push("tables of 1 to 4 rows with and without header, total and filter".into());
    // adding tables between saves
    run.case("between saves", "a table on an earlier sheet after a save", || {
        let mut wb = Workbook::new();
        wb.add_worksheet();
        wb.add_worksheet().add_table(0, 0, 3, 3, &Table::new()).map_err(|e| e.to_string())?;
        wb.save_to_buffer().map_err(|e| e.to_string())?;
        wb.worksheet_from_index(0).unwrap().add_table(0, 0, 3, 3, &Table::new()).map_err(|e| e.to_string())?;
        Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?).map(|_| ())
    });
}
