//! C16 executable contract: an autofilter hides exactly the data rows that fail a condition, and records the criteria given.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum D { S(String), N(f64) }
#[derive(Clone, Debug)]
enum C { Item(D), Blanks, Custom(u8, D), Or }
#[derive(Clone, Debug)]
enum P { N(f64), S(String), R(String), B(bool), F(String), D(f64), Blank }
#[derive(Clone, Debug)]
enum O { Auto(u32, u16, u32, u16), Cond(u16, Vec<C>), Off, Put(u32, u16, P), Hide(u32), Unhide(u32), Height(u32), Save }
const CRIT: [FilterCriteria; 12] = [FilterCriteria::EqualTo, FilterCriteria::NotEqualTo, FilterCriteria::GreaterThan, FilterCriteria::GreaterThanOrEqualTo, FilterCriteria::LessThan, FilterCriteria::LessThanOrEqualTo, FilterCriteria::BeginsWith, FilterCriteria::DoesNotBeginWith, FilterCriteria::EndsWith, FilterCriteria::DoesNotEndWith, FilterCriteria::Contains, FilterCriteria::DoesNotContain];
#[derive(Clone, Debug, Default)]
struct K { list: bool, blanks: bool, items: Vec<D>, customs: Vec<(u8, D)>, or: bool }
fn text(d: &D) -> String { match d { D::S(s) => s.clone(), D::N(n) => n.to_string() } }
fn cond(cs: &[C]) -> (FilterCondition, K) {
    let mut f = FilterCondition::new();
    let mut k = K { list: true, or: true, ..K::default() };
    for c in cs {
        match c {
            C::Item(D::S(s)) => { f = f.add_list_filter(s.as_str()); k.items.push(D::S(s.clone())); k.list = true; }
            C::Item(D::N(n)) => { f = f.add_list_filter(*n); k.items.push(D::N(*n)); k.list = true; }
            C::Blanks => { f = f.add_list_blanks_filter(); k.blanks = true; k.list = true; }
            C::Custom(i, d) => {
                f = match d { D::S(s) => f.add_custom_filter(CRIT[*i as usize], s.as_str()), D::N(n) => f.add_custom_filter(CRIT[*i as usize], *n) };
                k.list = false;
                if k.customs.len() < 2 { k.customs.push((*i, d.clone())); if k.customs.len() == 2 { k.or = false; } }
            }
            C::Or => { f = f.add_custom_boolean_or(); k.or = true; k.list = false; }
        }
    }
    (f, k)
}
fn valid(k: &K) -> bool { if k.list { k.blanks || !k.items.is_empty() } else { !k.customs.is_empty() } }
fn norm(s: &str) -> String { s.to_lowercase().trim().to_string() }
/// the rule of the documentation of FilterCondition, FilterCriteria and "auto-hiding filtered rows"
fn one(cell: Option<&P>, i: u8, d: &D) -> bool {
    let nonblank = i == 1 && *d == D::S(" ".into());
    match cell {
        Some(P::S(s) | P::R(s)) => {
            let (a, b) = (norm(s), norm(&text(d)));
            match i { 0 => a == b, 1 => a != b, 2 => a > b, 3 => a >= b, 4 => a < b, 5 => a <= b, 6 => a.starts_with(&b), 7 => !a.starts_with(&b), 8 => a.ends_with(&b), 9 => !a.ends_with(&b), 10 => a.contains(&b), _ => !a.contains(&b) }
        }
        Some(P::N(x) | P::D(x)) => match d {
            D::N(n) => match i { 0 => x == n, 1 => x != n, 2 => x > n, 3 => x >= n, 4 => x < n, 5 => x <= n, _ => false },
            D::S(s) => i == 1 && x.to_string() != s.trim(),
        },
        Some(P::Blank) | None => false,
        Some(_) => nonblank,
    }
}
fn passes(cell: Option<&P>, k: &K) -> bool {
    if k.list {
        match cell {
            Some(P::S(s) | P::R(s)) => k.items.iter().any(|d| norm(&text(d)) == norm(s)) || (k.blanks && norm(s).is_empty()),
            Some(P::N(x)) => k.items.iter().any(|d| matches!(d, D::N(n) if n == x)),
            Some(P::Blank) | None => k.blanks,
            Some(_) => false,
        }
    } else {
        let v: Vec<bool> = k.customs.iter().map(|(i, d)| one(cell, *i, d)).collect();
        match v.len() { 0 => false, 1 => v[0], _ => if k.or { v[0] || v[1] } else { v[0] && v[1] } }
    }
}
#[derive(Default)]
struct M { range: Option<(u32, u16, u32, u16)>, conds: BTreeMap<u16, K>, off: bool, cells: BTreeMap<(u32, u16), P>, hidden: BTreeSet<u32>, rows: BTreeSet<u32> }
fn col(c: u16) -> String { let mut n = u32::from(c) + 1; let mut s = String::new(); while n > 0 { s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } s }
fn check(b: &Book, m: &M) -> Result<(), String> {
    let s = b.sheet(0);
    let mut want = m.hidden.clone();
    if let (Some((r1, _, r2, _)), false) = (m.range, m.off) {
        for r in r1 + 1..=r2 { if m.conds.iter().any(|(c, k)| !passes(m.cells.get(&(r, *c)), k)) { want.insert(r); } }
    }
    let mut got = BTreeSet::new();
    for r in s.find_all("row") { let n: u32 = r.a("r").and_then(|x| x.parse().ok()).ok_or("row")?; if r.a("hidden") == Some("1") { got.insert(n - 1); } }
    ensure!(got == want, "hidden rows {:?}, not {:?}", got, want);
    let names: Vec<String> = b.xml["xl/workbook.xml"].find_all("definedName").iter().filter(|d| d.a("name") == Some("_xlnm._FilterDatabase")).map(|d| { format!("{} {:?} {:?}", d.text(), d.a("localSheetId"), d.a("hidden")) }).collect();
    match (s.get("autoFilter"), m.range) {
        (None, None) => ensure!(names.is_empty(), "filter names {names:?}"),
        (Some(e), Some((r1, c1, r2, c2))) => {
            let range = if (r1, c1) == (r2, c2) { format!("{}{}", col(c1), r1 + 1) } else { format!("{}{}:{}{}", col(c1), r1 + 1, col(c2), r2 + 1) };
            ensure!(e.a("ref") == Some(range.as_str()), "autofilter {:?}, not {range}", e.a("ref"));
            let full = format!("Sheet1!${}${}:${}${}", col(c1), r1 + 1, col(c2), r2 + 1);
            let short = format!("Sheet1!${}${}", col(c1), r1 + 1);
            let n = if (r1, c1) == (r2, c2) { short } else { full };
            ensure!(names == [format!("{n} Some(\"0\") Some(\"1\")")], "filter names {names:?} for {n}");
            let got: Vec<&El> = e.els().collect();
            ensure!(got.len() == m.conds.len(), "{} filter columns, not {}", got.len(), m.conds.len());
            for (g, (c, k)) in got.iter().zip(&m.conds) {
                ensure!(g.name == "filterColumn" && g.a("colId") == Some(&(c - c1).to_string()), "filter column {g:?} for {c}");
                let f: Vec<&El> = g.els().collect();
                ensure!(f.len() == 1, "filter column {g:?}");
                if k.list {
                    ensure!(f[0].name == "filters" && (f[0].a("blank") == Some("1")) == k.blanks, "list filter {:?} for {k:?}", f[0]);
                    let v: Vec<String> = f[0].all("filter").map(|x| x.a("val").unwrap_or("?").to_string()).collect();
                    let w: Vec<String> = k.items.iter().map(text).collect();
                    ensure!(v == w, "list filter {v:?}, not {w:?}");
                } else {
                    ensure!(f[0].name == "customFilters", "custom filter {:?}", f[0]);
                    ensure!(k.customs.len() < 2 || (f[0].a("and") == Some("1")) != k.or, "and is {:?} for {k:?}", f[0].a("and"));
                    let v: Vec<(String, String)> = f[0].all("customFilter").map(|x| (x.a("operator").unwrap_or("equal").to_string(), x.a("val").unwrap_or("?").to_string())).collect();
                    let w: Vec<(String, String)> = k.customs.iter().map(|(i, d)| {
                        let t = text(d);
                        let o = ["equal", "notEqual", "greaterThan", "greaterThanOrEqual", "lessThan", "lessThanOrEqual", "equal", "notEqual", "equal", "notEqual", "equal", "notEqual"][*i as usize];
                        (o.to_string(), match i { 6 | 7 => format!("{t}*"), 8 | 9 => format!("*{t}"), 10 | 11 => format!("*{t}*"), _ => t })
                    }).collect();
                    ensure!(v == w, "custom filters {v:?}, not {w:?}");
                }
            }
        }
        (a, r) => return Err(format!("autofilter {a:?} for {r:?}")),
    }
    Ok(())
}
fn run_ops(ops: &[O]) -> Result<(), String> {
    let mut wb = Workbook::new();
    wb.add_worksheet();
    let mut m = M::default();
    let f = Format::new().set_bold();
    for o in ops {
        if let O::Save = o { check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)?; continue; }
        let w = &mut wb.worksheets_mut()[0];
        let e = |x: Result<(), XlsxError>| x.map_err(|e| format!("{o:?}: {e}"));
        match o.clone() {
            O::Auto(a, b, c, d) => {
                let good = a < 1_048_576 && c < 1_048_576 && b < 16_384 && d < 16_384 && a <= c && b <= d;
                let r = w.autofilter(a, b, c, d).is_ok();
                ensure!(r == good, "{o:?}: {r}");
                if good { m.range = Some((a, b, c, d)); m.conds.clear(); }
            }
            O::Cond(c, cs) => {
                let (f, k) = cond(&cs);
                let good = m.range.is_some_and(|(_, a, _, b)| a <= c && c <= b) && valid(&k);
                let r = w.filter_column(c, &f).is_ok();
                ensure!(r == good, "{o:?}: {r}");
                if good { m.conds.insert(c, k); }
            }
            O::Off => { w.filter_automatic_off(); m.off = true; }
            O::Put(r, c, p) => {
                e(match &p { P::N(x) => w.write_number(r, c, *x).map(|_| ()), P::S(s) => w.write_string(r, c, s).map(|_| ()), P::R(s) => w.write_rich_string(r, c, &[(&f, s.as_str()), (&Format::default(), "x")]).map(|_| ()), P::B(x) => w.write_boolean(r, c, *x).map(|_| ()),
                    P::F(s) => w.write_formula(r, c, Formula::new("=A1").set_result(s)).map(|_| ()), P::D(x) => w.write_datetime_with_format(r, c, ExcelDateTime::from_serial_datetime(*x).map_err(|e| e.to_string())?, &Format::new().set_num_format("yyyy-mm-dd")).map(|_| ()), P::Blank => w.write_blank(r, c, &f).map(|_| ()) })?;
                let p = if let P::R(s) = p { P::R(format!("{s}x")) } else { p };
                if !matches!(&p, P::S(s) if s.is_empty()) { m.cells.insert((r, c), p); }
            }
            O::Hide(r) => { e(w.set_row_hidden(r).map(|_| ()))?; m.hidden.insert(r); }
            O::Unhide(r) => { e(w.set_row_unhidden(r).map(|_| ()))?; m.hidden.remove(&r); }
            O::Height(r) => { e(w.set_row_height(r, 33).map(|_| ()))?; m.rows.insert(r); }
            O::Save => {}
        }
    }
    check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)
}
const T: &[&str] = &["East", "east", " East ", "West", "5", "10", "-1", "7.5", "n/a", " ", "", "é É", "ast", "E", "<&\">", "t"];
const NUM: &[f64] = &[0.0, 5.0, -1.0, 10.0, 7.5, 1e20, 0.1, 40_000.0];
fn data(g: &mut Rng) -> D { if g.bits() { D::S((*g.pick(T)).to_string()) } else { D::N(*g.pick(NUM)) } }
fn cell(g: &mut Rng) -> P {
    match g.below(12) { 0..=3 => P::N(*g.pick(NUM)), 4..=6 => P::S((*g.pick(T)).to_string()), 7 => P::R((*g.pick(T)).to_string() + "East"), 8 => P::B(g.bits()), 9 => P::F((*g.pick(T)).to_string()), 10 => P::D(40_000.0 + g.below(3) as f64), _ => P::Blank }
}
fn conds(g: &mut Rng) -> Vec<C> {
    if g.chance(1, 15) { return (0..g.below(5)).map(|_| match g.below(4) { 0 => C::Item(data(g)), 1 => C::Blanks, 2 => C::Or, _ => C::Custom(g.below(12) as u8, data(g)) }).collect(); }
    if g.bits() { (0..1 + g.below(3)).map(|_| if g.chance(1, 4) { C::Blanks } else { C::Item(data(g)) }).collect() } else {
        let d = |g: &mut Rng| C::Custom(g.below(12) as u8, if g.chance(1, 8) { D::S(" ".into()) } else { data(g) });
        let mut v = vec![d(g)];
        if g.bits() { v.push(d(g)); if g.bits() { v.push(C::Or); } }
        v
    }
}
fn random(g: &mut Rng) -> Vec<O> {
    let (r, c) = (g.below(4) as u32, g.below(3) as u16);
    let (r2, c2) = (r + g.below(7) as u32, c + g.below(4) as u16);
    let mut v = vec![O::Auto(r, c, r2, c2)];
    if g.chance(1, 10) { v.clear(); }
    for _ in 0..g.below(4) { v.push(O::Cond(c + g.below(4) as u16, conds(g))); }
    for _ in 0..g.below(25) { v.push(O::Put(g.below(12) as u32, g.below(7) as u16, cell(g))); }
    for _ in 0..g.below(4) { v.push(match g.below(8) { 0 | 1 => O::Hide(g.below(12) as u32), 2 => O::Unhide(g.below(12) as u32), 3 => O::Height(g.below(12) as u32), 4 => O::Save, 5 => O::Off, 6 => O::Auto(g.below(5) as u32, g.below(4) as u16, g.below(9) as u32, g.below(6) as u16), _ => O::Cond(g.below(7) as u16, conds(g)) }); }
    // the order of calls is free, except that a condition needs a range: keep the range first most of the time
    let keep = usize::from(g.chance(5, 6)).min(v.len());
    for i in (keep + 1..v.len()).rev() { let j = keep + g.below((i - keep + 1) as u64) as usize; v.swap(i, j); }
    v
}
pub fn run(run: &mut Run) {
    // every criterion on every kind of cell
    let mut cells: Vec<P> = vec![P::Blank, P::B(true), P::F("5".into()), P::D(40_000.0)];
    for t in T { if !t.is_empty() { cells.push(P::S((*t).to_string())); } }
    for n in NUM { cells.push(P::N(*n)); }
    let mut ds: Vec<D> = T.iter().map(|t| D::S((*t).to_string())).collect();
    ds.extend(NUM.iter().map(|n| D::N(*n)));
    for d in &ds { for i in 0..13u8 {
        let k = if i < 12 { vec![C::Custom(i, d.clone())] } else { vec![C::Item(d.clone())] };
        let mut ops = vec![O::Auto(0, 0, cells.len() as u32 + 1, 0), O::Cond(0, k.clone())];
        for (n, c) in cells.iter().enumerate() { ops.push(O::Put(n as u32 + 1, 0, c.clone())); }
        run.case("criterion", &format!("{k:?}"), || run_ops(&ops));
    } }
    run.exhaustive.push("every criterion with each of 24 values on cells of every kind".into());
    for (r, c) in [(0u32, 0u16), (1, 2), (1_048_574, 16_382), (1_048_575, 16_383), (1_048_576, 0), (0, 16_384)] { for (dr, dc) in [(0u32, 0u16), (1, 0), (0, 1), (1, 1)] {
        let ops = vec![O::Auto(r, c, r + dr, c + dc), O::Cond(c, vec![C::Blanks]), O::Put(r.min(1_048_575), c.min(16_383), P::N(1.0)), O::Put((r + dr).min(1_048_575), c.min(16_383), P::N(1.0))];
        run.case("corner", &format!("{ops:?}"), || run_ops(&ops));
    } }
    for i in 0..run.n(6000, 120_000) {
        let mut g = run.rng(i);
        let ops = random(&mut g);
        run.case("random", &format!("{ops:?}"), || run_ops(&ops));
    }
}
