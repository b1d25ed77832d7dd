//! C18 executable contract: rows written in order give the same worksheet in constant-memory, low-memory and ordinary mode.
use crate::common::*;
use crate::fmt::FmtSpec;
use crate::scene::*;
use crate::xl::*;
use rust_xlsxwriter::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum S { Set(u8, u64), Put(u8, u32, u16, u64), Late(u8, u32, u16, u64), Save }
/// settings that do not depend on the cell data, and may be made at any time
const ANY: &[&str] = &["image", "chart", "note", "button", "shape", "background", "header image", "cond format", "data validation", "sparkline", "print area", "repeat", "autofilter", "panes", "protect", "page", "tab", "ignore error", "header", "url image", "view", "password", "breaks", "unprotect range", "note options"];
/// settings that rows refer to: made before the data
const FIRST: &[&str] = &["row", "column", "group rows", "group columns", "default row"];
const PUTS: u64 = 18;
fn put(w: &mut Worksheet, k: u8, r: u32, c: u16, seed: u64) -> Result<(), XlsxError> {
    let g = &mut Rng::new(seed);
    let f = FmtSpec::random(g).build();
    let s = (*g.pick(&["abc", "x", " lead", "a<b&c", "_x0041_", "", "line\nline", "é", "\u{1}"])).to_string();
    match k {
        0 => { w.write_string(r, c, &s)?; }
        1 => { w.write_string_with_format(r, c, &s, &f)?; }
        2 => { w.write_number(r, c, *g.pick(&[0.0, -1.5, 1e300, 7.0, f64::NAN]))?; }
        3 => { w.write_number_with_format(r, c, g.below(9) as f64, &f)?; }
        4 => { w.write_boolean_with_format(r, c, g.bits(), &f)?; }
        5 => { w.write_blank(r, c, &f)?; }
        6 => { w.write_formula_with_format(r, c, Formula::new("=A1&\"<\"").set_result(s), &f)?; }
        7 => { let b = Format::new().set_bold(); w.write_rich_string_with_format(r, c, &[(&Format::default(), "one "), (&b, g.pick(&[" two", "2"]))], &f)?; }
        8 => { let u = url(g); w.write_url_with_options(r, c, Url::new(u), *g.pick(&["", "text"]), *g.pick(&["", "tip"]), Some(&f))?; }
        9 => { w.write_datetime_with_format(r, c, ExcelDateTime::from_ymd(2024, 2, 1 + g.below(28) as u8)?, &Format::new().set_num_format("yyyy-mm-dd"))?; }
        10 => { let (dr, dc) = (g.below(3) as u32, g.below(3) as u16); w.merge_range(r, c, r + dr, c + dc, &s, &f)?; }
        11 => { let (dr, dc) = (g.below(3) as u32, g.below(3) as u16); w.write_array_formula_with_format(r, c, r + dr, c + dc, "{=SUM(A1:A2*B1:B2)}", &f)?; }
        12 => { w.write_dynamic_formula(r, c, "=UNIQUE(A1:A5)")?; }
        13 => { let i = image(g); w.embed_image_with_format(r, c, &i, &f)?; }
        14 => { w.insert_checkbox(r, c, g.bits())?; }
        15 => { let t = table(g).set_name(format!("T{r}_{c}")); w.add_table(r, c, r + 1 + g.below(4) as u32, c + g.below(3) as u16, &t)?; }
        16 => { w.set_formula_result(r, c, "result"); }
        _ => { if g.bits() { w.set_cell_format(r, c, &f)?; } else if g.bits() { w.clear_cell_format(r, c); } else { w.clear_cell(r, c); } }
    }
    Ok(())
}
/// mode 0 is ordinary, 1 constant memory, 2 low memory; what is written to a flushed row is left out of the ordinary worksheet
fn build(steps: &[S], mode: u8) -> Result<Vec<Book>, String> {
    let mut wb = Workbook::new();
    wb.add_worksheet().write_string(0, 0, "keep").map_err(|e| e.to_string())?;
    match mode {
        #[cfg(feature = "constmem")]
        1 => { wb.add_worksheet_with_constant_memory(); }
        #[cfg(feature = "constmem")]
        2 => { wb.add_worksheet_with_low_memory(); }
        #[cfg(feature = "constmem")]
        3 => { let w = wb.new_worksheet_with_constant_memory(); wb.push_worksheet(w); }
        #[cfg(feature = "constmem")]
        4 => { let w = wb.new_worksheet_with_low_memory(); wb.push_worksheet(w); }
        _ => { wb.add_worksheet(); }
    }
    wb.worksheets_mut()[1].set_name("Mem").map_err(|e| e.to_string())?;
    let mut books = vec![];
    let mut top = 0;
    // changing a cell that exists works for the current row only (the row of a formula result is ignored, as the test suite expects)
    let mut here = None;
    for s in steps {
        let w = &mut wb.worksheets_mut()[1];
        match *s {
            S::Set(k, seed) => { let _ = sheet_item(w, &Item { sheet: 1, kind: k, seed }, &mut Rng::new(seed)); }
            S::Put(k, r, c, seed) => { if k < 16 || here == Some(r) { let _ = put(w, k, r, c, seed); } if [2, 3, 4, 5, 9].contains(&k) { top = top.max(r); here = Some(r); } }
            S::Late(k, r, c, seed) => if mode > 0 && r < top { let _ = put(w, k, r, c, seed); },
            S::Save => { here = None; books.push(Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?) }
        }
    }
    books.push(Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?);
    Ok(books)
}
/// leave out what only the optimizations differ in: the hint of the used range, spans, and rows that hold and set nothing
fn normal(b: &mut Book) {
    let part = b.sheets[1].1.clone();
    if let Some(x) = b.xml.get_mut(&part) {
        x.kids.retain(|k| !matches!(k, Node::E(d) if d.name == "dimension"));
        // the label of a link that is not the text of its cell
        for k in &mut x.kids { if let Node::E(h) = k { if h.name == "hyperlinks" { for l in &mut h.kids { if let Node::E(l) = l { l.attrs.retain(|a| a.0 != "display"); } } } } }
        for k in &mut x.kids { if let Node::E(sd) = k { if sd.name == "sheetData" {
            for k in &mut sd.kids { if let Node::E(r) = k {
                r.attrs.retain(|a| a.0 != "spans" && a.0 != "x14ac:dyDescent");
            } }
            sd.kids.retain(|k| !matches!(k, Node::E(r) if r.kids.is_empty() && r.attrs.iter().all(|a| a.0 == "r" || a.0 == "ht" || a.0 == "customHeight")));
        } } }
    }
}
fn same(steps: &[S], modes: &[u8]) -> Result<(), String> {
    let mut a = vec![];
    for mut x in build(steps, 0)? { x.cells(1)?; normal(&mut x); a.push(x); }
    for m in modes {
        for (i, mut y) in build(steps, *m)?.into_iter().enumerate() {
            y.cells(1).map_err(|e| format!("mode {m}, save {i}: {e}"))?;
            normal(&mut y);
            crate::c17::same_content(&a[i], &y, &format!("mode {m}, save {i} of {}", a.len()))?;
        }
    }
    Ok(())
}
pub fn random(g: &mut Rng, late: bool) -> Vec<S> {
    let mut v = vec![];
    for _ in 0..g.below(5) { v.push(S::Set(kind(*g.pick(FIRST)), g.next())); }
    for _ in 0..g.below(3) { v.push(S::Set(kind(*g.pick(ANY)), g.next())); }
    let mut r = g.below(4) as u32;
    for _ in 0..g.below(9) {
        for _ in 0..1 + g.below(5) {
            let k = g.below(PUTS) as u8;
            // a table does not lie over the rest of an array formula or a merged range
            if k == 15 { r += 3; }
            v.push(S::Put(k, r, g.below(8) as u16, g.next()));
            if late && r > 0 && g.chance(1, 4) { v.push(S::Late(*g.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 9]), g.below(u64::from(r)) as u32, g.below(12) as u16, g.next())); }
        }
        if g.chance(1, 6) { v.push(S::Set(kind(*g.pick(ANY)), g.next())); }
        if g.chance(1, 12) { v.push(S::Save); r = (r + 8).max(45); }
        r += 1 + g.below(4) as u32 * g.below(2) as u32;
    }
    v
}
fn shrink(steps: &[S], modes: &[u8]) -> Vec<S> {
    let mut v = steps.to_vec();
    let mut i = 0;
    while i < v.len() { let mut t = v.clone(); t.remove(i); if std::panic::catch_unwind(|| same(&t, modes)).map_or(true, |x| x.is_err()) { v = t; } else { i += 1; } }
    v
}
pub fn run(run: &mut Run) {
    if !cfg!(feature = "constmem") { run.exhaustive.push("nothing: built without the constant_memory feature".into()); return; }
    for k in 0..PUTS as u8 { for seed in 0..run.n(12, 60) { for r in [0u32, 1, 7] {
        let v = [S::Put(k, r, 2, seed), S::Put(2, r + 6, 0, 3)];
        run.case("each write", &format!("{v:?}"), || same(&v, &[1, 2]));
        let v = [S::Set(kind("column"), seed), S::Put(k, r, (seed % 4) as u16, seed), S::Put(0, r + 1, 1, 3), S::Late((seed % 8) as u8, r, 0, seed), S::Save, S::Put(k, r + 12, 1, seed + 1)];
        run.case("each write", &format!("{v:?}"), || same(&v, &[1, 2]));
    } } }
    run.exhaustive.push("every kind of write at a few rows, alone and around a save".into());
    for i in 0..run.n(1200, 25_000) {
        let mut g = run.rng(i);
        let v = random(&mut g, i % 2 == 0);
        let modes: &[u8] = [&[1u8, 2][..], &[3, 4], &[2, 1]][i as usize % 3];
        let bad = std::panic::catch_unwind(|| same(&v, modes)).map_or(true, |x| x.is_err());
        let v = if bad { shrink(&v, modes) } else { v };
        run.case("random", &format!("{v:?}"), || same(&v, modes));
    }
}
