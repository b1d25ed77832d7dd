//! C17 executable contract: saving twice gives the same file; save, change, save gives what the change before a single save gives.
use crate::common::*;
use crate::ensure;
use crate::model::same_file;
use crate::scene::*;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::BTreeMap;

/// The content of a file with style, dxf and shared string indices replaced by what they stand for.
pub fn content(b: &Book) -> Result<BTreeMap<String, String>, String> {
    let st = &b.xml["xl/styles.xml"];
    let kids = |n: &str| -> Vec<El> { st.get(n).map(|e| e.els().cloned().collect()).unwrap_or_default() };
    let (nf, fo, fi, bo) = (kids("numFmts"), kids("fonts"), kids("fills"), kids("borders"));
    let mut ids = std::collections::HashSet::new();
    for n in &nf { ensure!(ids.insert(n.a("numFmtId")), "numFmtId {:?} is defined twice", n.a("numFmtId")); }
    let mut codes: BTreeMap<&str, &str> = nf.iter().filter_map(|n| Some((n.a("numFmtId")?, n.a("formatCode")?))).collect();
    let dx = kids("dxfs");
    for n in dx.iter().filter_map(|d| d.get("numFmt")) {
        let (id, code) = (n.a("numFmtId").unwrap_or(""), n.a("formatCode").unwrap_or(""));
        let old = codes.entry(id).or_insert(code);
        ensure!(*old == code, "numFmtId {id} is both {old:?} and {code:?}");
    }
    let num = |id: &str| -> Result<String, String> {
        if id.parse::<u32>().map_err(|e| e.to_string())? < 164 { return Ok(id.to_string()); }
        nf.iter().find(|n| n.a("numFmtId") == Some(id)).map(|n| format!("{:?}", n.a("formatCode"))).ok_or(format!("numFmtId {id} undefined"))
    };
    let mut xfs = vec![];
    for x in kids("cellXfs") {
        let mut s = String::new();
        for (k, v) in &x.attrs {
            let g = |l: &[El]| -> Result<String, String> { let i: usize = v.parse().map_err(|_| "index")?; l.get(i).map(|e| format!("{e:?}")).ok_or(format!("{k} {v} of {}", l.len())) };
            s += &match k.as_str() { "fontId" => g(&fo)?, "fillId" => g(&fi)?, "borderId" => g(&bo)?, "numFmtId" => num(v)?, _ => format!("{k}={v}") };
        }
        s += &format!("{:?}", x.kids);
        xfs.push(s);
    }
    let dxfs: Vec<String> = kids("dxfs").into_iter().map(|mut d| {
        for k in &mut d.kids { if let Node::E(e) = k { if e.name == "numFmt" { e.attrs.retain(|a| a.0 != "numFmtId"); } } }
        format!("{d:?}")
    }).collect();
    fn norm(e: &El, part: &str, xfs: &[String], dxfs: &[String], b: &Book, out: &mut String) -> Result<(), String> {
        *out += "<"; *out += &e.name;
        let sheet = part.starts_with("xl/worksheets/");
        for (k, v) in &e.attrs {
            let style = sheet && (k == "s" && (e.name == "c" || e.name == "row") || k == "style" && e.name == "col");
            let dxf = k == "dxfId" || k.ends_with("DxfId");
            let i = v.parse::<usize>().unwrap_or(usize::MAX);
            let w = if style { format!("[{}]", xfs.get(i).ok_or(format!("style {v} of {}", xfs.len()))?) } else if dxf { dxfs.get(i).ok_or(format!("dxf {v} of {}", dxfs.len()))?.clone() } else { v.clone() };
            let w = if sheet && e.name == "c" && k == "t" && v == "inlineStr" { "s".to_string() } else { w };
            *out += &format!(" {k}={w}");
        }
        *out += ">";
        if sheet && e.name == "c" && e.a("t") == Some("s") {
            let v = e.get("v").map(|v| v.text()).unwrap_or_default();
            let si = b.sst.get(v.parse::<usize>().map_err(|_| "sst")?).ok_or(format!("sst {v} of {}", b.sst.len()))?;
            *out += &format!("{si:?}");
            return Ok(());
        }
        if sheet && e.name == "c" && e.a("t") == Some("inlineStr") {
            let mut si = e.get("is").ok_or("no inline string")?.clone();
            si.name = "si".into();
            *out += &format!("{si:?}");
            return Ok(());
        }
        for k in &e.kids { match k { Node::T(t) => { *out += t; *out += "|"; } Node::E(x) => norm(x, part, xfs, dxfs, b, out)? } }
        *out += "\n";
        Ok(())
    }
    let mut m = BTreeMap::new();
    for (p, bytes) in &b.parts {
        if p == "docProps/core.xml" || p == "xl/styles.xml" || p == "xl/sharedStrings.xml" { m.insert(p.clone(), String::new()); continue; }
        match b.xml.get(p) {
            Some(e) => { let mut s = String::new(); norm(e, p, &xfs, &dxfs, b, &mut s)?; m.insert(p.clone(), s); }
            None => { m.insert(p.clone(), format!("{bytes:?}")); }
        }
    }
    Ok(m)
}
pub fn same_content(a: &Book, b: &Book, what: &str) -> Result<(), String> {
    let (x, y) = (content(a)?, content(b)?);
    let (ka, kb): (Vec<_>, Vec<_>) = (x.keys().collect(), y.keys().collect());
    ensure!(ka == kb, "{what}: the parts differ: {:?} / {:?}", ka.iter().filter(|k| !kb.contains(k)).collect::<Vec<_>>(), kb.iter().filter(|k| !ka.contains(k)).collect::<Vec<_>>());
    for (k, v) in &x {
        let w = &y[k];
        if v != w {
            let (l, r): (Vec<&str>, Vec<&str>) = (v.split('\n').collect(), w.split('\n').collect());
            let i = l.iter().zip(&r).position(|(a, b)| a != b).unwrap_or(l.len().min(r.len()));
            return Err(format!("{what}: {k} differs: {:?} / {:?}", l.get(i).map(|s| clip(s)), r.get(i).map(|s| clip(s))));
        }
    }
    Ok(())
}
fn twice(s: &Scene) -> Result<(), String> {
    let mut wb = s.build();
    let a = wb.save_to_buffer().map_err(|e| e.to_string());
    let b = wb.save_to_buffer().map_err(|e| e.to_string());
    match (a, b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) => { let (a, b) = (Book::open(&a)?, Book::open(&b)?); same_file(&a, &b).map_err(|e| format!("second save: {e}"))?; content(&a).map(|_| ()) }
        (a, b) => Err(format!("first save ok: {}, second save ok: {} ({:?})", a.is_ok(), b.is_ok(), a.err().or(b.err()))),
    }
}
fn between(s: &Scene, stops: u64) -> Result<(), String> {
    // The shared string table may keep strings that no cell uses any more, and is read through the cells only:
    // one string that is never overwritten makes the part itself exist on both sides.
    let keep = |wb: &mut Workbook| { if wb.worksheets().len() == 1 { let _ = wb.worksheets_mut()[0].write_string(60, 20, "keep"); } };
    let mut one = Workbook::new();
    let mut two = Workbook::new();
    let n = s.items.len() as u64;
    for (i, it) in s.items.iter().enumerate() {
        apply(&mut one, it);
        keep(&mut one);
        apply(&mut two, it);
        keep(&mut two);
        if (i as u64 + 1) * (stops + 1) / n != i as u64 * (stops + 1) / n { if !two.worksheets().is_empty() { let _ = two.save_to_buffer(); } }
    }
    match (one.save_to_buffer(), two.save_to_buffer()) {
        (Ok(a), Ok(b)) => same_content(&Book::open(&a)?, &Book::open(&b)?, "saved in between"),
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("single save: {:?}; with saves in between: {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string()))),
    }
}
/// workbooks built from serialized data, and worksheets that were saved as part of another workbook
fn single(run: &mut Run) {
    run.case("save twice", "empty workbook", || twice(&Scene { items: vec![] }));
    run.case("saves between changes", "number formats of rules and cells", || {
        let mut wb = Workbook::new();
        wb.add_worksheet().add_conditional_format(0, 0, 3, 0, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(5)).set_format(Format::new().set_num_format("0.000"))).map_err(|e| e.to_string())?;
        wb.save_to_buffer().map_err(|e| e.to_string())?;
        wb.worksheet_from_index(0).map_err(|e| e.to_string())?.write_with_format(0, 0, 7, &Format::new().set_num_format("[Red]0.0")).map_err(|e| e.to_string())?;
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        content(&b).map(|_| ())
    });
    run.case("save twice", "filtered data", || {
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for i in 1..20 { w.write(i, 0, i % 5).map_err(|e| e.to_string())?; }
        w.autofilter(0, 0, 19, 0).map_err(|e| e.to_string())?;
        w.filter_column(0, &FilterCondition::new().add_list_filter(3)).map_err(|e| e.to_string())?;
        let a = wb.save_to_buffer().map_err(|e| e.to_string())?;
        let w = wb.worksheet_from_index(0).map_err(|e| e.to_string())?;
        w.filter_column(0, &FilterCondition::new().add_list_filter(4)).map_err(|e| e.to_string())?;
        let _ = a;
        let b = wb.save_to_buffer().map_err(|e| e.to_string())?;
        let mut w1 = Workbook::new();
        let w = w1.add_worksheet();
        for i in 1..20 { w.write(i, 0, i % 5).map_err(|e| e.to_string())?; }
        w.autofilter(0, 0, 19, 0).map_err(|e| e.to_string())?;
        w.filter_column(0, &FilterCondition::new().add_list_filter(4)).map_err(|e| e.to_string())?;
        same_content(&Book::open(&w1.save_to_buffer().map_err(|e| e.to_string())?)?, &Book::open(&b)?, "filter changed after a save")
    });
}
pub fn run(run: &mut Run) {
    single(run);
    for k in 0..KINDS.len() as u8 {
        for seed in 0..run.n(3, 20) {
            let mk = |n: usize| { let mut items = vec![Item { sheet: 0, kind: kind("add sheet"), seed: 1 }]; for i in 0..n { items.push(Item { sheet: 0, kind: k, seed: seed + 7 * i as u64 }); } Scene { items } };
            let s = mk(1);
            run.case("save twice", &s.text(), || twice(&s));
            let s = mk(4);
            run.case("saves between changes", &s.text(), || between(&s, 4));
        }
    }
    for i in 0..run.n(700, 12_000) {
        let mut g = run.rng(i);
        let n = 4 + g.below(40);
        let s = Scene::random(&mut g, n);
        let twice_fails = |s: &Scene| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| twice(s).is_err())).unwrap_or(true);
        let s1 = if twice_fails(&s) { s.shrink(&twice_fails) } else { s.clone() };
        run.case("save twice", &s1.text(), || twice(&s1));
        let stops = 1 + g.below(4);
        let between_fails = |s: &Scene| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| between(s, stops).is_err())).unwrap_or(true);
        let s2 = if between_fails(&s) { s.shrink(&between_fails) } else { s };
        run.case("saves between changes", &format!("{stops} saves: {}", s2.text()), || between(&s2, stops));
    }
}
