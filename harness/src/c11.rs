//! C11 executable contract: the package of parts, relationships and content types is closed and complete.
use crate::common::*;
use crate::ensure;
use crate::scene::*;
use crate::xl::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

const D: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
/// (part name pattern with * for a number or extension, content type, how many relationships may lead there, their type)
fn part_kind(p: &str) -> Option<(&'static str, Option<usize>, &'static str)> {
    let num = |a: &str, b: &str| p.strip_prefix(a).and_then(|s| s.strip_suffix(b)).is_some_and(|n| n.parse::<u32>().is_ok_and(|k| k > 0 && k.to_string() == n));
    let x = "application/vnd.openxmlformats-officedocument.";
    let _ = x;
    Some(match p {
        "xl/workbook.xml" => ("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml", Some(1), "officeDocument"),
        "xl/styles.xml" => ("application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml", Some(1), "styles"),
        "xl/theme/theme1.xml" => ("application/vnd.openxmlformats-officedocument.theme+xml", Some(1), "theme"),
        "xl/sharedStrings.xml" => ("application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml", Some(1), "sharedStrings"),
        "docProps/core.xml" => ("application/vnd.openxmlformats-package.core-properties+xml", Some(1), "core-properties"),
        "docProps/app.xml" => ("application/vnd.openxmlformats-officedocument.extended-properties+xml", Some(1), "extended-properties"),
        "docProps/custom.xml" => ("application/vnd.openxmlformats-officedocument.custom-properties+xml", Some(1), "custom-properties"),
        "xl/metadata.xml" => ("application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml", Some(1), "sheetMetadata"),
        "xl/vbaProject.bin" => ("application/vnd.ms-office.vbaProject", Some(1), "vbaProject"),
        "xl/vbaProjectSignature.bin" => ("application/vnd.ms-office.vbaProjectSignature", Some(1), "vbaProjectSignature"),
        "xl/richData/richValueRel.xml" => ("application/vnd.ms-excel.richvaluerel+xml", Some(1), "richValueRel"),
        "xl/richData/rdrichvalue.xml" => ("application/vnd.ms-excel.rdrichvalue+xml", Some(1), "rdRichValue"),
        "xl/richData/rdrichvaluestructure.xml" => ("application/vnd.ms-excel.rdrichvaluestructure+xml", Some(1), "rdRichValueStructure"),
        "xl/richData/rdRichValueTypes.xml" => ("application/vnd.ms-excel.rdrichvaluetypes+xml", Some(1), "rdRichValueTypes"),
        "xl/featurePropertyBag/featurePropertyBag.xml" => ("application/vnd.ms-excel.featurepropertybag+xml", Some(1), "FeaturePropertyBag"),
        _ if num("xl/worksheets/sheet", ".xml") => ("application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml", Some(1), "worksheet"),
        _ if num("xl/chartsheets/sheet", ".xml") => ("application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml", Some(1), "chartsheet"),
        _ if num("xl/drawings/drawing", ".xml") => ("application/vnd.openxmlformats-officedocument.drawing+xml", Some(1), "drawing"),
        _ if num("xl/drawings/vmlDrawing", ".vml") => ("application/vnd.openxmlformats-officedocument.vmlDrawing", Some(1), "vmlDrawing"),
        _ if num("xl/charts/chart", ".xml") => ("application/vnd.openxmlformats-officedocument.drawingml.chart+xml", Some(1), "chart"),
        _ if num("xl/tables/table", ".xml") => ("application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml", Some(1), "table"),
        _ if num("xl/comments", ".xml") => ("application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml", Some(1), "comments"),
        _ if num("xl/media/image", ".png") => ("image/png", None, "image"),
        _ if num("xl/media/image", ".jpeg") => ("image/jpeg", None, "image"),
        _ if num("xl/media/image", ".gif") => ("image/gif", None, "image"),
        _ if num("xl/media/image", ".bmp") => ("image/bmp", None, "image"),
        _ => return None,
    })
}
/// the type of relationship that an id in this place refers to
fn ref_type(part: &str, el: &str, attr: &str) -> Option<&'static str> {
    Some(match (el, attr) {
        ("sheet", "r:id") => "worksheet",
        ("hyperlink", "r:id") | ("a:hlinkClick", "r:id") => "hyperlink",
        ("drawing", "r:id") => "drawing",
        ("legacyDrawing", "r:id") | ("legacyDrawingHF", "r:id") => "vmlDrawing",
        ("tablePart", "r:id") => "table",
        ("picture", "r:id") | ("a:blip", "r:embed") | ("v:imagedata", "o:relid") | ("v:fill", "o:relid") => "image",
        ("c:chart", "r:id") => "chart",
        ("rel", "r:id") if part == "xl/richData/richValueRel.xml" => "image",
        _ => return None,
    })
}
fn implicit(ty: &str) -> bool { matches!(ty, "theme" | "styles" | "sharedStrings" | "sheetMetadata" | "vbaProject" | "vbaProjectSignature" | "richValueRel" | "rdRichValue" | "rdRichValueStructure" | "rdRichValueTypes" | "FeaturePropertyBag" | "comments") }
fn short(ty: &str) -> &str { ty.rsplit('/').next().unwrap_or("") }
pub fn closed(b: &Book, macros: bool) -> Result<(), String> {
    let ct = b.xml.get("[Content_Types].xml").ok_or("no content types")?;
    let (mut defaults, mut overrides) = (BTreeMap::new(), BTreeMap::new());
    for d in ct.all("Default") { ensure!(defaults.insert(d.a("Extension").unwrap_or(""), d.a("ContentType").unwrap_or("")).is_none(), "two defaults for {:?}", d.a("Extension")); }
    for d in ct.all("Override") { ensure!(overrides.insert(d.a("PartName").unwrap_or("").trim_start_matches('/'), d.a("ContentType").unwrap_or("")).is_none(), "two overrides for {:?}", d.a("PartName")); }
    for o in overrides.keys() { ensure!(b.parts.contains_key(*o), "content type of a missing part {o}"); }
    let mut incoming: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for p in b.parts.keys() {
        if p == "[Content_Types].xml" { continue; }
        let ext = p.rsplit('.').next().unwrap_or("");
        let got = overrides.get(p.as_str()).or(defaults.get(ext)).ok_or(format!("part {p} has no content type"))?;
        if let Some(src) = p.strip_suffix(".rels") {
            ensure!(*got == "application/vnd.openxmlformats-package.relationships+xml", "{p}: content type {got}");
            let src = if src == "_rels/" { String::new() } else { src.replacen("_rels/", "", 1) };
            ensure!(src.is_empty() || b.parts.contains_key(&src), "relationships of a missing part {src}");
            let mut ids = HashSet::new();
            for (id, ty, target, mode) in b.rels_of(&src) {
                ensure!(!id.is_empty() && ids.insert(id.clone()), "{p}: relationship id {id} is defined twice");
                let t = short(&ty);
                ensure!(ty.starts_with(D) || ty.starts_with("http://schemas.openxmlformats.org/package/2006/relationships/metadata/") || ty.starts_with("http://schemas.microsoft.com/office/"), "{p}: type {ty}");
                if t == "hyperlink" { ensure!(mode == "External" || target.starts_with('#'), "{p}: hyperlink {target} is not external"); continue; }
                ensure!(mode.is_empty(), "{p}: {t} {target} has mode {mode}");
                ensure!(b.parts.contains_key(&target), "{p}: {id} leads to the missing part {target}");
                incoming.entry(target).or_default().push((src.clone(), t.to_string()));
            }
            continue;
        }
        let (want, _, _) = part_kind(p).ok_or(format!("unexpected part {p}"))?;
        let want = if macros && p == "xl/workbook.xml" { "application/vnd.ms-excel.sheet.macroEnabled.main+xml" } else { want };
        ensure!(*got == want, "{p}: content type {got}, not {want}");
    }
    for p in b.parts.keys() {
        if p == "[Content_Types].xml" || p.ends_with(".rels") { continue; }
        let (_, n, ty) = part_kind(p).unwrap();
        let inc = incoming.get(p).cloned().unwrap_or_default();
        ensure!(!inc.is_empty(), "part {p} is not referred to");
        ensure!(n.is_none() || n == Some(inc.len()), "part {p} is referred to {} times, from {:?}", inc.len(), inc);
        for (s, t) in &inc { ensure!(t == ty, "{s} refers to {p} as {t}"); }
        // ids used by the part
        let rels = b.rels_of(p);
        let mut used = BTreeSet::new();
        if let Some(x) = b.xml.get(p) {
            let mut err = None;
            x.walk(&mut |e: &El| {
                for (k, v) in &e.attrs {
                    let looks = k.starts_with("r:") || k == "o:relid";
                    match ref_type(p, &e.name, k) {
                        Some(ty) => match rels.iter().find(|r| r.0 == *v) {
                            None => err = err.take().or(Some(format!("{p}: <{} {k}={v:?}> is not defined", e.name))),
                            Some(r) => { used.insert(v.clone()); let t = short(&r.1); if t != ty && !(ty == "worksheet" && t == "chartsheet") { err = err.take().or(Some(format!("{p}: <{} {k}={v:?}> is a {t}", e.name))); } }
                        },
                        None if looks => err = err.take().or(Some(format!("{p}: unexpected reference <{} {k}={v:?}>", e.name))),
                        None => {}
                    }
                }
            });
            if let Some(e) = err { return Err(e); }
        }
        for r in &rels { ensure!(used.contains(&r.0) || implicit(short(&r.1)), "{p}: relationship {} of type {} is not used", r.0, short(&r.1)); }
        // reachable with the right count: one worksheet has at most one drawing, one comments part ...
        for t in ["drawing", "comments"] { ensure!(rels.iter().filter(|r| short(&r.1) == t).count() <= 1, "{p} has several {t} parts"); }
        if p.starts_with("xl/worksheets/") {
            let c = rels.iter().any(|r| short(&r.1) == "comments");
            ensure!(!c || b.xml[p].get("legacyDrawing").is_some(), "{p} has comments and no legacy drawing");
        }
        if p.starts_with("xl/drawings/drawing") {
            let mut ids = HashSet::new();
            for e in b.xml[p].find_all("xdr:cNvPr") { ensure!(ids.insert(e.a("id")), "{p}: object id {:?} is used twice", e.a("id")); }
        }
        if p.ends_with(".vml") {
            let mut ids = HashSet::new();
            for e in b.xml[p].find_all("v:shape") { ensure!(ids.insert(e.a("id")), "{p}: shape id {:?} is used twice", e.a("id")); }
        }
    }
    // ids across the workbook
    let w = &b.xml["xl/workbook.xml"];
    let mut ids = HashSet::new();
    for s in w.get("sheets").ok_or("no sheets")?.all("sheet") { ensure!(ids.insert(s.a("sheetId")), "sheetId {:?} twice", s.a("sheetId")); }
    let mut ids = HashSet::new();
    for (p, x) in &b.xml { if p.starts_with("xl/tables/") { ensure!(ids.insert(x.a("id")), "{p}: table id {:?} twice", x.a("id")); } }
    // parts are numbered 1..n
    for (pre, suf) in [("xl/worksheets/sheet", ".xml"), ("xl/chartsheets/sheet", ".xml"), ("xl/drawings/drawing", ".xml"), ("xl/charts/chart", ".xml"), ("xl/tables/table", ".xml"), ("xl/comments", ".xml")] {
        let v: Vec<u32> = b.parts.keys().filter_map(|p| p.strip_prefix(pre).and_then(|s| s.strip_suffix(suf)).and_then(|n| n.parse().ok())).collect();
        for k in 1..=v.len() as u32 { ensure!(v.contains(&k), "{pre}{k}{suf} is missing"); }
    }
    Ok(())
}
/// every image, chart and so on of the scene is somewhere in the file
pub fn check(s: &Scene, macros: bool) -> Result<(), String> {
    let mut wb = s.build();
    match wb.save_to_buffer() { Ok(b) => closed(&Book::open(&b)?, macros), Err(_) => Ok(()) }
}
const OBJECTS: &[&str] = &["image", "embed", "chart", "table", "note", "button", "checkbox", "shape", "url", "background", "header image", "footer image", "url image", "fit image", "combined chart", "checkbox format", "dynamic", "cells", "vba", "signature", "properties", "chartsheet", "add sheet"];
pub fn run(run: &mut Run) {
    let macros = |s: &Scene| s.items.iter().any(|i| matches!(KINDS[i.kind as usize], "vba" | "signature")) && s.build_has_macros();
    let one = |run: &mut Run, s: Scene| {
        let f = |s: &Scene| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(s, macros(s)).is_err())).unwrap_or(true);
        let s = if f(&s) { s.shrink(&f) } else { s };
        run.case("package", &s.text(), || check(&s, macros(&s)));
    };
    let add = Item { sheet: 0, kind: kind("add sheet"), seed: 1 };
    one(run, Scene { items: vec![] });
    // every pair of object kinds on the same and on different sheets
    for a in OBJECTS {
        for b in OBJECTS {
            for seed in 0..run.n(1, 4) {
                for sheet in [0u8, 1] {
                    one(run, Scene { items: vec![add, add, Item { sheet: 0, kind: kind(a), seed: 3 * seed + 1 }, Item { sheet, kind: kind(b), seed: 3 * seed + 2 }] });
                }
            }
        }
    }
    run.exhaustive.push("pairs of object kinds on one and on two sheets".to_string());
    for i in 0..run.n(1500, 40_000) {
        let mut g = run.rng(i);
        let n = 2 + g.below(30);
        let mut s = Scene::random(&mut g, n);
        if g.bits() { for it in &mut s.items { if g.chance(2, 3) && it.kind != kind("add sheet") { it.kind = kind(g.pick(OBJECTS)); } } }
        one(run, s);
    }
}
