//! C21 executable contract: page breaks, page setup, print options, headers/footers and print ranges as last set.
use crate::common::*;
use crate::ensure;
use crate::scene::png;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
enum P {
    RowBreaks(Vec<u32>), ColBreaks(Vec<u32>), Paper(u8), Order(bool), Landscape, Portrait, View(u8), Margins([f64; 6]), First(u16), Scale(u16), Fit(u16, u16),
    CenterH(bool), CenterV(bool), Grid(bool), Headings(bool), Bw(bool), Draft(bool), Header(String), Footer(String), ScaleDoc(bool), Align(bool), HeadImage(u8), FootImage(u8),
    Area(u32, u16, u32, u16), Rows(u32, u32), Cols(u16, u16), Name(String), Save,
}
#[derive(Clone, Debug)]
struct M {
    rows: Vec<u32>, cols: Vec<u32>, paper: u8, over: bool, land: bool, view: u8, margins: [f64; 6], first: u16, scale: u16, fit: Option<(u16, u16)>, opts: [bool; 4], bw: bool, draft: bool,
    header: String, footer: String, noscale: bool, noalign: bool, images: [bool; 6], area: Option<(u32, u16, u32, u16)>, rep_rows: Option<(u32, u32)>, rep_cols: Option<(u16, u16)>, name: String,
}
impl M {
    fn new(name: &str) -> M { M { rows: vec![], cols: vec![], paper: 0, over: false, land: false, view: 0, margins: [0.7, 0.7, 0.75, 0.75, 0.3, 0.3], first: 0, scale: 100, fit: None, opts: [false; 4], bw: false, draft: false, header: String::new(), footer: String::new(), noscale: false, noalign: false, images: [false; 6], area: None, rep_rows: None, rep_cols: None, name: name.into() } }
}
fn col_name(c: u16) -> String { let mut n = u32::from(c) + 1; let mut s = String::new(); while n > 0 { s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } s }
// The control codes of header and footer text, by a left to right scan.
fn expand(s: &str) -> String {
    let names = [("&[Tab]", "&A"), ("&[Date]", "&D"), ("&[File]", "&F"), ("&[Page]", "&P"), ("&[Path]", "&Z"), ("&[Time]", "&T"), ("&[Pages]", "&N"), ("&[Picture]", "&G")];
    let mut out = String::new();
    let mut rest = s;
    'next: while let Some(c) = rest.chars().next() {
        for (n, code) in names { if let Some(r) = rest.strip_prefix(n) { out.push_str(code); rest = r; continue 'next; } }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}
// The text of one section (L, C or R) of a header with each section at most once.
fn section(s: &str, which: char) -> String {
    let mut cur = 'C';
    let (mut out, mut it) = (String::new(), s.chars().peekable());
    while let Some(c) = it.next() {
        if c == '&' { if let Some(n) = it.peek().copied() { if "LCR".contains(n) { cur = n; it.next(); continue; } } }
        if cur == which { out.push(c); }
    }
    out
}
fn breaks(list: &[u32], limit: u32) -> Result<Option<Vec<u32>>, ()> {
    if list.is_empty() { return Ok(None); }
    let set: BTreeSet<u32> = list.iter().copied().filter(|b| *b != 0).collect();
    if set.len() > 1023 || set.iter().any(|b| *b >= limit) { Err(()) } else { Ok(Some(set.into_iter().collect())) }
}
fn num(s: Option<&str>) -> Result<f64, String> { s.ok_or("missing number")?.parse().map_err(|_| format!("number {s:?}")) }
fn flag(e: Option<&El>, k: &str) -> bool { matches!(e.and_then(|e| e.a(k)), Some("1" | "true")) }
// A sheet-qualified reference without the optional quotes around plain names, and one-cell ranges as one cell.
fn plain(t: &str) -> String {
    let mut out = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        let mut name = String::new();
        if let Some(r) = rest.strip_prefix('\'') {
            rest = r;
            loop {
                match rest.find('\'') { None => return t.into(), Some(i) => { name += &rest[..i]; rest = &rest[i + 1..]; } }
                match rest.strip_prefix('\'') { Some(r) => { name.push('\''); rest = r; } None => break }
            }
        } else { let i = rest.find('!').unwrap_or(rest.len()); name += &rest[..i]; rest = &rest[i..]; }
        let i = rest.find(',').unwrap_or(rest.len());
        let r = &rest[..i];
        let r = match r.strip_prefix('!').unwrap_or(r).split_once(':') { Some((a, b)) if a == b && a.matches('$').count() == 2 => format!("!{a}"), _ => r.into() };
        out.push(format!("{name:?}{r}"));
        rest = if i < rest.len() { &rest[i + 1..] } else { "" };
    }
    out.join(",")
}
fn quoted(n: &str) -> String { format!("'{}'", n.replace('\'', "''")) }
const ORDER: [&str; 30] = ["sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetProtection", "protectedRanges", "autoFilter", "mergeCells", "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "ignoredErrors", "drawing", "legacyDrawing", "legacyDrawingHF", "picture", "tableParts", "extLst", "-", "-", "-", "-"];
fn check(b: &Book, m: &[M]) -> Result<(), String> {
    let names: Vec<(String, Option<String>, String)> = b.xml["xl/workbook.xml"].get("definedNames").map_or(vec![], |d| d.all("definedName").map(|e| (e.a("name").unwrap_or("").to_string(), e.a("localSheetId").map(str::to_string), e.text())).collect());
    let mut want_names: Vec<(String, Option<String>, String)> = vec![];
    for (i, x) in m.iter().enumerate() {
        let s = b.sheet(i);
        let order: Vec<usize> = s.els().map(|e| ORDER.iter().position(|n| *n == e.name).unwrap_or(99)).collect();
        ensure!(order.windows(2).all(|w| w[0] <= w[1]) && !order.contains(&99), "sheet {i}: elements out of order: {:?}", s.els().map(|e| e.name.clone()).collect::<Vec<_>>());
        for (tag, list, max) in [("rowBreaks", &x.rows, "16383"), ("colBreaks", &x.cols, "1048575")] {
            match s.get(tag) {
                None => ensure!(list.is_empty(), "sheet {i}: no {tag} for {list:?}"),
                Some(e) => {
                    let got: Vec<u32> = e.all("brk").map(|k| k.a("id").unwrap_or("").parse().unwrap_or(0)).collect();
                    ensure!(got == *list && !got.is_empty(), "sheet {i}: {tag} {got:?}, not {list:?}");
                    ensure!(e.all("brk").all(|k| k.a("man") == Some("1") && k.a("max") == Some(max)), "sheet {i}: {tag} attributes");
                    let n = list.len().to_string();
                    ensure!(e.a("count") == Some(&n) && e.a("manualBreakCount") == Some(&n), "sheet {i}: {tag} counts {:?} {:?}", e.a("count"), e.a("manualBreakCount"));
                }
            }
        }
        let ps = s.get("pageSetup");
        let a = |k: &str| ps.and_then(|e| e.a(k));
        ensure!(a("paperSize").unwrap_or("0") == x.paper.to_string(), "sheet {i}: paper {:?}, not {}", a("paperSize"), x.paper);
        ensure!((a("pageOrder") == Some("overThenDown")) == x.over, "sheet {i}: page order {:?}", a("pageOrder"));
        ensure!((a("orientation") == Some("landscape")) == x.land, "sheet {i}: orientation {:?}, landscape {}", a("orientation"), x.land);
        ensure!(a("scale").unwrap_or("100") == x.scale.to_string(), "sheet {i}: scale {:?}, not {}", a("scale"), x.scale);
        ensure!(flag(s.path(&["sheetPr", "pageSetUpPr"]), "fitToPage") == x.fit.is_some(), "sheet {i}: fit to page, not {:?}", x.fit);
        let fit = (num(Some(a("fitToWidth").unwrap_or("1")))?, num(Some(a("fitToHeight").unwrap_or("1")))?);
        let want = x.fit.unwrap_or((1, 1));
        ensure!(fit == (f64::from(want.0), f64::from(want.1)), "sheet {i}: fit {fit:?}, not {want:?}");
        ensure!(flag(ps, "useFirstPageNumber") == (x.first > 0) && matches!(a("useFirstPageNumber"), None | Some("0" | "1" | "true" | "false")), "sheet {i}: useFirstPageNumber {:?} for {}", a("useFirstPageNumber"), x.first);
        if x.first > 0 { ensure!(a("firstPageNumber").unwrap_or("1") == x.first.to_string(), "sheet {i}: first page {:?}, not {}", a("firstPageNumber"), x.first); }
        ensure!(flag(ps, "blackAndWhite") == x.bw && flag(ps, "draft") == x.draft, "sheet {i}: black and white {:?}, draft {:?}, not {} {}", a("blackAndWhite"), a("draft"), x.bw, x.draft);
        let po = s.get("printOptions");
        let got = [flag(po, "horizontalCentered"), flag(po, "verticalCentered"), flag(po, "gridLines"), flag(po, "headings")];
        ensure!(got == x.opts, "sheet {i}: print options {got:?}, not {:?}", x.opts);
        let pm = s.get("pageMargins").ok_or("no margins")?;
        for (k, v) in ["left", "right", "top", "bottom", "header", "footer"].iter().zip(x.margins) { ensure!(num(pm.a(k))? == v, "sheet {i}: margin {k} {:?}, not {v}", pm.a(k)); }
        let v = s.path(&["sheetViews", "sheetView"]).ok_or("no view")?;
        ensure!(v.a("view").unwrap_or("normal") == ["normal", "pageLayout", "pageBreakPreview"][x.view as usize], "sheet {i}: view {:?}", v.a("view"));
        let hf = s.get("headerFooter");
        for (k, t) in [("oddHeader", &x.header), ("oddFooter", &x.footer)] {
            let got = hf.and_then(|e| e.get(k)).map_or(String::new(), El::text);
            ensure!(got == expand(t), "sheet {i}: {k} {got:?}, not {:?}", expand(t));
        }
        ensure!((hf.and_then(|e| e.a("scaleWithDoc")) == Some("0")) == x.noscale && (hf.and_then(|e| e.a("alignWithMargins")) == Some("0")) == x.noalign, "sheet {i}: header attributes {:?}", hf.map(|e| &e.attrs));
        let rels = b.rels_of(&b.sheets[i].1);
        let mut ids: Vec<String> = vec![];
        match s.get("legacyDrawingHF") {
            None => ensure!(x.images == [false; 6], "sheet {i}: no header images for {:?}", x.images),
            Some(e) => {
                let id = e.a("r:id").ok_or("no id")?;
                let t = rels.iter().find(|r| r.0 == id).ok_or("no relationship")?;
                let part = t.2.clone();
                let v = b.xml.get(&part).ok_or_else(|| format!("no part {part}"))?;
                ids = v.find_all("v:shape").iter().map(|e| e.a("id").unwrap_or("").to_string()).collect();
            }
        }
        let want: Vec<String> = (0..6).filter(|k| x.images[*k]).map(|k| ["LH", "CH", "RH", "LF", "CF", "RF"][k].to_string()).collect();
        ids.sort(); let mut want = want; want.sort();
        ensure!(ids == want, "sheet {i}: header images {ids:?}, not {want:?}");
        let q = quoted(&x.name);
        if let Some((r, c, r2, c2)) = x.area {
            let range = if c == 0 && c2 == 16_383 { format!("${}:${}", r + 1, r2 + 1) } else if r == 0 && r2 == 1_048_575 { format!("${}:${}", col_name(c), col_name(c2)) } else if (r, c) == (r2, c2) { format!("${}${}", col_name(c), r + 1) } else { format!("${}${}:${}${}", col_name(c), r + 1, col_name(c2), r2 + 1) };
            want_names.push(("_xlnm.Print_Area".into(), Some(i.to_string()), format!("{q}!{range}")));
        }
        let mut t: Vec<String> = vec![];
        if let Some((c, c2)) = x.rep_cols { t.push(format!("{q}!${}:${}", col_name(c), col_name(c2))); }
        if let Some((r, r2)) = x.rep_rows { t.push(format!("{q}!${}:${}", r + 1, r2 + 1)); }
        if !t.is_empty() { want_names.push(("_xlnm.Print_Titles".into(), Some(i.to_string()), t.join(","))); }
    }
    let mut got: Vec<_> = names.iter().map(|n| (n.0.clone(), n.1.clone(), plain(&n.2))).collect();
    for n in &mut want_names { n.2 = plain(&n.2); }
    got.sort(); want_names.sort();
    ensure!(got == want_names, "names {got:?}, not {want_names:?}");
    Ok(())
}
fn run_ops(ops: &[(u8, P)], sheets: usize) -> Result<(), String> {
    let mut wb = Workbook::new();
    let mut m: Vec<M> = vec![];
    for i in 0..sheets { wb.add_worksheet(); m.push(M::new(&format!("Sheet{}", i + 1))); }
    for (k, o) in ops {
        if let P::Save = o { check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)?; continue; }
        let k = *k as usize % sheets;
        let others: Vec<String> = m.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, x)| x.name.to_lowercase()).collect();
        let (w, x) = (wb.worksheet_from_index(k).map_err(|e| e.to_string())?, &mut m[k]);
        let fit = |r: Result<(), XlsxError>, good: bool| -> Result<bool, String> { ensure!(r.is_ok() == good, "{}: {r:?}", clip(&format!("{o:?}"))); Ok(good) };
        match o.clone() {
            P::RowBreaks(l) => { let r = w.set_page_breaks(&l).map(|_| ()); let want = breaks(&l, 1_048_576); if fit(r, want.is_ok())? { if let Ok(Some(v)) = want { x.rows = v; } } }
            P::ColBreaks(l) => { let r = w.set_vertical_page_breaks(&l).map(|_| ()); let want = breaks(&l, 16_384); if fit(r, want.is_ok())? { if let Ok(Some(v)) = want { x.cols = v; } } }
            P::Paper(p) => { w.set_paper_size(p); x.paper = p; }
            P::Order(e) => { w.set_page_order(e); x.over = !e; }
            P::Landscape => { w.set_landscape(); x.land = true; }
            P::Portrait => { w.set_portrait(); x.land = false; }
            P::View(v) => { match v { 0 => w.set_view_normal(), 1 => w.set_view_page_layout(), _ => w.set_view_page_break_preview() }; x.view = v; }
            P::Margins(v) => { w.set_margins(v[0], v[1], v[2], v[3], v[4], v[5]); for i in 0..6 { if v[i] >= 0.0 { x.margins[i] = v[i]; } } }
            P::First(n) => { w.set_print_first_page_number(n); x.first = n; }
            P::Scale(n) => { w.set_print_scale(n); if (10..=400).contains(&n) { x.scale = n; x.fit = None; } }
            P::Fit(a, b) => { w.set_print_fit_to_pages(a, b); x.fit = Some((a, b)); x.scale = 100; }
            P::CenterH(e) => { w.set_print_center_horizontally(e); x.opts[0] = e; }
            P::CenterV(e) => { w.set_print_center_vertically(e); x.opts[1] = e; }
            P::Grid(e) => { w.set_print_gridlines(e); x.opts[2] = e; }
            P::Headings(e) => { w.set_print_headings(e); x.opts[3] = e; }
            P::Bw(e) => { w.set_print_black_and_white(e); x.bw = e; }
            P::Draft(e) => { w.set_print_draft(e); x.draft = e; }
            P::Header(s) => { w.set_header(&s); if expand(&s).chars().count() <= 255 { x.header = s; } }
            P::Footer(s) => { w.set_footer(&s); if expand(&s).chars().count() <= 255 { x.footer = s; } }
            P::ScaleDoc(e) => { w.set_header_footer_scale_with_doc(e); x.noscale = !e; }
            P::Align(e) => { w.set_header_footer_align_with_page(e); x.noalign = !e; }
            P::HeadImage(p) | P::FootImage(p) => {
                let p = p as usize % 3;
                let at = [HeaderImagePosition::Left, HeaderImagePosition::Center, HeaderImagePosition::Right][p].clone();
                let img = Image::new_from_buffer(&png(10, 10)).map_err(|e| e.to_string())?;
                let (foot, text) = if matches!(o, P::FootImage(_)) { (3, &x.footer) } else { (0, &x.header) };
                let good = section(&expand(text), ['L', 'C', 'R'][p]).contains("&G");
                let r = if foot == 3 { w.set_footer_image(&img, at).map(|_| ()) } else { w.set_header_image(&img, at).map(|_| ()) };
                if fit(r, good)? { x.images[foot + p] = true; }
            }
            P::Area(r, c, r2, c2) => {
                let good = r < 1_048_576 && r2 < 1_048_576 && c < 16_384 && c2 < 16_384 && r <= r2 && c <= c2;
                if fit(w.set_print_area(r, c, r2, c2).map(|_| ()), good)? { x.area = if (r, c, r2, c2) == (0, 0, 1_048_575, 16_383) { None } else { Some((r, c, r2, c2)) }; }
            }
            P::Rows(r, r2) => if fit(w.set_repeat_rows(r, r2).map(|_| ()), r <= r2 && r2 < 1_048_576)? { x.rep_rows = Some((r, r2)); },
            P::Cols(c, c2) => if fit(w.set_repeat_columns(c, c2).map(|_| ()), c <= c2 && c2 < 16_384)? { x.rep_cols = Some((c, c2)); },
            P::Name(n) => if !others.contains(&n.to_lowercase()) { w.set_name(&n).map_err(|e| e.to_string())?; x.name = n; },
            P::Save => {}
        }
    }
    check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)
}
fn hf_text(g: &mut Rng) -> String {
    let part = |g: &mut Rng| { let n = g.below(4); (0..n).map(|_| (*g.pick(&["&[Tab]", "&[Date]", "&[File]", "&[Page]", "&[Path]", "&[Time]", "&[Pages]", "&[Picture]", "&G", "&P", "&N", "Page ", " of ", "é", "<b>", "\"x\"", "&30", "&\"Arial,Bold\"", "[Page]", "Tab]", "text", "日本"])).to_string()).collect::<String>() };
    let mut s = String::new();
    if g.chance(1, 3) { s += "&L"; s += &part(g); }
    if g.chance(2, 3) { s += "&C"; s += &part(g); }
    if g.chance(1, 3) { s += "&R"; s += &part(g); }
    if g.chance(1, 6) { let n = *g.pick(&[253usize, 254, 255, 256, 257]); let code = g.pick(&["&[Page]", "&[Pages]", "é", "x"]).to_string(); let have = expand(&s).chars().count(); let one = expand(&code).chars().count(); if n > have + one { s += &code; s += &(*g.pick(&["z", "ö"])).repeat(n - have - one); } }
    s
}
fn list(g: &mut Rng, limit: u32) -> Vec<u32> {
    let n = match g.below(12) { 0 => 0, 1 => 1, 2 => *g.pick(&[1022, 1023, 1024, 1025, 1200]), _ => 1 + g.below(8) };
    let start = g.below(50) as u32;
    let mut v: Vec<u32> = (0..n).map(|i| if n > 100 { start + i as u32 } else { match g.below(9) { 0 => 0, 1 => limit - 1, 2 => if g.chance(1, 3) { limit } else { limit - 2 }, 3 => g.below(u64::from(limit)) as u32, _ => g.below(12) as u32 } }).collect();
    if g.chance(1, 3) { v.reverse(); }
    if g.chance(1, 4) && !v.is_empty() { let k = v[g.below(v.len() as u64) as usize]; v.push(k); }
    if g.chance(1, 30) { v.push(u32::MAX); }
    v
}
fn random(g: &mut Rng, n: u64) -> Vec<(u8, P)> {
    let row = |g: &mut Rng| -> u32 { match g.below(8) { 0 | 1 => 0, 2 => 1_048_575, 3 => if g.chance(1, 3) { 1_048_576 } else { 1_048_575 }, _ => g.below(30) as u32 } };
    let col = |g: &mut Rng| -> u16 { match g.below(8) { 0 | 1 => 0, 2 => 16_383, 3 => if g.chance(1, 3) { 16_384 } else { 16_383 }, _ => g.below(60) as u16 } };
    (0..n).map(|_| (g.below(3) as u8, match g.below(30) {
        0 | 1 => P::RowBreaks(list(g, 1_048_576)), 2 | 3 => P::ColBreaks(list(g, 16_384)), 4 => P::Paper(*g.pick(&[0, 1, 9, 41, 255])), 5 => P::Order(g.bits()), 6 => P::Landscape, 7 => P::Portrait, 8 => P::View(g.below(3) as u8),
        9 => P::Margins([0; 6].map(|_| *g.pick(&[-1.0, 0.0, 0.5, 1.25, -0.0001, 0.7, 3.3, 1e-3, 12.75]))), 10 => P::First(*g.pick(&[0, 1, 2, 17, 65535])), 11 | 12 => P::Scale(*g.pick(&[9, 10, 99, 100, 400, 401, 0, 65535])), 13 | 14 => P::Fit(*g.pick(&[0, 1, 2, 65535]), *g.pick(&[0, 1, 2, 999])),
        15 => P::CenterH(g.bits()), 16 => P::CenterV(g.bits()), 17 => P::Grid(g.bits()), 18 => P::Headings(g.bits()), 19 => P::Bw(g.bits()), 20 => P::Draft(g.bits()),
        21 => P::Header(hf_text(g)), 22 => P::Footer(hf_text(g)), 23 => P::ScaleDoc(g.bits()), 24 => P::Align(g.bits()),
        25 => if g.bits() { P::HeadImage(g.below(3) as u8) } else { P::FootImage(g.below(3) as u8) },
        26 => { let (r, c) = (row(g), col(g)); let (r2, c2) = (row(g), col(g)); if g.chance(3, 4) { P::Area(r.min(r2), c.min(c2), r.max(r2), c.max(c2)) } else { P::Area(r, c, r2, c2) } }
        27 => { let (r, r2) = (row(g), row(g)); if g.chance(3, 4) { P::Rows(r.min(r2), r.max(r2)) } else { P::Rows(r, r2) } }
        28 => { let (r, r2) = (col(g), col(g)); if g.chance(3, 4) { P::Cols(r.min(r2), r.max(r2)) } else { P::Cols(r, r2) } }
        _ => if g.chance(1, 3) { P::Save } else { P::Name(g.pick(&["My Sheet", "Tab's", "Ünï", "Data", "a!b", "2020"]).to_string()) },
    })).collect()
}
pub fn run(run: &mut Run) {
    let one = |run: &mut Run, key: &str, ops: Vec<P>| { let ops: Vec<(u8, P)> = ops.into_iter().map(|o| (0, o)).collect(); run.case(key, &clip(&format!("{ops:?}")), || run_ops(&ops, 1)); };
    for l in [vec![0u32], vec![0, 0], vec![], vec![1], vec![0, 1], vec![5, 3, 5, 1], vec![16_383], vec![16_384], vec![1_048_575], vec![1_048_576], vec![0, u32::MAX]] {
        for before in [None, Some(vec![7u32])] {
            let mut a: Vec<P> = before.clone().map(P::RowBreaks).into_iter().collect(); a.push(P::RowBreaks(l.clone())); one(run, "row breaks", a);
            let mut a: Vec<P> = before.clone().map(P::ColBreaks).into_iter().collect(); a.push(P::ColBreaks(l.clone())); one(run, "column breaks", a);
        }
    }
    for n in [1022u32, 1023, 1024] { for zero in [false, true] { for dup in [false, true] { for rev in [false, true] {
        let mut l: Vec<u32> = (1..=n).collect(); if zero { l.push(0); } if dup { l.push(500); } if rev { l.reverse(); }
        one(run, "row breaks", vec![P::RowBreaks(l.clone())]); one(run, "column breaks", vec![P::ColBreaks(l)]);
    } } } }
    for p in 0..=255u8 { one(run, "paper", vec![P::Paper(p)]); }
    for s in (0..=420u16).step_by(if run.thorough { 1 } else { 5 }).chain([9, 10, 11, 99, 101, 399, 400, 401]) { one(run, "scale", vec![P::Fit(2, 3), P::Scale(s)]); one(run, "scale", vec![P::Scale(s)]); }
    // every pair of settings, in both orders
    let pool: Vec<P> = vec![P::RowBreaks(vec![3, 1]), P::ColBreaks(vec![2]), P::Paper(9), P::Order(false), P::Order(true), P::Landscape, P::Portrait, P::View(0), P::View(1), P::View(2), P::Margins([1.0; 6]), P::Margins([-1.0, 2.0, -1.0, 2.0, -1.0, 2.0]), P::First(3), P::First(1), P::Scale(75), P::Scale(100), P::Scale(5), P::Fit(1, 1), P::Fit(0, 2), P::CenterH(true), P::CenterH(false), P::CenterV(true), P::CenterV(false), P::Grid(true), P::Grid(false), P::Headings(true), P::Headings(false), P::Bw(true), P::Bw(false), P::Draft(true), P::Draft(false), P::Header("&C&[Page] of &[Pages]".into()), P::Header("&L&[Picture]".into()), P::Header(String::new()), P::Footer("&R&G".into()), P::ScaleDoc(false), P::ScaleDoc(true), P::Align(false), P::Align(true), P::HeadImage(0), P::HeadImage(1), P::FootImage(2), P::Area(1, 1, 5, 5), P::Area(0, 0, 1_048_575, 16_383), P::Area(0, 2, 1_048_575, 2), P::Area(4, 0, 4, 16_383), P::Rows(0, 0), P::Rows(2, 5), P::Cols(0, 0), P::Cols(1, 3), P::Name("My Sheet".into()), P::Save];
    for a in &pool { for b in &pool { one(run, "pairs", vec![a.clone(), b.clone()]); } }
    run.exhaustive.push("all ordered pairs from 52 page settings; all 256 paper sizes".into());
    for i in 0..run.n(2500, 60_000) {
        let mut g = run.rng(i);
        let n = 1 + g.below(14);
        let ops = random(&mut g, n);
        run.case("random", &clip(&format!("{ops:?}")), || run_ops(&ops, 3));
    }
}
