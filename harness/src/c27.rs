//! C27 executable contract: one active visible sheet; order, visibility, tab and view settings as set.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

#[derive(Clone, Debug)]
enum T { Add, Active(u8, bool), Selected(u8, bool), Hidden(u8, bool), VeryHidden(u8, bool), First(u8, bool), Color(u8, u32), Name(u8, u64), Swap(u8, u8), Freeze(u8, u32, u16), Top(u8, u32, u16), Select(u8, u32, u16, u32, u16), TopLeft(u8, u32, u16), Zoom(u8, u16), Rtl(u8, bool), View(u8, u8), Grid(u8, bool), Save }
#[derive(Clone, Debug, Default)]
struct M { name: String, active: bool, selected: bool, vis: u8, first: bool, color: Option<u32>, freeze: (u32, u16), top: (u32, u16), sel: Option<(u32, u16, u32, u16)>, tl: (u32, u16), zoom: u16, rtl: bool, view: u8, nogrid: bool }
fn ok(r: u32, c: u16) -> bool { r < 1_048_576 && c < 16_384 }
fn a1(r: u32, c: u16) -> String { let mut n = u32::from(c) + 1; let mut s = String::new(); while n > 0 { s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } format!("{s}{}", r + 1) }
fn check(b: &Book, m: &[M]) -> Result<(), String> {
    let wb = &b.xml["xl/workbook.xml"];
    ensure!(b.sheets.len() == m.len(), "{} sheets, not {}", b.sheets.len(), m.len());
    let views: Vec<&El> = wb.find_all("workbookView");
    ensure!(views.len() == 1, "{} workbook views", views.len());
    let active: usize = views[0].a("activeTab").unwrap_or("0").parse().map_err(|_| "activeTab")?;
    let first: usize = views[0].a("firstSheet").unwrap_or("1").parse().map_err(|_| "firstSheet")?;
    let chosen = (0..m.len()).rev().find(|i| m[*i].active);
    ensure!(active == chosen.unwrap_or(0), "active tab {active}, not {:?}", chosen);
    let want_first = (0..m.len()).rev().find(|i| m[*i].first).unwrap_or(0);
    ensure!(first == want_first + 1, "first tab {first}, not {}", want_first + 1);
    for (i, (x, e)) in m.iter().zip(wb.get("sheets").ok_or("no sheets")?.all("sheet")).enumerate() {
        let state = match e.a("state") { None => 0, Some("visible") => 0, Some("hidden") => 1, Some("veryHidden") => 2, s => return Err(format!("state {s:?}")) };
        let vis = if i == active { 0 } else { x.vis };
        ensure!(state == vis, "sheet {i} has visibility {state}, not {vis}");
        ensure!(e.a("name") == Some(x.name.as_str()), "sheet {i} is {:?}, not {:?}", e.a("name"), x.name);
        let s = b.sheet(i);
        let vs: Vec<&El> = s.find_all("sheetView");
        ensure!(vs.len() == 1, "{} views", vs.len());
        let v = vs[0];
        let selected = i == active || x.selected;
        ensure!((v.a("tabSelected") == Some("1")) == selected, "sheet {i}: selected {:?}, not {selected}", v.a("tabSelected"));
        ensure!(v.a("workbookViewId") == Some("0"), "workbook view {:?}", v.a("workbookViewId"));
        ensure!((v.a("rightToLeft") == Some("1")) == x.rtl, "sheet {i}: right to left");
        ensure!((v.a("showGridLines") == Some("0")) == x.nogrid, "sheet {i}: gridlines");
        ensure!(v.a("view").unwrap_or("normal") == ["normal", "pageLayout", "pageBreakPreview"][x.view as usize], "sheet {i}: view {:?}", v.a("view"));
        ensure!(v.a("zoomScale").unwrap_or("100") == x.zoom.to_string(), "sheet {i}: zoom {:?}, not {}", v.a("zoomScale"), x.zoom);
        ensure!(v.a("topLeftCell").unwrap_or("A1") == a1(x.tl.0, x.tl.1), "sheet {i}: top left cell {:?}, not {:?}", v.a("topLeftCell"), x.tl);
        let frozen = x.freeze != (0, 0);
        match v.get("pane") {
            None => ensure!(!frozen, "sheet {i}: no pane for {:?}", x.freeze),
            Some(p) => {
                ensure!(frozen && p.a("state") == Some("frozen"), "sheet {i}: pane {p:?} for {:?}", x.freeze);
                let n = |k: &str| p.a(k).unwrap_or("0").parse::<u32>().unwrap_or(u32::MAX);
                ensure!(n("ySplit") == x.freeze.0 && n("xSplit") == u32::from(x.freeze.1), "sheet {i}: frozen at {:?} {:?}, not {:?}", p.a("ySplit"), p.a("xSplit"), x.freeze);
                let t = if x.top == (0, 0) { x.freeze } else { x.top };
                ensure!(p.a("topLeftCell") == Some(&a1(t.0, t.1)), "sheet {i}: pane top left cell {:?}, not {t:?}", p.a("topLeftCell"));
                let pane = match x.freeze { (0, _) => "topRight", (_, 0) => "bottomLeft", _ => "bottomRight" };
                ensure!(p.a("activePane") == Some(pane), "sheet {i}: active pane {:?}, not {pane}", p.a("activePane"));
                ensure!(v.all("selection").any(|s| s.a("pane") == Some(pane)), "sheet {i}: no selection for {pane}");
            }
        }
        let own: Vec<&El> = v.all("selection").filter(|s| s.a("pane").is_none()).collect();
        match x.sel {
            None => ensure!(own.is_empty(), "sheet {i}: selection {own:?}"),
            Some((r, c, r2, c2)) => {
                ensure!(own.len() == 1, "sheet {i}: {} selections", own.len());
                let (lo, hi) = (a1(r.min(r2), c.min(c2)), a1(r.max(r2), c.max(c2)));
                let range = if lo == hi { lo } else { format!("{lo}:{hi}") };
                ensure!(own[0].a("activeCell") == Some(&a1(r, c)) && own[0].a("sqref") == Some(&range), "sheet {i}: selection {:?}, not {range}", own[0]);
            }
        }
        let col = s.path(&["sheetPr", "tabColor"]).and_then(|e| e.a("rgb")).map(str::to_string);
        ensure!(col == x.color.map(|c| format!("FF{c:06X}")), "sheet {i}: tab colour {col:?}, not {:?}", x.color);
    }
    ensure!(active < m.len() && first <= m.len(), "indices");
    Ok(())
}
fn run_ops(ops: &[T]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let mut m: Vec<M> = vec![];
    let add = |wb: &mut Workbook, m: &mut Vec<M>| { let n = format!("Sheet{}", m.len() + 1); wb.add_worksheet(); m.push(M { name: n, zoom: 100, ..M::default() }); };
    add(&mut wb, &mut m);
    let mut names = 0u64;
    for o in ops {
        if let T::Add = o { if m.len() < 6 { add(&mut wb, &mut m); } continue; }
        if let T::Save = o { let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?; check(&b, &m)?; let a = (0..m.len()).rev().find(|i| m[*i].active); if let Some(a) = a { m[a].selected = true; m[a].vis = 0; } continue; }
        if let T::Swap(a, b) = o { let n = m.len(); let (a, b) = (*a as usize % n, *b as usize % n); m.swap(a, b); wb.worksheets_mut().swap(a, b); continue; }
        let k = match o { T::Active(k, _) | T::Selected(k, _) | T::Hidden(k, _) | T::VeryHidden(k, _) | T::First(k, _) | T::Color(k, _) | T::Name(k, _) | T::Freeze(k, ..) | T::Top(k, ..) | T::Select(k, ..) | T::TopLeft(k, ..) | T::Zoom(k, _) | T::Rtl(k, _) | T::View(k, _) | T::Grid(k, _) => *k as usize % m.len(), _ => 0 };
        let w = &mut wb.worksheets_mut()[k];
        let x = &mut m[k];
        let fit = |r: Result<(), XlsxError>, good: bool| -> Result<bool, String> { ensure!(r.is_ok() == good, "{o:?}: {r:?}"); Ok(good) };
        match o.clone() {
            T::Active(_, e) => { w.set_active(e); x.active = e; if e { x.selected = true; x.vis = 0; } }
            T::Selected(_, e) => { w.set_selected(e); x.selected = e; if e { x.vis = 0; } }
            T::Hidden(_, e) => { w.set_hidden(e); x.vis = u8::from(e); if e { x.selected = false; x.active = false; } }
            T::VeryHidden(_, e) => { w.set_very_hidden(e); x.vis = 2 * u8::from(e); if e { x.selected = false; x.active = false; } }
            T::First(_, e) => { w.set_first_tab(e); x.first = e; if e { x.vis = 0; } }
            T::Color(_, c) => { w.set_tab_color(Color::RGB(c)); x.color = Some(c); }
            T::Name(_, _) => { names += 1; let n = format!("n {names}"); w.set_name(&n).map_err(|e| e.to_string())?; x.name = n; }
            T::Freeze(_, r, c) => if fit(w.set_freeze_panes(r, c).map(|_| ()), ok(r, c))? { x.freeze = (r, c); },
            T::Top(_, r, c) => if fit(w.set_freeze_panes_top_cell(r, c).map(|_| ()), ok(r, c))? { x.top = (r, c); },
            T::Select(_, r, c, r2, c2) => if fit(w.set_selection(r, c, r2, c2).map(|_| ()), ok(r, c) && ok(r2, c2))? { x.sel = Some((r, c, r2, c2)); },
            T::TopLeft(_, r, c) => if fit(w.set_top_left_cell(r, c).map(|_| ()), ok(r, c))? { x.tl = (r, c); },
            T::Zoom(_, z) => { w.set_zoom(z); if (10..=400).contains(&z) { x.zoom = z; } }
            T::Rtl(_, e) => { w.set_right_to_left(e); x.rtl = e; }
            T::View(_, v) => { match v { 0 => w.set_view_normal(), 1 => w.set_view_page_layout(), _ => w.set_view_page_break_preview() }; x.view = v; }
            T::Grid(_, e) => { w.set_screen_gridlines(e); x.nogrid = !e; }
            T::Add | T::Save | T::Swap(..) => {}
        }
    }
    check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)
}
fn random(g: &mut Rng, n: u64) -> Vec<T> {
    let row = |g: &mut Rng| -> u32 { match g.below(6) { 0 => 0, 1 => 1_048_575, 2 => 1_048_576, _ => g.below(40) as u32 } };
    let col = |g: &mut Rng| -> u16 { match g.below(6) { 0 => 0, 1 => 16_383, 2 => 16_384, _ => g.below(40) as u16 } };
    (0..n).map(|_| {
        let k = g.below(6) as u8;
        match g.below(22) {
            0 | 1 => T::Add, 2 | 3 => T::Active(k, g.chance(3, 4)), 4 => T::Selected(k, g.bits()), 5 | 6 => T::Hidden(k, g.chance(3, 4)), 7 => T::VeryHidden(k, g.chance(3, 4)), 8 | 9 => T::First(k, g.chance(3, 4)),
            10 => T::Color(k, g.below(1 << 24) as u32), 11 => T::Name(k, 0), 12 => T::Swap(k, g.below(6) as u8), 13 => T::Freeze(k, row(g), col(g)), 14 => T::Top(k, row(g), col(g)), 15 => T::Select(k, row(g), col(g), row(g), col(g)),
            16 => T::TopLeft(k, row(g), col(g)), 17 => T::Zoom(k, *g.pick(&[9, 10, 100, 400, 401, 55, 0, 65535])), 18 => T::Rtl(k, g.bits()), 19 => T::View(k, g.below(3) as u8), 20 => T::Grid(k, g.bits()), _ => if g.chance(1, 2) { T::Save } else { T::Add },
        }
    }).collect()
}
pub fn run(run: &mut Run) {
    // every sequence of two tab operations on three sheets
    let tabs: Vec<fn(u8) -> T> = vec![|k| T::Active(k, true), |k| T::Active(k, false), |k| T::Selected(k, true), |k| T::Selected(k, false), |k| T::Hidden(k, true), |k| T::Hidden(k, false), |k| T::VeryHidden(k, true), |k| T::First(k, true), |k| T::First(k, false)];
    for a in &tabs { for b in &tabs { for i in 0..3 { for j in 0..3 { for save in [false, true] {
        let mut ops = vec![T::Add, T::Add, a(i)];
        if save { ops.push(T::Save); }
        ops.push(b(j));
        run.case("tabs", &format!("{ops:?}"), || run_ops(&ops));
    } } } } }
    run.exhaustive.push("two tab operations on three sheets, with and without a save in between".into());
    for r in [0u32, 1, 2, 1_048_575, 1_048_576] { for c in [0u16, 1, 2, 16_383, 16_384] { for o in [T::Freeze(0, r, c), T::Top(0, r, c), T::TopLeft(0, r, c), T::Select(0, r, c, 3, 3), T::Select(0, 3, 3, r, c)] {
        let ops = vec![T::Freeze(0, 1, 1), T::TopLeft(0, 4, 4), o];
        run.case("views", &format!("{ops:?}"), || run_ops(&ops));
    } } }
    for i in 0..run.n(3000, 60_000) {
        let mut g = run.rng(i);
        let n = 1 + g.below(16);
        let ops = random(&mut g, n);
        run.case("random", &format!("{ops:?}"), || run_ops(&ops));
    }
}
