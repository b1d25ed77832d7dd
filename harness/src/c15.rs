//! C15 executable contract: protection passwords and options.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

/// the legacy password hash: every byte, rotated in 15 bits by its position from 1, with the length and a constant
fn hash(p: &str) -> u16 {
    let rot = |b: u32, n: u32| { let n = n % 15; ((b << n) | (b >> (15 - n))) & 0x7FFF };
    let mut h = 0xCE4Bu32 ^ p.len() as u32;
    for (i, b) in p.bytes().enumerate() { h ^= rot(u32::from(b), i as u32 + 1); }
    h as u16
}
fn stored(e: &El, p: Option<&str>) -> Result<(), String> {
    let want = match p { Some(p) if !p.is_empty() => Some(format!("{:04X}", hash(p))), _ => None };
    ensure!(e.a("password").map(str::to_string) == want, "password {:?}, not {want:?}", e.a("password"));
    Ok(())
}
const NAMES: [(&str, bool); 14] = [("selectLockedCells", true), ("selectUnlockedCells", true), ("formatCells", false), ("formatColumns", false), ("formatRows", false), ("insertColumns", false), ("insertRows", false), ("insertHyperlinks", false), ("deleteColumns", false), ("deleteRows", false), ("sort", false), ("autoFilter", false), ("pivotTables", false), ("scenarios", false)];
fn options(bits: u32) -> ProtectionOptions {
    let b = |i: u32| bits >> i & 1 == 1;
    let mut o = ProtectionOptions::new();
    o.select_locked_cells = b(0); o.select_unlocked_cells = b(1); o.format_cells = b(2); o.format_columns = b(3); o.format_rows = b(4); o.insert_columns = b(5); o.insert_rows = b(6); o.insert_links = b(7);
    o.delete_columns = b(8); o.delete_rows = b(9); o.sort = b(10); o.use_autofilter = b(11); o.use_pivot_tables = b(12); o.edit_scenarios = b(13); o.edit_objects = b(14); o.contents = b(15);
    o
}
const DEFAULTS: u32 = 3 | 1 << 15;
/// what the file says may be done, with the defaults of the file format
fn check_options(e: &El, bits: u32) -> Result<(), String> {
    ensure!(e.a("sheet") == Some("1"), "sheet {:?}", e.a("sheet"));
    // attribute 1 locks; these are locked when absent, except the ones below
    for (i, (n, _)) in NAMES.iter().enumerate() {
        let open_by_default = ["selectLockedCells", "selectUnlockedCells", "scenarios"].contains(n);
        let locked = match e.a(n) { Some("1") => true, Some("0") => false, None => !open_by_default, x => return Err(format!("{n}={x:?}")) };
        ensure!(locked != (bits >> i & 1 == 1), "{n} is {}locked", if locked { "" } else { "not " });
    }
    let locked = e.a("objects") == Some("1");
    ensure!(locked != (bits >> 14 & 1 == 1), "objects {:?}", e.a("objects"));
    for (k, _) in &e.attrs { ensure!(["sheet", "objects", "password"].contains(&k.as_str()) || NAMES.iter().any(|n| n.0 == k), "attribute {k}"); }
    Ok(())
}
#[derive(Clone, Debug)]
enum Op { Protect, Password(String), Options(u32), Range((u32, u16, u32, u16), Option<(String, String)>) }
fn apply(w: &mut Worksheet, o: &Op) -> Result<(), XlsxError> {
    match o {
        Op::Protect => { w.protect(); }
        Op::Password(p) => { w.protect_with_password(p); }
        Op::Options(b) => { w.protect_with_options(&options(*b)); }
        Op::Range(r, None) => { w.unprotect_range(r.0, r.1, r.2, r.3)?; }
        Op::Range(r, Some((n, p))) => { w.unprotect_range_with_options(r.0, r.1, r.2, r.3, n, p)?; }
    }
    Ok(())
}
fn sheets(v: &[Vec<Op>], chartsheet: bool) -> Result<(), String> {
    let mut wb = Workbook::new();
    let mut models = vec![];
    for (k, ops) in v.iter().enumerate() {
        let chart = chartsheet && k == 0;
        if chart { let c = wb.add_chartsheet(); let mut ch = Chart::new(ChartType::Column); ch.add_series().set_values("Data!$A$1:$A$3"); c.insert_chart(0, 0, &ch).map_err(|e| e.to_string())?; } else { wb.add_worksheet(); }
        let w = wb.worksheet_from_index(k).unwrap();
        let (mut on, mut pw, mut bits, mut ranges) = (false, None, if chart { DEFAULTS | 1 << 14 } else { DEFAULTS }, vec![]);
        for o in ops {
            if chart && matches!(o, Op::Range(..)) { continue; }
            let ok = apply(w, o).is_ok();
            match o {
                Op::Protect => on = true,
                Op::Password(p) => { on = true; pw = Some(p.clone()); }
                Op::Options(b) => { on = true; bits = *b; }
                Op::Range(r, n) => {
                    let good = r.0 <= r.2 && r.1 <= r.3 && r.2 < 1_048_576 && r.3 < 16_384;
                    ensure!(ok == good, "range {r:?} {}", if ok { "accepted" } else { "refused" });
                    if good { let k = ranges.len() + 1; let (name, p) = match n { Some((n, p)) if !n.is_empty() => (n.clone(), p.clone()), Some((_, p)) => (format!("Range{k}"), p.clone()), None => (format!("Range{k}"), String::new()) }; ranges.push((*r, name, p)); }
                }
            }
        }
        models.push((on, pw, bits, ranges, chart));
    }
    wb.add_worksheet().set_name("Data").unwrap();
    let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
    for (k, (on, pw, bits, ranges, chart)) in models.iter().enumerate() {
        let s = b.sheet(k);
        let e = s.find_all("sheetProtection");
        ensure!(e.len() == usize::from(*on), "sheet {k}: {} protection elements", e.len());
        if *on {
            stored(e[0], pw.as_deref())?;
            if !*chart { check_options(e[0], *bits).map_err(|m| format!("sheet {k}: {m}"))?; }
            else {
                ensure!((e[0].a("content") == Some("1")) == (bits >> 15 & 1 == 1) && (e[0].a("objects") == Some("1")) == (bits >> 14 & 1 == 1), "chartsheet: {:?}", e[0].attrs);
            }
        }
        let rs = s.find_all("protectedRange");
        ensure!(rs.len() == ranges.len(), "{} open ranges, not {}", rs.len(), ranges.len());
        for (e, (r, n, p)) in rs.iter().zip(ranges) {
            ensure!(e.a("sqref") == Some(crate::model::range(r.0, r.1, r.2, r.3).as_str()), "range {:?} for {r:?}", e.a("sqref"));
            ensure!(e.a("name").map(xstring) == Some(xstring(n)), "name {:?}, not {n:?}", e.a("name"));
            stored(e, Some(p))?;
        }
    }
    for (n, x) in &b.xml { if n.starts_with("xl/charts/") { let on = x.find_all("c:protection").len() == 1; ensure!(on == (chartsheet && models[0].0), "chart protection {on}"); } }
    Ok(())
}
/// locked and hidden cells
fn cells(v: &[(bool, bool)]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let s = wb.add_worksheet();
    s.protect();
    for (i, (unlocked, hidden)) in v.iter().enumerate() {
        let mut f = Format::new();
        if *unlocked { f = f.set_unlocked(); }
        if *hidden { f = f.set_hidden(); }
        s.write_with_format(i as u32, 0, 1, &f).map_err(|e| e.to_string())?;
    }
    let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
    let x = b.xml["xl/styles.xml"].find_all("cellXfs");
    let xfs: Vec<&El> = x[0].els().collect();
    for c in b.sheet(0).find_all("c") {
        let (r, _) = a1_decode(c.a("r").unwrap()).unwrap();
        let xf = xfs[c.a("s").unwrap_or("0").parse::<usize>().unwrap()];
        let p = xf.get("protection");
        let on = p.is_some() && xf.a("applyProtection") == Some("1");
        let locked = !on || p.unwrap().a("locked") != Some("0");
        let hidden = on && p.unwrap().a("hidden") == Some("1");
        ensure!((!locked, hidden) == v[r as usize], "row {r}: locked {locked} hidden {hidden}");
    }
    Ok(())
}
fn password(g: &mut Rng) -> String {
    let n = match g.below(6) { 0 => 0, 1 => 1, 2 => g.below(16), 3 => 14 + g.below(4), 4 => g.below(256), _ => g.below(40) };
    match g.below(4) { 0 => (0..n).map(|_| g.below(128) as u8 as char).collect(), 1 => "~".repeat(n as usize), 2 => (0..n).map(|_| *g.pick(&['a', 'Z', '0', ' ', '\u{7f}', '!'])).collect(), _ => (0..n).map(|_| *g.pick(&['a', 'é', '日', 'ÿ', '€', '1'])).collect() }
}
fn op(g: &mut Rng) -> Op {
    match g.below(6) {
        0 => Op::Protect,
        1 => Op::Password(password(g)),
        2 | 3 => Op::Options(if g.bits() { 1 << g.below(16) } else if g.bits() { DEFAULTS ^ 1 << g.below(16) } else { g.below(1 << 16) as u32 }),
        _ => { let (r, c) = (*g.pick(&[0, 1, 9, 1_048_575, 1_048_576]), *g.pick(&[0u16, 1, 25, 26, 16_383, 16_384])); let q = (r, c, if g.chance(4, 5) { r + g.below(3) as u32 } else { 0 }, if g.chance(4, 5) { c + g.below(3) as u16 } else { 0 });
            Op::Range(q, if g.bits() { None } else { Some((if g.bits() { String::new() } else { rand_string(g, 6) }, password(g))) }) }
    }
}
pub fn run(run: &mut Run) {
    for i in 0..16 { for d in [0, DEFAULTS, 0xFFFF] { let b = d ^ 1 << i; run.case("one option", &format!("{b:016b}"), || sheets(&[vec![Op::Options(b)]], false)); run.case("one option of a chartsheet", &format!("{b:016b}"), || sheets(&[vec![Op::Options(b)], vec![]], true)); } }
    for p in ["", "a", "password", "VelvetSweatshop", "\u{7f}", "é", "123456789012345", "1234567890123456", "This is a longer phrase", "日本"] { run.case("password", p, || sheets(&[vec![Op::Password(p.into())], vec![Op::Range((0, 0, 0, 0), Some(("n".into(), p.into())))]], false)); }
    for n in 0..256 { let p = "aZ".repeat(128)[..n].to_string(); run.case("password", &p.clone(), || sheets(&[vec![Op::Password(p)]], false)); }
    for b in 1..128u8 { let p = (b as char).to_string(); run.case("password", &format!("{p:?}"), || sheets(&[vec![Op::Password(p)]], false)); }
    for i in 0..run.n(1500, 40_000) {
        let mut g = run.rng(i);
        let v: Vec<Vec<Op>> = (0..1 + g.below(3)).map(|_| (0..g.below(6)).map(|_| op(&mut g)).collect()).collect();
        let c = g.chance(1, 4);
        run.case("protection", &format!("{v:?} chartsheet {c}"), || sheets(&v, c));
        let v: Vec<(bool, bool)> = (0..1 + g.below(6)).map(|_| (g.bits(), g.bits())).collect();
        run.case("locked cells", &format!("{v:?}"), || cells(&v));
    }
}
