//! C23 executable contract: defined names are valid, complete, correctly scoped and in order.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

#[derive(Clone, Debug)]
enum D { Add, Chart, Rename(u8, String), Name(String, String), Area(u8, u32, u16, u32, u16), Rows(u8, u32, u32), Cols(u8, u16, u16), Filter(u8, u32, u16, u32, u16), NoFilter(u8), Save }
#[derive(Clone, Debug, Default)]
struct S { name: String, chart: bool, area: Option<(u32, u16, u32, u16)>, rows: Option<(u32, u32)>, cols: Option<(u16, u16)>, filter: Option<(u32, u16, u32, u16)> }
fn letters(c: u16) -> String { let mut n = u32::from(c) + 1; let mut s = String::new(); while n > 0 { s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } s }
fn area(r: u32, c: u16, r2: u32, c2: u16) -> String {
    if c == 0 && c2 == 16_383 { format!("${}:${}", r + 1, r2 + 1) } else if r == 0 && r2 == 1_048_575 { format!("${}:${}", letters(c), letters(c2)) } else if (r, c) == (r2, c2) { format!("${}${}", letters(c), r + 1) } else { format!("${}${}:${}${}", letters(c), r + 1, letters(c2), r2 + 1) }
}
// The sheet a possibly quoted sheet name refers to.
fn unquote(q: &str) -> String { if q.len() > 1 && q.starts_with('\'') && q.ends_with('\'') { q[1..q.len() - 1].replace("''", "'") } else { q.into() } }
// A reference with its sheet names unquoted: the quotes are optional for plain names.
pub fn plain(t: &str) -> String {
    let (mut out, mut rest) = (String::new(), t);
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('\'') {
            rest = r;
            out.push('<');
            while !rest.is_empty() {
                if let Some(r) = rest.strip_prefix("''") { out.push('\''); rest = r; } else if let Some(r) = rest.strip_prefix('\'') { rest = r; break; } else { let c = rest.chars().next().unwrap(); out.push(c); rest = &rest[c.len_utf8()..]; }
            }
            out.push('>');
        } else if let Some((a, _)) = rest.split_once('!') { if a.contains(',') { let i = rest.find(',').unwrap() + 1; out += &rest[..i]; rest = &rest[i..]; } else { out.push('<'); out += a; out.push('>'); rest = &rest[a.len()..]; } if let Some(r) = rest.strip_prefix('!') { out.push('!'); let i = r.find(',').map_or(r.len(), |i| i + 1); out += &r[..i]; rest = &r[i..]; } continue; } else { out += rest; break; }
        if let Some(r) = rest.strip_prefix('!') { out.push('!'); let i = r.find(',').map_or(r.len(), |i| i + 1); out += &r[..i]; rest = &r[i..]; } else { out += rest; break; }
    }
    out
}
fn valid(name: &str) -> bool {
    let n = name.rsplit('!').next().unwrap_or("");
    n.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_' || c == '\\') && !n.chars().any(|c| " ,/*[]:\"'".contains(c))
}
fn odd(s: &str) -> bool { s.chars().any(|c| (c as u32) < 32 || c == '\u{fffe}' || c == '\u{ffff}') || s.contains("_x") }
type Entry = (String, Option<String>, bool, String);
fn check(b: &Book, sheets: &[S], names: &[(String, String)]) -> Result<(), String> {
    let got: Vec<Entry> = b.xml["xl/workbook.xml"].get("definedNames").map_or(vec![], |d| d.all("definedName").map(|e| (e.a("name").unwrap_or("").to_string(), e.a("localSheetId").map(str::to_string), e.a("hidden") == Some("1"), e.text())).collect());
    let mut want: Vec<Entry> = vec![];
    let mut app: Vec<String> = vec![];
    for (name, formula) in names {
        let f = formula.strip_prefix('=').unwrap_or(formula).to_string();
        match name.rfind('!') {
            None => { if f.contains('!') { app.push(name.clone()); } want.push((name.clone(), None, false, f)); }
            Some(i) => {
                let q = unquote(&name[..i]);
                let k = sheets.iter().position(|s| s.name == q).ok_or("unknown sheet was accepted")?;
                app.push(format!("<{q}>!{}", &name[i + 1..]));
                want.push((name[i + 1..].to_string(), Some(k.to_string()), false, f));
            }
        }
    }
    for (i, s) in sheets.iter().enumerate() {
        let id = Some(i.to_string());
        if let Some((r, c, r2, c2)) = s.filter { want.push(("_xlnm._FilterDatabase".into(), id.clone(), true, format!("<{}>!{}", s.name, area(r, c, r2, c2)))); }
        if let Some((r, c, r2, c2)) = s.area { want.push(("_xlnm.Print_Area".into(), id.clone(), false, format!("<{}>!{}", s.name, area(r, c, r2, c2)))); app.push(format!("<{}>!Print_Area", s.name)); }
        let mut t: Vec<String> = vec![];
        if let Some((c, c2)) = s.cols { t.push(format!("<{}>!${}:${}", s.name, letters(c), letters(c2))); }
        if let Some((r, r2)) = s.rows { t.push(format!("<{}>!${}:${}", s.name, r + 1, r2 + 1)); }
        if !t.is_empty() { want.push(("_xlnm.Print_Titles".into(), id, false, t.join(","))); app.push(format!("<{}>!Print_Titles", s.name)); }
    }
    let order: Vec<String> = got.iter().map(|e| e.0.strip_prefix("_xlnm.").unwrap_or(&e.0).to_lowercase()).collect();
    ensure!(order.windows(2).all(|w| w[0] <= w[1]), "names out of order: {order:?}");
    let mut have: Vec<Entry> = got.iter().map(|e| if e.0.starts_with("_xlnm.") { (e.0.clone(), e.1.clone(), e.2, plain(&e.3)) } else { e.clone() }).collect();
    // a one-cell range may be written as a cell or as a range
    for e in &mut have { if e.0.starts_with("_xlnm.") { if let Some((s, r)) = e.3.clone().rsplit_once('!') { if let Some((a, b)) = r.split_once(':') { if a == b && a.matches('$').count() == 2 { e.3 = format!("{s}!{a}"); } } } } }
    have.sort(); want.sort();
    ensure!(have == want, "names {have:?}, not {want:?}");
    let titles: Vec<String> = b.xml["docProps/app.xml"].get("TitlesOfParts").map_or(vec![], |t| t.find_all("vt:lpstr").iter().map(|e| e.text()).collect());
    let mut tail: Vec<String> = titles.iter().skip(sheets.len()).map(|t| if t.contains('!') { let i = t.rfind('!').unwrap(); format!("<{}>!{}", unquote(&t[..i]), &t[i + 1..]) } else { t.clone() }).collect();
    tail.sort(); app.sort();
    ensure!(tail == app, "application properties list {tail:?}, not {app:?}");
    Ok(())
}
fn run_ops(ops: &[D]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let mut m: Vec<S> = vec![];
    wb.add_worksheet(); m.push(S { name: "Sheet1".into(), ..S::default() });
    let mut names: Vec<(String, String)> = vec![];
    let mut charts = 0;
    // an unknown sheet is reported when saving
    let save = |wb: &mut Workbook, m: &[S], names: &[(String, String)]| -> Result<bool, String> {
        let unknown = names.iter().any(|(n, _)| n.rfind('!').is_some_and(|i| !m.iter().any(|s| s.name == unquote(&n[..i]))));
        let r = wb.save_to_buffer();
        ensure!(r.is_err() == unknown, "save gave {:?} with names {names:?} and sheets {:?}", r.as_ref().err().map(ToString::to_string), m.iter().map(|s| &s.name).collect::<Vec<_>>());
        if let Ok(buf) = r { if !names.iter().any(|(n, f)| odd(n) || odd(f)) { check(&Book::open(&buf)?, m, names)?; } return Ok(true); }
        Ok(false)
    };
    for o in ops {
        match o.clone() {
            D::Add => if m.len() < 6 { let n = format!("Sheet{}", m.len() + 1 - charts); if m.iter().any(|s| s.name == n) { continue; } wb.add_worksheet(); let w = wb.worksheet_from_index(m.len()).map_err(|e| e.to_string())?; m.push(S { name: w.name(), ..S::default() }); continue; },
            D::Chart => if m.len() < 6 { let c = wb.add_chartsheet(); let mut ch = Chart::new_column(); ch.add_series().set_values("=Sheet1!$A$1:$A$2"); c.insert_chart(0, 0, &ch).map_err(|e| e.to_string())?; m.push(S { name: c.name(), chart: true, ..S::default() }); charts += 1; continue; },
            D::Save => { if !save(&mut wb, &m, &names)? { return Ok(()); } continue; }
            D::Name(n, f) => { let r = wb.define_name(n.as_str(), &f).map(|_| ()); ensure!(r.is_ok() == valid(&n), "define_name({n:?}): {r:?}"); if r.is_ok() { names.push((n, f)); } continue; }
            _ => {}
        }
        let k = match o { D::Rename(k, _) | D::Area(k, ..) | D::Rows(k, ..) | D::Cols(k, ..) | D::Filter(k, ..) | D::NoFilter(k) => *k as usize % m.len(), _ => 0 };
        let others: Vec<String> = m.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, s)| s.name.to_lowercase()).collect();
        let (w, s) = (wb.worksheet_from_index(k).map_err(|e| e.to_string())?, &mut m[k]);
        match o.clone() {
            D::Rename(_, n) => if k > 0 && !others.contains(&n.to_lowercase()) { w.set_name(&n).map_err(|e| e.to_string())?; s.name = n; },
            D::Area(_, r, c, r2, c2) => { w.set_print_area(r, c, r2, c2).map_err(|e| e.to_string())?; s.area = if (r, c, r2, c2) == (0, 0, 1_048_575, 16_383) { None } else { Some((r, c, r2, c2)) }; }
            D::Rows(_, r, r2) => { w.set_repeat_rows(r, r2).map_err(|e| e.to_string())?; s.rows = Some((r, r2)); }
            D::Cols(_, c, c2) => { w.set_repeat_columns(c, c2).map_err(|e| e.to_string())?; s.cols = Some((c, c2)); }
            D::Filter(_, r, c, r2, c2) => if !s.chart { w.autofilter(r, c, r2, c2).map_err(|e| e.to_string())?; s.filter = Some((r, c, r2, c2)); },
            _ => {}
        }
    }
    save(&mut wb, &m, &names).map(|_| ())
}
const SHEETS: [&str; 12] = ["My Sheet", "Tab's", "Ünï", "Data", "a!b", "2020", "A1", "R1C1", "it''s", "Zoë", "x-y", "sheet.x"];
fn name(g: &mut Rng) -> String {
    let base = |g: &mut Rng| match g.below(10) {
        0 => (*g.pick(&["Print_Area", "print_areas", "Print_Titles", "_FilterDatabase", "print_area_2", "PRINT_AREA", "_filterdatabase", "printer", "Print_Area{", "print_areaZ"])).to_string(),
        1 => (*g.pick(&["", "1abc", "-x", ".x", "a b", "a,b", "a/b", "a*b", "a[b", "a]b", "a:b", "a\"b", "a'b", " a", "a "])).to_string(),
        2 => rand_string(g, 8),
        3 => (*g.pick(&["_x", "\\x", "été", "ÉTÉ", "日本", "a.b", "a?b", "A<B>&", "x{}", "Ω", "ǅ", "ß"])).to_string(),
        4 => (*g.pick(&["Sales", "sales", "SALES", "Sales2"])).to_string(),
        _ => format!("{}{}", (b'a' + g.below(26) as u8) as char, g.below(50)),
    };
    match g.below(8) {
        0..=3 => base(g),
        4 => format!("Sheet1!{}", base(g)),
        5 => { let s = *g.pick(&SHEETS); format!("'{}'!{}", s.replace('\'', "''"), base(g)) }
        6 => format!("{}!{}", *g.pick(&["Sheet2", "Sheet3", "'Sheet2'", "Chart1", "Data", "Tab's", "Ünï", "'My Sheet'", "a!b"]), base(g)),
        _ => match g.below(5) { 0 => format!("{}!{}", *g.pick(&["", "'", "''", "'a", "a'", "!", "Nope", "sheet1", "'é'", "é'"]), base(g)), _ => base(g) },
    }
}
fn random(g: &mut Rng, n: u64) -> Vec<D> {
    let row = |g: &mut Rng| -> u32 { match g.below(6) { 0 => 0, 1 => 1_048_575, _ => g.below(30) as u32 } };
    let col = |g: &mut Rng| -> u16 { match g.below(6) { 0 => 0, 1 => 16_383, _ => g.below(60) as u16 } };
    (0..n).map(|_| { let k = g.below(6) as u8; match g.below(16) {
        0 | 1 => D::Add, 2 => D::Chart, 3 | 4 => D::Rename(k, g.pick(&SHEETS).to_string()),
        5..=9 => { let n = name(g); let f = g.pick(&["=Sheet1!$A$1", "=0.96", "Sheet1!$G$1:$G$10", "==1", "", "=\"a<b>&\"", "='My Sheet'!A1", "=é"]).to_string(); D::Name(n, f) }
        10 | 11 => { let (r, c, r2, c2) = (row(g), col(g), row(g), col(g)); D::Area(k, r.min(r2), c.min(c2), r.max(r2), c.max(c2)) }
        12 => { let (r, r2) = (row(g), row(g)); D::Rows(k, r.min(r2), r.max(r2)) }
        13 => { let (r, r2) = (col(g), col(g)); D::Cols(k, r.min(r2), r.max(r2)) }
        14 => { let (r, c, r2, c2) = (g.below(20) as u32, col(g), g.below(20) as u32, col(g)); D::Filter(k, r.min(r2), c.min(c2), r.max(r2) + 1, c.max(c2)) }
        _ => D::Save,
    } }).collect()
}
pub fn run(run: &mut Run) {
    // every name of up to three characters from a small alphabet
    let alphabet = ["", "a", "B", "1", "_", "\\", "!", "'", " ", ":", "é", ".", "\u{1}", "日"];
    for a in alphabet { for b in alphabet { for c in alphabet { for d in if run.thorough { &alphabet[..] } else { &alphabet[..4] } {
        let n = format!("{a}{b}{c}{d}");
        run.case("names", &n, || run_ops(&[D::Name(n.clone(), "=1".into())]));
    } } } }
    for s in SHEETS { for q in [true, false] { for local in ["n", "Print_Area", "zz"] {
        let sheet = if q { format!("'{}'", s.replace('\'', "''")) } else { s.to_string() };
        let ops = vec![D::Add, D::Rename(1, s.into()), D::Name(format!("{sheet}!{local}"), format!("={sheet}!$A$1")), D::Area(1, 1, 1, 4, 4), D::Rows(1, 0, 1), D::Filter(1, 0, 0, 5, 5), D::Area(0, 2, 2, 2, 2)];
        run.case("sheets", &format!("{ops:?}"), || run_ops(&ops));
    } } }
    for (a, b) in [("print_area", "print_areas"), ("Print_Areas", "print_areab"), ("print_area_", "zz"), ("_filterdatabas", "_filterdatabase2"), ("print_title", "print_titles2"), ("!x", "a"), ("''!x", "a"), ("a", "''!x"), ("Éz", "éa"), ("Äb", "äa"), ("ÉTÉ", "ét"), ("Ωz", "ωa"), ("Яб", "яа"), ("Z", "é"), ("z", "É")] {
        let ops = vec![D::Name(a.into(), "=1".into()), D::Name(b.into(), "=2".into()), D::Area(0, 1, 1, 2, 2), D::Filter(0, 0, 0, 5, 5), D::Rows(0, 1, 1)];
        run.case("order", &format!("{ops:?}"), || run_ops(&ops));
    }
    for i in 0..run.n(4000, 80_000) {
        let mut g = run.rng(i);
        let n = 1 + g.below(14);
        let ops = random(&mut g, n);
        run.case("random", &clip(&format!("{ops:?}")), || run_ops(&ops));
    }
}
