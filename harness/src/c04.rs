//! C04 executable contract: worksheet names and their quoting.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::utility::*;
use rust_xlsxwriter::*;
use std::collections::HashMap;

/// the rules of the statement
pub fn name_ok(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    !c.is_empty() && c.len() <= 31 && !c.iter().any(|x| ['[', ']', ':', '*', '?', '/', '\\'].contains(x)) && c[0] != '\'' && c[c.len() - 1] != '\''
}
fn digits(c: &[char]) -> (u64, usize) {
    let n = c.iter().take_while(|x| x.is_ascii_digit()).count();
    let t: String = c[..n].iter().collect();
    (t.parse().unwrap_or(u64::MAX), n)
}
/// would the bare name be read as something other than a sheet name?
pub fn must_quote(s: &str, cols: &HashMap<String, u32>) -> bool {
    let c: Vec<char> = s.chars().collect();
    let u: Vec<char> = c.iter().map(|x| x.to_ascii_uppercase()).collect();
    // an operator, space, or the start of a number
    if c.iter().any(|x| x.is_ascii() && !x.is_ascii_alphanumeric() && *x != '_' && *x != '.') { return true; }
    if c[0].is_ascii_digit() || c[0] == '.' { return true; }
    // an A1 reference
    let l = u.iter().take_while(|x| x.is_ascii_uppercase()).count();
    let (n, k) = digits(&u[l..]);
    if l >= 1 && k >= 1 && l + k == u.len() {
        let col: String = u[..l].iter().collect();
        if cols.contains_key(&col) && (1..=1_048_576).contains(&n) { return true; }
    }
    // an R1C1 reference, alone or in front of the rest of the name
    let t: String = u.iter().collect();
    if t == "R" || t == "C" || t == "RC" { return true; }
    if u[0] == 'R' { let (n, k) = digits(&u[1..]); if k > 0 && (1..=1_048_576).contains(&n) { return true; } }
    let rest = if t.starts_with("RC") { Some(2) } else if u[0] == 'C' { Some(1) } else { None };
    if let Some(i) = rest { let (n, k) = digits(&u[i..]); if k > 0 && (1..=16_384).contains(&n) { return true; } }
    false
}
/// read a sheet name from the front of a reference, as a formula parser does: (name, quoted, rest)
pub fn take_sheet(r: &str) -> Option<(String, bool, String)> {
    let c: Vec<char> = r.chars().collect();
    if c.first() == Some(&'\'') {
        let (mut i, mut name) = (1, String::new());
        loop {
            match c.get(i)? {
                '\'' if c.get(i + 1) == Some(&'\'') => { name.push('\''); i += 2; }
                '\'' => { i += 1; break; }
                x => { name.push(*x); i += 1; }
            }
        }
        Some((name, true, c[i..].iter().collect()))
    } else {
        let i = c.iter().position(|x| *x == '!')?;
        Some((c[..i].iter().collect(), false, c[i..].iter().collect()))
    }
}
fn quoted(s: &str, cols: &HashMap<String, u32>) -> Result<(), String> {
    let q = quote_sheet_name(s);
    let (n, was, rest) = take_sheet(&format!("{q}!A1")).ok_or(format!("{q}!A1 can not be read"))?;
    ensure!(n == s, "{q} is read back as {n:?}");
    ensure!(rest == "!A1", "{q}: left over {rest:?}");
    ensure!(was || !must_quote(s, cols), "{q} isn't quoted");
    Ok(())
}
pub fn run(run: &mut Run) {
    let cols: HashMap<String, u32> = all_columns(16_384).into_iter().enumerate().map(|(i, s)| (s, i as u32)).collect();
    let al: Vec<char> = "ARCXrcf_.' 1059-é日😀ß!".chars().collect();
    let mut names: Vec<String> = vec![];
    let mut stack: Vec<String> = al.iter().map(|c| c.to_string()).collect();
    while let Some(s) = stack.pop() {
        if s.chars().count() < 3 { for c in &al { stack.push(format!("{s}{c}")); } }
        names.push(s);
    }
    run.exhaustive.push(format!("names of 1 to 3 characters over {} characters", al.len()));
    for s in ["R1048576", "R1048577", "r1048576x", "r1048577x", "C16384", "C16385", "c16384.", "c16385.", "RC16384_", "RC16385_", "XFD1048576", "XFD1048577", "XFE1", "xfe1", "xfd1", "AAAA1", "A0", "A01", "A00", "R0", "R0001", "C00001x", "RC", "rC1", "R1C1", "R1C1x", "RxC1", "R1Cx", "A18446744073709551616",
        "R18446744073709551616", "C18446744073709551616", "A4294967297", "R4294967297", "C65537", "RC65537", "A.1", "a.b1", "_1", "__1", "TRUE1", "Zürich1", "ı1", "ſ1", "ŉ1", "ﬁ1", "a'1", "'a", "a'", "'", "''", "'a'b'", "Sheet1", "2020", "1e5", "a b"] { names.push(s.into()); }
    let mut g = run.rng(4);
    for _ in 0..run.n(4000, 100_000) {
        let n = 1 + g.below(8);
        let mut s = String::new();
        for _ in 0..n { match g.below(12) { 0 => s.push_str(*g.pick(NASTY)), 1 => s.push_str(&g.below(2_000_000).to_string()), _ => s.push(*g.pick(&al)) } }
        names.push(s);
    }
    for _ in 0..run.n(1000, 20_000) { names.push(rand_string(&mut g, 40)); }
    for s in ["*", "?", ":", "[", "]", "\\", "/"] { for t in [format!("a{s}b"), format!("{s}a"), format!("a{s}"), s.to_string()] { names.push(t); } }
    for n in [30, 31, 32] { for c in ["a", "é", "😀"] { names.push(c.repeat(n)); } }
    names.push(String::new());
    for s in &names {
        run.case("valid", &format!("{s:?}"), || {
            let ok = name_ok(s);
            ensure!(check_sheet_name(s).is_ok() == ok, "check_sheet_name: {:?}", check_sheet_name(s));
            let mut w = Worksheet::new();
            w.set_name("before").unwrap();
            let r = w.set_name(s).is_ok();
            ensure!(r == ok, "set_name accepted={r}");
            ensure!(w.name() == if ok { s.clone() } else { "before".to_string() }, "name is {:?}", w.name());
            Ok(())
        });
        if name_ok(s) { run.case("quote", &format!("{s:?}"), || quoted(s, &cols)); }
    }
    // every column name next to every kind of row, in both cases
    let mut rows = vec!["1", "1048576", "1048577", "0"];
    if run.thorough { rows.extend(["01", "2147483648", "x1", "."]); }
    for c in cols.keys() {
        for r in &rows {
            for s in [format!("{c}{r}"), format!("{}{r}", c.to_lowercase())] { run.case("quote", &format!("{s:?}"), || quoted(&s, &cols)); }
        }
    }
    run.exhaustive.push("every column name with rows 0, 1, 1048576 and 1048577".into());
    let _ = cols.len();
    // in files: names, defined names, charts
    let good: Vec<String> = names.iter().filter(|s| name_ok(s) && s.chars().all(|c| c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}' && c != '\u{2028}') && xstring(s) == **s).cloned().collect();
    for k in 0..run.n(250, 3000) {
        let n = 1 + g.below(4) as usize;
        let mut ns: Vec<String> = (0..n).map(|_| g.pick(&good).clone()).collect();
        if g.chance(1, 6) { let t = ns[0].to_lowercase(); ns.push(if g.bits() { t } else { ns[0].clone() }); }
        if k % 50 == 7 { ns.push("ABC".into()); ns.push("abc".into()); }
        let local = g.below(ns.len() as u64) as usize;
        run.case("file", &format!("{ns:?} local name on {local}"), || file(&ns, local, &cols));
    }
    run.case("file", "default names", || {
        let mut wb = Workbook::new();
        for _ in 0..12 { wb.add_worksheet(); }
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        for (i, s) in b.sheets.iter().enumerate().take(12) { ensure!(s.0 == format!("Sheet{}", i + 1), "{s:?}"); }
        Ok(())
    });
}
fn file(ns: &[String], local: usize, cols: &HashMap<String, u32>) -> Result<(), String> {
    let mut wb = Workbook::new();
    for (i, n) in ns.iter().enumerate() {
        let w = wb.add_worksheet();
        w.set_name(n).map_err(|e| e.to_string())?;
        w.write(0, 0, 10 + i as u32).unwrap();
        w.write(1, 0, 20 + i as u32).unwrap();
        w.autofilter(0, 0, 1, 1).unwrap();
        w.set_print_area(0, 0, 3, 3).unwrap();
        w.set_repeat_rows(0, 1).unwrap();
        let mut c = Chart::new(ChartType::Line);
        c.add_series().set_values((n.as_str(), 0, 0, 1, 0));
        c.add_series().set_values(format!("={}!$A$1:$A$2", quote_sheet_name(n)).as_str());
        w.insert_chart(3, 3, &c).unwrap();
        w.add_sparkline(0, 5, &Sparkline::new().set_range((n.as_str(), 0, 0, 1, 0))).unwrap();
    }
    wb.define_name(format!("{}!vp_local", quote_sheet_name(&ns[local])), "=1").map_err(|e| e.to_string())?;
    let dup = { let l: std::collections::HashSet<String> = ns.iter().map(|s| s.to_lowercase()).collect(); l.len() < ns.len() };
    let r = wb.save_to_buffer();
    if dup { ensure!(matches!(r, Err(XlsxError::SheetnameReused(_))), "names equal ignoring case were saved"); return Ok(()); }
    let b = Book::open(&r.map_err(|e| e.to_string())?)?;
    ensure!(b.sheets.iter().map(|s| s.0.clone()).collect::<Vec<_>>() == ns, "sheets {:?}", b.sheets);
    let refers = |t: &str, want: usize, rng: &str| -> Result<(), String> {
        let (n, q, rest) = take_sheet(t).ok_or(format!("can not read {t}"))?;
        ensure!(n == ns[want] && rest == rng, "{t} should be {rng} on {:?}", ns[want]);
        ensure!(q || !must_quote(&n, cols), "{t} isn't quoted");
        Ok(())
    };
    let mut seen = 0;
    for d in b.xml["xl/workbook.xml"].get("definedNames").ok_or("no defined names")?.all("definedName") {
        let id: Option<usize> = d.a("localSheetId").and_then(|x| x.parse().ok());
        match (d.a("name"), id) {
            (Some("_xlnm._FilterDatabase"), Some(i)) => refers(&d.text(), i, "!$A$1:$B$2")?,
            (Some("_xlnm.Print_Area"), Some(i)) => refers(&d.text(), i, "!$A$1:$D$4")?,
            (Some("_xlnm.Print_Titles"), Some(i)) => refers(&d.text(), i, "!$1:$2")?,
            (Some("vp_local"), Some(i)) => ensure!(i == local && d.text() == "1", "local name on sheet {i}"),
            x => return Err(format!("defined name {x:?}")),
        }
        seen += 1;
    }
    ensure!(seen == 3 * ns.len() + 1, "{seen} defined names");
    for (i, _) in ns.iter().enumerate() {
        let c = &b.xml[&format!("xl/charts/chart{}.xml", i + 1)];
        let fs = c.find_all("c:f");
        ensure!(fs.len() == 2, "{} chart references", fs.len());
        for f in fs { refers(&f.text(), i, "!$A$1:$A$2")?; }
        for cache in c.find_all("c:numCache") {
            let v: Vec<String> = cache.find_all("c:v").iter().map(|x| x.text()).collect();
            ensure!(v == [(10 + i).to_string(), (20 + i).to_string()], "chart data {v:?} of sheet {i}");
        }
        ensure!(c.find_all("c:numCache").len() == 2, "no chart data");
        let f = b.sheet(i).find_all("xm:f");
        refers(&f[0].text(), i, "!A1:A2")?;
    }
    let app = b.xml["docProps/app.xml"].path(&["TitlesOfParts"]).ok_or("no titles")?;
    let t: Vec<String> = app.find_all("vt:lpstr").iter().map(|x| x.text()).collect();
    ensure!(t[..ns.len()] == *ns, "titles {t:?}");
    Ok(())
}
