//! C14 executable contract: formulas are stored as written, with the prefixes Excel requires.
//!
//! Every formula is put together from parts whose stored form is known, so that nothing here
//! has to find functions in a text.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

const FUTURE: &[&str] = &["ACOTH", "ACOT", "AGGREGATE", "ARABIC", "ARRAYTOTEXT", "BASE", "BETA.DIST", "BETA.INV", "BINOM.DIST.RANGE", "BINOM.DIST", "BINOM.INV", "BITAND", "BITLSHIFT", "BITOR", "BITRSHIFT", "BITXOR", "CEILING.MATH", "CEILING.PRECISE", "CHISQ.DIST.RT", "CHISQ.DIST", "CHISQ.INV.RT", "CHISQ.INV", "CHISQ.TEST", "COMBINA", "CONCAT", "CONFIDENCE.NORM", "CONFIDENCE.T", "COTH", "COT", "COVARIANCE.P", "COVARIANCE.S", "CSCH", "CSC", "DAYS", "DECIMAL", "ERF.PRECISE", "ERFC.PRECISE", "EXPON.DIST", "F.DIST.RT", "F.DIST", "F.INV.RT", "F.INV", "F.TEST", "FIELDVALUE", "FILTERXML", "FLOOR.MATH", "FLOOR.PRECISE", "FORECAST.ETS.CONFINT", "FORECAST.ETS.SEASONALITY", "FORECAST.ETS.STAT", "FORECAST.ETS", "FORECAST.LINEAR", "FORMULATEXT", "GAMMA.DIST", "GAMMA.INV", "GAMMALN.PRECISE", "GAMMA", "GAUSS", "HYPGEOM.DIST", "IFNA", "IFS", "IMAGE", "IMCOSH", "IMCOT", "IMCSCH", "IMCSC", "IMSECH", "IMSEC", "IMSINH", "IMTAN", "ISFORMULA", "ISOMITTED", "ISOWEEKNUM", "LET", "LOGNORM.DIST", "LOGNORM.INV", "MAXIFS", "MINIFS", "MODE.MULT", "MODE.SNGL", "MUNIT", "NEGBINOM.DIST", "NORM.DIST", "NORM.INV", "NORM.S.DIST", "NORM.S.INV", "NUMBERVALUE", "PDURATION", "PERCENTILE.EXC", "PERCENTILE.INC", "PERCENTRANK.EXC", "PERCENTRANK.INC", "PERMUTATIONA", "PHI", "POISSON.DIST", "PQSOURCE", "PYTHON_STR", "PYTHON_TYPE", "PYTHON_TYPENAME", "QUARTILE.EXC", "QUARTILE.INC", "QUERYSTRING", "RANK.AVG", "RANK.EQ", "RRI", "SECH", "SEC", "SHEETS", "SHEET", "SKEW.P", "STDEV.P", "STDEV.S", "T.DIST.2T", "T.DIST.RT", "T.DIST", "T.INV.2T", "T.INV", "T.TEST", "TEXTAFTER", "TEXTBEFORE", "TEXTJOIN", "UNICHAR", "UNICODE", "VALUETOTEXT", "VAR.P", "VAR.S", "WEBSERVICE", "WEIBULL.DIST", "XMATCH", "XOR", "Z.TEST"];
const DYNAMIC: &[&str] = &["ANCHORARRAY", "BYCOL", "BYROW", "CHOOSECOLS", "CHOOSEROWS", "DROP", "EXPAND", "HSTACK", "LAMBDA", "MAKEARRAY", "MAP", "RANDARRAY", "REDUCE", "SCAN", "SEQUENCE", "SINGLE", "SORTBY", "SWITCH", "TAKE", "TEXTSPLIT", "TOCOL", "TOROW", "UNIQUE", "VSTACK", "WRAPCOLS", "WRAPROWS", "XLOOKUP"];
const SHEET: &[&str] = &["FILTER", "SORT", "PY"];
const OLD: &[&str] = &["SUM", "IF", "MAX", "LEN", "SIN", "INDEX", "ROW", "LOG10", "ATAN2", "DAYS360", "SUBTOTAL", "UNIQUES", "SORTED", "XSORT", "ISERR", "DEC2BIN"];

// A formula part: what is written, what is stored, and whether it has a dynamic function.
#[derive(Clone, Debug, Default)]
struct P { a: String, b: String, dynamic: bool }
fn p(a: &str, b: &str) -> P { P { a: a.into(), b: b.into(), dynamic: false } }
fn same(a: &str) -> P { p(a, a) }
impl P {
    fn then(mut self, o: P) -> P { self.a += &o.a; self.b += &o.b; self.dynamic |= o.dynamic; self }
}
fn func(r: &mut Rng) -> &'static str { match r.below(4) { 0 => r.pick(FUTURE), 1 => r.pick(DYNAMIC), 2 => r.pick(SHEET), _ => r.pick(OLD) } }
// the text of a call, as it may occur in a literal or a name
fn call_text(r: &mut Rng) -> String { let f = func(r); format!("{f}{}", r.pick(&["(", "(A1)", "(1,2)", ""])) }
fn odd_text(r: &mut Rng, bad: &str) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(4) {
        match r.below(7) {
            0 | 1 => s += &call_text(r),
            2 => s += r.pick(&["\"", "'", "[", "]", "@", "#", "(", ")", "!", "{", "}", "_xlfn.", "=", ","]),
            3 => s += r.pick(&["é", "日本", "ß", "𝒳", "²"]),
            4 => s += r.pick(&["a", "b c", "x.y", "_", "9", " "]),
            5 => s += r.pick(&["<", "&", ">", "&amp;"]),
            _ => s += r.pick(&["sort", "My ", "&lt;"]),
        }
    }
    s.chars().filter(|c| !bad.contains(*c)).collect()
}
fn literal(r: &mut Rng) -> P { let t = odd_text(r, ""); same(&format!("\"{}\"", t.replace('"', "\"\""))) }
fn cell(r: &mut Rng) -> String { format!("{}{}{}{}", r.pick(&["", "$"]), r.pick(&["A", "B", "XFD", "AB", "T", "F"]), r.pick(&["", "$"]), 1 + r.below(99)) }
fn reference(r: &mut Rng) -> String { let a = cell(r); if r.bits() { a } else { format!("{a}:{}", cell(r)) } }
fn sheet_ref(r: &mut Rng) -> P {
    match r.below(3) {
        0 => { let t = odd_text(r, "[]"); let c = reference(r); same(&format!("'x{}'!{c}", t.replace('\'', "''"))) }
        1 => { let t = odd_text(r, "[]"); let c = reference(r); same(&format!("'[Book1.xlsx]x{}'!{c}", t.replace('\'', "''"))) }
        _ => { let c = reference(r); same(&format!("{}!{c}", r.pick(&["Sheet1", "LET", "SORT", "Données", "[1]Sheet1", "Sheet_SORT"]))) }
    }
}
fn column_name(r: &mut Rng) -> String { let mut s = String::from("c"); for c in odd_text(r, "").chars() { if "[]#'@".contains(c) { s.push('\''); } s.push(c); } s }
fn table_ref(r: &mut Rng) -> P {
    let t = *r.pick(&["Table1", "TABLE", "My_SORT", "", "LET.X"]);
    let c = column_name(r);
    match r.below(4) { 0 => same(&format!("{t}[{c}]")), 1 => same(&format!("{t}[[#This Row],[{c}]]")), 2 => { let d = column_name(r); same(&format!("{t}[[{c}]:[{d}]]")) } _ => same(&format!("{t}[[#Totals],[{c}]]")) }
}
fn name(r: &mut Rng) -> P {
    let f = func(r);
    same(&match r.below(5) { 0 => format!("_{f}"), 1 => format!("{f}_x"), 2 => format!("My_{f}"), 3 => format!("é{f}"), _ => format!("{f}_") })
}
fn args(r: &mut Rng, depth: u64) -> P {
    let mut out = P::default();
    for i in 0..r.below(4) { if i > 0 { out = out.then(same(r.pick(&[",", ", "]))); } out = out.then(expr(r, depth)); }
    out
}
fn call(r: &mut Rng, depth: u64) -> P {
    let head = match r.below(9) {
        0 | 1 => { let f = r.pick(FUTURE); p(f, &format!("_xlfn.{f}")) }
        2 => { let f = r.pick(DYNAMIC); P { dynamic: true, ..p(f, &format!("_xlfn.{f}")) } }
        3 => { let f = r.pick(SHEET); P { dynamic: true, ..p(f, &format!("_xlfn._xlws.{f}")) } }
        4 => same(r.pick(OLD)),
        5 => { let f = r.pick(FUTURE); same(&format!("_xlfn.{f}")) }
        6 => { let f = r.pick(DYNAMIC); P { dynamic: true, ..same(&format!("_xlfn.{f}")) } }
        7 => { let f = r.pick(SHEET); P { dynamic: true, ..same(&format!("_xlfn._xlws.{f}")) } }
        // user defined functions whose names contain other functions' names
        _ => { let n = name(r); if n.a.ends_with("_xlfn") { same("My_SUM") } else { n } }
    };
    let a = args(r, depth);
    head.then(same("(")).then(a).then(same(")"))
}
fn operand(r: &mut Rng, depth: u64) -> P {
    match r.below(if depth == 0 { 7 } else { 11 }) {
        0 => same(&reference(r)),
        1 => same(r.pick(&["1", "2.5", "1E5", "TRUE", "#N/A", "#REF!", "{1,2;3,4}", "{\"a\"}"])),
        2 => literal(r),
        3 => sheet_ref(r),
        4 => table_ref(r),
        5 => name(r),
        6 => same(r.pick(&["_xlpm.number", "_xlpm.SORT", "LET", "SORT", "IFS"])),
        7 => same("(").then(expr(r, depth - 1)).then(same(")")),
        _ => call(r, depth - 1),
    }
}
fn expr(r: &mut Rng, depth: u64) -> P {
    let mut out = P::default();
    if r.chance(1, 6) { out = same(r.pick(&["-", "+", "@"])); }
    out = out.then(operand(r, depth));
    while r.chance(1, 3) { out = out.then(same(r.pick(&["+", "-", "*", "/", "^", "&", "=", "<>", "<", ">=", " + ", " & "]))).then(operand(r, depth)); }
    if r.chance(1, 12) { out = out.then(same("%")); }
    out
}
const RESULTS: &[&str] = &["", "0", "1", "-2.5", "1E+20", "1e5", "TRUE", "FALSE", "#N/A", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#NULL!", "#GETTING_DATA", "text", "NaN", "inf", "-inf", "Infinity", "1e999", "+infinity", "nan", "true", "#FOO!", "<&>", "\"", "1 2", " 7", "7 ", "0x10", "é日本", "1,5", "1_000", "_x0041_", "a\tb"];
fn result(r: &mut Rng) -> String { if r.chance(1, 5) { rand_string(r, 8) } else { (*r.pick(RESULTS)).to_string() } }
const ERRORS: &[&str] = &["#DIV/0!", "#N/A", "#NAME?", "#NULL!", "#NUM!", "#REF!", "#VALUE!", "#GETTING_DATA"];
// a number as a spreadsheet reads it
fn number(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (m, e) = match t.split_once(['e', 'E']) { Some((m, e)) => (m, Some(e)), None => (t, None) };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    digits(i) && digits(f) && !(i.is_empty() && f.is_empty())
        && e.map_or(true, |e| { let e = e.strip_prefix(['+', '-']).unwrap_or(e); !e.is_empty() && digits(e) && e.len() <= 2 })
}
// what a cell should hold: formula, range if an array formula, dynamic, result
#[derive(Clone, Debug)]
struct W { f: String, range: Option<String>, dynamic: bool, result: String }
fn find<'a>(sheet: &'a El, at: &str) -> Result<&'a El, String> {
    let d = sheet.get("sheetData").ok_or("no data")?;
    for row in d.all("row") { for c in row.all("c") { if c.a("r") == Some(at) { return Ok(c); } } }
    Err(format!("no cell {at}"))
}
fn check_cell(sheet: &El, at: &str, w: &W) -> Result<(), String> {
    let c = find(sheet, at)?;
    let f = c.get("f").ok_or(format!("{at} has no formula"))?;
    let got = xstring(&f.text());
    ensure!(got == w.f, "{at}: formula {got:?}, not {:?}", w.f);
    ensure!(f.a("ref") == w.range.as_deref(), "{at}: range {:?}, not {:?}", f.a("ref"), w.range);
    ensure!(f.a("t") == w.range.as_ref().map(|_| "array"), "{at}: formula type {:?}", f.a("t"));
    ensure!(c.a("cm") == if w.dynamic { Some("1") } else { None }, "{at}: dynamic flag {:?}, wanted {}", c.a("cm"), w.dynamic);
    let v = c.get("v").map(|v| v.text()).ok_or(format!("{at} has no value"))?;
    let res = w.result.as_str();
    let (t, want) = if number(res) { (None, res.to_string()) } else if ERRORS.contains(&res) { (Some("e"), res.to_string()) } else if res == "TRUE" { (Some("b"), "1".into()) } else if res == "FALSE" { (Some("b"), "0".into()) } else { (Some("str"), res.to_string()) };
    ensure!(c.a("t") == t, "{at}: result {res:?} has type {:?}, not {t:?}", c.a("t"));
    if t.is_none() { ensure!(v.parse::<f64>().ok() == want.parse::<f64>().ok(), "{at}: result {v:?}, not {want:?}"); } else { ensure!(xstring(&v) == want, "{at}: result {v:?}, not {want:?}"); }
    Ok(())
}
fn at(r: u32, c: u16) -> String { format!("{}{}", (b'A' + c as u8) as char, r + 1) }
fn dress(r: &mut Rng, f: &str) -> String {
    // an array constant on its own needs its equals sign
    let own = f.starts_with(['{', '=']);
    match r.below(4) { 0 => format!("{{={f}}}"), 1 if !own => f.to_string(), _ => format!("={f}") }
}
fn one(r: &mut Rng, parts: &[(P, String)]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut want = vec![];
    let fmt = Format::new().set_bold();
    let mut default = String::from("0");
    if r.chance(1, 4) { default = result(r); ws.set_formula_result_default(&default); }
    let mut any = false;
    for (i, (x, res)) in parts.iter().enumerate() {
        let (row, col) = (i as u32 * 3, 1u16);
        let text = dress(r, &x.a);
        let f = if res.is_empty() { Formula::new(&text) } else { Formula::new(&text).set_result(res.as_str()) };
        let (lr, lc) = (row + r.below(2) as u32, col + r.below(3) as u16);
        let area = |lr: u32, lc: u16| Some(if (lr, lc) == (row, col) { at(row, col) } else { format!("{}:{}", at(row, col), at(lr, lc)) });
        let e = |e: XlsxError| e.to_string();
        let (range, dynamic) = match r.below(9) {
            0 => { ws.write_formula(row, col, f).map_err(e)?; (if x.dynamic { area(row, col) } else { None }, x.dynamic) }
            1 => { ws.write_formula_with_format(row, col, f, &fmt).map_err(e)?; (if x.dynamic { area(row, col) } else { None }, x.dynamic) }
            2 => { ws.write(row, col, f).map_err(e)?; (if x.dynamic { area(row, col) } else { None }, x.dynamic) }
            3 => { ws.write_array_formula(row, col, lr, lc, f).map_err(e)?; (area(lr, lc), x.dynamic) }
            4 => { ws.write_array_formula_with_format(row, col, lr, lc, f, &fmt).map_err(e)?; (area(lr, lc), x.dynamic) }
            5 => { ws.write_dynamic_array_formula(row, col, lr, lc, f).map_err(e)?; (area(lr, lc), true) }
            6 => { ws.write_dynamic_array_formula_with_format(row, col, lr, lc, f, &fmt).map_err(e)?; (area(lr, lc), true) }
            7 => { ws.write_dynamic_formula(row, col, f).map_err(e)?; (area(row, col), true) }
            _ => { ws.write_dynamic_formula_with_format(row, col, f, &fmt).map_err(e)?; (area(row, col), true) }
        };
        let mut held = if res.is_empty() { default.clone() } else { res.clone() };
        if r.chance(1, 6) { held = result(r); ws.set_formula_result(row, col, &held); }
        if dynamic { any = true; }
        want.push((at(row, col), W { f: x.b.clone(), range, dynamic, result: held }));
    }
    let buf = wb.save_to_buffer().map_err(|e| e.to_string())?;
    let b = Book::open(&buf)?;
    ensure!(b.xml.contains_key("xl/metadata.xml") == any, "metadata for dynamic formulas: {}", b.xml.contains_key("xl/metadata.xml"));
    for (a, w) in &want { check_cell(b.sheet(0), a, w)?; }
    Ok(())
}
// Column formulas of tables, where [@Name] stands for the name in this row.
fn table_part(r: &mut Rng) -> P {
    let mut out = P::default();
    for i in 0..1 + r.below(4) {
        if i > 0 { out = out.then(same(r.pick(&["+", "&", ","]))); }
        out = out.then(match r.below(6) {
            0 => { let c = column_name(r); p(&format!("[@{c}]"), &format!("[[#This Row],{c}]")) }
            1 => { let c = column_name(r); p(&format!("Table1[@[{c}]]"), &format!("Table1[[#This Row],[{c}]]")) }
            2 => { let (c, d) = (column_name(r), column_name(r)); p(&format!("Table1[@[{c}]:[{d}]]"), &format!("Table1[[#This Row],[{c}]:[{d}]]")) }
            3 => literal(r),
            4 => sheet_ref(r),
            _ => { let c = column_name(r); let f = r.pick(FUTURE); p(&format!("{f}([@{c}])"), &format!("_xlfn.{f}([[#This Row],{c}])")) }
        });
    }
    out
}
fn table(r: &mut Rng, x: &P, total: &P, res: &str) -> Result<(), String> {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut text = dress(r, &x.a);
    if text.starts_with('{') { text = format!("={}", x.a); }
    let f = if res.is_empty() { Formula::new(&text) } else { Formula::new(&text).set_result(res) };
    let t = Table::new().set_columns(&[TableColumn::new().set_formula(f).set_total_function(TableFunction::Custom(Formula::new(format!("={}", total.a)))), TableColumn::new()]).set_total_row(true);
    ws.add_table(2, 1, 6, 2, &t).map_err(|e| e.to_string())?;
    let buf = wb.save_to_buffer().map_err(|e| e.to_string())?;
    let b = Book::open(&buf)?;
    for row in 3..6 { check_cell(b.sheet(0), &at(row, 1), &W { f: x.b.clone(), range: None, dynamic: false, result: if res.is_empty() { "0".into() } else { res.into() } })?; }
    let t = &b.xml["xl/tables/table1.xml"];
    let c = t.path(&["tableColumns", "tableColumn"]).ok_or("no column")?;
    let got = c.get("calculatedColumnFormula").map(|e| xstring(&e.text()));
    ensure!(got.as_deref() == Some(x.b.as_str()), "column formula {got:?}, not {:?}", x.b);
    let got = c.get("totalsRowFormula").map(|e| xstring(&e.text()));
    ensure!(got.as_deref() == Some(total.b.as_str()), "total formula {got:?}, not {:?}", total.b);
    Ok(())
}
fn stat(x: &P) -> P { P { dynamic: false, ..x.clone() } }
pub fn run(run: &mut Run) {
    // every function on its own, prefixed and not, within names and texts
    for (list, kind) in [(FUTURE, 0), (DYNAMIC, 1), (SHEET, 2), (OLD, 3)] {
        for f in list {
            let pre = match kind { 0 | 1 => format!("_xlfn.{f}"), 2 => format!("_xlfn._xlws.{f}"), _ => (*f).to_string() };
            let d = kind == 1 || kind == 2;
            let mut v = vec![
                P { a: format!("{f}(A1)"), b: format!("{pre}(A1)"), dynamic: d },
                P { a: format!("{pre}(A1)"), b: format!("{pre}(A1)"), dynamic: d },
                P { a: format!("1+SUM({f}(),{pre}(2))"), b: format!("1+SUM({pre}(),{pre}(2))"), dynamic: d },
                same(&format!("_{f}(1)")), same(&format!("A{f}(1)+{f}1(2)+{f}_A(3)+x{f}(4)")), same(&format!("\"{f}(1)\"&\"\"\"{f}(2)\"\"\"")), same(&format!("'{f}(1)'!A1")), same(&format!("Table1[{f}(1)]")), same(f),
            ];
            // names that are functions themselves
            if FUTURE.iter().chain(DYNAMIC).chain(SHEET).any(|g| *g == format!("A{f}") || *g == format!("{f}1")) { v.remove(4); }
            for x in v {
                let mut r = run.rng(5);
                run.case("function", &format!("{x:?}"), || one(&mut r, &[(x.clone(), String::new())]));
            }
        }
    }
    for x in [same("{1,2,3}"), same("{1}"), same("\"}\"&{1,2}"), same("1+{1,2}"), same("SUM({1,2}*{3})"), same("\"a\"\"SORT(\"&\"b\""), P { a: "'a\"b'!A1&SORT(A1)".into(), b: "'a\"b'!A1&_xlfn._xlws.SORT(A1)".into(), dynamic: true }, P { a: "SORT(A1)&\"_xlfn.\"".into(), b: "_xlfn._xlws.SORT(A1)&\"_xlfn.\"".into(), dynamic: true }, P { a: "_xlfn.XLOOKUP(1,A1,B1)+IFS(A1,1)".into(), b: "_xlfn.XLOOKUP(1,A1,B1)+_xlfn.IFS(A1,1)".into(), dynamic: true }] {
        for s in 0..12 { let mut r = run.rng(100 + s); run.case("constants", &format!("{x:?}"), || one(&mut r, &[(x.clone(), String::new())])); }
    }
    for res in RESULTS {
        for s in 0..6 { let mut r = run.rng(200 + s); run.case("results", res, || one(&mut r, &[(same("A1+1"), (*res).to_string())])); }
    }
    let mut r = run.rng(14);
    for _ in 0..run.n(2_500, 60_000) {
        let parts: Vec<(P, String)> = (0..1 + r.below(4)).map(|_| { let d = r.below(4); (expr(&mut r, d), if r.bits() { String::new() } else { result(&mut r) }) }).collect();
        let input = format!("{parts:?}");
        let mut q = Rng::new(r.next());
        run.case("formulas", &input, || one(&mut q, &parts));
    }
    for _ in 0..run.n(600, 10_000) {
        let x = stat(&table_part(&mut r));
        let total = stat(&table_part(&mut r));
        let total = if r.bits() { same("SUM(A1)") } else { P { b: total.b.clone(), a: total.b.clone(), dynamic: false } };
        let res = if r.bits() { String::new() } else { result(&mut r) };
        let input = format!("{x:?} {total:?} {res:?}");
        let mut q = Rng::new(r.next());
        run.case("table formulas", &input, || table(&mut q, &x, &total, &res));
    }
    run.exhaustive.push("every function Excel requires a prefix for, on its own, already prefixed, and within names, texts, sheet names and references".into());
}
