//! C24 executable contract: data validations and conditional formats keep their rules and limits.
use crate::c22::{cell, Col, Spec};
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

type R = (u32, u16, u32, u16);
fn a1(r: u32, c: u16) -> String { let mut n = u32::from(c) + 1; let mut s = String::new(); while n > 0 { s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } format!("{s}{}", r + 1) }
fn area((r, c, r2, c2): R) -> String { if (r, c) == (r2, c2) { a1(r, c) } else { format!("{}:{}", a1(r, c), a1(r2, c2)) } }
fn in_sheet((r, c, r2, c2): R) -> bool { r2 < 1_048_576 && c2 < 16_384 && r <= r2 && c <= c2 }
fn chars(g: &mut Rng, n: usize) -> String { let c = *g.pick(&['x', 'é', '日', '😀', '&']); std::iter::repeat(c).take(n).collect() }
fn odd(s: &str) -> bool { s.chars().any(|c| ((c as u32) < 32) || c == '\u{fffe}' || c == '\u{ffff}') || s.contains("_x") }
/// a short text without characters that need a code of their own
fn text(g: &mut Rng) -> String { loop { let s = match g.below(6) { 0 => (*g.pick(&["", "\"", "a\"b", "\"\"", "*", "é\"", "\"x\"", "😀", "a,b", "A&B<", "'", " a "])).to_string(), _ => rand_string(g, 6) }; if !odd(&s) { return s; } } }
/// an expected element
#[derive(Clone, Debug, PartialEq, Default)]
struct E { name: String, attrs: Vec<(String, String)>, text: String, kids: Vec<E>, color: Option<Col> }
fn e(name: &str, attrs: &[(&str, &str)], kids: Vec<E>) -> E { E { name: name.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids, ..E::default() } }
fn t(name: &str, text: &str) -> E { E { name: name.into(), text: text.into(), ..E::default() } }
fn c(name: &str, col: &Col) -> E { E { name: name.into(), color: Some(col.clone()), ..E::default() } }
fn matches(got: &El, want: &E, skip: &[&str]) -> Result<(), String> {
    ensure!(got.name == want.name, "element {}, not {}", got.name, want.name);
    if let Some(col) = &want.color { return cell(got, col).map_err(|x| format!("{}: {x}", got.name)); }
    let mut a: Vec<_> = got.attrs.iter().filter(|(n, _)| !skip.contains(&n.as_str())).cloned().collect();
    let mut w = want.attrs.clone();
    a.sort(); w.sort();
    ensure!(a == w, "{}: {a:?}, not {w:?}", got.name);
    let kids: Vec<&El> = got.els().filter(|k| !(k.name == "extLst" && got.name == "cfRule")).collect();
    if want.kids.is_empty() { ensure!(kids.is_empty() && got.text() == want.text, "{}: {:?} {:?}, not {:?}", got.name, kids.len(), got.text(), want.text); }
    ensure!(kids.len() == want.kids.len(), "{}: elements {:?}, not {:?}", got.name, kids.iter().map(|k| &k.name).collect::<Vec<_>>(), want.kids.iter().map(|k| &k.name).collect::<Vec<_>>());
    for (k, w) in kids.iter().zip(&want.kids) { matches(k, w, &[]).map_err(|x| format!("{}/{x}", got.name))?; }
    Ok(())
}
// ---- data validations ----
#[derive(Clone, Debug)]
enum Op { Eq, Ne, Gt, Ge, Lt, Le, Bt, Nb }
const OPS: [Op; 8] = [Op::Eq, Op::Ne, Op::Gt, Op::Ge, Op::Lt, Op::Le, Op::Bt, Op::Nb];
fn rule<T: IntoDataValidationValue>(o: &Op, a: T, b: T) -> DataValidationRule<T> {
    match o { Op::Eq => DataValidationRule::EqualTo(a), Op::Ne => DataValidationRule::NotEqualTo(a), Op::Gt => DataValidationRule::GreaterThan(a), Op::Ge => DataValidationRule::GreaterThanOrEqualTo(a), Op::Lt => DataValidationRule::LessThan(a), Op::Le => DataValidationRule::LessThanOrEqualTo(a), Op::Bt => DataValidationRule::Between(a, b), Op::Nb => DataValidationRule::NotBetween(a, b) }
}
fn cf_rule<T: IntoConditionalFormatValue>(o: &Op, a: T, b: T) -> ConditionalFormatCellRule<T> {
    match o { Op::Eq => ConditionalFormatCellRule::EqualTo(a), Op::Ne => ConditionalFormatCellRule::NotEqualTo(a), Op::Gt => ConditionalFormatCellRule::GreaterThan(a), Op::Ge => ConditionalFormatCellRule::GreaterThanOrEqualTo(a), Op::Lt => ConditionalFormatCellRule::LessThan(a), Op::Le => ConditionalFormatCellRule::LessThanOrEqualTo(a), Op::Bt => ConditionalFormatCellRule::Between(a, b), Op::Nb => ConditionalFormatCellRule::NotBetween(a, b) }
}
fn op_name(o: &Op) -> &'static str { match o { Op::Eq => "equal", Op::Ne => "notEqual", Op::Gt => "greaterThan", Op::Ge => "greaterThanOrEqual", Op::Lt => "lessThan", Op::Le => "lessThanOrEqual", Op::Bt => "between", Op::Nb => "notBetween" } }
fn formula(g: &mut Rng) -> (String, String) { let f = (*g.pick(&["=A1", "=$E$3", "B2*2", "=AND(A1>0,\"x<\"&B1)", "=Sheet1!$A$1:$A$9", "=LEN(A1)<5"])).to_string(); let w = f.strip_prefix('=').unwrap_or(&f).to_string(); (f, w) }
fn number(g: &mut Rng) -> f64 { match g.below(6) { 0 => 0.0, 1 => -(g.below(1000) as f64), 2 => g.below(1 << 40) as f64 / 1000.0, 3 => *g.pick(&[1e300, -1e-300, 0.1, 123456789012345.0, 1.5e-7]), _ => g.below(200) as f64 } }
fn multi(g: &mut Rng) -> Option<(String, String)> {
    if !g.chance(1, 5) { return None; }
    Some((*g.pick(&[("B3 I3 B9:D12 I9:K12", "B3 I3 B9:D12 I9:K12"), ("$B$3,$C$4:$D$5", "B3 C4:D5"), ("A1:A4", "A1:A4"), ("XFD1048576", "XFD1048576"), ("$A$1:$A$4", "A1:A4")])).to_owned()).map(|(a, b)| (a.into(), b.into()))
}
struct Dv { desc: String, dv: Option<DataValidation>, want: Option<E>, range: Option<String> }
fn gen_dv(g: &mut Rng) -> Dv {
    let mut d = DataValidation::new();
    let (mut attrs, mut kids, mut desc): (Vec<(String, String)>, Vec<E>, String) = (vec![], vec![], String::new());
    let o = g.pick(&OPS).clone();
    let two = matches!(o, Op::Bt | Op::Nb);
    let mut operator = !matches!(o, Op::Bt);
    let (f, f2) = (formula(g), formula(g));
    let (x, y) = (number(g), number(g));
    let mut put = |kids: &mut Vec<E>, a: String, b: String| { kids.push(t("formula1", &a)); if two { kids.push(t("formula2", &b)); } };
    let (r1, r2) = (Formula::new(&f.0), Formula::new(&f2.0));
    let k = g.below(15);
    let mut any = false;
    desc += &format!("{k} {o:?} {x} {y} {f:?} {f2:?} ");
    let kind = match k {
        0 => { let (a, b) = (g.next() as i32, g.below(10) as i32 - 5); desc += &format!("{a} {b} "); d = d.allow_whole_number(rule(&o, a, b)); put(&mut kids, a.to_string(), b.to_string()); "whole" }
        1 => { d = d.allow_whole_number_formula(rule(&o, r1, r2)); put(&mut kids, f.1, f2.1); "whole" }
        2 => { d = d.allow_decimal_number(rule(&o, x, y)); put(&mut kids, x.to_string(), y.to_string()); "decimal" }
        3 => { d = d.allow_decimal_number_formula(rule(&o, r1, r2)); put(&mut kids, f.1, f2.1); "decimal" }
        4 => { let (a, b) = (ExcelDateTime::from_ymd(2020, 2, 29).unwrap(), ExcelDateTime::from_ymd(9999, 12, 31).unwrap()); if g.bits() { d = d.allow_date(rule(&o, a, b)); } else { d = d.allow_date(rule(&o, &a, &b)); } put(&mut kids, "43890".into(), "2958465".into()); "date" }
        5 => { d = d.allow_date_formula(rule(&o, r1, r2)); put(&mut kids, f.1, f2.1); "date" }
        6 => { let (a, b) = (ExcelDateTime::from_hms(12, 0, 0).unwrap(), ExcelDateTime::from_hms(6, 0, 0).unwrap()); d = d.allow_time(rule(&o, a, b)); put(&mut kids, "0.5".into(), "0.25".into()); "time" }
        7 => { d = d.allow_time_formula(rule(&o, r1, r2)); put(&mut kids, f.1, f2.1); "time" }
        8 => { let (a, b) = (g.next() as u32, g.below(300) as u32); desc += &format!("{a} {b} "); d = d.allow_text_length(rule(&o, a, b)); put(&mut kids, a.to_string(), b.to_string()); "textLength" }
        9 => { d = d.allow_text_length_formula(rule(&o, r1, r2)); put(&mut kids, f.1, f2.1); "textLength" }
        10 => { d = d.allow_custom(r1); kids.push(t("formula1", &f.1)); operator = false; "custom" }
        11 => { d = d.allow_list_formula(r1); kids.push(t("formula1", &f.1)); operator = false; "list" }
        12 | 13 => {
            let n = g.below(6) as usize;
            let mut l: Vec<String> = (0..n).map(|_| text(g)).collect();
            if g.chance(1, 2) { let n = 240 + g.below(20) as usize; l.push(if g.chance(1, 4) { "\"".repeat(n / 2) } else { chars(g, n) }); }
            let joined = l.iter().map(|s| s.replace('"', "\"\"")).collect::<Vec<_>>().join(",");
            let len = joined.chars().count();
            desc += &format!("{l:?} ");
            match d.allow_list_strings(&l) {
                Ok(x) => { d = x; if len > 255 { desc += "list too long was accepted"; kids.push(t("never", "")); } }
                Err(_) => { return if len > 255 { Dv { desc, dv: None, want: None, range: None } } else { Dv { desc: desc + "list was refused", dv: None, want: Some(E::default()), range: None } }; }
            }
            kids.push(t("formula1", &format!("\"{joined}\"")));
            operator = false;
            "list"
        }
        _ => { if g.bits() { d = d.allow_whole_number(rule(&o, 1, 2)).allow_any_value(); } any = true; operator = false; "any" }
    };
    if !any { attrs.push(("type".into(), kind.into())); }
    if operator { attrs.push(("operator".into(), op_name(&o).into())); }
    let mut flag = |g: &mut Rng, default: bool| if g.chance(1, 3) { Some(g.bits()) } else { None }.map_or((None, default), |b| (Some(b), b));
    let mut on = |attrs: &mut Vec<(String, String)>, n: &str, b: bool| if b { attrs.push((n.into(), "1".into())); };
    let (s, v) = flag(g, true); if let Some(b) = s { d = d.ignore_blank(b); } on(&mut attrs, "allowBlank", v);
    let (s, v) = flag(g, true); if let Some(b) = s { d = d.show_dropdown(b); } on(&mut attrs, "showDropDown", !v);
    let (s, v) = flag(g, true); if let Some(b) = s { d = d.show_input_message(b); } on(&mut attrs, "showInputMessage", v);
    let (s, v) = flag(g, true); if let Some(b) = s { d = d.show_error_message(b); } on(&mut attrs, "showErrorMessage", v);
    match g.below(5) { 0 => { d = d.set_error_style(DataValidationErrorStyle::Warning); if !any { attrs.push(("errorStyle".into(), "warning".into())); } } 1 => { d = d.set_error_style(DataValidationErrorStyle::Information); if !any { attrs.push(("errorStyle".into(), "information".into())); } } 2 => { d = d.set_error_style(DataValidationErrorStyle::Information).set_error_style(DataValidationErrorStyle::Stop); } _ => {} }
    let mut texts = false;
    for (i, (name, limit)) in [("promptTitle", 32usize), ("prompt", 255), ("errorTitle", 32), ("error", 255)].into_iter().enumerate() {
        if g.chance(1, 3) {
            let s = match g.below(4) { 0 => chars(g, limit - 1), 1 => chars(g, limit), 2 => chars(g, limit + 1), _ => text(g) };
            let old = d.clone();
            desc += &format!("{name}={s:?} ");
            let r = match i { 0 => d.set_input_title(&s), 1 => d.set_input_message(&s), 2 => d.set_error_title(&s), _ => d.set_error_message(&s) };
            let fits = s.chars().count() <= limit;
            match r { Ok(x) => { d = x; if !fits { kids.push(t("too long", "")); } } Err(_) => { d = old; if fits { kids.push(t("refused", "")); } } }
            if fits && !s.is_empty() { attrs.push((name.into(), s)); texts = true; }
        }
    }
    let m = multi(g);
    if let Some((m, _)) = &m { d = d.set_multi_range(m.as_str()); desc += &format!("multi {m} "); }
    let want = if any && !texts && kids.is_empty() { None } else { Some(E { name: "dataValidation".into(), attrs, kids, ..E::default() }) };
    Dv { desc, dv: Some(d), want, range: m.map(|m| m.1) }
}
// ---- conditional formats ----
type Add = Box<dyn Fn(&mut Worksheet, R) -> Result<(), XlsxError>>;
fn add<T: ConditionalFormat + Send + Sync + 'static>(x: T) -> Add { Box::new(move |w, r| w.add_conditional_format(r.0, r.1, r.2, r.3, &x).map(|_| ())) }
/// `std`/`ext` are the rule in the sheet and in the extension list, given the first cell of the range
struct Cf { desc: String, add: Add, err: bool, std: Option<Box<dyn Fn(&str) -> E>>, ext: Vec<E>, format: Option<u32>, stop: bool, range: Option<String>, ext_priority: bool }
#[derive(Clone, Debug)]
struct V { ty: ConditionalFormatTypeX, val: String }
#[derive(Clone, Copy, Debug, PartialEq)]
enum ConditionalFormatTypeX { Auto, Low, Num, Pc, F, Pl, High }
use ConditionalFormatTypeX as X;
fn xt(x: X) -> ConditionalFormatType { match x { X::Auto => ConditionalFormatType::Automatic, X::Low => ConditionalFormatType::Lowest, X::Num => ConditionalFormatType::Number, X::Pc => ConditionalFormatType::Percent, X::F => ConditionalFormatType::Formula, X::Pl => ConditionalFormatType::Percentile, X::High => ConditionalFormatType::Highest } }
fn xn(x: X) -> &'static str { match x { X::Auto => "auto", X::Low => "min", X::Num => "num", X::Pc => "percent", X::F => "formula", X::Pl => "percentile", X::High => "max" } }
/// a value for a scale and what is stored for it: None when it is ignored
fn value(g: &mut Rng) -> (X, ConditionalFormatValue, Option<V>, String) {
    let ty = *g.pick(&[X::Auto, X::Low, X::Num, X::Pc, X::F, X::Pl, X::High, X::Num, X::Pc, X::Pl]);
    let (v, s, n): (ConditionalFormatValue, String, Option<f64>) = match g.below(7) {
        0 => { let s = text(g); return (ty, s.as_str().into(), None, format!("{ty:?} string {s:?}")); }
        1 => { let f = formula(g); (Formula::new(&f.0).into(), f.1, None) }
        2 => (ExcelDateTime::from_ymd(2020, 2, 29).unwrap().into(), "43890".into(), Some(43890.0)),
        3 => { let n = *g.pick(&[0.0, 100.0, 100.0001, -0.0001, -1.0, 50.5, 101.0]); (n.into(), n.to_string(), Some(n)) }
        4 => { let n = g.below(120) as i32 - 10; (n.into(), n.to_string(), Some(f64::from(n))) }
        _ => { let n = number(g); (n.into(), n.to_string(), Some(n)) }
    };
    let ok = !(matches!(ty, X::Pc | X::Pl) && n.is_some_and(|n| !(0.0..=100.0).contains(&n)));
    let d = format!("{ty:?} {s}");
    (ty, v, if ok { Some(V { ty, val: s }) } else { None }, d)
}
fn color(g: &mut Rng, default: &Col) -> (Color, Col, String, bool) { let s = Spec::random(g); let m = s.means(); let solid = matches!(m, Col::Rgb(_) | Col::Theme(..)); (s.color(), if solid { m } else { default.clone() }, format!("{s:?} "), solid) }
fn cfvo(v: &V) -> E { e("cfvo", &[("type", xn(v.ty)), ("val", &v.val)], vec![]) }
const ICONS: [(ConditionalFormatIconType, &str, u8); 20] = [(ConditionalFormatIconType::ThreeArrows, "3Arrows", 3), (ConditionalFormatIconType::ThreeArrowsGray, "3ArrowsGray", 3), (ConditionalFormatIconType::ThreeFlags, "3Flags", 3), (ConditionalFormatIconType::ThreeTrafficLights, "3TrafficLights1", 3), (ConditionalFormatIconType::ThreeTrafficLightsWithRim, "3TrafficLights2", 3), (ConditionalFormatIconType::ThreeSigns, "3Signs", 3), (ConditionalFormatIconType::ThreeSymbolsCircled, "3Symbols", 3), (ConditionalFormatIconType::ThreeSymbols, "3Symbols2", 3), (ConditionalFormatIconType::ThreeStars, "3Stars", 3), (ConditionalFormatIconType::ThreeTriangles, "3Triangles", 3), (ConditionalFormatIconType::FourArrows, "4Arrows", 4), (ConditionalFormatIconType::FourArrowsGray, "4ArrowsGray", 4), (ConditionalFormatIconType::FourRedToBlack, "4RedToBlack", 4), (ConditionalFormatIconType::FourHistograms, "4Rating", 4), (ConditionalFormatIconType::FourTrafficLights, "4TrafficLights", 4), (ConditionalFormatIconType::FiveArrows, "5Arrows", 5), (ConditionalFormatIconType::FiveArrowsGray, "5ArrowsGray", 5), (ConditionalFormatIconType::FiveHistograms, "5Rating", 5), (ConditionalFormatIconType::FiveQuadrants, "5Quarters", 5), (ConditionalFormatIconType::FiveBoxes, "5Boxes", 5)];
fn quoted(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }
fn gen_cf(g: &mut Rng, kind: u64, serial: u32) -> Cf {
    let stop = g.chance(1, 4);
    let fmt = if g.chance(2, 3) { Some(if g.chance(1, 6) { 0x55AA55 } else { 0x010000 + serial * 3 }) } else { None };
    let m = multi(g);
    let mut out = Cf { desc: format!("kind {kind} fmt {fmt:?} stop {stop} {m:?} "), add: Box::new(|_, _| Ok(())), err: false, std: None, ext: vec![], format: fmt, stop, range: m.clone().map(|m| m.1), ext_priority: false };
    macro_rules! done { ($x:expr) => {{ let mut x = $x; if let Some((m, _)) = &m { x = x.set_multi_range(m.as_str()); } if g.chance(1, 3) || stop { x = x.set_stop_if_true(stop); } out.add = add(x); }}; }
    macro_rules! done_f { ($x:expr) => {{ let mut x = $x; if let Some(f) = fmt { x = x.set_format(Format::new().set_bold().set_font_color(f)); } done!(x) }}; }
    match kind {
        0 | 13 => {
            let o = g.pick(&OPS).clone();
            let two = matches!(o, Op::Bt | Op::Nb);
            let mut x = ConditionalFormatCell::new();
            if g.chance(1, 12) { out.err = true; done_f!(x); return out; }
            if g.chance(1, 8) { x = x.set_rule(cf_rule(&Op::Eq, 1, 2)); }
            let (a, b) = match g.below(8) {
                0 => { let (a, b) = (number(g), number(g)); x = x.set_rule(cf_rule(&o, a, b)); (a.to_string(), b.to_string()) }
                1 => { let (a, b) = (g.next() as i32, g.below(100) as i32); x = x.set_rule(cf_rule(&o, a, b)); (a.to_string(), b.to_string()) }
                2 | 3 => { let q = |g: &mut Rng| loop { let s = text(g); if !(s.chars().count() > 1 && s.starts_with('"') && s.ends_with('"')) { return s; } }; let (a, b) = (q(g), q(g)); x = x.set_rule(cf_rule(&o, a.clone(), b.clone())); (quoted(&a), quoted(&b)) }
                4 => { let (a, b) = (formula(g), formula(g)); x = x.set_rule(cf_rule(&o, Formula::new(&a.0), Formula::new(&b.0))); (a.1, b.1) }
                5 => { let a = g.bits(); x = x.set_rule(cf_rule(&o, a, !a)); (a.to_string().to_uppercase(), (!a).to_string().to_uppercase()) }
                6 => { x = x.set_rule(cf_rule(&o, "\"done\"", "\"é\"")); ("\"done\"".into(), "\"é\"".into()) }
                _ => { let (a, b) = (ExcelDateTime::from_ymd(2020, 2, 29).unwrap(), ExcelDateTime::from_ymd(9999, 12, 31).unwrap()); x = x.set_rule(cf_rule(&o, a, b)); ("43890".into(), "2958465".into()) }
            };
            out.desc += &format!("{o:?} {a} {b}");
            out.std = Some(Box::new(move |_| { let mut k = vec![t("formula", &a)]; if two { k.push(t("formula", &b)); } e("cfRule", &[("type", "cellIs"), ("operator", op_name(&o))], k) }));
            done_f!(x);
        }
        1 => { let i = g.bits(); let mut x = ConditionalFormatBlank::new(); if i { x = x.invert(); } out.desc += &i.to_string(); out.std = Some(Box::new(move |a| e("cfRule", &[("type", if i { "notContainsBlanks" } else { "containsBlanks" })], vec![t("formula", &format!("LEN(TRIM({a})){}0", if i { ">" } else { "=" }))]))); done_f!(x); }
        2 => { let i = g.bits(); let mut x = ConditionalFormatError::new(); if i { x = x.invert(); } out.desc += &i.to_string(); out.std = Some(Box::new(move |a| e("cfRule", &[("type", if i { "notContainsErrors" } else { "containsErrors" })], vec![t("formula", &if i { format!("NOT(ISERROR({a}))") } else { format!("ISERROR({a})") })]))); done_f!(x); }
        3 => { let i = g.bits(); let mut x = ConditionalFormatDuplicate::new(); if i { x = x.invert(); } out.desc += &i.to_string(); out.std = Some(Box::new(move |_| e("cfRule", &[("type", if i { "uniqueValues" } else { "duplicateValues" })], vec![]))); done_f!(x); }
        4 => {
            let f = match g.below(6) { 0 => ("=".to_string(), String::new()), _ => formula(g) };
            out.desc += &f.0; out.err = f.1.is_empty();
            let x = if g.chance(1, 12) { out.err = true; ConditionalFormatFormula::new() } else if g.bits() { ConditionalFormatFormula::new().set_rule(f.0.as_str()) } else { ConditionalFormatFormula::new().set_rule(Formula::new(&f.0)) };
            out.std = Some(Box::new(move |_| e("cfRule", &[("type", "expression")], vec![t("formula", &f.1)])));
            done_f!(x);
        }
        5 => {
            use ConditionalFormatAverageRule as A;
            let all: [(A, &[(&str, &str)]); 10] = [(A::AboveAverage, &[]), (A::BelowAverage, &[("aboveAverage", "0")]), (A::EqualOrAboveAverage, &[("equalAverage", "1")]), (A::EqualOrBelowAverage, &[("aboveAverage", "0"), ("equalAverage", "1")]), (A::OneStandardDeviationAbove, &[("stdDev", "1")]), (A::OneStandardDeviationBelow, &[("aboveAverage", "0"), ("stdDev", "1")]), (A::TwoStandardDeviationsAbove, &[("stdDev", "2")]), (A::TwoStandardDeviationsBelow, &[("aboveAverage", "0"), ("stdDev", "2")]), (A::ThreeStandardDeviationsAbove, &[("stdDev", "3")]), (A::ThreeStandardDeviationsBelow, &[("aboveAverage", "0"), ("stdDev", "3")])];
            let i = g.below(11) as usize; out.desc += &i.to_string();
            let mut x = ConditionalFormatAverage::new(); if i < 10 { x = x.set_rule(all[i].0.clone()); }
            let w: Vec<(String, String)> = all[i % 10].1.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            out.std = Some(Box::new(move |_| { let mut r = e("cfRule", &[("type", "aboveAverage")], vec![]); r.attrs.extend(w.clone()); r }));
            done_f!(x);
        }
        6 => {
            use ConditionalFormatTopRule as T;
            let n = match g.below(4) { 0 => *g.pick(&[0u16, 1, 100, 101, 1000, 1001, 65535]), _ => g.below(1100) as u16 };
            let i = g.below(5); out.desc += &format!("{i} {n}");
            let x = match i { 0 => ConditionalFormatTop::new().set_rule(T::Top(n)), 1 => ConditionalFormatTop::new().set_rule(T::Bottom(n)), 2 => ConditionalFormatTop::new().set_rule(T::TopPercent(n)), 3 => ConditionalFormatTop::new().set_rule(T::BottomPercent(n)), _ => ConditionalFormatTop::new() };
            let n = if i == 4 { 10 } else { n };
            out.err = n == 0 || n > 1000 || (n > 100 && (i == 2 || i == 3));
            out.std = Some(Box::new(move |_| { let mut r = e("cfRule", &[("type", "top10"), ("rank", &n.to_string())], vec![]); if i == 2 || i == 3 { r.attrs.push(("percent".into(), "1".into())); } if i == 1 || i == 3 { r.attrs.push(("bottom".into(), "1".into())); } r }));
            done_f!(x);
        }
        7 => {
            use ConditionalFormatTextRule as T;
            let s = text(g);
            let i = g.below(5); out.desc += &format!("{i} {s:?}");
            let x = ConditionalFormatText::new();
            let x = match i { 0 => x.set_rule(T::Contains(s.clone())), 1 => x.set_rule(T::DoesNotContain(s.clone())), 2 => x.set_rule(T::BeginsWith(s.clone())), 3 => x.set_rule(T::EndsWith(s.clone())), _ => { out.err = true; x } };
            out.std = Some(Box::new(move |a| {
                let (q, n) = (quoted(&s), s.encode_utf16().count());
                let (ty, op, f) = match i { 0 => ("containsText", "containsText", format!("NOT(ISERROR(SEARCH({q},{a})))")), 1 => ("notContainsText", "notContains", format!("ISERROR(SEARCH({q},{a}))")), 2 => ("beginsWith", "beginsWith", format!("LEFT({a},{n})={q}")), _ => ("endsWith", "endsWith", format!("RIGHT({a},{n})={q}")) };
                e("cfRule", &[("type", ty), ("operator", op), ("text", &s)], vec![t("formula", &f)])
            }));
            done_f!(x);
        }
        8 => {
            use ConditionalFormatDateRule as D;
            let all: [(D, &str, &str); 10] = [(D::Yesterday, "yesterday", "FLOOR(@,1)=TODAY()-1"), (D::Today, "today", "FLOOR(@,1)=TODAY()"), (D::Tomorrow, "tomorrow", "FLOOR(@,1)=TODAY()+1"), (D::Last7Days, "last7Days", "AND(TODAY()-FLOOR(@,1)<=6,FLOOR(@,1)<=TODAY())"), (D::LastWeek, "lastWeek", "AND(TODAY()-ROUNDDOWN(@,0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN(@,0)<(WEEKDAY(TODAY())+7))"), (D::ThisWeek, "thisWeek", "AND(TODAY()-ROUNDDOWN(@,0)<=WEEKDAY(TODAY())-1,ROUNDDOWN(@,0)-TODAY()<=7-WEEKDAY(TODAY()))"), (D::NextWeek, "nextWeek", "AND(ROUNDDOWN(@,0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN(@,0)-TODAY()<(15-WEEKDAY(TODAY())))"), (D::LastMonth, "lastMonth", "AND(MONTH(@)=MONTH(TODAY())-1,OR(YEAR(@)=YEAR(TODAY()),AND(MONTH(@)=1,YEAR(@)=YEAR(TODAY())-1)))"), (D::ThisMonth, "thisMonth", "AND(MONTH(@)=MONTH(TODAY()),YEAR(@)=YEAR(TODAY()))"), (D::NextMonth, "nextMonth", "AND(MONTH(@)=MONTH(TODAY())+1,OR(YEAR(@)=YEAR(TODAY()),AND(MONTH(@)=12,YEAR(@)=YEAR(TODAY())+1)))")];
            let i = g.below(11) as usize; out.desc += &i.to_string();
            let mut x = ConditionalFormatDate::new(); if i < 10 { x = x.set_rule(all[i].0.clone()); }
            let (n, f) = (all[i % 10].1, all[i % 10].2);
            out.std = Some(Box::new(move |a| e("cfRule", &[("type", "timePeriod"), ("timePeriod", n)], vec![t("formula", &f.replace('@', a))])));
            done_f!(x);
        }
        9 | 10 => {
            out.format = None;
            let three = kind == 10;
            let (mut v, mut cols) = ([V { ty: X::Low, val: "0".into() }, V { ty: X::Pl, val: "50".into() }, V { ty: X::High, val: "0".into() }], if three { [Col::Rgb(0xF8696B), Col::Rgb(0xFFEB84), Col::Rgb(0x63BE7B)] } else { [Col::Rgb(0xFFEF9C), Col::Unset, Col::Rgb(0x63BE7B)] });
            let (mut x2, mut x3) = (ConditionalFormat2ColorScale::new(), ConditionalFormat3ColorScale::new());
            for _ in 0..g.below(6) {
                let i = g.below(3) as usize;
                if !three && i == 1 { continue; }
                if g.bits() {
                    let (ty, val, w, d) = value(g); out.desc += &format!("{i}: {d} ");
                    if three { x3 = match i { 0 => x3.set_minimum(xt(ty), val), 1 => x3.set_midpoint(xt(ty), val), _ => x3.set_maximum(xt(ty), val) }; } else { x2 = if i == 0 { x2.set_minimum(xt(ty), val) } else { x2.set_maximum(xt(ty), val) }; }
                    if let Some(w) = w { if !matches!(w.ty, X::Low | X::High | X::Auto) { v[i] = w; } }
                } else {
                    let (cl, w, d, _) = color(g, &cols[i].clone()); out.desc += &format!("{i}: {d} ");
                    if three { x3 = match i { 0 => x3.set_minimum_color(cl), 1 => x3.set_midpoint_color(cl), _ => x3.set_maximum_color(cl) }; } else { x2 = if i == 0 { x2.set_minimum_color(cl) } else { x2.set_maximum_color(cl) }; }
                    cols[i] = w;
                }
            }
            out.std = Some(Box::new(move |_| { let ix: &[usize] = if three { &[0, 1, 2] } else { &[0, 2] }; let mut k: Vec<E> = ix.iter().map(|i| cfvo(&v[*i])).collect(); k.extend(ix.iter().map(|i| c("color", &cols[*i]))); e("cfRule", &[("type", "colorScale")], vec![e("colorScale", &[], k)]) }));
            if three { done!(x3) } else { done!(x2) }
        }
        11 => {
            out.format = None;
            let auto = |max: bool| V { ty: X::Auto, val: max.to_string() };
            let mut v = [auto(false), auto(true)];
            let blue = Col::Rgb(0x638EC6); let red = Col::Rgb(0xFF0000);
            let (mut fill, mut border, mut nfill, mut nborder, mut axis) = (blue.clone(), blue, red.clone(), red, Col::Rgb(0));
            let (mut no_border, mut solid, mut only, mut dir, mut pos) = (false, false, false, None, None);
            let mut x = ConditionalFormatDataBar::new();
            for _ in 0..g.below(9) {
                match g.below(12) {
                    0 | 1 => { let (ty, val, w, d) = value(g); out.desc += &format!("min {d} "); x = x.set_minimum(xt(ty), val); if let Some(w) = w { if w.ty != X::High { v[0] = w; } } }
                    2 | 3 => { let (ty, val, w, d) = value(g); out.desc += &format!("max {d} "); x = x.set_maximum(xt(ty), val); if let Some(w) = w { if w.ty != X::Low { v[1] = w; } } }
                    4 => { let (cl, w, d, set) = color(g, &fill); out.desc += &format!("fill {d}"); x = x.set_fill_color(cl); if set { fill = w.clone(); border = w; } }
                    5 => { let (cl, w, d, _) = color(g, &border); out.desc += &format!("border {d}"); x = x.set_border_color(cl); border = w; }
                    6 => { let (cl, w, d, set) = color(g, &nfill); out.desc += &format!("nfill {d}"); x = x.set_negative_fill_color(cl); if set { nfill = w.clone(); nborder = w; } }
                    7 => { let (cl, w, d, _) = if g.bits() { (Color::RGB(0x638EC6), Col::Rgb(0x638EC6), "blue ".into(), true) } else { color(g, &nborder) }; out.desc += &format!("nborder {d}"); x = x.set_negative_border_color(cl); nborder = w; }
                    8 => { let (cl, w, d, _) = color(g, &axis); out.desc += &format!("axis {d}"); x = x.set_axis_color(cl); axis = w; }
                    9 => { let b = g.bits(); if g.bits() { solid = b; x = x.set_solid_fill(b); out.desc += &format!("solid {b} "); } else { no_border = b; x = x.set_border_off(b); out.desc += &format!("no border {b} "); } }
                    10 => { only = g.bits(); x = x.set_bar_only(only); out.desc += &format!("only {only} "); }
                    _ => if g.bits() { let i = g.below(3); dir = [None, Some("leftToRight"), Some("rightToLeft")][i as usize]; out.desc += &format!("dir {dir:?} "); x = x.set_direction(match i { 0 => ConditionalFormatDataBarDirection::Context, 1 => ConditionalFormatDataBarDirection::LeftToRight, _ => ConditionalFormatDataBarDirection::RightToLeft }); } else { let i = g.below(3); pos = [None, Some("middle"), Some("none")][i as usize]; out.desc += &format!("axis {pos:?} "); x = x.set_axis_position(match i { 0 => ConditionalFormatDataBarAxisPosition::Automatic, 1 => ConditionalFormatDataBarAxisPosition::Midpoint, _ => ConditionalFormatDataBarAxisPosition::None }); },
                }
            }
            // equal colours may be left out or repeated
            for (same, other) in [(true, false), (false, false), (true, true), (false, true)] {
                let plain = fill == nborder && border == nborder;
                if (same && fill != nfill) || (other && no_border) || (!other && !no_border && !plain) { continue; }
                let mut a: Vec<(&str, &str)> = vec![("minLength", "0"), ("maxLength", "100")];
                if !no_border { a.push(("border", "1")); }
                if solid { a.push(("gradient", "0")); }
                if let Some(d) = dir { a.push(("direction", d)); }
                if let Some(p) = pos { a.push(("axisPosition", p)); }
                if same { a.push(("negativeBarColorSameAsPositive", "1")); }
                if other { a.push(("negativeBarBorderColorSameAsPositive", "0")); }
                let xv = |v: &V, max: bool| match v.ty { X::Auto => e("x14:cfvo", &[("type", if max { "autoMax" } else { "autoMin" })], vec![]), X::Low | X::High => e("x14:cfvo", &[("type", xn(v.ty))], vec![]), _ => e("x14:cfvo", &[("type", xn(v.ty))], vec![t("xm:f", &v.val)]) };
                let mut k = vec![xv(&v[0], false), xv(&v[1], true)];
                if !no_border { k.push(c("x14:borderColor", &border)); }
                if !same { k.push(c("x14:negativeFillColor", &nfill)); }
                if other { k.push(c("x14:negativeBorderColor", &nborder)); }
                if pos != Some("none") { k.push(c("x14:axisColor", &axis)); }
                out.ext.push(e("x14:cfRule", &[("type", "dataBar")], vec![e("x14:dataBar", &a, k)]));
            }
            out.std = Some(Box::new(move |_| {
                let sv = |v: &V, max: bool| match v.ty { X::Auto => e("cfvo", &[("type", if max { "max" } else { "min" })], vec![]), X::Low | X::High => e("cfvo", &[("type", xn(v.ty))], vec![]), _ => cfvo(v) };
                e("cfRule", &[("type", "dataBar")], vec![e("dataBar", if only { &[("showValue", "0")] } else { &[] }, vec![sv(&v[0], false), sv(&v[1], true), c("color", &fill)])])
            }));
            done!(x);
        }
        _ => {
            out.format = None;
            let mut x = ConditionalFormatIconSet::new();
            let (mut ty, mut n, mut custom, mut newer) = (3usize, 0usize, false, false);
            #[derive(Clone)]
            struct I { v: V, gt: bool, icon: Option<(usize, u8)>, none: bool }
            let mut icons: Vec<I> = vec![];
            let (mut rev, mut only) = (false, false);
            if !g.chance(1, 15) {
                ty = g.below(20) as usize; x = x.set_icon_type(ICONS[ty].0); out.desc += &format!("{} ", ICONS[ty].1);
                let p: &[i32] = match ICONS[ty].2 { 3 => &[0, 33, 67], 4 => &[0, 25, 50, 75], _ => &[0, 20, 40, 60, 80] };
                icons = p.iter().map(|p| I { v: V { ty: X::Pc, val: p.to_string() }, gt: false, icon: None, none: false }).collect();
                n = icons.len();
                newer = matches!(ICONS[ty].1, "3Stars" | "3Triangles" | "5Boxes");
            }
            if g.chance(1, 2) {
                n = match g.below(8) { 0 => 2 + g.below(5) as usize, _ => ICONS[ty].2 as usize };
                icons.clear();
                let mut api = vec![];
                for i in 0..n {
                    let mut a = ConditionalFormatCustomIcon::new();
                    let mut w = I { v: V { ty: X::Pc, val: "0".into() }, gt: false, icon: None, none: false };
                    for _ in 0..g.below(4) { match g.below(5) {
                        0 | 1 => { let (t, v, m, d) = value(g); out.desc += &format!("icon {i} {d} "); a = a.set_rule(xt(t), v); if let Some(m) = m { if !matches!(m.ty, X::Low | X::High | X::Auto) { w.v = m; } } }
                        2 => { w.gt = g.bits(); a = a.set_greater_than(w.gt); out.desc += &format!("icon {i} gt {} ", w.gt); }
                        3 => if g.chance(1, 2) { let k = g.below(20) as usize; let j = g.below(6) as u8; out.desc += &format!("icon {i} {} {j} ", ICONS[k].1); a = a.set_icon_type(ICONS[k].0, j); if j < ICONS[k].2 { w.icon = Some((k, j)); custom = true; } },
                        _ => if g.chance(1, 3) { w.none = g.bits(); a = a.set_no_icon(w.none); custom = true; out.desc += &format!("icon {i} none {} ", w.none); },
                    } }
                    if i == 0 { w.v = V { ty: X::Pc, val: "0".into() }; w.gt = false; }
                    icons.push(w); api.push(a);
                }
                x = x.set_icons(&api);
            }
            if g.chance(1, 3) { rev = g.bits(); x = x.reverse_icons(rev); out.desc += &format!("reverse {rev} "); }
            if g.chance(1, 3) { only = g.bits(); x = x.show_icons_only(only); out.desc += &format!("only {only} "); }
            out.err = n != ICONS[ty].2 as usize;
            let mut a: Vec<(&str, &str)> = vec![];
            if ty != 3 { a.push(("iconSet", ICONS[ty].1)); }
            if only { a.push(("showValue", "0")); }
            if rev { a.push(("reverse", "1")); }
            if newer || custom {
                out.ext_priority = true;
                if custom { a.push(("custom", "1")); }
                let mut k: Vec<E> = icons.iter().map(|i| { let mut at = vec![("type", xn(i.v.ty))]; if i.gt { at.push(("gte", "0")); } e("x14:cfvo", &at, vec![t("xm:f", &i.v.val)]) }).collect();
                if custom { k.extend(icons.iter().enumerate().map(|(j, i)| if i.none { e("x14:cfIcon", &[("iconSet", "NoIcons"), ("iconId", "0")], vec![]) } else if let Some((s, j)) = i.icon { e("x14:cfIcon", &[("iconSet", ICONS[s].1), ("iconId", &j.to_string())], vec![]) } else { e("x14:cfIcon", &[("iconSet", ICONS[ty].1), ("iconId", &j.to_string())], vec![]) })); }
                out.ext.push(e("x14:cfRule", &[("type", "iconSet")], vec![e("x14:iconSet", &a, k)]));
            } else {
                let a: Vec<(String, String)> = a.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                out.std = Some(Box::new(move |_| { let mut s = e("iconSet", &[], icons.iter().map(|i| { let mut r = cfvo(&i.v); if i.gt { r.attrs.push(("gte".into(), "0".into())); } r }).collect()); s.attrs = a.clone(); e("cfRule", &[("type", "iconSet")], vec![s]) }));
            }
            done!(x);
        }
    }
    out
}
struct Sheet { dvs: std::collections::BTreeMap<String, E>, cfs: Vec<(String, Vec<Cf>)> }
fn check(b: &Book, sheets: &[Sheet]) -> Result<(), String> {
    let dxfs: Vec<El> = b.xml["xl/styles.xml"].get("dxfs").map_or(vec![], |d| d.els().cloned().collect());
    let mut guids = std::collections::BTreeSet::new();
    for (si, s) in sheets.iter().enumerate() {
        let ws = b.sheet(si);
        let n = ws.all("dataValidations").count();
        ensure!(n == usize::from(!s.dvs.is_empty()), "{n} lists of data validations");
        if let Some(l) = ws.get("dataValidations") {
            let got: Vec<&El> = l.els().collect();
            ensure!(l.a("count") == Some(got.len().to_string().as_str()), "count {:?} of {}", l.a("count"), got.len());
            ensure!(got.len() == s.dvs.len(), "{} validations, not {}", got.len(), s.dvs.len());
            for (range, want) in &s.dvs {
                let x: Vec<&&El> = got.iter().filter(|d| d.a("sqref") == Some(range.as_str())).collect();
                ensure!(x.len() == 1, "{} validations for {range}", x.len());
                matches(x[0], want, &["sqref"]).map_err(|m| format!("validation of {range}: {m}"))?;
            }
        }
        let std: Vec<&El> = ws.all("conditionalFormatting").collect();
        let ext: Vec<&El> = ws.get("extLst").map_or(vec![], |x| x.find_all("x14:conditionalFormatting"));
        let mut priority = 0u32;
        let (mut i, mut j) = (0, 0);
        for (range, rules) in &s.cfs {
            let anchor = range.split(|c| c == ' ' || c == ':').next().unwrap();
            let mut sr = if rules.iter().any(|r| r.std.is_some()) { let f = std.get(i).ok_or(format!("no formatting for {range}"))?; i += 1; ensure!(f.a("sqref") == Some(range.as_str()), "range {:?}, not {range}", f.a("sqref")); f.els().collect::<Vec<_>>() } else { vec![] }.into_iter();
            let mut er = if rules.iter().any(|r| !r.ext.is_empty()) { let f = ext.get(j).ok_or(format!("no extended formatting for {range}"))?; j += 1; ensure!(f.get("xm:sqref").map(El::text).as_deref() == Some(range.as_str()), "extended range {:?}, not {range}", f.get("xm:sqref").map(El::text)); f.els().filter(|x| x.name != "xm:sqref").collect::<Vec<_>>() } else { vec![] }.into_iter();
            for r in rules {
                priority += 1;
                let p = priority.to_string();
                let mut id = None;
                if let Some(w) = &r.std {
                    let got = sr.next().ok_or(format!("missing rule {} of {range}", r.desc))?;
                    let ctx = |m: String| format!("rule {priority} of {range}: {m} [{}]", r.desc);
                    matches(got, &w(anchor), &["priority", "dxfId", "stopIfTrue"]).map_err(ctx)?;
                    ensure!(got.a("priority") == Some(&p), "priority {:?}, not {p}", got.a("priority"));
                    ensure!((got.a("stopIfTrue") == Some("1")) == r.stop, "stop if true {:?} of {range}", got.a("stopIfTrue"));
                    match (r.format, got.a("dxfId")) {
                        (None, None) => {}
                        (Some(f), Some(d)) => { let d: usize = d.parse().map_err(|_| "dxfId")?; let font = dxfs.get(d).and_then(|x| x.get("font")).ok_or(format!("format {d} of {}", dxfs.len()))?; ensure!(font.get("b").is_some() && font.get("color").and_then(|c| c.a("rgb")) == Some(format!("FF{f:06X}").as_str()), "rule {priority} of {range} has format {d}: {font:?}, not {f:06X}"); }
                        (a, b) => return Err(format!("format {a:?} is {b:?} in {}", r.desc)),
                    }
                    id = got.find_all("x14:id").first().map(|x| x.text());
                    ensure!(id.is_some() == !r.ext.is_empty(), "extension of {}: {id:?}", r.desc);
                }
                if !r.ext.is_empty() {
                    let got = er.next().ok_or(format!("missing extended rule {} of {range}", r.desc))?;
                    let skip = &["priority", "id", "stopIfTrue"];
                    if !r.ext.iter().any(|w| matches(got, w, skip).is_ok()) { matches(got, &r.ext[0], skip).map_err(|m| format!("extended rule {priority} of {range}: {m} [{}]", r.desc))?; }
                    let g = got.a("id").unwrap_or("").to_string();
                    ensure!(id.is_none() || id.as_deref() == Some(g.as_str()), "id {id:?} of {range}, not {g}");
                    ensure!(guids.insert(g.clone()), "id {g} twice");
                    if r.std.is_none() { ensure!(got.a("priority") == Some(&p), "extended priority {:?}, not {p}", got.a("priority")); ensure!((got.a("stopIfTrue") == Some("1")) == r.stop, "extended stop if true {:?}", got.a("stopIfTrue")); }
                }
            }
            ensure!(sr.next().is_none() && er.next().is_none(), "more rules in {range}");
        }
        ensure!(i == std.len() && j == ext.len(), "{} and {} formattings, not {i} and {j}", std.len(), ext.len());
    }
    Ok(())
}
fn range(g: &mut Rng) -> R {
    match g.below(12) {
        0 => (g.below(3) as u32, 0, 2, 1),
        1 => *g.pick(&[(0, 0, 1_048_575, 16_383), (1_048_575, 16_383, 1_048_575, 16_383), (0, 0, 1_048_576, 0), (0, 0, 0, 16_384), (5, 0, 4, 0), (0, 5, 0, 4), (1_048_576, 0, 0, 0)]),
        2..=6 => (0, 0, g.below(3) as u32, 0),
        _ => { let (r, c) = (g.below(30) as u32, g.below(30) as u16); (r, c, r + g.below(5) as u32, c + g.below(3) as u16) }
    }
}
fn one(g: &mut Rng, n: u64, only: Option<u64>, log: &mut String) -> Result<(), String> {
    let mut wb = Workbook::new();
    let mut m: Vec<Sheet> = vec![];
    for _ in 0..=g.below(2) { wb.add_worksheet(); m.push(Sheet { dvs: Default::default(), cfs: vec![] }); }
    for serial in 0..n {
        let k = g.below(m.len() as u64) as usize;
        let r = range(g);
        let w = wb.worksheet_from_index(k).map_err(|e| e.to_string())?;
        let s = &mut m[k];
        match if only.is_some() { 1 } else { g.below(9) } {
            0..=2 if only.is_none() => {
                let d = gen_dv(g);
                *log += &format!("[{k} {r:?} DV {}] ", d.desc);
                let Some(dv) = d.dv else { ensure!(d.want.is_none(), "{}", d.desc); continue };
                let res = w.add_data_validation(r.0, r.1, r.2, r.3, &dv).map(|_| ());
                ensure!(res.is_ok() == in_sheet(r), "add_data_validation {r:?}: {res:?}");
                if let (true, Some(want)) = (in_sheet(r), d.want) { s.dvs.insert(d.range.unwrap_or(area(r)), want); }
            }
            8 => { *log += "[save] "; check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)?; }
            _ => {
                let kind = only.unwrap_or_else(|| g.below(13));
                let c = gen_cf(g, kind, serial as u32);
                *log += &format!("[{k} {r:?} CF {}] ", c.desc);
                let res = (c.add)(w, r);
                ensure!(res.is_ok() == (in_sheet(r) && !c.err), "add_conditional_format {r:?} {}: {res:?}", c.desc);
                if res.is_ok() { let a = c.range.clone().unwrap_or(area(r)); if let Some(x) = s.cfs.iter_mut().find(|x| x.0 == a) { x.1.push(c); } else { s.cfs.push((a, vec![c])); } }
            }
        }
    }
    check(&Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?, &m)
}
pub fn run(run: &mut Run) {
    let mut g = run.rng(24);
    for kind in 0..13 { for i in 0..run.n(150, 3000) { let seed = g.next(); let mut log = String::new(); let mut h = Rng::new(seed); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut h, 1 + i % 3, Some(kind), &mut log))); run.case(&format!("conditional format kind {kind}"), &log.clone(), || r.unwrap_or_else(|p| std::panic::resume_unwind(p))); } }
    for i in 0..run.n(2500, 60_000) { let seed = g.next(); let mut log = String::new(); let mut h = Rng::new(seed); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut h, 1 + i % 14, None, &mut log))); run.case("mixed", &log.clone(), || r.unwrap_or_else(|p| std::panic::resume_unwind(p))); }
}
