//! A model of the cell grid: random histories of writes applied to a real worksheet and to a plain map.
use crate::common::*;
use crate::ensure;
use crate::fmt::*;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum V { Num(f64), Str(String), Rich(Vec<String>), Bool(bool), Formula(String, String), Date(f64), Blank }
#[derive(Clone, Debug)]
pub enum Op {
    Write(u32, u16, V, Option<FmtSpec>),
    Row(u32, u16, Vec<V>, Option<FmtSpec>),
    Col(u32, u16, Vec<V>, Option<FmtSpec>),
    Matrix(u32, u16, Vec<Vec<f64>>, bool),
    Array(u32, u16, u32, u16, String, bool, Option<FmtSpec>),
    SetFmt(u32, u16, FmtSpec),
    RangeFmt(u32, u16, u32, u16, FmtSpec),
    Clear(u32, u16),
    ClearFmt(u32, u16),
    RowFmt(u32, FmtSpec),
    ColFmt(u16, FmtSpec),
    Height(u32, f64),
    Width(u16, f64),
    /// a call that has to fail and change nothing
    Bad(u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MC { pub v: V, pub f: FmtSpec, pub arr: Option<(String, bool)> }
#[derive(Default, Clone)]
pub struct Model {
    pub cells: BTreeMap<(u32, u16), MC>,
    pub rowf: HashMap<u32, FmtSpec>, pub colf: HashMap<u16, FmtSpec>,
    pub box_: Option<(u32, u16, u32, u16)>, pub other: bool,
}
pub struct Cfg { pub rows: Vec<u32>, pub cols: Vec<u16>, pub fmts: Vec<FmtSpec>, pub strings: Vec<String>, pub kinds: Vec<u8>, pub rowcol: bool, pub wfmt: u64 }

impl Cfg {
    pub fn value(&self, g: &mut Rng) -> V {
        match *g.pick(&self.kinds) {
            0 => V::Num(*g.pick(&[0.0, 1.0, -1.5, 1e300, 5e-324, 0.1, 123456789.125, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e15, 9007199254740993.0])),
            1 => V::Str(g.pick(&self.strings).clone()),
            2 => { let mut v: Vec<String> = (0..1 + g.below(3)).map(|_| g.pick(&self.strings).clone()).filter(|s| !s.is_empty()).collect(); if v.is_empty() { v.push("r".into()); } V::Rich(v) }
            3 => V::Bool(g.bits()),
            4 => V::Formula((*g.pick(&["A1+1", "SUM(B2:C3)", "\"a<b\"&C1", "1"])).to_string(), (*g.pick(&["0", "", "text", "7.5", "TRUE", "#N/A"])).to_string()),
            5 => V::Date(40_000.0 + g.below(1000) as f64),
            _ => V::Blank,
        }
    }
    pub fn fmt(&self, g: &mut Rng) -> Option<FmtSpec> { if g.chance(self.wfmt, 10) { Some(g.pick(&self.fmts).clone()) } else { None } }
    pub fn op(&self, g: &mut Rng) -> Op {
        let (r, c) = (*g.pick(&self.rows), *g.pick(&self.cols));
        let (r2, c2) = ((r + g.below(3) as u32).min(1_048_575), (c + g.below(3) as u16).min(16_383));
        match g.below(if self.rowcol { 24 } else { 20 }) {
            0..=8 => { let v = self.value(g); let f = self.fmt(g); Op::Write(r, c, v, f) }
            9 => Op::Row(r, c.min(16_000), (0..g.below(5)).map(|_| self.value(g)).collect(), self.fmt(g)),
            10 => Op::Col(r.min(1_048_000), c, (0..g.below(5)).map(|_| self.value(g)).collect(), self.fmt(g)),
            11 => Op::Matrix(r.min(1_048_000), c.min(16_000), (0..g.below(4)).map(|i| (0..1 + (i + g.below(3)) % 4).map(|j| (10 * i + j) as f64).collect()).collect(), g.bits()),
            12 => Op::Array(r, c, r2, c2, "SUM(A1:B2*C1:D2)".into(), g.bits(), self.fmt(g)),
            13 => Op::SetFmt(r, c, g.pick(&self.fmts).clone()),
            14 => Op::RangeFmt(r, c, r2, c2, g.pick(&self.fmts).clone()),
            15 | 16 => Op::Clear(r, c),
            17 => if self.rowcol { Op::Clear(r, c) } else { Op::ClearFmt(r, c) },
            18 => Op::Bad(g.below(NBAD) as u8),
            19 => Op::Write(r, c, V::Str(String::new()), self.fmt(g)),
            20 => Op::Height(r, 15.0 + g.below(30) as f64), 21 => Op::Width(c, 5.0 + g.below(30) as f64),
            22 => { let v = self.value(g); Op::Write(r, c, v, None) }
            _ => Op::Bad(g.below(NBAD) as u8),
        }
    }
}
pub const NBAD: u64 = 44;
/// calls that must be rejected
pub fn bad(w: &mut Worksheet, k: u8) -> Result<(), String> {
    let f = Format::new().set_bold();
    let (r, c) = match k % 4 { 0 => (1_048_576, 0), 1 => (0, 16_384), 2 => (u32::MAX, u16::MAX), _ => (1_048_577, 3) };
    let long = "x".repeat(32_768);
    let res: Result<(), XlsxError> = match k / 2 {
        0 => w.write(r, c, 1).map(|_| ()),
        1 => w.write_string(r, c, "s").map(|_| ()),
        2 => w.write_string(r, c, "").map(|_| ()),
        3 => w.write_string(3, 2, &long).map(|_| ()),
        4 => w.write_string_with_format(900_000, 9_000, &long, &f).map(|_| ()),
        5 => w.write_rich_string(r, c, &[(&f, "a")]).map(|_| ()),
        6 => w.write_rich_string(800_000, 8_000, &[(&f, "a"), (&f, long.as_str())]).map(|_| ()),
        7 => w.write_boolean(r, c, true).map(|_| ()),
        8 => w.write_formula(r, c, "=1").map(|_| ()),
        9 => w.write_blank(r, c, &f).map(|_| ()),
        10 => w.write_number_with_format(r, c, 5, &f).map(|_| ()),
        11 => w.write_array_formula(0, 0, r, c, "=1").map(|_| ()),
        12 => w.write_array_formula(5, 5, 4, 4, "=1").map(|_| ()),
        13 => w.write_url(r, c, "http://x.y").map(|_| ()),
        14 => w.write_url(700_000, 7_000, format!("http://x.y/{}", "a".repeat(2081)).as_str()).map(|_| ()),
        15 => w.write_rich_string(600_000, 6_000, &[(&f, "")]).map(|_| ()),
        16 => w.write_dynamic_array_formula(0, 0, r, c, "=1").map(|_| ()),
        17 => w.write_datetime_with_format(r, c, ExcelDateTime::from_ymd(2020, 1, 1).unwrap(), &f).map(|_| ()),
        18 => w.set_cell_format(r, c, &f).map(|_| ()),
        19 => w.write_url_with_text(r, c, "http://x.y", "").map(|_| ()),
        20 => w.add_table(0, 0, 3, 1, &Table::new().set_columns(&[TableColumn::new().set_header("a"), TableColumn::new().set_header(&long)])).map(|_| ()),
        _ => w.add_table(2, 1, 6, 2, &Table::new().set_total_row(true).set_columns(&[TableColumn::new().set_total_label("a"), TableColumn::new().set_total_label(&long)])).map(|_| ()),
    };
    if res.is_ok() { return Err(format!("call {k} that has to be rejected was accepted (row {r}, col {c})")); }
    Ok(())
}
fn e(x: XlsxError) -> String { format!("rejected: {x}") }
pub fn write(w: &mut Worksheet, r: u32, c: u16, v: &V, f: &Option<FmtSpec>) -> Result<(), String> {
    let ff = f.as_ref().map(|f| f.build());
    match (v, &ff) {
        (V::Num(n), None) => w.write_number(r, c, *n).map_err(e)?,
        (V::Num(n), Some(f)) => w.write_number_with_format(r, c, *n, f).map_err(e)?,
        (V::Str(s), None) => w.write_string(r, c, s.as_str()).map_err(e)?,
        (V::Str(s), Some(f)) => w.write_string_with_format(r, c, s.as_str(), f).map_err(e)?,
        (V::Rich(v), _) => {
            let fs: Vec<Format> = (0..v.len()).map(|i| if i % 2 == 0 { Format::new() } else { Format::new().set_bold() }).collect();
            let seg: Vec<(&Format, &str)> = fs.iter().zip(v).map(|(f, s)| (f, s.as_str())).collect();
            match &ff { None => w.write_rich_string(r, c, &seg).map_err(e)?, Some(f) => w.write_rich_string_with_format(r, c, &seg, f).map_err(e)? }
        }
        (V::Bool(b), None) => w.write_boolean(r, c, *b).map_err(e)?,
        (V::Bool(b), Some(f)) => w.write_boolean_with_format(r, c, *b, f).map_err(e)?,
        (V::Formula(t, res), ff) => {
            let fm = Formula::new(format!("={t}")).set_result(res.as_str());
            match ff { None => w.write_formula(r, c, fm).map_err(e)?, Some(f) => w.write_formula_with_format(r, c, fm, f).map_err(e)? }
        }
        (V::Date(n), ff) => {
            let d = ExcelDateTime::from_serial_datetime(*n).map_err(e)?;
            match ff { None => w.write_datetime(r, c, &d).map_err(e)?, Some(f) => w.write_datetime_with_format(r, c, &d, f).map_err(e)? }
        }
        (V::Blank, Some(f)) => w.write_blank(r, c, f).map_err(e)?,
        (V::Blank, None) => w,
    };
    Ok(())
}
pub struct DD(V);
impl IntoExcelData for DD {
    fn write(self, w: &mut Worksheet, r: u32, c: u16) -> Result<&mut Worksheet, XlsxError> {
        write(w, r, c, &self.0, &None).map_err(XlsxError::ParameterError)?; Ok(w)
    }
    fn write_with_format<'a>(self, w: &'a mut Worksheet, r: u32, c: u16, _f: &Format) -> Result<&'a mut Worksheet, XlsxError> { self.write(w, r, c) }
}
pub fn apply(w: &mut Worksheet, op: &Op) -> Result<(), String> {
    match op {
        Op::Write(r, c, v, f) => write(w, *r, *c, v, f)?,
        Op::Row(r, c, vs, f) => match f {
            None => { w.write_row(*r, *c, vs.iter().cloned().map(DD)).map_err(e)?; }
            Some(f) => { let n: Vec<f64> = (0..vs.len()).map(|i| i as f64).collect(); w.write_row_with_format(*r, *c, n, &f.build()).map_err(e)?; }
        },
        Op::Col(r, c, vs, f) => match f {
            None => { w.write_column(*r, *c, vs.iter().cloned().map(DD)).map_err(e)?; }
            Some(f) => { let n: Vec<String> = (0..vs.len()).map(|i| format!("s{i}")).collect(); w.write_column_with_format(*r, *c, n, &f.build()).map_err(e)?; }
        },
        Op::Matrix(r, c, m, byrow) => { if *byrow { w.write_row_matrix(*r, *c, m.clone()).map_err(e)?; } else { w.write_column_matrix(*r, *c, m.clone()).map_err(e)?; } }
        Op::Array(r, c, r2, c2, t, dy, f) => {
            let fm = Formula::new(format!("{{={t}}}"));
            match (dy, f.as_ref().map(|f| f.build())) {
                (false, None) => w.write_array_formula(*r, *c, *r2, *c2, fm).map_err(e)?,
                (false, Some(f)) => w.write_array_formula_with_format(*r, *c, *r2, *c2, fm, &f).map_err(e)?,
                (true, None) => w.write_dynamic_array_formula(*r, *c, *r2, *c2, fm).map_err(e)?,
                (true, Some(f)) => w.write_dynamic_array_formula_with_format(*r, *c, *r2, *c2, fm, &f).map_err(e)?,
            };
        }
        Op::SetFmt(r, c, f) => { w.set_cell_format(*r, *c, &f.build()).map_err(e)?; }
        Op::RangeFmt(r, c, r2, c2, f) => { w.set_range_format(*r, *c, *r2, *c2, &f.build()).map_err(e)?; }
        Op::Clear(r, c) => { w.clear_cell(*r, *c); }
        Op::ClearFmt(r, c) => { w.clear_cell_format(*r, *c); }
        Op::RowFmt(r, f) => { w.set_row_format(*r, &f.build()).map_err(e)?; }
        Op::ColFmt(c, f) => { w.set_column_format(*c, &f.build()).map_err(e)?; }
        Op::Height(r, h) => { w.set_row_height(*r, *h).map_err(e)?; }
        Op::Width(c, h) => { w.set_column_width(*c, *h).map_err(e)?; }
        Op::Bad(k) => bad(w, *k)?,
    }
    Ok(())
}
impl Model {
    /// the format an unformatted cell is shown with
    pub fn base(&self, r: u32, c: u16) -> FmtSpec {
        match (self.rowf.get(&r), self.colf.get(&c)) {
            (Some(a), Some(b)) => a.over(b), (Some(a), None) | (None, Some(a)) => a.clone(), _ => FmtSpec::default(),
        }
    }
    fn touch(&mut self, r: u32, c: u16) {
        self.box_ = Some(match self.box_ { None => (r, c, r, c), Some((a, b, x, y)) => (a.min(r), b.min(c), x.max(r), y.max(c)) });
    }
    fn put(&mut self, r: u32, c: u16, v: V, f: &Option<FmtSpec>) {
        let v = match v {
            V::Blank if f.is_none() => return,
            V::Str(s) if s.is_empty() => { if f.is_none() { return } V::Blank }
            V::Num(n) if n.is_nan() => V::Str("NAN".into()),
            V::Num(n) if n == f64::INFINITY => V::Str("INF".into()),
            V::Num(n) if n == f64::NEG_INFINITY => V::Str("-INF".into()),
            v => v,
        };
        let v = match v { V::Formula(t, r) => V::Formula(t, if r.is_empty() { "0".into() } else { r }), v => v };
        self.touch(r, c);
        // an explicit default format is no format
        let fs = match f { Some(f) if f.shown() != FmtSpec::default() => f.clone(), _ => self.base(r, c) };
        let fs = match (&v, f) { (V::Date(_), None) if fs.num == Num::None => fs, _ => fs };
        self.cells.insert((r, c), MC { v, f: fs, arr: None });
    }
    fn setf(&mut self, r: u32, c: u16, f: &FmtSpec) {
        self.touch(r, c);
        let f = if f.shown() == FmtSpec::default() { self.base(r, c) } else { f.clone() };
        match self.cells.get_mut(&(r, c)) { Some(m) => m.f = f, None => { self.cells.insert((r, c), MC { v: V::Blank, f, arr: None }); } }
    }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Write(r, c, v, f) => self.put(*r, *c, v.clone(), f),
            Op::Row(r, c, vs, f) => for (i, v) in vs.iter().enumerate() { let v = if f.is_some() { V::Num(i as f64) } else { v.clone() }; self.put(*r, c + i as u16, v, f); },
            Op::Col(r, c, vs, f) => for (i, v) in vs.iter().enumerate() { let v = if f.is_some() { V::Str(format!("s{i}")) } else { v.clone() }; self.put(r + i as u32, *c, v, f); },
            Op::Matrix(r, c, m, byrow) => for (i, row) in m.iter().enumerate() { for (j, n) in row.iter().enumerate() {
                let (rr, cc) = if *byrow { (r + i as u32, c + j as u16) } else { (r + j as u32, c + i as u16) };
                self.put(rr, cc, V::Num(*n), &None);
            } },
            Op::Array(r, c, r2, c2, t, dy, f) => {
                for i in *r..=*r2 { for j in *c..=*c2 { self.put(i, j, V::Num(0.0), f); } }
                let m = self.cells.get_mut(&(*r, *c)).unwrap();
                m.v = V::Formula(t.clone(), "0".into());
                m.arr = Some((range(*r, *c, *r2, *c2), *dy));
            }
            Op::SetFmt(r, c, f) => self.setf(*r, *c, f),
            Op::RangeFmt(r, c, r2, c2, f) => for i in *r..=*r2 { for j in *c..=*c2 { self.setf(i, j, f); } },
            Op::Clear(r, c) => { self.cells.remove(&(*r, *c)); }
            Op::ClearFmt(r, c) => { let b = self.base(*r, *c); if let Some(m) = self.cells.get_mut(&(*r, *c)) { m.f = b; } }
            Op::RowFmt(r, f) => { self.rowf.insert(*r, f.clone()); self.other = true; }
            Op::ColFmt(c, f) => { self.colf.insert(*c, f.clone()); self.other = true; }
            Op::Height(..) | Op::Width(..) => self.other = true,
            Op::Bad(_) => {}
        }
    }
    /// compare with sheet `i` of the saved file
    pub fn check(&self, b: &Book, i: usize, formats: bool) -> Result<(), String> {
        let got = b.cells(i)?;
        let st = Sheetstyles::parse(b)?;
        let mut seen = std::collections::HashSet::new();
        for ((r, c), m) in &self.cells {
            let k = (*r, u32::from(*c));
            seen.insert(k);
            let shown = m.f.shown();
            let Some(g) = got.get(&k) else {
                ensure!(m.v == V::Blank && shown == self.base(*r, *c).shown(), "cell ({r},{c}) should hold {:?} but is not in the file", m.v);
                continue;
            };
            let ok = match (&m.v, &g.v) {
                (V::Num(n), Val::Num(t)) | (V::Date(n), Val::Num(t)) => t.parse::<f64>().ok() == Some(*n),
                (V::Str(s), Val::Str(t)) => s == t,
                (V::Rich(v), Val::Rich(w, _)) => v == w,
                (V::Bool(a), Val::Bool(b)) => a == b,
                (V::Blank, Val::Blank) => true,
                (V::Formula(f, res), Val::Formula { f: gf, t, r: gr, v, ty }) => {
                    let want_ty = match res.as_str() { "TRUE" | "FALSE" => Some("b"), s if s.starts_with('#') => Some("e"), s if s.parse::<f64>().is_ok() => None, _ => Some("str") };
                    f == gf && (res == v || (want_ty == Some("b") && ["0", "1", "TRUE", "FALSE"].contains(&v.as_str()))) && (ty.as_deref() == want_ty || (want_ty == Some("b") && ty.as_deref() == Some("str")))
                        && match &m.arr { Some((rg, dy)) => t.as_deref() == Some("array") && gr.as_ref() == Some(rg) && g.cm.is_some() == *dy, None => t.is_none() && gr.is_none() && g.cm.is_none() }
                }
                _ => false,
            };
            ensure!(ok, "cell ({r},{c}) should hold {:?} {:?}, the file has {:?} cm={:?}", m.v, m.arr, g.v, g.cm);
            if formats {
                let gf = st.get(g.s)?;
                ensure!(gf.shown_file() == shown, "cell ({r},{c}) should have format {}, the file has {}", shown.diff(), gf.diff());
            }
        }
        for (k, g) in &got {
            if seen.contains(k) { continue; }
            let base = self.base(k.0, k.1 as u16).shown();
            ensure!(g.v == Val::Blank && (!formats || st.get(g.s)?.shown_file() == base), "cell {k:?} was never written (or was cleared) but the file has {:?}", g);
        }
        if formats {
            let sd = b.sheet(i).get("sheetData").unwrap();
            for (r, f) in &self.rowf {
                let row = sd.all("row").find(|e| e.a("r") == Some((r + 1).to_string().as_str())).ok_or(format!("row {r} has a format but no record"))?;
                let s: u32 = row.a("s").unwrap_or("0").parse().unwrap_or(u32::MAX);
                ensure!(st.get(s)?.shown_file() == f.shown(), "row {r} should have format {}, file has {}", f.diff(), st.get(s)?.diff());
                ensure!(s == 0 || row.a("customFormat") == Some("1"), "row {r} format not applied");
            }
            for (c, f) in &self.colf {
                let n = u32::from(*c) + 1;
                let s: u32 = b.sheet(i).get("cols").and_then(|e| e.all("col").find(|e| { let q = |a: &str| e.a(a).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0); q("min") <= n && n <= q("max") })).and_then(|e| e.a("style")).unwrap_or("0").parse().unwrap_or(u32::MAX);
                ensure!(st.get(s)?.shown_file() == f.shown(), "column {c} should have format {}, file has {}", f.diff(), st.get(s)?.diff());
            }
        }
        // dimension
        let dim = b.sheet(i).get("dimension").and_then(|e| e.a("ref")).unwrap_or("");
        let (a, z) = dim.split_once(':').unwrap_or((dim, dim));
        let (Some(a), Some(z)) = (a1_decode(a), a1_decode(z)) else { return Err(format!("dimension {dim:?}")) };
        for k in got.keys() { ensure!(a.0 <= k.0 && k.0 <= z.0 && a.1 <= k.1 && k.1 <= z.1, "dimension {dim} does not cover {k:?}"); }
        if !self.other {
            let want = self.box_.map(|(a, b, c, d)| ((a, u32::from(b)), (c, u32::from(d)))).unwrap_or(((0, 0), (0, 0)));
            ensure!((a, z) == want, "dimension {dim} should be {want:?}");
        }
        Ok(())
    }
}
pub fn range(r: u32, c: u16, r2: u32, c2: u16) -> String {
    let n = all_columns(usize::from(c2) + 1);
    let a = format!("{}{}", n[c as usize], r + 1);
    if (r, c) == (r2, c2) { a } else { format!("{a}:{}{}", n[c2 as usize], r2 + 1) }
}
impl FmtSpec {
    /// a style read from a file is already in shown form, except shrink
    pub fn shown_file(&self) -> FmtSpec { let mut f = self.clone(); for b in &mut f.border { if b.0 == 0 { b.1 = None; } } f }
    pub fn diff(&self) -> String {
        let d = format!("{:?}", FmtSpec::default());
        let s = format!("{self:?}");
        let (a, b): (Vec<&str>, Vec<&str>) = (s.split(", ").collect(), d.split(", ").collect());
        if a.len() == b.len() { a.iter().zip(&b).filter(|(x, y)| x != y).map(|(x, _)| *x).collect::<Vec<_>>().join(", ") } else { s }
    }
}
/// the same parts with the same bytes, document properties' time stamps aside
pub fn same_file(a: &Book, b: &Book) -> Result<(), String> {
    let (ka, kb): (Vec<_>, Vec<_>) = (a.parts.keys().collect(), b.parts.keys().collect());
    ensure!(ka == kb, "the parts differ: {:?} / {:?}", ka.iter().filter(|k| !kb.contains(k)).collect::<Vec<_>>(), kb.iter().filter(|k| !ka.contains(k)).collect::<Vec<_>>());
    for (k, v) in &a.parts {
        if k == "docProps/core.xml" { continue; }
        if v != &b.parts[k] {
            let (x, y) = (String::from_utf8_lossy(v).to_string(), String::from_utf8_lossy(&b.parts[k]).to_string());
            let p = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let cut = |s: &str| { let lo = s.char_indices().map(|(i, _)| i).filter(|i| *i <= p.saturating_sub(60)).last().unwrap_or(0); s[lo..].chars().take(160).collect::<String>() };
            return Err(format!("{k} differs: ...{} / ...{}", cut(&x), cut(&y)));
        }
    }
    Ok(())
}
