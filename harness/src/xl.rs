//! Reading side: a strict XML parser and a small xlsx reader, written from the ECMA-376
//! rules and sharing no code with the crate under test.
use std::collections::BTreeMap;
use std::io::{Cursor, Read};

pub type Parts = BTreeMap<String, Vec<u8>>;

pub fn unzip(buf: &[u8]) -> Result<Parts, String> {
    let mut z = zip::ZipArchive::new(Cursor::new(buf)).map_err(|e| e.to_string())?;
    let mut m = BTreeMap::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| e.to_string())?;
        let n = f.name().to_string();
        if m.insert(n.clone(), v).is_some() {
            return Err(format!("duplicate part {n}"));
        }
    }
    Ok(m)
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    E(El),
    T(String),
}
impl El {
    pub fn a(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let Node::E(e) = k { Some(e) } else { None })
    }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.name == n)
    }
    pub fn get(&self, n: &str) -> Option<&El> {
        self.els().find(|e| e.name == n)
    }
    pub fn path(&self, p: &[&str]) -> Option<&El> {
        let mut e = self;
        for n in p { e = e.get(n)?; }
        Some(e)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k { Node::T(t) => s.push_str(t), Node::E(_) => {} }
        }
        s
    }
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k { Node::T(t) => s.push_str(t), Node::E(e) => s.push_str(&e.deep_text()) }
        }
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() { e.walk(f); }
    }
    pub fn find_all(&self, n: &str) -> Vec<&El> {
        let mut v = vec![];
        self.walk(&mut |e| if e.name == n { v.push(e) });
        v
    }
}

fn xml_char_ok(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_ok(s: &str) -> bool {
    !s.is_empty()
        && s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
        && s.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | ':'))
}

struct P<'a> { s: &'a str, i: usize }

/// Strict well-formedness parse (XML 1.0 fragment without DTDs).
pub fn parse_xml(bytes: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not utf-8: {e}"))?;
    if let Some(c) = s.chars().find(|c| !xml_char_ok(*c)) {
        return Err(format!("illegal XML char U+{:04X}", c as u32));
    }
    let mut p = P { s, i: 0 };
    if p.s[p.i..].starts_with("<?xml") {
        let e = p.s.find("?>").ok_or("unterminated xml decl")?;
        p.i = e + 2;
    }
    p.misc()?;
    let el = p.element(0)?;
    p.misc()?;
    if p.i != s.len() { return Err(format!("content after root at {}", p.i)); }
    Ok(el)
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn ws(&mut self) { while self.rest().starts_with([' ', '\t', '\n', '\r']) { self.i += 1; } }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                let e = self.rest().find("-->").ok_or("unterminated comment")?;
                self.i += e + 3;
            } else if self.rest().starts_with("<?") {
                let e = self.rest().find("?>").ok_or("unterminated PI")?;
                self.i += e + 2;
            } else { return Ok(()); }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let e = r.find(|c: char| !(c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | ':'))).unwrap_or(r.len());
        let n = &r[..e];
        if !name_ok(n) { return Err(format!("bad name {n:?} at {}", self.i)); }
        self.i += e;
        Ok(n.to_string())
    }
    fn decode(t: &str, attr: bool) -> Result<String, String> {
        // line-end normalisation and attribute-value normalisation, as a real reader does
        let t = t.replace("\r\n", "\n").replace('\r', "\n");
        let mut out = String::new();
        let mut it = t.char_indices();
        while let Some((i, c)) = it.next() {
            if c == '&' {
                let e = t[i..].find(';').ok_or("unterminated entity")? + i;
                let ent = &t[i + 1..e];
                let d = match ent {
                    "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
                    _ if ent.starts_with("#x") => {
                        let n = u32::from_str_radix(&ent[2..], 16).map_err(|e| e.to_string())?;
                        char::from_u32(n).ok_or("bad char ref")?
                    }
                    _ if ent.starts_with('#') => {
                        let n = ent[1..].parse::<u32>().map_err(|e| e.to_string())?;
                        char::from_u32(n).ok_or("bad char ref")?
                    }
                    _ => return Err(format!("unknown entity &{ent};")),
                };
                if !xml_char_ok(d) { return Err("char ref to illegal char".into()); }
                out.push(d);
                while let Some((j, _)) = it.clone().next() { if j <= e { it.next(); } else { break; } }
            } else if attr && matches!(c, '\t' | '\n') {
                out.push(' ');
            } else {
                out.push(c);
            }
        }
        Ok(out)
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 200 { return Err("too deep".into()); }
        if !self.rest().starts_with('<') { return Err(format!("expected < at {}", self.i)); }
        self.i += 1;
        let name = self.name()?;
        let mut el = El { name, ..Default::default() };
        loop {
            let before = self.i;
            self.ws();
            let r = self.rest();
            if r.starts_with("/>") { self.i += 2; return Ok(el); }
            if r.starts_with('>') { self.i += 1; break; }
            if before == self.i { return Err(format!("no space before attribute at {} in <{}>", self.i, el.name)); }
            let n = self.name()?;
            self.ws();
            if !self.rest().starts_with('=') { return Err(format!("attribute {n} without = in <{}>", el.name)); }
            self.i += 1;
            self.ws();
            let q = self.rest().chars().next().ok_or("eof")?;
            if q != '"' && q != '\'' { return Err(format!("unquoted attribute {n}")); }
            self.i += 1;
            let e = self.rest().find(q).ok_or("unterminated attribute")?;
            let raw = &self.rest()[..e];
            if raw.contains('<') { return Err(format!("'<' in attribute {n} of <{}>", el.name)); }
            if el.attrs.iter().any(|(k, _)| *k == n) { return Err(format!("duplicate attribute {n} in <{}>", el.name)); }
            el.attrs.push((n, Self::decode(raw, true)?));
            self.i += e + 1;
        }
        let mut text = String::new();
        loop {
            let r = self.rest();
            if r.is_empty() { return Err(format!("unclosed <{}>", el.name)); }
            if r.starts_with("</") {
                if !text.is_empty() { el.kids.push(Node::T(Self::decode(&text, false)?)); }
                self.i += 2;
                let n = self.name()?;
                if n != el.name { return Err(format!("<{}> closed by </{n}>", el.name)); }
                self.ws();
                if !self.rest().starts_with('>') { return Err("bad end tag".into()); }
                self.i += 1;
                return Ok(el);
            }
            if r.starts_with("<!--") {
                let e = r.find("-->").ok_or("unterminated comment")?;
                self.i += e + 3;
            } else if r.starts_with("<![CDATA[") {
                return Err("CDATA".into());
            } else if r.starts_with('<') {
                if !text.is_empty() { el.kids.push(Node::T(Self::decode(&text, false)?)); text.clear(); }
                let k = self.element(depth + 1)?;
                el.kids.push(Node::E(k));
            } else {
                let e = r.find('<').unwrap_or(r.len());
                if r[..e].contains("]]>") { return Err("]]> in text".into()); }
                text.push_str(&r[..e]);
                self.i += e;
            }
        }
    }
}

/// Excel's `_xHHHH_` decoding (ST_Xstring): exactly as written by the standard.
pub fn xstring(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '_' && i + 6 < c.len() && c[i + 1] == 'x' && c[i + 6] == '_' && c[i + 2..i + 6].iter().all(|d| d.is_ascii_hexdigit()) {
            let h: String = c[i + 2..i + 6].iter().collect();
            let v = u32::from_str_radix(&h, 16).unwrap();
            if let Some(ch) = char::from_u32(v) { out.push(ch); i += 7; continue; }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

/// independent A1 decoding: (row, col) zero based
pub fn a1_decode(r: &str) -> Option<(u32, u32)> {
    let l = r.find(|c: char| c.is_ascii_digit())?;
    let (a, n) = r.split_at(l);
    if a.is_empty() || n.starts_with('0') || !a.bytes().all(|b| b.is_ascii_uppercase()) || !n.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut c: u64 = 0;
    for b in a.bytes() { c = c * 26 + u64::from(b - b'A') + 1; if c > 1 << 30 { return None; } }
    Some((n.parse::<u32>().ok()? - 1, (c - 1) as u32))
}
/// independent A1 encoding of a column, by counting (odometer), not by division
pub fn all_columns(n: usize) -> Vec<String> {
    let mut v = vec![];
    let mut cur: Vec<u8> = vec![b'A'];
    for _ in 0..n {
        v.push(String::from_utf8(cur.clone()).unwrap());
        let mut i = cur.len();
        loop {
            if i == 0 { cur.insert(0, b'A'); break; }
            i -= 1;
            if cur[i] == b'Z' { cur[i] = b'A'; } else { cur[i] += 1; break; }
        }
    }
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Blank,
    Num(String),
    Str(String),
    Rich(Vec<String>, String),
    Bool(bool),
    Err(String),
    /// formula text, attributes (t, ref), cached value text, type
    Formula { f: String, t: Option<String>, r: Option<String>, v: String, ty: Option<String> },
}
#[derive(Debug, Clone)]
pub struct Cell { pub s: u32, pub v: Val, pub cm: Option<String>, pub vm: Option<String> }

pub struct Book {
    pub parts: Parts,
    pub xml: BTreeMap<String, El>,
    pub sheets: Vec<(String, String)>, // (name, part)
    pub sst: Vec<El>,
}

impl Book {
    pub fn open(buf: &[u8]) -> Result<Book, String> {
        let parts = unzip(buf)?;
        let mut xml = BTreeMap::new();
        for (n, b) in &parts {
            if n.ends_with(".xml") || n.ends_with(".rels") || n.ends_with(".vml") {
                xml.insert(n.clone(), parse_xml(b).map_err(|e| format!("{n}: {e}"))?);
            }
        }
        let mut book = Book { parts, xml, sheets: vec![], sst: vec![] };
        let wb = book.xml.get("xl/workbook.xml").ok_or("no workbook.xml")?;
        let rels = book.rels_of("xl/workbook.xml");
        for sh in wb.get("sheets").ok_or("no sheets")?.all("sheet") {
            let id = sh.a("r:id").ok_or("sheet without r:id")?;
            let t = rels.iter().find(|r| r.0 == id).ok_or("sheet rel missing")?;
            book.sheets.push((sh.a("name").unwrap_or("").to_string(), t.2.clone()));
        }
        if let Some(s) = book.xml.get("xl/sharedStrings.xml") {
            book.sst = s.all("si").cloned().collect();
        }
        Ok(book)
    }
    /// (id, type, resolved target, mode)
    pub fn rels_of(&self, part: &str) -> Vec<(String, String, String, String)> {
        let (dir, file) = match part.rfind('/') { Some(i) => (&part[..i + 1], &part[i + 1..]), None => ("", part) };
        let rp = format!("{dir}_rels/{file}.rels");
        let mut v = vec![];
        if let Some(r) = self.xml.get(&rp) {
            for e in r.all("Relationship") {
                let t = e.a("Target").unwrap_or("");
                let mode = e.a("TargetMode").unwrap_or("");
                let res = if mode == "External" || t.starts_with('#') { t.to_string() } else { resolve(dir, t) };
                v.push((e.a("Id").unwrap_or("").to_string(), e.a("Type").unwrap_or("").to_string(), res, mode.to_string()));
            }
        }
        v
    }
    pub fn sheet(&self, i: usize) -> &El { &self.xml[&self.sheets[i].1] }
    pub fn si_text(si: &El) -> Val {
        // without xml:space="preserve" leading/trailing blanks are lost by a consumer
        fn t_text(t: &El) -> String {
            let raw = t.text();
            xstring(&if t.a("xml:space") == Some("preserve") { raw } else { raw.trim_matches([' ', '\t', '\n', '\r']).to_string() })
        }
        if si.get("r").is_some() {
            let runs: Vec<String> = si.all("r").map(|r| r.get("t").map(t_text).unwrap_or_default()).collect();
            Val::Rich(runs.clone(), runs.concat())
        } else {
            Val::Str(si.get("t").map(t_text).unwrap_or_default())
        }
    }
    pub fn cells(&self, i: usize) -> Result<BTreeMap<(u32, u32), Cell>, String> {
        let mut m = BTreeMap::new();
        let sd = self.sheet(i).get("sheetData").ok_or("no sheetData")?;
        let mut last_row = None;
        for row in sd.all("row") {
            let r: u32 = row.a("r").ok_or("row without r")?.parse().map_err(|_| "row r")?;
            if let Some(l) = last_row { if r <= l { return Err(format!("rows not ascending at {r}")); } }
            last_row = Some(r);
            let mut last_col = None;
            for c in row.all("c") {
                let rf = c.a("r").ok_or("c without r")?;
                let (rr, cc) = a1_decode(rf).ok_or(format!("bad ref {rf}"))?;
                if rr + 1 != r { return Err(format!("cell {rf} in row {r}")); }
                if let Some(l) = last_col { if cc <= l { return Err(format!("cells not ascending at {rf}")); } }
                last_col = Some(cc);
                let s = c.a("s").map(|x| x.parse().unwrap_or(u32::MAX)).unwrap_or(0);
                let v = c.get("v").map(|v| v.text());
                let val = if let Some(f) = c.get("f") {
                    Val::Formula { f: f.text(), t: f.a("t").map(String::from), r: f.a("ref").map(String::from), v: v.unwrap_or_default(), ty: c.a("t").map(String::from) }
                } else {
                    match (c.a("t"), v) {
                        (None, None) => Val::Blank,
                        (None, Some(v)) | (Some("n"), Some(v)) => Val::Num(v),
                        (Some("s"), Some(v)) => {
                            let i: usize = v.parse().map_err(|_| format!("bad sst index {v}"))?;
                            let si = self.sst.get(i).ok_or(format!("sst index {i} out of range {}", self.sst.len()))?;
                            Book::si_text(si)
                        }
                        (Some("inlineStr"), None) => {
                            let is = c.get("is").ok_or("no is")?;
                            Book::si_text(is)
                        }
                        (Some("b"), Some(v)) => Val::Bool(v == "1"),
                        (Some("e"), Some(v)) => Val::Err(v),
                        (t, v) => return Err(format!("cell {rf}: type {t:?} value {v:?}")),
                    }
                };
                m.insert((rr, cc), Cell { s, v: val, cm: c.a("cm").map(String::from), vm: c.a("vm").map(String::from) });
            }
        }
        Ok(m)
    }
}

pub fn resolve(dir: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') { return t.to_string(); }
    let mut stack: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    for p in target.split('/') {
        match p { "." | "" => {} ".." => { stack.pop(); } _ => stack.push(p) }
    }
    stack.join("/")
}
