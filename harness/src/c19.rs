//! C19 executable contract: hyperlinks lead where the user said.
use crate::common::*;
use crate::ensure;
use crate::scene::png;
use crate::xl::*;
use rust_xlsxwriter::*;

fn hexpair(b: &[u8], i: usize) -> bool { i + 2 < b.len() && b[i] == b'%' && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() }
fn user_escaped(s: &str) -> bool { (0..s.len()).any(|i| hexpair(s.as_bytes(), i)) }
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() { if hexpair(b, i) { v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { v.push(b[i]); i += 1; } }
    String::from_utf8_lossy(&v).into_owned()
}
#[derive(Clone, Debug, PartialEq)]
enum Want { Web(String, String), Inner(String), File { rel: bool, path: String, loc: String } }
fn split(s: &str) -> (String, String) { match s.find('#') { Some(i) => (s[..i].to_string(), s[i + 1..].to_string()), None => (s.to_string(), String::new()) } }
/// what the user asks for, from the documentation of Url
fn want(url: &str) -> Option<Want> {
    if ["http://", "https://", "ftp://", "ftps://"].iter().any(|p| url.starts_with(p)) { let (a, b) = split(url); return Some(Want::Web(a, b)); }
    if url.starts_with("mailto:") { return Some(Want::Web(url.to_string(), String::new())); }
    if let Some(s) = url.strip_prefix("internal:") { return Some(Want::Inner(s.to_string())); }
    if let Some(s) = url.strip_prefix("file:///") {
        let abs = s.starts_with(r"\\") || (s.len() > 1 && s.as_bytes()[0].is_ascii() && s.as_bytes()[0] != b':' && s.as_bytes()[1] == b':');
        let (a, b) = split(s);
        return Some(Want::File { rel: !abs, path: if abs { format!("file:///{a}") } else { a }, loc: b });
    }
    None
}
/// the text shown when none is given
fn shown(url: &str) -> String { for p in ["mailto:", "internal:", "file:///"] { if let Some(s) = url.strip_prefix(p) { return s.to_string(); } } url.to_string() }
/// the target in the file is the wanted one with only the necessary escapes
fn target_ok(got: &str, want: &str, whole: &str) -> Result<(), String> {
    if user_escaped(whole) { ensure!(got == want, "target {got:?} for {want:?}, which is escaped already"); return Ok(()); }
    ensure!(decode(got) == want, "target {got:?} for {want:?}");
    ensure!(!got.chars().any(|c| " \"<>[]^`{}".contains(c)), "unescaped characters in target {got:?}");
    ensure!(got.matches('%').count() == want.chars().filter(|c| "% \"<>[]^`{}".contains(*c)).count(), "needless escapes in target {got:?}");
    Ok(())
}
fn check_cell(b: &Book, url: &str, w: &Want, text: &str, tip: &str, embedded: bool) -> Result<(), String> {
    let sheet = b.sheet(0);
    let hs: Vec<&El> = sheet.get("hyperlinks").map(|h| h.all("hyperlink").filter(|h| h.a("ref") == Some("B2")).collect()).unwrap_or_default();
    ensure!(hs.len() == 1, "{} hyperlinks for {url:?}", hs.len());
    let h = hs[0];
    let loc = h.a("location").unwrap_or("");
    let target = match h.a("r:id") { Some(id) => { let r: Vec<_> = b.rels_of(&b.sheets[0].1).into_iter().filter(|r| r.0 == id).collect(); ensure!(r.len() == 1 && r[0].1.ends_with("/hyperlink") && r[0].3 == "External", "relationship {r:?}"); Some(r[0].2.clone()) } None => None };
    match w {
        Want::Web(a, l) => { target_ok(target.as_deref().ok_or("no target")?, a, a)?; ensure!(loc == l, "location {loc:?}, not {l:?}"); }
        Want::Inner(l) => { ensure!(target.is_none() && loc == l, "target {target:?} location {loc:?}, not {l:?}"); }
        Want::File { path, loc: l, .. } => { target_ok(target.as_deref().ok_or("no target")?, path, path)?; ensure!(loc == l, "location {loc:?}, not {l:?}"); }
    }
    ensure!(xstring(h.a("tooltip").unwrap_or("")) == xstring(tip), "tip {:?}, not {tip:?}", h.a("tooltip"));
    if !embedded {
        let c = b.cells(0)?.get(&(1, 1)).map(|c| format!("{:?}", c.v)).unwrap_or_default();
        let e = format!("{:?}", if text.is_empty() { Val::Blank } else { Val::Str(text.to_string()) });
        ensure!(c == e, "cell shows {c}, not {e}");
    }
    Ok(())
}
fn check_object(b: &Book, at: (u32, u16), url: &str, tip: &str) -> Result<(), String> {
    let d = &b.xml["xl/drawings/drawing1.xml"];
    for a in d.els() {
        let g = |n: &str| a.path(&["xdr:from", n]).map(|e| e.text()).unwrap_or_default();
        if g("xdr:row") != at.0.to_string() || g("xdr:col") != at.1.to_string() { continue; }
        let hs = a.find_all("a:hlinkClick");
        ensure!(hs.len() == 1, "{} links on the object at {at:?}", hs.len());
        let rels = b.rels_of("xl/drawings/drawing1.xml");
        let r = rels.iter().find(|r| Some(r.0.as_str()) == hs[0].a("r:id")).ok_or("undefined link id")?;
        ensure!(r.1.ends_with("/hyperlink"), "link of type {}", r.1);
        match want(url).unwrap() {
            Want::Web(..) => { ensure!(r.3 == "External", "mode {}", r.3); target_ok(&r.2, url, url)?; }
            Want::Inner(l) => ensure!(r.2 == format!("#{l}"), "target {:?}, not #{l}", r.2),
            Want::File { rel, path, loc } => {
                ensure!(r.3 == "External", "mode {}", r.3);
                let path = if rel { path.replace('\\', "/") } else { path };
                let full = if loc.is_empty() { path } else { format!("{path}#{loc}") };
                let mut r = r.clone();
                if loc.is_empty() { if let Some(t) = r.2.strip_suffix("%23") { r.2 = t.to_string(); } }
                let full = full.replace('#', "%23");
                if user_escaped(url) { ensure!(r.2 == full, "target {:?}, not {full:?}", r.2); } else { ensure!(decode(&r.2) == decode(&full), "target {:?}, not {full:?}", r.2); }
            }
        }
        ensure!(hs[0].a("tooltip").unwrap_or("") == tip, "tip {:?}, not {tip:?}", hs[0].a("tooltip"));
        return Ok(());
    }
    Err(format!("no object at {at:?}"))
}
fn one(url: &str, text: &str, tip: &str, how: u64) -> Result<(), String> {
    let n = |s: &str| s.chars().count();
    let w = want(url);
    let valid = n(tip) <= 255 && match &w { None => false, Some(Want::Web(a, l)) => n(a) <= 2080 && n(l) <= 2080, Some(Want::Inner(l)) => n(url) <= 2080 && n(l) <= 2080, Some(Want::File { path, loc, .. }) => n(path) <= 2080 && n(loc) <= 2080 };
    let mut wb = Workbook::new();
    let s = wb.add_worksheet();
    s.write(1, 1, "before").map_err(|e| e.to_string())?;
    let full = || Url::new(url).set_text(text).set_tip(tip);
    let f = Format::new().set_bold();
    // how the link is written, and the text and tip it has then
    let (r, text, tip) = match how {
        0 => (s.write_url(1, 1, url).map(|_| ()), "", ""),
        1 => (s.write_url_with_text(1, 1, url, text).map(|_| ()), text, ""),
        2 => (s.write_url_with_options(1, 1, url, text, tip, Some(&f)).map(|_| ()), text, tip),
        3 => (s.write(1, 1, full()).map(|_| ()), text, tip),
        4 => (s.write_url_with_format(1, 1, full(), &f).map(|_| ()), text, tip),
        5 => (s.write_url(1, 1, full()).map(|_| ()), text, tip),
        _ => {
            let i = Image::new_from_buffer(&png(5, 5)).unwrap();
            let r = i.set_url(full()).and_then(|i| s.embed_image(1, 1, &i).map(|_| ()));
            (r, "", tip)
        }
    };
    let valid = valid || (n(tip) == 0 && matches!(how, 0 | 1) && match &w { None => false, Some(Want::Web(a, l)) => n(a) <= 2080 && n(l) <= 2080, Some(Want::Inner(l)) => n(url) <= 2080 && n(l) <= 2080, Some(Want::File { path, loc, .. }) => n(path) <= 2080 && n(loc) <= 2080 });
    let text = if text.is_empty() { shown(url) } else { text.to_string() };
    ensure!(r.is_ok() == valid, "{} ({:?})", if valid { "rejected" } else { "accepted" }, r.err().map(|e| e.to_string()));
    let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
    if valid { check_cell(&b, url, &w.unwrap(), &text, tip, how > 5) } else {
        ensure!(b.sheet(0).get("hyperlinks").is_none(), "a rejected link is in the file");
        let c = b.cells(0)?.get(&(1, 1)).map(|c| format!("{:?}", c.v)).unwrap_or_default();
        ensure!(c == format!("{:?}", Val::Str("before".into())), "a rejected link changed the cell to {c}");
        Ok(())
    }
}
/// objects with links on one sheet; repeated targets may share a relationship
fn objects(v: &[(String, String, bool)]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let s = wb.add_worksheet();
    for (i, (u, tip, shape)) in v.iter().enumerate() {
        let url = Url::new(u.as_str()).set_tip(tip.as_str());
        if *shape { let x = Shape::textbox().set_url(url).map_err(|e| e.to_string())?; s.insert_shape(10 * i as u32, 2, &x).map_err(|e| e.to_string())?; }
        else { let x = Image::new_from_buffer(&png(5, 5 + i as u32 % 3)).unwrap().set_url(url).map_err(|e| e.to_string())?; s.insert_image(10 * i as u32, 2, &x).map_err(|e| e.to_string())?; }
    }
    let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
    for (i, (u, tip, _)) in v.iter().enumerate() { check_object(&b, (10 * i as u32, 2), u, tip).map_err(|e| format!("{u:?}: {e}"))?; }
    Ok(())
}
fn cells(v: &[String]) -> Result<(), String> {
    let mut wb = Workbook::new();
    let s = wb.add_worksheet();
    let mut m = std::collections::BTreeMap::new();
    for (i, u) in v.iter().enumerate() { let at = ((i * 7 % 5) as u32, (i % 3) as u16); if s.write_url(at.0, at.1, u.as_str()).is_ok() { m.insert(at, u.clone()); } }
    let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
    let rels = b.rels_of(&b.sheets[0].1);
    let hs: Vec<&El> = b.sheet(0).find_all("hyperlink");
    ensure!(hs.len() == m.len(), "{} hyperlinks, not {}", hs.len(), m.len());
    for h in hs {
        let (r, c) = a1_decode(h.a("ref").unwrap_or("")).ok_or("ref")?;
        let u = m.get(&(r, c as u16)).ok_or("hyperlink on another cell")?;
        let t = h.a("r:id").map(|id| rels.iter().find(|r| r.0 == id).map(|r| r.2.clone()).unwrap_or("?".into()));
        let loc = h.a("location").unwrap_or("");
        match want(u).unwrap() { Want::Web(a, l) => { target_ok(&t.unwrap_or_default(), &a, &a)?; ensure!(l == loc, "location {loc}"); } Want::Inner(l) => ensure!(l == loc && t.is_none(), "location {loc}"), Want::File { path, loc: l, .. } => { target_ok(&t.unwrap_or_default(), &path, &path)?; ensure!(l == loc, "location {loc}"); } }
    }
    Ok(())
}
pub fn random_url(g: &mut Rng) -> String {
    let few = g.bits();
    let word = |g: &mut Rng| -> String { (0..g.below(5)).map(|_| if few { *g.pick(&["a", "b", "/"]) } else { *g.pick(&["a", "B", "/", ".", " ", "%", "%20", "%C3%A9", "%3C", "%7e", "\"", "<", ">", "[", "]", "^", "`", "{", "}", "&", "'", "?", "=", "é", "日", "\\", ":", "100%", "_x0041_", "file://", "mailto:", "internal:", "http://"]) }).collect() };
    let mut s = (*g.pick(&["http://", "https://", "ftp://", "ftps://", "mailto:", "internal:", "file:///", "file:///C:\\", "file:///..\\", "file:///\\\\srv\\", "http://h/"])).to_string();
    let tail = word(g);
    if s.starts_with("internal:") { s += *g.pick(&["Sheet1!A1", "'x y'!B2:C3", "Name", "'It''s'!A1"]); } else { s += &tail; if g.chance(2, 5) { let a = word(g); s += "#"; s += &a; if g.chance(1, 6) { s += "#x"; } } }
    s
}
pub fn run(run: &mut Run) {
    for u in ["http://a/%C3%A9", "http://a/%3C", "http://a/%20%", "http://a/100%", "http://a/ b", "http://a/#x y", "file:///C:\\a b.xlsx#'S 1'!A1", "file:///a b.xlsx#Sheet1!A1", "file:///..\\x\\y.xlsx", "internal:Sheet1!A1", "mailto:a@b?subject=a b", "http://a/#", "http://a/#b#c", "", "http", "HTTP://a", "ftp:/x", "sftp://x", "C:\\x", "www.x.y", "internal:", "file:///", "file:///a/file://b", "file:///C:\\file://b", "mailto:a@mailto:b", "internal:internal:A1", "http://a/?file:///b", "mailto:", "external:b.xlsx", " http://a"] {
        for how in 0..7 { run.case("cell link", &format!("{u:?} {how}"), || one(u, "text", "tip", how)); }
    }
    let pad = |p: &str, n: usize| format!("{p}{}", "x".repeat(n - p.len()));
    for n in [2079, 2080, 2081, 2082] {
        for u in [pad("http://a/", n), pad("mailto:", n), pad("internal:", n), pad("file:///C:\\", n), pad("file:///", n + 8), format!("http://a/#{}", "y".repeat(n)), format!("file:///a#{}", "y".repeat(n)), pad("http://a/é", n + 1)] {
            for how in [0, 2, 3, 6] { run.case("length limits", &format!("{} of {} {how}", u.chars().take(10).collect::<String>(), u.len()), || one(&u, "t", "", how)); }
        }
    }
    for n in [254, 255, 256] { for how in 2..7 { let t = "é".repeat(n); run.case("length limits", &format!("tip of {n} {how}"), || one("http://a/", "t", &t, how)); } }
    for i in 0..run.n(3000, 60_000) {
        let mut g = run.rng(i);
        let u = random_url(&mut g);
        let (text, tip, how) = (rand_string(&mut g, 6), if g.bits() { rand_string(&mut g, 6) } else { String::new() }, g.below(7));
        run.case("cell link", &format!("{u:?} text {text:?} tip {tip:?} {how}"), || one(&u, &text, &tip, how));
    }
    for i in 0..run.n(1000, 20_000) {
        let mut g = run.rng(i + (1 << 40));
        let few: Vec<String> = (0..1 + g.below(4)).map(|_| random_url(&mut g)).collect();
        let v: Vec<(String, String, bool)> = (0..1 + g.below(6)).map(|_| { let mut u = g.pick(&few).clone(); if g.chance(1, 3) && !u.contains('#') && !u.starts_with("mailto") { u += *g.pick(&["#Sheet1!A1", "#Sheet2!A1", "#b"]); } (u, if g.bits() { "a tip".to_string() } else { String::new() }, g.chance(1, 3)) }).collect();
        run.case("object links", &format!("{v:?}"), || objects(&v));
        let v: Vec<String> = (0..1 + g.below(12)).map(|_| if g.bits() { g.pick(&few).clone() } else { random_url(&mut g) }).collect();
        run.case("links on several cells", &format!("{v:?}"), || cells(&v));
    }
}
