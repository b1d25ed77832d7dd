//! C20 executable contract: any bytes make an image or an error; type, size, resolution and bytes are those of the file.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Want { ext: &'static str, w: f64, h: f64, dx: f64, dy: f64 }
fn chunk(v: &mut Vec<u8>, name: &[u8; 4], data: &[u8]) { v.extend((data.len() as u32).to_be_bytes()); v.extend(name); v.extend(data); v.extend([0, 1, 2, 3]); }
fn noise(g: &mut Rng, n: u64) -> Vec<u8> { (0..g.below(n + 1)).map(|_| match g.below(6) { 0 => 0xFF, 1 => 0xC0, 2 => 0, 3 => b'I', _ => g.below(256) as u8 }).collect() }
fn dim(g: &mut Rng, max: u32) -> u32 { match g.below(6) { 0 => 1, 1 => max, 2 => 255, 3 => 256.min(max), 4 => 1 + g.below(u64::from(max)) as u32, _ => 1 + g.below(2000.min(u64::from(max))) as u32 } }
pub fn png(g: &mut Rng) -> (Vec<u8>, Want) {
    let (w, h) = (dim(g, 0x7FFF_FFFF), dim(g, 0x7FFF_FFFF));
    let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ih = w.to_be_bytes().to_vec(); ih.extend(h.to_be_bytes()); ih.extend([8, 6, 0, 0, 0]);
    chunk(&mut v, b"IHDR", &ih);
    let (mut dx, mut dy) = (96.0, 96.0);
    let k = g.below(5);
    for i in 0..5 {
        if i == k && g.chance(2, 3) {
            let (x, y, u) = (g.below(20_000) as u32, g.below(20_000) as u32, g.below(2) as u8);
            let mut p = x.to_be_bytes().to_vec(); p.extend(y.to_be_bytes()); p.push(u);
            chunk(&mut v, b"pHYs", &p);
            if u == 1 && x > 0 && y > 0 { dx = f64::from(x) * 0.0254; dy = f64::from(y) * 0.0254; }
        }
        if g.bits() { let n = noise(g, 40); chunk(&mut v, *g.pick(&[b"tEXt", b"gAMA", b"IDAT", b"iCCP"]), &n); }
    }
    let n = noise(g, 60); chunk(&mut v, b"IDAT", &n);
    chunk(&mut v, b"IEND", &[]);
    if g.chance(1, 4) { v.extend(noise(g, 30)); }
    (v, Want { ext: "png", w: f64::from(w), h: f64::from(h), dx, dy })
}
fn seg(v: &mut Vec<u8>, g: &mut Rng, m: u8, data: &[u8]) { for _ in 0..g.below(3) * g.below(2) { v.push(0xFF); } v.extend([0xFF, m]); v.extend((data.len() as u16 + 2).to_be_bytes()); v.extend(data); }
pub fn jpg(g: &mut Rng) -> (Vec<u8>, Want) {
    let (w, h) = (dim(g, 65535), dim(g, 65535));
    let mut v = vec![0xFF, 0xD8];
    let (mut dx, mut dy) = (96.0, 96.0);
    if g.chance(3, 4) {
        let (u, x, y) = (g.below(3) as u8, g.below(700) as u16, g.below(700) as u16);
        let mut d = b"JFIF\0\x01\x02".to_vec(); d.push(u); d.extend(x.to_be_bytes()); d.extend(y.to_be_bytes()); d.extend([0, 0]);
        seg(&mut v, g, 0xE0, &d);
        let s = match u { 1 => 1.0, 2 => 2.54, _ => 0.0 };
        let r = |x: u16| { let d = f64::from(x) * s; if d == 0.0 || d == 1.0 { 96.0 } else { d } };
        if u > 0 { dx = r(x); dy = r(y); }
    }
    for _ in 0..g.below(4) { let n = noise(g, 40); let m = *g.pick(&[0xE1u8, 0xE2, 0xED, 0xDB, 0xC4, 0xFE, 0xC8, 0xCC, 0xDD]); seg(&mut v, g, m, &n); }
    let mut d = vec![8]; d.extend((h as u16).to_be_bytes()); d.extend((w as u16).to_be_bytes()); d.extend([1, 0, 17, 0]);
    let m = *g.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3, 0xC9, 0xCA]);
    seg(&mut v, g, m, &d);
    for _ in 0..g.below(3) { let n = noise(g, 40); let m = *g.pick(&[0xC4u8, 0xDB, 0xDD]); seg(&mut v, g, m, &n); }
    seg(&mut v, g, 0xDA, &[1, 0, 0, 63, 0]);
    v.extend(noise(g, 100));
    // compressed data holds no markers that declare another size: the scan ends the header
    v.extend([0xFF, 0xD9]);
    (v, Want { ext: "jpeg", w: f64::from(w), h: f64::from(h), dx, dy })
}
pub fn gif(g: &mut Rng) -> (Vec<u8>, Want) {
    let (w, h) = (dim(g, 65535), dim(g, 65535));
    let mut v = g.pick(&[b"GIF89a", b"GIF87a"]).to_vec();
    v.extend((w as u16).to_le_bytes()); v.extend((h as u16).to_le_bytes()); v.extend([0x80, 0, 0]); v.extend(noise(g, 60));
    (v, Want { ext: "gif", w: f64::from(w), h: f64::from(h), dx: 96.0, dy: 96.0 })
}
pub fn bmp(g: &mut Rng) -> (Vec<u8>, Want) {
    let mut v = b"BM".to_vec();
    v.extend(noise(g, 12)); v.resize(14, 0);
    if g.chance(1, 4) {
        let (w, h) = (dim(g, 65535), dim(g, 65535));
        v.extend(12u32.to_le_bytes()); v.extend((w as u16).to_le_bytes()); v.extend((h as u16).to_le_bytes()); v.extend([1, 0, 24, 0]); v.extend(noise(g, 60));
        return (v, Want { ext: "bmp", w: f64::from(w), h: f64::from(h), dx: 96.0, dy: 96.0 });
    }
    let (w, h) = (dim(g, 0x7FFF_FFFF), dim(g, 0x7FFF_FFFF));
    v.extend(g.pick(&[40u32, 64, 108, 124]).to_le_bytes());
    v.extend(w.to_le_bytes());
    v.extend((if g.bits() { -(h as i32) } else { h as i32 }).to_le_bytes());
    v.extend([1, 0, 24, 0]); v.extend(noise(g, 80));
    (v, Want { ext: "bmp", w: f64::from(w), h: f64::from(h), dx: 96.0, dy: 96.0 })
}
fn valid(g: &mut Rng) -> (Vec<u8>, Want) { match g.below(4) { 0 => png(g), 1 => jpg(g), 2 => gif(g), _ => bmp(g) } }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn measured(b: &[u8], w: &Want) -> Result<(), String> {
    let i = Image::new_from_buffer(b).map_err(|e| format!("valid {} rejected: {e}", w.ext))?;
    let got = (i.width(), i.height(), i.width_dpi(), i.height_dpi());
    ensure!(got == (w.w, w.h, w.dx, w.dy), "{}: measured {got:?}, not {w:?}", w.ext);
    Ok(())
}
/// create, measure, insert everywhere and save: an image or an error, never a panic or a hang
fn survives(b: &[u8]) -> Result<(), String> {
    let Ok(i) = Image::new_from_buffer(b) else { return Ok(()) };
    ensure!(i.width() > 0.0 && i.height() > 0.0, "size {} {}", i.width(), i.height());
    ensure!(i.width_dpi() > 0.0 && i.height_dpi() > 0.0, "resolution {} {}", i.width_dpi(), i.height_dpi());
    Ok(())
}
/// every place that shows an image refers to a part with the bytes supplied, and with the extension and content type of its format
fn stored(seed: u64) -> Result<(), String> {
    let g = &mut Rng::new(seed);
    let pool: Vec<(Vec<u8>, Want)> = (0..1 + g.below(4)).map(|_| loop { let (b, w) = valid(g); if w.w < 3000.0 && w.h < 3000.0 && w.w / w.dx < 100.0 && w.h / w.dy < 100.0 { break (b, w); } }).collect();
    let mut wb = Workbook::new();
    let e = |x: XlsxError| x.to_string();
    let mut want: Vec<(usize, String, usize)> = vec![]; // sheet, place, image
    for s in 0..1 + g.below(3) as usize {
        let w = wb.add_worksheet();
        let mut used = std::collections::BTreeSet::new();
        for _ in 0..g.below(6) {
            let k = g.below(pool.len() as u64) as usize;
            let i = Image::new_from_buffer(&pool[k].0).map_err(e)?.set_scale_width(0.5);
            let (r, c) = (g.below(20) as u32, g.below(9) as u16);
            match g.below(5) {
                0 | 1 => if used.insert(format!("d{r} {c}")) { w.insert_image(r, c, &i).map_err(e)?; want.push((s, format!("draw {r} {c}"), k)); },
                2 => if used.insert("bg".into()) { w.insert_background_image(&i); want.push((s, "background".into(), k)); },
                3 => if used.insert("hd".into()) { w.set_header("&C&G"); w.set_header_image(&i, HeaderImagePosition::Center).map_err(e)?; want.push((s, "header CH".into(), k)); },
                _ => if used.insert(format!("e{r} {c}")) { w.embed_image(r, c, &i).map_err(e)?; want.push((s, format!("embed {r} {c}"), k)); },
            }
        }
    }
    let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
    let types = &b.xml["[Content_Types].xml"];
    let rel = |part: &str, id: Option<&str>, what: &str| -> Result<String, String> { let id = id.ok_or(format!("{what}: no relationship id"))?; b.rels_of(part).into_iter().find(|r| r.0 == id).map(|r| r.2).ok_or(format!("{what}: no relationship {id} in {part}")) };
    let mut got: BTreeMap<(usize, String), String> = BTreeMap::new();
    for s in 0..b.sheets.len() {
        let part = b.sheets[s].1.clone();
        let sh = b.sheet(s);
        if let Some(p) = sh.get("picture") { got.insert((s, "background".into()), rel(&part, p.a("r:id"), "background")?); }
        if let Some(d) = sh.get("drawing") {
            let dp = rel(&part, d.a("r:id"), "drawing")?;
            for a in b.xml[&dp].els() {
                let f = a.get("xdr:from").or(a.get("from")).ok_or("anchor")?;
                let n = |k: &str| f.get(k).map(|e| e.text()).unwrap_or_default();
                let blips = a.find_all("a:blip");
                ensure!(blips.len() == 1, "{} blips", blips.len());
                got.insert((s, format!("draw {} {}", n("xdr:row"), n("xdr:col"))), rel(&dp, blips[0].a("r:embed"), "blip")?);
            }
        }
        if let Some(d) = sh.get("legacyDrawingHF") {
            let vp = rel(&part, d.a("r:id"), "vml")?;
            for x in b.xml[&vp].find_all("v:shape") { let i = x.find_all("v:imagedata"); ensure!(i.len() == 1, "header image"); got.insert((s, format!("header {}", x.a("id").unwrap_or("?"))), rel(&vp, i[0].a("o:relid"), "imagedata")?); }
        }
        for ((r, c), cell) in b.cells(s)? {
            if let Some(vm) = cell.vm {
                let vm: usize = vm.parse().map_err(|_| "vm")?;
                let md = &b.xml["xl/metadata.xml"];
                let bk: Vec<&El> = md.get("valueMetadata").ok_or("no value metadata")?.all("bk").collect();
                let v: usize = bk.get(vm - 1).and_then(|x| x.get("rc")).and_then(|x| x.a("v")).and_then(|x| x.parse().ok()).ok_or("rc")?;
                let fut = md.get("futureMetadata").ok_or("future")?; let fb: Vec<&El> = fut.all("bk").collect();
                let rvb: usize = fb.get(v).map(|x| x.find_all("xlrd:rvb")).and_then(|x| x.first().and_then(|x| x.a("i")).and_then(|x| x.parse().ok())).ok_or("rvb")?;
                let rv: Vec<&El> = b.xml["xl/richData/rdrichvalue.xml"].all("rv").collect();
                let id: usize = rv.get(rvb).and_then(|x| x.get("v")).map(|x| x.text()).and_then(|x| x.parse().ok()).ok_or("rv")?;
                let rr: Vec<&El> = b.xml["xl/richData/richValueRel.xml"].all("rel").collect();
                got.insert((s, format!("embed {r} {c}")), rel("xl/richData/richValueRel.xml", rr.get(id).and_then(|x| x.a("r:id")), "rich value")?);
            }
        }
    }
    ensure!(got.len() == want.len(), "{} images shown, not {}: {got:?} / {want:?}", got.len(), want.len());
    for (s, place, k) in want {
        let t = got.get(&(s, place.clone())).ok_or(format!("sheet {s}: no image at {place}: {got:?}"))?;
        ensure!(b.parts.get(t).map(|x| x == &pool[k].0) == Some(true), "sheet {s}: {place} shows {t}, which is not the image supplied");
        let ext = t.rsplit('.').next().unwrap_or("");
        ensure!(ext == pool[k].1.ext, "sheet {s}: {place}: extension {ext} of a {}", pool[k].1.ext);
        ensure!(types.all("Default").any(|d| d.a("Extension") == Some(ext) && d.a("ContentType") == Some(&format!("image/{ext}"))), "no content type of {ext}");
    }
    Ok(())
}
pub fn run(run: &mut Run) {
    for i in 0..run.n(20_000, 600_000) {
        let mut g = run.rng(i);
        let (b, w) = valid(&mut g);
        run.case("measure", &hex(&b), || measured(&b, &w));
        // prefixes, and changes of a few bytes
        let n = g.below(b.len() as u64 + 1) as usize;
        let cut = b[..n].to_vec();
        run.case("truncated", &hex(&cut), || survives(&cut));
        let mut c = b.clone();
        for _ in 0..1 + g.below(4) { let k = g.below(c.len() as u64) as usize; let x = g.below(256) as u8; c[k] = *g.pick(&[0, 0xFF, 0x7F, 0x80, x]); }
        run.case("changed", &hex(&c), || survives(&c));
    }
    let heads: Vec<Vec<u8>> = vec![vec![], vec![0xFF], vec![0xFF, 0xD8], b"\x89PNG".to_vec(), b"BM".to_vec(), b"GIF8".to_vec(), b"GI".to_vec(), b"\x89PNG\r\n\x1a\n".to_vec()];
    for h in &heads { for b in [0u8, 1, 0x7F, 0x80, 0xFF, 0xC0, b'I'] { for n in 0..run.n(40, 80) as usize { let mut v = h.clone(); v.resize(h.len() + n, b); run.case("fill", &hex(&v), || survives(&v)); } } }
    run.exhaustive.push("every image marker followed by up to 40 equal bytes".into());
    for i in 0..run.n(40_000, 1_000_000) {
        let mut g = run.rng(1_000_000_000 + i);
        let mut v = heads[g.below(heads.len() as u64) as usize].clone();
        v.extend(noise(&mut g, 90));
        run.case("arbitrary", &hex(&v), || survives(&v));
    }
    for i in 0..run.n(700, 15_000) { let seed = run.rng(2_000_000_000 + i).next(); run.case("stored", &format!("{seed:x}"), || stored(seed)); }
}
