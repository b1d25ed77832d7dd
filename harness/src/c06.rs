//! C06 executable contract: Unix timestamps -> calendar date, serial number and document properties.
use crate::c05::{leap, month_len, Cal};
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use rust_xlsxwriter::*;

/// calendar of an instant, counted down year by year and month by month
fn civil(cal: &Cal, ts: i64) -> (i64, i64, i64, i64) {
    let (day, sec) = (ts.div_euclid(86_400), ts.rem_euclid(86_400));
    let mut y = 1970 + if day < 0 { day.div_euclid(365) } else { day / 366 } - 1;
    while cal.days(y + 1, 1, 1) <= day { y += 1; }
    let mut rest = day - cal.days(y, 1, 1);
    let mut m = 1;
    while rest >= month_len(y, m) { rest -= month_len(y, m); m += 1; }
    (y, m, rest + 1, sec)
}
fn text(cal: &Cal, ts: i64) -> String {
    let (y, m, d, s) = civil(cal, ts);
    format!("{y}-{m:02}-{d:02}T{:02}:{:02}:{:02}Z", s / 3600, s / 60 % 60, s % 60)
}
const LO: i64 = -2_209_075_200;
const HI: i64 = 253_402_300_800;
fn dates(b: &Book) -> Result<Vec<String>, String> {
    let x = b.xml.get("docProps/core.xml").ok_or("no core.xml")?;
    Ok(x.els().filter(|e| e.name == "dcterms:created" || e.name == "dcterms:modified").map(|e| e.text()).collect())
}
fn customs(b: &Book) -> Result<Vec<String>, String> {
    Ok(b.xml.get("docProps/custom.xml").ok_or("no custom.xml")?.els().map(|p| p.deep_text()).collect())
}
pub fn run(run: &mut Run) {
    let cal = Cal::new();
    let mut g = run.rng(6);
    // every day of the range, at a random second and at both ends
    for y in 1899..=9999i64 {
        let seeds: Vec<i64> = (0..366).map(|_| g.range(0, 86_399)).collect();
        run.case("every day of a year", &format!("year {y}"), || {
            let first = if y == 1899 { cal.days(1899, 12, 31) } else { cal.days(y, 1, 1) };
            let n = if y == 1899 { 1 } else { 365 + i64::from(leap(y)) };
            for i in 0..n { for s in [0, seeds[i as usize], 86_399] {
                let ts = (first + i) * 86_400 + s;
                let v = ExcelDateTime::from_timestamp(ts).map_err(|e| format!("timestamp {ts}: {e}"))?.to_excel();
                let (cy, cm, cd, cs) = civil(&cal, ts);
                let want = cal.serial(cy, cm, cd) as f64 + cs as f64 / 86_400.0;
                ensure!((v - want).abs() < 1e-9, "timestamp {ts}: serial {v:?}, expected {want:?}");
            } }
            Ok(())
        });
    }
    run.exhaustive.push("every day from 1899-12-31 to 9999-12-31 of ExcelDateTime::from_timestamp, at three seconds each".into());
    for ts in [LO - 1, HI, i64::MIN, i64::MAX, LO - 86_400, HI + 1] {
        run.case("out of range", &format!("{ts}"), || { ensure!(ExcelDateTime::from_timestamp(ts).is_err(), "timestamp {ts} accepted"); Ok(()) });
    }
    // the calendar form, read back from custom and core properties
    for k in 0..run.n(60, 600) {
        let ts: Vec<i64> = (0..300).map(|i| {
            let y = if k == 0 { 1900 + 27 * i } else { g.range(1900, 9999) };
            match g.below(4) {
                0 => cal.days(y, 1, 1) * 86_400 + g.range(-1, 1),
                1 => cal.days(y, 3, 1) * 86_400 + g.range(-1, 86_400),
                2 => cal.days(y, 2, 28) * 86_400 + g.range(0, 86_399),
                _ => cal.days(y, g.range(1, 12), 1) * 86_400 + g.range(0, 28 * 86_400),
            }.clamp(LO, HI - 1)
        }).collect();
        run.case("calendar text", &format!("{k}: from {}", ts[0]), || {
            let e = |e: XlsxError| e.to_string();
            let mut p = DocProperties::new();
            for (i, t) in ts.iter().enumerate() { p = p.set_custom_property(format!("p{i}"), &ExcelDateTime::from_timestamp(*t).map_err(e)?); }
            p = p.set_creation_datetime(&ExcelDateTime::from_timestamp(ts[7]).map_err(e)?);
            let mut wb = Workbook::new();
            wb.set_properties(&p);
            wb.add_worksheet();
            let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
            let c = customs(&b)?;
            ensure!(c.len() == ts.len(), "{} custom properties", c.len());
            for (i, t) in ts.iter().enumerate() { ensure!(c[i] == text(&cal, *t), "timestamp {t} is written as {}, expected {}", c[i], text(&cal, *t)); }
            for d in dates(&b)? { ensure!(d == text(&cal, ts[7]), "creation time {d}, expected {}", text(&cal, ts[7])); }
            Ok(())
        });
    }
    // dates given by parts, serial numbers and times
    for _ in 0..run.n(300, 5000) {
        let y = g.range(1901, 9999); let m = g.range(1, 12); let d = g.range(1, month_len(y, m));
        let (h, mi, s, ms) = (g.range(0, 23), g.range(0, 59), g.range(0, 59), if g.bits() { 0 } else { g.range(0, 999) });
        let kind = g.below(5);
        run.case("property dates", &format!("kind {kind} {y}-{m}-{d} {h}:{mi}:{s}.{ms}"), || {
            let e = |e: XlsxError| e.to_string();
            let date = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).map_err(e)?;
            let full = date.clone().and_hms_milli(h as u16, mi as u8, s as u8, ms as u16).map_err(e)?;
            let tod = h * 3600 + mi * 60 + s;
            let (dt, ts) = match kind {
                0 => (date, cal.days(y, m, d) * 86_400),
                1 => (full, cal.days(y, m, d) * 86_400 + tod),
                2 => (ExcelDateTime::from_serial_datetime(full.to_excel()).map_err(e)?, cal.days(y, m, d) * 86_400 + tod),
                3 => (ExcelDateTime::from_hms(h as u16, mi as u8, s as f64).map_err(e)?, cal.days(1899, 12, 31) * 86_400 + tod),
                _ => (date.and_hms(h as u16 + 24, mi as u8, s as f64).map_err(e)?, cal.days(y, m, d) * 86_400 + 86_400 + tod),
            };
            if ts >= HI { return Ok(()); }
            let p = DocProperties::new().set_custom_property("p", &dt).set_creation_datetime(&dt);
            let mut wb = Workbook::new();
            wb.set_properties(&p);
            wb.add_worksheet();
            let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
            let want = text(&cal, ts);
            let c = customs(&b)?;
            ensure!(c[0] == want, "custom date {} expected {want}", c[0]);
            let ds = dates(&b)?;
            ensure!(ds.len() == 2 && ds.iter().all(|d| *d == want), "core dates {ds:?} expected {want}");
            Ok(())
        });
    }
    // without a date: the time of the save
    run.case("default creation time", "now", || {
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let t0 = now();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        let b = Book::open(&wb.save_to_buffer().map_err(|e| e.to_string())?)?;
        let t1 = now();
        let ds = dates(&b)?;
        ensure!(ds.len() == 2 && ds.iter().all(|d| (t0..=t1).any(|t| *d == text(&cal, t))), "core dates {ds:?}, now {}", text(&cal, t0));
        Ok(())
    });
}
