//! C05 executable contract: dates and times -> serial numbers.
use crate::common::*;
use crate::ensure;
use crate::xl::*;
use chrono::{Datelike, NaiveDate, NaiveTime, Timelike};
use rust_xlsxwriter::*;

pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub fn month_len(y: i64, m: i64) -> i64 { match m { 2 => 28 + i64::from(leap(y)), 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// days from 1970-01-01 (proleptic Gregorian), counted year by year from a table
pub struct Cal { year: Vec<i64> }
impl Cal {
    pub fn new() -> Cal {
        // year[i] = days from 1600-01-01 to (1600+i)-01-01
        let mut year = vec![0i64];
        for y in 1600..10_400 { let p = *year.last().unwrap(); year.push(p + 365 + i64::from(leap(y))); }
        Cal { year }
    }
    pub fn days(&self, y: i64, m: i64, d: i64) -> i64 {
        let mut n = self.year[(y - 1600) as usize] - self.year[370];
        for i in 1..m { n += month_len(y, i); }
        n + d - 1
    }
    /// Excel serial of a date of the 1900 system, 29 Feb 1900 included
    pub fn serial(&self, y: i64, m: i64, d: i64) -> i64 {
        let n = self.days(y, m, d) - self.days(1899, 12, 31);
        if (y, m, d) == (1900, 2, 29) { 60 } else if n > 59 { n + 1 } else { n }
    }
}
pub fn valid(y: i64, m: i64, d: i64) -> bool {
    if (y, m, d) == (1899, 12, 31) || (y, m, d) == (1900, 2, 29) { return true; }
    (1900..=9999).contains(&y) && (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)
}
fn near(a: f64, day: i64, secs: f64) -> Result<(), String> {
    let want = day as f64 + secs / 86400.0;
    // half a millisecond is 5.8e-9 of a day
    ensure!((a - want).abs() < 4e-9, "serial {a:?}, expected day {day} + {secs} s = {want:?}");
    Ok(())
}
pub fn run(run: &mut Run) {
    let cal = Cal::new();
    // every date, valid or not
    for y in 0..=10_001i64 {
        run.case("all dates of a year", &format!("year {y}"), || {
            for m in 0..=13i64 { for d in 0..=32i64 {
                let r = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8);
                ensure!(r.is_ok() == valid(y, m, d), "from_ymd({y},{m},{d}) accepted: {}", r.is_ok());
                if let Ok(x) = r {
                    let s = x.to_excel();
                    ensure!(s == cal.serial(y, m, d) as f64, "{y}-{m}-{d}: serial {s}, expected {}", cal.serial(y, m, d));
                }
            } }
            Ok(())
        });
    }
    run.exhaustive.push("all years 0..10001, months 0..13, days 0..32 of ExcelDateTime::from_ymd".into());
    run.case("far dates", "u16/u8 extremes", || {
        for y in [10_002u16, 32_767, 65_535] { ensure!(ExcelDateTime::from_ymd(y, 1, 1).is_err(), "year {y} accepted"); }
        for k in 33..=255u8 { ensure!(ExcelDateTime::from_ymd(2000, 1, k).is_err() && ExcelDateTime::from_ymd(2000, k, 1).is_err(), "month/day {k} accepted"); }
        Ok(())
    });
    // times: every minute and second value, hours beyond a day too
    for min in 0..=255u8 {
        run.case("times of a minute", &format!("minute {min}"), || {
            for sec in 0..=255u8 {
                let hour = u16::from(sec) * 3;
                let r = ExcelDateTime::from_hms(hour, min, sec);
                let ok = min <= 60 && sec <= 59;
                ensure!(r.is_ok() == ok, "from_hms({hour},{min},{sec}) accepted: {}", r.is_ok());
                if let Ok(t) = r { near(t.to_excel(), 0, f64::from(hour) * 3600.0 + f64::from(min) * 60.0 + f64::from(sec))?; }
                for milli in [0u16, 1, 499, 500, 999, 1000, 1001, 65535] {
                    let r = ExcelDateTime::from_hms_milli(hour, min, sec, milli);
                    let ok = min <= 60 && sec <= 60 && milli <= 999;
                    ensure!(r.is_ok() == ok, "from_hms_milli({hour},{min},{sec},{milli}) accepted: {}", r.is_ok());
                    if let Ok(t) = r { near(t.to_excel(), 0, f64::from(hour) * 3600.0 + f64::from(min) * 60.0 + f64::from(sec) + f64::from(milli) / 1000.0)?; }
                }
            }
            Ok(())
        });
    }
    for s in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.001, -1.0, -1e300, 59.9991, 60.0, 61.0, 1e300] {
        run.case("bad seconds", &format!("{s:?}"), || {
            ensure!(ExcelDateTime::from_hms(1, 2, s).is_err(), "from_hms accepts {s}");
            ensure!(ExcelDateTime::from_ymd(2020, 1, 2).unwrap().and_hms(1, 2, s).is_err(), "and_hms accepts {s}");
            Ok(())
        });
    }
    for s in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.001, 2_958_466.0, 1e300] {
        run.case("bad serial", &format!("{s:?}"), || { ensure!(ExcelDateTime::from_serial_datetime(s).is_err(), "accepted"); Ok(()) });
    }
    for s in [0.0, 0.5, 60.0, 1.25, 45_000.123456789, 2_958_465.999] {
        run.case("serial", &format!("{s:?}"), || { ensure!(ExcelDateTime::from_serial_datetime(s).map_err(|e| e.to_string())?.to_excel() == s, "changed"); Ok(()) });
    }
    let mut g = run.rng(5);
    // parts, parsing and chrono agree
    for _ in 0..run.n(4000, 100_000) {
        let y = g.range(1899, 9999);
        let (m, d) = if y == 1899 { (12, 31) } else { let m = g.range(1, 12); (m, g.range(1, if (y, m) == (1900, 2) { 29 } else { month_len(y, m) })) };
        let (h, mi, s, ms) = (g.range(0, 23), g.range(0, 59), g.range(0, 59), if g.bits() { 0 } else { g.range(0, 999) });
        let secs = s as f64 + ms as f64 / 1000.0;
        run.case("datetime", &format!("{y}-{m}-{d} {h}:{mi}:{secs}"), || {
            let e = |e: XlsxError| e.to_string();
            let tod = h as f64 * 3600.0 + mi as f64 * 60.0 + secs;
            let date = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).map_err(e)?;
            let a = date.clone().and_hms(h as u16, mi as u8, secs).map_err(e)?.to_excel();
            near(a, cal.serial(y, m, d), tod)?;
            let b = date.clone().and_hms_milli(h as u16, mi as u8, s as u8, ms as u16).map_err(e)?.to_excel();
            near(b, cal.serial(y, m, d), tod)?;
            for (sep, end) in [("T", "Z"), (" ", ""), ("T", "")] {
                let text = format!("{y}-{m:02}-{d:02}{sep}{h:02}:{mi:02}:{s:02}.{ms:03}{end}");
                let p = ExcelDateTime::parse_from_str(&text).map_err(|e| format!("{text}: {e}"))?.to_excel();
                ensure!(p == a, "{text} parses as {p:?}, from parts {a:?}");
            }
            let p = ExcelDateTime::parse_from_str(&format!("{y}-{m}-{d}")).map_err(e)?.to_excel();
            ensure!(p == date.to_excel(), "date only parses as {p:?}");
            let t = ExcelDateTime::parse_from_str(&format!("{h}:{mi}:{s}.{ms:03}")).map_err(e)?.to_excel();
            ensure!(t == ExcelDateTime::from_hms(h as u16, mi as u8, secs).map_err(e)?.to_excel(), "time only parses as {t:?}");
            let t = ExcelDateTime::parse_from_str(&format!("{h}:{mi}")).map_err(e)?.to_excel();
            near(t, 0, h as f64 * 3600.0 + mi as f64 * 60.0)?;
            if (y, m, d) != (1900, 2, 29) {
                let cd = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
                let ct = NaiveTime::from_hms_milli_opt(h as u32, mi as u32, s as u32, ms as u32).unwrap();
                ensure!(cd.to_excel_serial_date() == cal.serial(y, m, d) as f64 && (&cd).to_excel_serial_date() == cal.serial(y, m, d) as f64, "chrono date {cd}");
                near(ct.to_excel_serial_date(), 0, tod)?;
                near((&ct).to_excel_serial_date(), 0, tod)?;
                near(cd.and_time(ct).to_excel_serial_date(), cal.serial(y, m, d), tod)?;
                near((&cd.and_time(ct)).to_excel_serial_date(), cal.serial(y, m, d), tod)?;
                let _ = (cd.year(), ct.hour());
            }
            Ok(())
        });
    }
    // bad texts are errors
    for t in ["", "x", "2020", "2020-13-01", "2020-02-30", "2020-00-10", "2020-1-0", "1899-12-30", "10000-01-01", "70000-01-01", "2020-01-01T10:61", "2020-01-01T10:300", "2020-01-01 10:10:61", "12:300", "12:61", "12:10:60", "12:10:-5",
        "12:10:NaN", "12:10:inf", "a:b", "12:b", "12:10:x", "2020-a-01", "2020-01-256", "2020-01-01 10:10:10 PM", "2020-01-01  10:10", "2020-01-01T10:10:10+05:00", "-2020-01-01", "2019-02-29", "2100-02-29", "1900-02-30"] {
        run.case("bad text", t, || {
            let r = ExcelDateTime::parse_from_str(t);
            // a trailing word is the only noise that may be ignored
            ensure!(r.is_err() || t.ends_with("PM"), "{t:?} accepted as {:?}", r.unwrap().to_excel());
            Ok(())
        });
    }
    // the cell holds the serial number, whichever method wrote it
    for k in 0..run.n(40, 400) {
        let (y, m) = (g.range(1900, 9999), g.range(1, 12));
        let (d, h, mi, s, ms) = (g.range(1, month_len(y, m)), g.range(0, 23), g.range(0, 59), g.range(0, 59), g.range(0, 999));
        run.case("cells", &format!("{k}: {y}-{m}-{d} {h}:{mi}:{s}.{ms}"), || {
            let e = |e: XlsxError| e.to_string();
            let date = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).map_err(e)?;
            let dt = date.clone().and_hms_milli(h as u16, mi as u8, s as u8, ms as u16).map_err(e)?;
            let t = ExcelDateTime::from_hms_milli(h as u16, mi as u8, s as u8, ms as u16).map_err(e)?;
            let cdt = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap().and_hms_milli_opt(h as u32, mi as u32, s as u32, ms as u32).unwrap();
            let f = Format::new().set_num_format("yyyy-mm-dd hh:mm:ss.000");
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            w.write_datetime(0, 0, &dt).map_err(e)?;
            w.write_datetime_with_format(1, 0, &dt, &f).map_err(e)?;
            w.write(2, 0, &dt).map_err(e)?;
            w.write_with_format(3, 0, dt.clone(), &f).map_err(e)?;
            w.write_datetime(4, 0, cdt).map_err(e)?;
            w.write_datetime_with_format(5, 0, &cdt, &f).map_err(e)?;
            w.write_date_with_format(6, 0, &date, &f).map_err(e)?;
            w.write_datetime(7, 0, cdt.date()).map_err(e)?;
            w.write_datetime(8, 0, &cdt.date()).map_err(e)?;
            w.write_time_with_format(9, 0, &t, &f).map_err(e)?;
            w.write_datetime(10, 0, cdt.time()).map_err(e)?;
            w.write_datetime(11, 0, &cdt.time()).map_err(e)?;
            w.write(12, 0, ExcelDateTime::from_serial_datetime(dt.to_excel()).map_err(e)?).map_err(e)?;
            let b = Book::open(&wb.save_to_buffer().map_err(e)?)?;
            let c = b.cells(0)?;
            let (day, tod) = (cal.serial(y, m, d), h as f64 * 3600.0 + mi as f64 * 60.0 + s as f64 + ms as f64 / 1000.0);
            for r in 0..13u32 {
                let (day, tod) = match r { 0..=5 | 12 => (day, tod), 6..=8 => (day, 0.0), _ => (0, tod) };
                match c.get(&(r, 0)).map(|c| &c.v) {
                    Some(Val::Num(n)) => near(n.parse::<f64>().map_err(|e| e.to_string())?, day, tod).map_err(|e| format!("row {r}: {e}"))?,
                    x => return Err(format!("row {r} holds {x:?}")),
                }
            }
            Ok(())
        });
    }
}
