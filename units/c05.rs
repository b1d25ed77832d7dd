// C05: calendar dates -> Excel serial numbers.  Extracted from /repo/src/datetime.rs on every run.
use vstd::prelude::*;
verus! {
//@include cal_prelude.rs
//@item src/datetime.rs struct ExcelDateTime derive=
//@item src/datetime.rs enum ExcelDateTimeType derive=Clone,Copy,Eq,PartialEq
pub enum XlsxError { DateTimeRangeError(String), DateTimeParseError(String) }
//@include fmt_prelude.rs
impl VpFmt for f64 {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { }
}

// ---------------------------------------------------------------- trusted
/// float arithmetic is not modelled: only which operands go in
pub uninterp spec fn day_plus(days: int, seconds: f64) -> f64;
pub uninterp spec fn day_fraction(hour: int, min: int, sec: f64) -> f64;
pub uninterp spec fn sec_ok(sec: f64) -> bool;
pub uninterp spec fn sec_milli(sec: int, milli: int) -> f64;
pub uninterp spec fn serial_ok(n: f64) -> bool;
#[verifier::external_body] pub fn vp_day_plus(days: u32, seconds: f64) -> (r: f64) ensures r == day_plus(days as int, seconds) { f64::from(days) + seconds }
#[verifier::external_body] pub fn vp_fraction(hour: u16, min: u8, sec: f64) -> (r: f64) ensures r == day_fraction(hour as int, min as int, sec) { 0.0 }
#[verifier::external_body] pub fn vp_sec_ok(sec: f64) -> (r: bool) ensures r == sec_ok(sec) { (0.0..=59.999).contains(&sec) }
#[verifier::external_body] pub fn vp_sec_milli(sec: u8, milli: u16) -> (r: f64) ensures r == sec_milli(sec as int, milli as int) { f64::from(sec) + f64::from(milli) / 1000.0 }
/// the range 0.0..2_958_466.0 of f64
#[verifier::external_body] pub fn vp_serial_ok(n: &f64) -> (r: bool) ensures r == serial_ok(*n) { (0.0..2_958_466.0).contains(n) }

// ---------------------------------------------------------------- specification
/// the Excel day count: the 1900 system counts a 29 February 1900 that never was
pub open spec fn excel_day(y: int, m: int, d: int, is_1904: bool) -> int {
    if is_1904 { day_number(y, m, d) - day_number(1904, 1, 1) }
    else if y == 1900 && m == 2 && d == 29 { 60 }
    else { let n = day_number(y, m, d) - day_number(1899, 12, 31); if n > 59 { n + 1 } else { n } }
}
pub open spec fn excel_date(y: int, m: int, d: int) -> bool {
    1 <= m <= 12 && 1 <= d && ((y == 1899 && m == 12 && d == 31) || (1900 <= y <= 9999 && (d <= month_len(y, m) || (y == 1900 && m == 2 && d == 29))))
}
/// the epochs, in numbers
proof fn epochs()
    ensures day_number(1899, 12, 31) == days_before_year(1899) + 364, days_before_year(1900) == days_before_year(1899) + 365, day_number(1904, 1, 1) == days_before_year(1904),
        days_before_year(1904) == days_before_year(1900) + 1460
{ months_sum(1899); months_sum(1904); reveal_with_fuel(days_before_year, 7); }
/// the leap day arithmetic of the code for a year
proof fn leap_days(y: int, epoch: int, off: int)
    requires 1900 <= y <= 9999, y >= epoch, (epoch == 1900 && off == 0) || (epoch == 1904 && off == 4)
    ensures ({ let range = y - epoch;
        days_before_year(y) - days_before_year(epoch) + (if leap(y) { 1int } else { 0 })
            == range * 365 + range / 4 - (range + off) / 100 + (range + off + 300) / 400 + (if epoch == 1904 { 1int } else { 0 }) })
{
    closed_form(y); closed_form(epoch);
}
impl ExcelDateTime {
//@fn src/datetime.rs is_leap_year impl="impl ExcelDateTime" ret=r
| ensures r == leap(year as int)
//@end

//@fn src/datetime.rs default impl="impl Default for ExcelDateTime" ret=r
| ensures r.year == 0, r.hour == 0, r.min == 0, !r.is_1904_date, r.serial_datetime is None, r.datetime_type == ExcelDateTimeType::Default
//@end

//@fn src/datetime.rs validate_ymd impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> excel_date(year as int, month as int, day as int)
//@end

//@fn src/datetime.rs validate_hms impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec_ok(sec)
//@rewrite \(0\.0\.\.=59\.999\)\.contains\(&sec\) => vp_sec_ok(sec)
//@end
//@fn src/datetime.rs validate_hms_milli impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec <= 60 && milli <= 999
//@end
//@fn src/datetime.rs from_ymd impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> excel_date(year as int, month as int, day as int),
|   r matches Ok(d) ==> d.year == year && d.month == month && d.day == day && d.hour == 0 && d.min == 0 && !d.is_1904_date && d.serial_datetime is None && d.datetime_type == ExcelDateTimeType::DateOnly,
//@end
//@fn src/datetime.rs and_hms impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec_ok(sec),
|   r matches Ok(d) ==> d == (ExcelDateTime { hour: hour, min: min, sec: sec, datetime_type: d.datetime_type, ..self }),
//@rewrite sig:impl Into<f64> => f64
//@rewrite let sec = sec\.into\(\); =>
//@rewrite sig:mut self => self
//@rewrite \bself\.datetime_type == ExcelDateTimeType::DateOnly => matches!(vp_self.datetime_type, ExcelDateTimeType::DateOnly)
//@rewrite \bself\.(\w+) = => vp_self.\1 =
//@rewrite Ok\(self\) => Ok(vp_self)
//@at body-start
| let mut vp_self = self;
//@end
//@fn src/datetime.rs and_hms_milli impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec <= 60 && milli <= 999,
|   r matches Ok(d) ==> d == (ExcelDateTime { hour: hour, min: min, sec: sec_milli(sec as int, milli as int), datetime_type: d.datetime_type, ..self }),
//@rewrite f64::from\(sec\) \+ f64::from\(milli\) / 1000\.0 => vp_sec_milli(sec, milli)
//@rewrite sig:mut self => self
//@rewrite \bself\.datetime_type == ExcelDateTimeType::DateOnly => matches!(vp_self.datetime_type, ExcelDateTimeType::DateOnly)
//@rewrite \bself\.(\w+) = => vp_self.\1 =
//@rewrite Ok\(self\) => Ok(vp_self)
//@at body-start
| let mut vp_self = self;
//@end
//@fn src/datetime.rs from_hms impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec_ok(sec), r matches Ok(d) ==> d.year == 0 && d.hour == hour && d.min == min && d.sec == sec && d.serial_datetime is None && !d.is_1904_date,
//@rewrite sig:impl Into<f64> => f64
//@end
//@fn src/datetime.rs from_hms_milli impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> min <= 60 && sec <= 60 && milli <= 999, r matches Ok(d) ==> d.year == 0 && d.hour == hour && d.min == min && d.sec == sec_milli(sec as int, milli as int) && d.serial_datetime is None && !d.is_1904_date,
//@end
//@fn src/datetime.rs from_serial_datetime impl="impl ExcelDateTime" ret=r
| ensures r is Ok <==> serial_ok(number), r matches Ok(d) ==> d.serial_datetime == Some(number),
//@rewrite sig:impl Into<f64> => f64
//@rewrite let number = number\.into\(\); =>
//@rewrite \(0\.0\.\.2_958_466\.0\)\.contains\(&number\) => vp_serial_ok(&number)
//@end
//@fn src/datetime.rs to_excel impl="impl ExcelDateTime" ret=r
| requires self.serial_datetime is None ==> datable(*self)
| ensures r == match self.serial_datetime { Some(n) => n, None => serial_of(*self) }
//@end
//@fn src/datetime.rs to_excel_from_ymd_hms impl="impl ExcelDateTime" ret=r
| requires datable(*self)
| ensures r == serial_of(*self)
//@rewrite f64::from\(self\.(hour|min)\) => self.\1
//@rewrite \(hour \* 60\.0 \* 60\.0 \+ min \* 60\.0 \+ sec\) / \(24\.0 \* 60\.0 \* 60\.0\) => vp_fraction(hour, min, sec)
//@rewrite return seconds; => return vp_day_plus(0, seconds);
//@rewrite 60\.0 \+ seconds => vp_day_plus(60, seconds)
//@rewrite f64::from\(days\) \+ seconds => vp_day_plus(days, seconds)
//@at body-start
| proof { epochs(); }
//@loop 1
| invariant 1 <= month <= 12, 1900 <= year <= 9999, months@.len() == 12, forall|k: int| 0 <= k < 12 ==> months@[k] == month_len(year as int, k + 1),
|   days == days_before_month(year as int, i as int), days <= 31 * (i - 1),
//@after /days \+= u32::from\(day\);/
| let ghost doy = days as int;
| proof { leap_days(year as int, epoch as int, epoch_offset as int); months_sum(year as int); months_sum(1900); }
//@end
}
/// the parts of a value that from_ymd and the time setters make, in either epoch
pub open spec fn datable(d: ExcelDateTime) -> bool {
    d.year == 0 || (if d.is_1904_date { 1904 <= d.year <= 9999 && valid_date(d.year as int, d.month as int, d.day as int) } else { excel_date(d.year as int, d.month as int, d.day as int) })
}
pub open spec fn serial_of(d: ExcelDateTime) -> f64 {
    day_plus(if d.year == 0 { 0 } else { excel_day(d.year as int, d.month as int, d.day as int, d.is_1904_date) }, day_fraction(d.hour as int, d.min as int, d.sec))
}

fn main() {}
}
