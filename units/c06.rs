// C06: Unix time -> calendar date.  Extracted from /repo/src/datetime.rs on every run.
use vstd::prelude::*;
verus! {
//@const src/datetime.rs DAY_SECONDS
//@const src/datetime.rs HOUR_SECONDS
//@const src/datetime.rs MINUTE_SECONDS
//@const src/datetime.rs YEAR_DAYS
//@const src/datetime.rs YEAR_DAYS_4
//@const src/datetime.rs YEAR_DAYS_100
//@const src/datetime.rs YEAR_DAYS_400

/// the integer a float is equal to
pub uninterp spec fn float_int(x: f64) -> int;
/// trusted: the cast of a small integer to f64
#[verifier::external_body]
pub fn vp_u64_as_f64(n: u64) -> (r: f64) ensures n < 0x20_0000_0000_0000 ==> float_int(r) == n { n as f64 }

/// trusted: by-value iteration of an array yields its elements in order, like a Vec
#[verifier::external_body]
pub fn vp_array_to_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
//@include cal_prelude.rs
proof fn year_lemma(dn: int, a: int, b: int, c: int, d: int, rem: int)
    requires 0 <= a, 0 <= b <= 3, 0 <= c <= 24, 0 <= d <= 3, 0 <= rem,
       b > 0 && c == 0 ==> rem < 365, b > 0 && c > 0 && d == 0 ==> rem < 366, b == 0 && d == 0 ==> rem < 366, d > 0 ==> rem < 365,
       dn == a * 146097 + (if b == 0 { c * 1461 } else { 36525 + (b - 1) * 36524 + (if c == 0 { 0 } else { 1460 + (c - 1) * 1461 }) })
       + (if b > 0 && c == 0 { d * 365 } else if d == 0 { 0 } else { 366 + (d - 1) * 365 }) + rem,
    ensures ({ let y = 1600 + 400 * a + 100 * b + 4 * c + d; dn == days_before_year(y) + rem && rem < year_len(y) })
{
    let y = 400 * a + 100 * b + 4 * c + d; let q = 100 * b + 4 * c + d; let p = 4 * c + d;
    closed_form(1600 + y);
    assert((y + 3) / 4 == 100 * a + 25 * b + c + (if d > 0 { 1int } else { 0 }));
    assert((y + 99) / 100 == 4 * a + b + (if p > 0 { 1int } else { 0 }));
    assert((y + 399) / 400 == a + (if q > 0 { 1int } else { 0 }));
    assert(leap(1600 + y) == (d == 0 && (p != 0 || b == 0)));
}
proof fn lemma_time(t: int, h: int, m: int, s: int)
    requires 0 <= t < 86400, h == t / 3600, m == (t - h * 3600) / 60, s == (t - h * 3600 - m * 60) % 60
    ensures 0 <= h < 24, 0 <= m < 60, 0 <= s < 60, t == h * 3600 + m * 60 + s {}
proof fn epoch() ensures day_number(1970, 1, 1) == 135140 { closed_form(1970); months_sum(1970); }
proof fn lemma_instant(ts: int, dn: int, y: int, m: int, d: int, t: int, h: int, mi: int, s: int)
    requires ts >= 0, dn == ts / 86400 + 135140, day_number(y, m, d) == dn, t == ts % 86400,
        h == t / 3600, mi == (t - h * 3600) / 60, s == (t - h * 3600 - mi * 60) % 60
    ensures 0 <= h < 24, 0 <= mi < 60, 0 <= s < 60, vp_instant(y, m, d, h, mi, s) == ts
{ reveal(vp_instant); epoch(); lemma_time(t, h, mi, s); }
proof fn lemma_stage400(n: int, a: int, r: int)
    requires n >= 0, a == n / 146097, r == n % 146097 ensures n == a * 146097 + r, 0 <= r < 146097 {}
proof fn lemma_stage100(r0: int, b: int, r1: int)
    requires 0 <= r0 < 146097,
       r0 < 36525 ==> b == r0 / 36525 && r1 == r0 % 36525,
       r0 >= 36525 ==> b == 1 + (r0 - 36525) / 36524 && r1 == (r0 - 36525) % 36524,
    ensures 0 <= b <= 3, r0 == (if b == 0 { 0 } else { 36525 + (b - 1) * 36524 }) + r1, 0 <= r1 < 36525, b > 0 ==> r1 < 36524
{}
proof fn lemma_stage4(r1: int, b: int, c: int, r2: int)
    requires 0 <= r1 < 36525, b >= 0, b > 0 ==> r1 < 36524,
       b == 0 ==> c == r1 / 1461 && r2 == r1 % 1461,
       b != 0 && r1 < 1461 ==> c == r1 / 1460 && r2 == r1 % 1460,
       b != 0 && r1 >= 1461 ==> c == 1 + (r1 - 1460) / 1461 && r2 == (r1 - 1460) % 1461,
    ensures 0 <= c <= 24, 0 <= r2 < 1461, 
       r1 == (if b == 0 { c * 1461 } else if c == 0 { 0 } else { 1460 + (c - 1) * 1461 }) + r2,
       b > 0 && c == 0 ==> r2 < 1460, b > 0 && r1 < 1461 && c != 0 ==> r2 == 0 && c == 1,
{}
proof fn lemma_stage1(r2: int, nl: bool, d: int, r3: int)
    requires 0 <= r2 < 1461, nl ==> r2 < 1460,
       nl ==> d == r2 / 365 && r3 == r2 % 365,
       !nl && r2 < 366 ==> d == r2 / 366 && r3 == r2 % 366,
       !nl && r2 >= 366 ==> d == 1 + (r2 - 366) / 365 && r3 == (r2 - 366) % 365,
    ensures 0 <= d <= 3, 0 <= r3, r3 < 366, nl || d > 0 ==> r3 < 365,
       r2 == (if nl { d * 365 } else if d == 0 { 0 } else { 366 + (d - 1) * 365 }) + r3
{}
//@fn src/datetime.rs is_leap_year impl="impl ExcelDateTime" ret=r
| ensures r == leap(year as int)
//@end

//@fn src/datetime.rs unix_time_to_date_parts impl="impl ExcelDateTime" ret=r attr=#[verifier::rlimit(60)]
| requires timestamp < 1_000_000_000_000
| ensures valid_date(r.0 as int, r.1 as int, r.2 as int),
|   r.3 < 24, r.4 < 60,
|   0 <= float_int(r.5) < 60, vp_instant(r.0 as int, r.1 as int, r.2 as int, r.3 as int, r.4 as int, float_int(r.5)) == timestamp
//@rewrite Self:: => 
//@rewrite sec as f64 => vp_u64_as_f64(sec)
//@rewrite \bin months\b => in vp_array_to_vec(months)
//@loop 1 iter=it
| invariant_except_break
|   month == it.index@ + 1, 1 <= days, days <= 366, 
|   days as int + days_before_month(vp_year, month as int) == vp_doy,
| invariant
|   vp_year >= 1600, vp_doy <= year_len(vp_year), days_before_month(vp_year, 13) == year_len(vp_year),
|   it.seq().len() == 12,
|   forall|k: int| 0 <= k < 12 ==> it.seq()[k] == month_len(vp_year, k + 1),
|  ensures 1 <= month <= 12, 1 <= days <= month_len(vp_year, month as int),
|   days as int + days_before_month(vp_year, month as int) == vp_doy,
//@before /let year_days_100;/
| let ghost vp_r0 = days as int; let ghost vp_n0 = timestamp as int / 86400 + 135140;
| proof { lemma_stage400(vp_n0, year_days_400 as int, vp_r0); }
//@before /let year_days_4;/
| let ghost vp_r1 = days as int;
| proof { lemma_stage100(vp_r0, year_days_100 as int, vp_r1); }
//@before /let year_days_1;/
| let ghost vp_r2 = days as int; let ghost vp_nl = year_days_100 != 0 && vp_r1 < 1461;
| proof { assert(non_leap_year_block == vp_nl); lemma_stage4(vp_r1, year_days_100 as int, year_days_4 as int, vp_r2); }
//@before /let year =/
| let ghost vp_r3 = days as int;
| proof { lemma_stage1(vp_r2, vp_nl, year_days_1 as int, vp_r3); }
//@at before-loop 1
| let ghost vp_year = year as int; let ghost vp_doy = days as int;
| let ghost vp_dn = timestamp as int / 86400 + 135140;
| proof { months_sum(vp_year);
|  year_lemma(vp_dn, year_days_400 as int, year_days_100 as int, year_days_4 as int, year_days_1 as int, vp_doy - 1);
| }
//@at after-loop 1
| proof { assert(day_number(vp_year, month as int, days as int) == vp_dn); assert(year_days_400 <= 81); assert(vp_year <= 34400); }
//@before /\(\s*year as u16/
| proof {
|   lemma_instant(timestamp as int, vp_dn, year as int, month as int, day as int, seconds as int, hour as int, min as int, sec as int);
|   assert(month as u8 == month); assert(day as u8 == day); assert(year as u16 == year);
|   assert(hour as u16 == hour); assert(min as u8 == min);
|   let s = sec as int; assert(sec == s as nat);
|   assert(vp_instant(year as u16 as int, month as u8 as int, day as u8 as int, hour as u16 as int, min as u8 as int, s) == timestamp);
|  }
//@end
#[verifier::opaque]
pub open spec fn vp_instant(y: int, m: int, d: int, h: int, mi: int, s: int) -> int {
    (day_number(y, m, d) - day_number(1970, 1, 1)) * 86400 + h * 3600 + mi * 60 + s
}
} // verus!
fn main() {}
