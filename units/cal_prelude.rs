// ---- the Gregorian calendar ----
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn year_len(y: int) -> int { if leap(y) { 366 } else { 365 } }
pub open spec fn month_len(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
/// days in the years 1600 .. y-1, by definition a sum of year lengths
pub open spec fn days_before_year(y: int) -> int decreases y - 1600 {
    if y <= 1600 { 0 } else { days_before_year(y - 1) + year_len(y - 1) }
}
pub open spec fn days_before_month(y: int, m: int) -> int decreases m {
    if m <= 1 { 0 } else { days_before_month(y, m - 1) + month_len(y, m - 1) }
}
pub open spec fn valid_date(y: int, m: int, d: int) -> bool { y >= 1600 && 1 <= m <= 12 && 1 <= d <= month_len(y, m) }
pub open spec fn day_number(y: int, m: int, d: int) -> int { days_before_year(y) + days_before_month(y, m) + d - 1 }
/// closed form of the sum (proved, not assumed)
proof fn closed_form(y: int)
    requires y >= 1600
    ensures days_before_year(y) == (y - 1600) * 365 + (y - 1600 + 3) / 4 - (y - 1600 + 99) / 100 + (y - 1600 + 399) / 400
    decreases y
{
    if y > 1600 {
        closed_form(y - 1);
        let n = y - 1601;
        step4(n); step100(n); step400(n);
        assert((y - 1) % 4 == n % 4 && (y - 1) % 100 == n % 100 && (y - 1) % 400 == n % 400);
    }
}
proof fn step4(n: int) requires n >= 0 ensures (n + 4) / 4 - (n + 3) / 4 == if n % 4 == 0 { 1int } else { 0 } { }
proof fn step100(n: int) requires n >= 0 ensures (n + 100) / 100 - (n + 99) / 100 == if n % 100 == 0 { 1int } else { 0 } { }
proof fn step400(n: int) requires n >= 0 ensures (n + 400) / 400 - (n + 399) / 400 == if n % 400 == 0 { 1int } else { 0 } { }
proof fn months_sum(y: int)
    ensures days_before_month(y, 1) == 0, days_before_month(y, 2) == 31,
        days_before_month(y, 3) == 31 + month_len(y, 2), days_before_month(y, 4) == 62 + month_len(y, 2),
        days_before_month(y, 5) == 92 + month_len(y, 2), days_before_month(y, 6) == 123 + month_len(y, 2),
        days_before_month(y, 7) == 153 + month_len(y, 2), days_before_month(y, 8) == 184 + month_len(y, 2),
        days_before_month(y, 9) == 215 + month_len(y, 2), days_before_month(y, 10) == 245 + month_len(y, 2),
        days_before_month(y, 11) == 276 + month_len(y, 2), days_before_month(y, 12) == 306 + month_len(y, 2),
        days_before_month(y, 13) == year_len(y)
{ reveal_with_fuel(days_before_month, 14); }
proof fn year_monotone(y1: int, y2: int)
    requires 1600 <= y1 < y2
    ensures days_before_year(y1) + year_len(y1) <= days_before_year(y2)
    decreases y2
{ if y1 < y2 - 1 { year_monotone(y1, y2 - 1); } }
/// a day number has exactly one valid date: together with the postcondition below the result is THE date
proof fn date_unique(y1: int, m1: int, d1: int, y2: int, m2: int, d2: int)
    requires valid_date(y1, m1, d1), valid_date(y2, m2, d2), day_number(y1, m1, d1) == day_number(y2, m2, d2)
    ensures y1 == y2, m1 == m2, d1 == d2
{
    months_sum(y1); months_sum(y2);
    if y1 < y2 { year_monotone(y1, y2); }
    if y2 < y1 { year_monotone(y2, y1); }
}

