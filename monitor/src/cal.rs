//! Independent proleptic Gregorian calendar and day-count rules (the oracle for dates).
use chrono::{Datelike, NaiveDate as D};

pub fn leap(y: i64) -> bool {
    if y.rem_euclid(400) == 0 {
        true
    } else if y.rem_euclid(100) == 0 {
        false
    } else {
        y.rem_euclid(4) == 0
    }
}
pub fn ylen(y: i64) -> i64 {
    365 + leap(y) as i64
}
pub fn mlen(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// (year, month, day)
pub fn ymd(d: D) -> (i64, i64, i64) {
    (d.year() as i64, d.month() as i64, d.day() as i64)
}
pub fn date(y: i64, m: i64, d: i64) -> D {
    D::from_ymd_opt(y as i32, m as u32, d as u32).expect("harness date")
}
/// Day number (Hinnant's days_from_civil)
pub fn dayno(d: D) -> i64 {
    let (y, m, dd) = ymd(d);
    let y = y - (m <= 2) as i64;
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe
}
/// Day of the year, 1-based, by adding up months
pub fn ordinal(d: D) -> i64 {
    let (y, m, dd) = ymd(d);
    (1..m).map(|k| mlen(y, k)).sum::<i64>() + dd
}
pub fn feb_end(d: D) -> bool {
    let (y, m, dd) = ymd(d);
    m == 2 && dd == mlen(y, 2)
}
pub fn us30360(a: D, b: D) -> f64 {
    let (y1, m1, mut d1) = ymd(a);
    let (y2, m2, mut d2) = ymd(b);
    if feb_end(a) && feb_end(b) {
        d2 = 30;
    }
    if feb_end(a) {
        d1 = 30;
    }
    if d2 == 31 && (d1 == 30 || d1 == 31) {
        d2 = 30;
    }
    if d1 == 31 {
        d1 = 30;
    }
    (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) as f64 / 360.0
}
pub fn eu30360(a: D, b: D) -> f64 {
    let (y1, m1, d1) = ymd(a);
    let (y2, m2, d2) = ymd(b);
    (360 * (y2 - y1) + 30 * (m2 - m1) + (d2.min(30) - d1.min(30))) as f64 / 360.0
}
/// ACT/ACT: whole-year form
pub fn actact(a: D, b: D) -> f64 {
    let (ya, yb) = (a.year() as i64, b.year() as i64);
    let (oa, ob) = (ordinal(a), ordinal(b));
    (yb - ya) as f64 + ob as f64 / ylen(yb) as f64 - oa as f64 / ylen(ya) as f64
}
/// ACT/ACT: literally one day after the other (a <= b)
pub fn actact_daily(a: D, b: D) -> f64 {
    let (mut y, mut o) = (a.year() as i64, ordinal(a));
    let n = dayno(b) - dayno(a);
    let (mut l, mut s) = (0i64, 0i64);
    for _ in 0..n {
        o += 1;
        if o > ylen(y) {
            y += 1;
            o = 1;
        }
        if leap(y) {
            l += 1
        } else {
            s += 1
        }
    }
    l as f64 / 366.0 + s as f64 / 365.0
}
