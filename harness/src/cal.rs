//! Proleptic Gregorian calendar from its definition (leap rule and month lengths), independent of chrono.

pub const DAY: i64 = 86_400_000_000_000;
const FIRST: i64 = 1600;
const LAST: i64 = 2400;

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => 0,
    }
}
/// day numbers (0 = 1970-01-01) of 1 January of FIRST..=LAST
fn years() -> &'static Vec<i64> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<i64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![0i64; (LAST - FIRST + 1) as usize];
        let e = (1970 - FIRST) as usize;
        for y in 1970..LAST {
            let i = (y - FIRST) as usize;
            v[i + 1] = v[i] + 365 + leap(y) as i64;
        }
        for i in (0..e).rev() {
            v[i] = v[i + 1] - 365 - leap(FIRST + i as i64) as i64;
        }
        v
    })
}
/// day number of a valid date within FIRST..LAST
pub fn day_number(y: i64, m: i64, d: i64) -> Option<i64> {
    if !(FIRST..LAST).contains(&y) || !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) {
        return None;
    }
    Some(years()[(y - FIRST) as usize] + (1..m).map(|k| month_len(y, k)).sum::<i64>() + d - 1)
}
pub fn is_date(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)
}
/// (year, month, day) of a day number
pub fn date(day: i64) -> (i64, i64, i64) {
    let t = years();
    let i = t.partition_point(|s| *s <= day) - 1;
    let y = FIRST + i as i64;
    let mut r = day - t[i];
    let mut m = 1;
    while r >= month_len(y, m) {
        r -= month_len(y, m);
        m += 1;
    }
    (y, m, r + 1)
}
/// day number and nanoseconds since its midnight
pub fn split(ts: i64) -> (i64, i64) {
    (ts.div_euclid(DAY), ts.rem_euclid(DAY))
}
/// 0 = Sunday; 1970-01-01 was a Thursday
pub fn weekday(day: i64) -> i64 {
    (day + 4).rem_euclid(7)
}
pub fn date_text(day: i64) -> String {
    let (y, m, d) = date(day);
    format!("{y:04}-{m:02}-{d:02}")
}
/// HH:MM:SS with a fraction of 0, 3, 6 or 9 digits
pub fn time_text(n: i64) -> String {
    let s = n / 1_000_000_000;
    let f = n % 1_000_000_000;
    let mut t = format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60);
    if f == 0 {
    } else if f % 1_000_000 == 0 {
        t += &format!(".{:03}", f / 1_000_000)
    } else if f % 1000 == 0 {
        t += &format!(".{:06}", f / 1000)
    } else {
        t += &format!(".{f:09}")
    }
    t
}

use crate::engine::Src;

/// timestamps: anything, dates of interest, midnights and their neighbours, coarse-grained values
pub fn any_ts(src: &mut Src) -> i64 {
    let base = match src.weighted(&[4, 3, 3, 3, 2]) {
        0 => return src.sint(64),
        1 => {
            // a day, at a fine-grained time
            let d = src.range(-106_751, 106_750) as i64;
            d * DAY
        }
        2 => {
            let y = match src.weighted(&[2, 1]) {
                0 => src.range(1678, 2261) as i64,
                _ => *src.pick(&[1970i64, 1969, 1972, 2000, 1900, 1904, 2100, 2096, 1700, 1999, 2024, 2262, 1678]),
            };
            let (m, d) = *src.pick(&[(1i64, 1i64), (2, 28), (3, 1), (12, 31), (2, 27), (3, 2), (7, 15)]);
            match day_number(y, m, d) {
                Some(n) if n.abs() <= 106_750 => n * DAY,
                _ => 0,
            }
        }
        3 => 0,
        _ => {
            let s = src.sint(34);
            return s.saturating_mul(1_000_000_000);
        }
    };
    let off = match src.weighted(&[3, 3, 3, 3, 3, 2]) {
        0 => 0,
        1 => src.range(0, DAY as i128 - 1) as i64,
        2 => src.range(0, 86_399) as i64 * 1_000_000_000,
        3 => src.range(0, 86_399_999) as i64 * 1_000_000,
        4 => src.range(0, 86_399_999_999) as i64 * 1000,
        _ => DAY - 1 - src.range(0, 2_000_000_000) as i64,
    };
    base + off
}
