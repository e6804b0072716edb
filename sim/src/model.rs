//! The reference model: a proleptic Gregorian calendar and a leap-second timeline, written independently of the
//! crate under test (different algorithms, 128-bit arithmetic, no segments).

/// A published leap-second table: (day, +1 or -1), sorted; `day` (days since 1970-01-01) is the UTC day whose last
/// minute has 61 or 59 seconds.
pub type Table = Vec<(i32, i8)>;

pub const MIN_DAY: i64 = -719528; // 0000-01-01
pub const MAX_DAY: i64 = 2932896; // 9999-12-31

pub fn is_leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01 of a proleptic Gregorian date.
pub fn day_of(y: i64, m: i64, d: i64) -> i64 {
    // days before year y, counted from 0001-01-01 = day 1
    let p = y - 1;
    let before = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let mut n = before;
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 719163
}
pub fn date_of(day: i64) -> (i64, i64, i64) {
    // binary search on the year
    let mut y = 1970 + day.div_euclid(366);
    if day < 0 {
        y = 1970 + day.div_euclid(365);
    }
    while day_of(y + 1, 1, 1) <= day {
        // step closer fast
        let step = (day - day_of(y + 1, 1, 1)) / 366;
        y += step.max(1);
    }
    while day_of(y, 1, 1) > day {
        y -= 1;
    }
    let mut rest = day - day_of(y, 1, 1);
    let mut m = 1;
    while rest >= month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    (y, m, rest + 1)
}

pub fn leap_on(t: &Table, day: i64) -> i64 {
    for &(d, l) in t {
        if d as i64 == day {
            return l as i64;
        }
    }
    0
}
pub fn day_len(t: &Table, day: i64) -> i64 {
    86400 + leap_on(t, day)
}
/// Leap seconds that took effect before the start of `day`.
pub fn acc(t: &Table, day: i64) -> i64 {
    t.iter().filter(|&&(d, _)| (d as i64) < day).map(|&(_, l)| l as i64).sum()
}
/// SI seconds since 1970-01-01T00:00:00 UTC of a civil second.
pub fn abs_of(t: &Table, day: i64, sec: i64) -> i128 {
    day as i128 * 86400 + sec as i128 + acc(t, day) as i128
}
/// Civil second of an SI second count, or None outside years 0000-9999.
pub fn civil_of(t: &Table, abs: i128) -> Option<(i64, i64)> {
    if abs < abs_of(t, MIN_DAY, 0) || abs >= abs_of(t, MAX_DAY + 1, 0) {
        return None;
    }
    let (mut lo, mut hi) = (MIN_DAY, MAX_DAY);
    while lo < hi {
        let mid = (lo + hi + 1).div_euclid(2);
        if abs_of(t, mid, 0) <= abs {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    Some((lo, (abs - abs_of(t, lo, 0)) as i64))
}
/// Leap seconds that took effect at or before a Unix timestamp.
pub fn adj_unix(t: &Table, unix: i64) -> i64 {
    t.iter()
        .filter(|&&(d, _)| (d as i128 + 1) * 86400 <= unix as i128)
        .map(|&(_, l)| l as i64)
        .sum()
}
/// Is this Unix timestamp a second that a negative leap second removed?
pub fn removed_unix(t: &Table, unix: i64) -> bool {
    t.iter().any(|&(d, l)| l < 0 && (d as i64 + 1) * 86400 - 1 == unix)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dt {
    pub day: i64,
    pub sec: i64,
    pub ns: i64,
    pub prec: i64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fields {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}
pub fn fields(dt: &Dt) -> Fields {
    let (y, mo, d) = date_of(dt.day);
    let m = (dt.sec / 60).min(1439);
    Fields { y, mo, d, h: m / 60, mi: m % 60, s: dt.sec - 60 * m }
}
#[derive(Clone, Copy, Debug)]
pub struct Cal {
    pub dt: Dt,
    pub days: i64,
    pub secs: i64,
}
fn clamp_sec(t: &Table, day: i64, sec: i64) -> (i64, i64) {
    let last = day_len(t, day) - 1;
    if sec > last {
        (last, sec - last)
    } else {
        (sec, 0)
    }
}
pub fn add_seconds(t: &Table, dt: &Dt, n: i128) -> Option<Dt> {
    let (day, sec) = civil_of(t, abs_of(t, dt.day, dt.sec) + n)?;
    Some(Dt { day, sec, ..*dt })
}
pub fn add_months(t: &Table, dt: &Dt, n: i128) -> Option<Cal> {
    let (y, mo, d) = date_of(dt.day);
    let k = y as i128 * 12 + (mo - 1) as i128 + n;
    if k < 0 || k >= 120000 {
        return None;
    }
    let (ny, nm) = ((k / 12) as i64, (k % 12) as i64 + 1);
    let nd = d.min(month_len(ny, nm));
    let day = day_of(ny, nm, nd);
    let (sec, carry) = clamp_sec(t, day, dt.sec);
    Some(Cal { dt: Dt { day, sec, ..*dt }, days: d - nd, secs: carry })
}
pub fn add_days(t: &Table, dt: &Dt, n: i128) -> Option<Cal> {
    let day = dt.day as i128 + n;
    if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
        return None;
    }
    let (sec, carry) = clamp_sec(t, day as i64, dt.sec);
    Some(Cal { dt: Dt { day: day as i64, sec, ..*dt }, days: 0, secs: carry })
}
pub fn add_minutes(t: &Table, dt: &Dt, n: i128) -> Option<Cal> {
    let m = (dt.sec / 60).min(1439);
    let s = dt.sec - 60 * m;
    let total = m as i128 + n;
    let day = dt.day as i128 + total.div_euclid(1440);
    if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
        return None;
    }
    let (day, m) = (day as i64, total.rem_euclid(1440) as i64);
    let len = if m == 1439 { day_len(t, day) - 1439 * 60 } else { 60 };
    let (s, carry) = if s >= len { (len - 1, s - (len - 1)) } else { (s, 0) };
    Some(Cal { dt: Dt { day, sec: 60 * m + s, ..*dt }, days: 0, secs: carry })
}
pub fn apply_carry(t: &Table, dt: &Dt, days: i64, secs: i64) -> Option<Dt> {
    let c = add_days(t, dt, days as i128)?;
    add_seconds(t, &c.dt, (secs + c.secs) as i128)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BuildErr {
    Invalid,
    OutOfBounds,
}
/// `f`: year, month, day, hour, minute, second, ms, us, ns; the first `n` of them given.
pub fn build(t: &Table, f: &[i64; 9], n: usize) -> Result<Dt, BuildErr> {
    let mut g = [0i64, 1, 1, 0, 0, 0, 0, 0, 0];
    g[..n].copy_from_slice(&f[..n]);
    if g[0] > 9999 {
        return Err(BuildErr::OutOfBounds);
    }
    if g[1] < 1 || g[1] > 12 || g[2] < 1 || g[2] > month_len(g[0], g[1]) || g[3] > 23 || g[4] > 59 {
        return Err(BuildErr::Invalid);
    }
    let day = day_of(g[0], g[1], g[2]);
    let len = if g[3] == 23 && g[4] == 59 { 60 + leap_on(t, day) } else { 60 };
    if g[5] >= len || g[6] > 999 || g[7] > 999 || g[8] > 999 {
        return Err(BuildErr::Invalid);
    }
    Ok(Dt {
        day,
        sec: g[3] * 3600 + g[4] * 60 + g[5],
        ns: g[6] * 1_000_000 + g[7] * 1000 + g[8],
        prec: n as i64,
    })
}

/// The leap seconds announced by the IERS so far.
pub fn iers() -> Table {
    let y: [(i64, i64); 27] = [
        (1972, 6), (1972, 12), (1973, 12), (1974, 12), (1975, 12), (1976, 12), (1977, 12), (1978, 12), (1979, 12),
        (1981, 6), (1982, 6), (1983, 6), (1985, 6), (1987, 12), (1989, 12), (1990, 12), (1992, 6), (1993, 6),
        (1994, 6), (1995, 12), (1997, 6), (1998, 12), (2005, 12), (2008, 12), (2012, 6), (2015, 6), (2016, 12),
    ];
    y.iter().map(|&(y, m)| (day_of(y, m, month_len(y, m)) as i32, 1)).collect()
}
