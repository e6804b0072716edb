//! Writer of compiled zone files (TZif) for the simulated disk, as `zic` writes them.
use crate::model::Table;

/// Leap records as (occurrence, running total): occurrence in seconds that count earlier leap seconds.
pub fn leap_records(t: &Table) -> Vec<(i64, i32)> {
    let mut total = 0i32;
    let mut out = Vec::new();
    for &(d, l) in t {
        let mut at = (d as i64 + 1) * 86400 + total as i64;
        if l < 0 {
            at -= 1;
        }
        total += l as i32;
        out.push((at, total));
    }
    out
}
/// `variant`: bit 0 = also write the 64-bit block (version 2), bits 1.. = number of transitions is 40 * that, up to 1600.
/// bit 20 = the last record is followed by one with the same total, which says how long the table is valid (version 4).
/// `v1_leaps` false leaves the leap records out of the 32-bit block (a "slim" file).
/// Returns the bytes and the byte range of the 32-bit leap records.
pub fn write(t: &Table, variant: i64, v1_leaps: bool, swap: bool) -> (Vec<u8>, (usize, usize)) {
    let v2 = variant & 1 == 1 || !v1_leaps;
    let ntrans = ((((variant & 0xfffff) >> 1).max(0)) * 40).min(1600) as usize;
    let mut recs = leap_records(t);
    if swap && recs.len() >= 2 {
        let n = recs.len();
        recs.swap(n / 2 - 1, n / 2);
        if n / 2 == 0 {
            recs.swap(0, 1);
        }
    }
    let mut expires = variant & EXPIRES != 0 && recs.len() < 50;
    if let (true, Some(&(at, n))) = (expires, recs.last()) {
        let until = at + 180 * 86400;
        expires = until < i32::MAX as i64;
        if expires {
            recs.push((until - until.rem_euclid(86400) + n as i64, n));
        }
    } else {
        expires = false;
    }
    let mut out = Vec::new();
    let mut range = (0, 0);
    for block in 0..if v2 { 2 } else { 1 } {
        let wide = block == 1;
        let leaps: &[(i64, i32)] = if block == 0 && !v1_leaps { &[] } else { &recs };
        out.extend_from_slice(b"TZif");
        out.push(if v2 && expires { b'4' } else if v2 { b'2' } else { 0 });
        out.extend_from_slice(&[0; 15]);
        for n in [0u32, 0, leaps.len() as u32, ntrans as u32, 2, 8] {
            out.extend_from_slice(&n.to_be_bytes());
        }
        for i in 0..ntrans {
            let at = -1_500_000_000i64 + i as i64 * 2_000_000;
            if wide {
                out.extend_from_slice(&at.to_be_bytes());
            } else {
                out.extend_from_slice(&(at as i32).to_be_bytes());
            }
        }
        for i in 0..ntrans {
            out.push((i % 2) as u8);
        }
        for (off, dst, name) in [(0i32, 0u8, 0u8), (3600, 1, 4)] {
            out.extend_from_slice(&off.to_be_bytes());
            out.push(dst);
            out.push(name);
        }
        out.extend_from_slice(b"UTC\0DST\0");
        let a = out.len();
        for &(at, n) in leaps {
            if wide {
                out.extend_from_slice(&at.to_be_bytes());
            } else {
                out.extend_from_slice(&(at as i32).to_be_bytes());
            }
            out.extend_from_slice(&n.to_be_bytes());
        }
        if block == 0 {
            range = (a, out.len());
        }
    }
    if v2 {
        out.extend_from_slice(b"\nUTC0\n");
    }
    (out, range)
}
pub const EXPIRES: i64 = 1 << 20;
/// Leap records of the 32-bit block of a (possibly damaged) file, empty if there is none.
pub fn v1_leaps(b: &[u8]) -> Vec<(i64, i32)> {
    let be = |i: usize| b.get(i..i + 4).map_or(0, |x| i32::from_be_bytes(x.try_into().unwrap()));
    if b.len() < 44 || &b[..4] != b"TZif" {
        return vec![];
    }
    let (leaps, trans, types, chars) = (be(28) as usize, be(32) as usize, be(36) as usize, be(40) as usize);
    let a = 44 + trans * 5 + types * 6 + chars;
    (0..leaps).map(|i| (be(a + 8 * i) as i64, be(a + 8 * i + 4))).collect()
}
/// Whether nothing in the records shows that they are damaged.
pub fn well_formed(r: &[(i64, i32)]) -> bool {
    let (mut at, mut total) = (0, 0);
    for &(t, n) in r {
        if t <= at || !(-1..=1).contains(&(n - total)) {
            return false;
        }
        (at, total) = (t, n);
    }
    !r.is_empty()
}
