//! Checks of the machinery itself (the reference model, the zone-file writer, plan round trips, determinism).
use crate::gen;
use crate::model::*;
use crate::plan::Plan;
use crate::rng::Rng;
use crate::runner::{run_child, run_seed};
use crate::shm;
use crate::tzif;

fn leap_tables(b: &[u8]) -> Vec<(i64, i32)> {
    // RFC 8536, first block
    let n = |o: usize| u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    let (leaps, times, types, chars) = (n(28), n(32), n(36), n(40));
    let mut o = 44 + times * 5 + types * 6 + chars;
    let mut v = vec![];
    for _ in 0..leaps {
        v.push((i32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as i64, i32::from_be_bytes(b[o + 4..o + 8].try_into().unwrap())));
        o += 8;
    }
    v
}
/// The calendar and timeline by walking one day and one second at a time.
fn walk(r: &mut Rng) {
    let (mut y, mut m, mut d) = (0i64, 1i64, 1i64);
    for day in MIN_DAY..=MAX_DAY {
        if day % 61 == 0 || (m == 2 && d >= 28) || (m == 12 && d == 31) {
            assert_eq!(date_of(day), (y, m, d));
            assert_eq!(day_of(y, m, d), day);
        }
        d += 1;
        let leap = (y % 4 == 0) ^ (y % 100 == 0) ^ (y % 400 == 0);
        let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
        assert_eq!(len, month_len(y, m));
        if d > len {
            d = 1;
            m += 1;
            if m > 12 {
                m = 1;
                y += 1;
            }
        }
    }
    // seconds across leap seconds
    for _ in 0..200 {
        let mut t: Table = vec![];
        let mut day = r.range(0, 50) as i32;
        for _ in 0..r.range(1, 5) {
            t.push((day, if r.chance(1, 2) { 1 } else { -1 }));
            day += r.range(1, 4) as i32;
        }
        let (mut dd, mut s) = (t[0].0 as i64 - 1, 0i64);
        let mut abs = abs_of(&t, dd, s);
        let end = day as i64 + 1;
        while dd < end {
            if s < 3 || s > 86390 || s % 7919 == 0 {
                assert_eq!(abs_of(&t, dd, s), abs);
                assert_eq!(civil_of(&t, abs), Some((dd, s)));
            }
            abs += 1;
            s += 1;
            let len = 86400 + t.iter().find(|x| x.0 as i64 == dd).map_or(0, |x| x.1 as i64);
            if s == len {
                s = 0;
                dd += 1;
            }
        }
    }
}
pub fn run() -> i32 {
    let mut r = Rng::new(7);
    walk(&mut r);
    // the writer against the system's own data, when it is installed
    if let Ok(b) = std::fs::read("/usr/share/zoneinfo/right/UTC") {
        let real = leap_tables(&b);
        if !real.is_empty() {
            assert_eq!(real, tzif::leap_records(&iers())[..real.len()].to_vec(), "leap records of the system's right/UTC");
        }
    }
    for v in [0, 1, 2, 5, 80] {
        let t = iers();
        let (b, (a, e)) = tzif::write(&t, v, true, false);
        assert_eq!(leap_tables(&b), tzif::leap_records(&t));
        assert_eq!(e - a, 8 * t.len());
    }
    let sh = shm::alloc();
    let mut mism = 0;
    for (i, p) in gen::PROPS.iter().enumerate() {
        for k in 0..60 {
            let plan = gen::gen(i, run_seed(i, 99, k));
            assert_eq!(plan, Plan::parse(&plan.text()).expect("parse"), "{p} {k}");
            let f = run_child(&plan, sh, false);
            let s = unsafe { &*sh };
            let (h, sc, ct) = (s.hist, s.sched, s.ctr);
            let g = run_child(&Plan::parse(&plan.text()).unwrap(), sh, true);
            let s = unsafe { &*sh };
            if f != g || (h, sc) != (s.hist, s.sched) || ct != s.ctr {
                println!("{p} run {k} is not deterministic: {:?} {:?}", (h, sc), (s.hist, s.sched));
                for i in 0..ct.len() {
                    if ct[i] != s.ctr[i] {
                        println!("  counter {i}: {} {}", ct[i], s.ctr[i]);
                    }
                }
                println!("  {:?}\n  {:?}", f, g);
                mism += 1;
            }
        }
    }
    println!("selftest: {mism} nondeterministic runs of {}", 60 * gen::PROPS.len());
    if mism == 0 {
        0
    } else {
        3
    }
}
