//! From a seed to a plan.
use crate::exec::{clamp_amount, ty_bounds, SCALES};
use crate::model::{self, Dt, Table};
use crate::plan::*;
use crate::rng::Rng;

pub const PROPS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23",
];

struct G {
    r: Rng,
    p: Plan,
    // the generator's idea of what each slot holds (only a hint for choosing interesting arguments)
    ch: Vec<Option<usize>>,
    dt: Vec<Option<(Dt, usize)>>, // value, table
    tz: usize,
    cur: Vec<usize>, // table published in each directory
    force: Option<i64>,   // the day of the next date-time to build
    kept: Vec<i64>,       // slots with a carry still to be used
    held: Vec<(i64, i64, Option<(Dt, usize)>)>, // prepared builders: slot, slot of the date-time, its value
}

fn month_end(y: i64, m: i64) -> i32 {
    model::day_of(y, m, model::month_len(y, m)) as i32
}
fn ok_table(t: &Table) -> bool {
    t.len() <= 50 && !t.is_empty() && t.windows(2).all(|w| w[0].0 < w[1].0) && t[0].0 >= 0 && t[t.len() - 1].0 <= 24853
}
fn total_positive(t: &Table) -> bool {
    let mut n = 0;
    t.iter().all(|&(_, l)| {
        n += l as i32;
        n >= 1
    })
}
impl G {
    fn gen_table(&mut self, realistic: bool) -> Table {
        let r = &mut self.r;
        let mut t: Table = vec![];
        let kind = r.weighted(if realistic { &[5, 5, 0, 0] } else { &[3, 3, 4, 2] });
        match kind {
            0 => t = model::iers(),
            1 => {
                // the announced ones and some future ones
                t = model::iers();
                let mut y = 2017;
                for _ in 0..r.range(1, 4) {
                    y += r.range(1, 5);
                    if y > 2036 {
                        break;
                    }
                    let m = *r.pick(&[6, 12]);
                    t.push((month_end(y, m), if r.chance(1, 2) { -1 } else { 1 }));
                }
            }
            2 => {
                // any month ends
                let n = r.range(1, 14);
                let mut months: Vec<i64> = (0..n).map(|_| r.range(24, 800)).collect();
                months.sort();
                months.dedup();
                for k in months {
                    t.push((month_end(1970 + k / 12, k % 12 + 1), if r.chance(2, 5) { -1 } else { 1 }));
                }
            }
            _ => {
                // any days, possibly adjacent ones
                let n = r.range(1, 6);
                let mut d = r.range(0, 9000);
                for _ in 0..n {
                    t.push((d as i32, if r.chance(2, 5) { -1 } else { 1 }));
                    d += match r.below(4) {
                        0 => 1,
                        1 => r.range(1, 3),
                        _ => r.range(1, 3000),
                    };
                }
            }
        }
        t.retain(|x| x.0 <= 24853);
        // on a host that counts leap seconds the running total must show
        if self.p.right == 1 && !total_positive(&t) {
            let mut n = 0;
            for e in t.iter_mut() {
                if n + e.1 as i32 <= 0 {
                    e.1 = 1;
                }
                n += e.1 as i32;
            }
        }
        if ok_table(&t) {
            t
        } else {
            model::iers()
        }
    }
    /// A table and a step with which days as well as seconds are cut off, and perhaps seconds again when the days
    /// are made up for: (day to start from, kind of step, amount).
    fn chain(&mut self) -> Option<(i64, i64, i64)> {
        let r = &mut self.r;
        let y = r.range(1971, 2036);
        let (kind, src, amount) = match r.below(4) {
            0 => {
                let y = y / 4 * 4;
                (0, model::day_of(y, 2, 29), *r.pick(&[1, 2, 3, -1, 5, 7]))
            }
            1 => (1, model::day_of(y, 1, r.range(29, 31)), *r.pick(&[1, 13, 25, -11])),
            _ => {
                let m = *r.pick(&[1, 3, 5, 7, 8, 10, 12]);
                (1, model::day_of(y, m, 31), r.range(-14, 14))
            }
        };
        let (y0, m0, d0) = model::date_of(src);
        let k = y0 * 12 + m0 - 1 + if kind == 0 { amount * 12 } else { amount };
        let (y1, m1) = (k.div_euclid(12), k.rem_euclid(12) + 1);
        let cut = (d0 - model::month_len(y1, m1)).max(0);
        let to = model::day_of(y1, m1, d0 - cut);
        let mut t: Table = vec![];
        for (d, c) in [(src, 1), (to, if r.chance(1, 3) { -1 } else { 0 }), (to + cut, -1)] {
            if c != 0 && !t.iter().any(|e: &(i32, i8)| e.0 as i64 == d) && (0..=24853).contains(&d) {
                t.push((d as i32, c));
            }
        }
        t.sort();
        if !ok_table(&t) || (self.p.right == 1 && !total_positive(&t)) {
            return None;
        }
        self.p.tables[0] = t;
        Some((src, kind, amount))
    }
    fn vary_table(&mut self, base: &Table) -> Table {
        let mut t = base.clone();
        let r = &mut self.r;
        match r.below(6) {
            0 if t.len() > 1 => {
                t.pop();
            }
            1 | 2 => {
                // one more leap second at the end
                let last = t.last().unwrap().0;
                let (y, m, _) = model::date_of(last as i64);
                let k = y * 12 + m - 1 + r.range(1, 12);
                t.push((month_end(k / 12, k % 12 + 1), if r.chance(1, 3) { -1 } else { 1 }));
            }
            3 => {
                let i = r.below(t.len() as u64) as usize;
                t[i].1 = -t[i].1;
            }
            4 if t.len() > 2 => {
                let i = r.below(t.len() as u64) as usize;
                t.remove(i);
            }
            _ => t = self.gen_table(false),
        }
        if self.p.right == 1 && !total_positive(&t) {
            return base.clone();
        }
        if ok_table(&t) {
            t
        } else {
            base.clone()
        }
    }
    fn tables(&mut self, n: usize) {
        let t = self.gen_table(false);
        self.p.tables = vec![t];
        for _ in 1..n {
            let i = self.r.below(self.p.tables.len() as u64) as usize;
            let b = self.p.tables[i].clone();
            let t = self.vary_table(&b);
            self.p.tables.push(t);
        }
    }
    fn variant(&mut self) -> i64 {
        let v = match self.r.below(8) {
            0 => 0,
            1 => self.r.range(2, 81),
            2 => self.r.range(2, 9),
            _ => 1,
        };
        if self.r.chance(1, 8) { v | crate::tzif::EXPIRES } else { v }
    }
    fn host(&mut self, right_num: u64, right_den: u64) {
        if self.r.chance(right_num, right_den) {
            self.p.right = 1;
        }
    }
    fn layout(&mut self, others: bool) {
        self.p.tzdir = self.r.range(0, 2);
        self.tz = self.p.tzdir as usize;
        let nt = self.p.tables.len() as i64;
        for d in 0..NDIR as i64 {
            if d == self.p.tzdir {
                let v = self.variant();
                if v != 1 {
                    self.p.files.push(File { dir: d, zone: 0, kind: F_GOOD, table: 0, variant: v, arg: 0 });
                }
            } else if others && self.r.chance(1, 2) {
                let t = self.r.range(0, nt - 1);
                for z in 0..NZ as i64 {
                    self.p.files.push(File { dir: d, zone: z, kind: F_GOOD, table: t, variant: 1, arg: 0 });
                }
                self.cur[d as usize] = t as usize;
            }
        }
        self.now();
    }
    fn now(&mut self) {
        let t = self.p.tables[self.p.host as usize % self.p.tables.len()].clone();
        self.p.now = self.clock_near(&t);
        if self.p.right == 1 {
            self.p.now = self.p.now.max((t[0].0 as i64 + 1) * 86400 + 1);
        }
        self.p.now_ns = self.ns();
    }
    /// A plausible current clock value.
    fn clock_near(&mut self, t: &Table) -> i64 {
        let r = &mut self.r;
        let v = match r.below(6) {
            0 => DEF_NOW,
            1 => r.range(94_694_400, 8_267_788_800),
            2 => {
                // month and year ends, leap days, century years
                let y = r.range(1973, 2231);
                let (m, d) = *r.pick(&[(1, 1), (2, 28), (3, 1), (12, 31), (2, 1), (6, 30), (7, 1)]);
                model::day_of(y, m, d) * 86400 + *r.pick(&[0, 1, 43200, 86399, 86398, 59, 3599])
            }
            3 => model::day_of(*r.pick(&[2000, 2024, 2100, 2200, 1976, 2096]), 2, 28) * 86400 + r.range(0, 2) * 86400 + r.range(0, 86399),
            _ => {
                let i = r.below(t.len() as u64) as usize;
                let base = (t[i].0 as i64 + 1) * 86400;
                let at = if self.p.right == 1 { base + model::acc(t, t[i].0 as i64) } else { base };
                at + r.range(-3, 3)
            }
        };
        v.clamp(94_694_400, 8_267_788_800)
    }
    fn ns(&mut self) -> i64 {
        match self.r.below(6) {
            0 | 1 => 0,
            2 => 999_999_999,
            3 => 1,
            4 => *self.r.pick(&[500_000_000, 999_999_000, 1_000_000, 999_000, 100_000_000, 65_536, 65_535]),
            _ => self.r.range(0, 999_999_999),
        }
    }
    fn op(&mut self, t: usize, k: i64, a: &[i64]) -> usize {
        let mut v = [0i64; NOP];
        v[..a.len()].copy_from_slice(a);
        while self.p.tasks.len() <= t {
            self.p.tasks.push(vec![]);
        }
        self.p.tasks[t].push(Op { k, a: v });
        self.p.tasks[t].len() - 1
    }
    fn ev(&mut self, t: usize, o: usize, pt: i64, n: i64, act: i64, a: [i64; 5]) {
        self.p.evs.push(Ev { t: t as i64, o: o as i64, pt, n, act, a });
    }

    // ---- conversions ----
    fn clock_value(&mut self, ty: usize, sc: usize) -> (i64, i64) {
        let ti = self.r.below(self.p.tables.len() as u64) as usize;
        let t = self.p.tables[ti].clone();
        let r = &mut self.r;
        let secs = match r.below(12) {
            0..=4 => {
                // around a leap second, in Unix time or in a clock that counts them
                let i = r.below(t.len() as u64) as usize;
                let base = (t[i].0 as i64 + 1) * 86400;
                let at = if self.p.right == 1 { base + model::acc(&t, t[i].0 as i64) } else { base };
                at + *r.pick(&[-2, -1, 0, 1, -1, 0, -1, 0, -86400, 86400, -86401, 180 * 86400, 180 * 86400 - 1])
            }
            5 => r.range(-3, 3),
            6 => r.range(-4_000_000_000, 4_000_000_000),
            7 => r.range(94_694_400, 8_267_788_800),
            8 => {
                // near the limits of the tick type
                let (lo, hi) = ty_bounds(ty);
                let b = if r.chance(1, 2) { hi } else { lo };
                let s = b.div_euclid(SCALES[sc]).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
                s.saturating_add(r.range(-60, 30))
            }
            9 => {
                // where day numbers outgrow 32 bits, and the ends of the clock
                let d = *r.pick(&[i32::MAX as i64, u32::MAX as i64, i32::MIN as i64, 1 << 32, 1 << 33, 3 << 32, -(1i64 << 32)]);
                d.saturating_mul(86400).saturating_add(r.range(-86400 * 20000, 86400 * 20000))
            }
            10 => *r.pick(&[i64::MAX, i64::MAX - 27, i64::MAX - 28, i64::MIN, i64::MIN + 1, i64::MAX / 1000, i64::MAX / 1_000_000_000]),
            _ => {
                let x = r.logu(63) as i64;
                if r.chance(1, 2) {
                    x
                } else {
                    -x
                }
            }
        };
        (secs, self.ns())
    }
    fn conv(&mut self, t: usize, slot: i64) -> usize {
        let ty = self.r.weighted(&[8, 6, 3, 3, 2, 1, 1, 1, 1]);
        let sc = self.r.weighted(&[5, 3, 6, 2, 2]);
        if self.r.chance(1, 6) {
            let a3 = if self.r.chance(1, 2) { 0 } else { self.r.range(-100_000_000, 100_000_000) };
            let ns = self.ns();
            return self.op(t, CONVNOW, &[slot, ty as i64, sc as i64, a3, ns]);
        }
        let (s, n) = self.clock_value(ty, sc);
        self.op(t, CONV, &[slot, ty as i64, sc as i64, s, n])
    }

    // ---- date-times ----
    /// An interesting civil time (day, second) under a table.
    /// A day next to where the calendar changes its mind: the ends of February and of the year,
    /// in century years as often as in others.
    fn telling(&mut self, y: i64) -> i64 {
        let y = match self.r.below(5) {
            0 => y,
            1 => y + self.r.range(-4, 4),
            2 => y - y.rem_euclid(100) + *self.r.pick(&[0, 0, 99, 100, -1, 1]),
            3 => y - y.rem_euclid(4) + *self.r.pick(&[0, -1, 4]),
            _ => y - y.rem_euclid(400) + *self.r.pick(&[0, 100, 200, 300, 400, 399]),
        }.clamp(0, 9999);
        let (m, d) = *self.r.pick(&[(2, 28), (2, 29), (3, 1), (3, 1), (2, 1), (12, 31), (1, 1)]);
        let j = *self.r.pick(&[0, 0, 0, 1, -1]);
        let d = if d == 29 { model::day_of(y, 3, 1) - 1 } else { model::day_of(y, m, d) };
        (d + j).clamp(model::MIN_DAY, model::MAX_DAY)
    }
    fn civil(&mut self, ti: usize) -> (i64, i64) {
        let t = self.p.tables[ti].clone();
        if let Some(day) = self.force.take() {
            let back = if self.r.chance(1, 4) { self.r.range(1, 61) } else { 1 };
            return (day, model::day_len(&t, day) - back);
        }
        let day = match self.r.below(9) {
            0..=2 => {
                let i = self.r.below(t.len() as u64) as usize;
                t[i].0 as i64 + *self.r.pick(&[0, 0, 0, 0, 0, 1, -1])
            }
            3 => {
                let y = self.r.range(0, 9999);
                let m = self.r.range(1, 12);
                if self.r.chance(1, 3) { self.telling(y) } else { model::day_of(y, m, model::month_len(y, m)) }
            }
            4 => {
                let y = *self.r.pick(&[2000, 2004, 1972, 1896, 4, 0, 400, 2400, 9996, 1600, 2096, 1904]);
                model::day_of(y, 2, 29)
            }
            5 => *self.r.pick(&[model::MIN_DAY, model::MAX_DAY, model::MIN_DAY + 59, model::MIN_DAY + 60, model::MAX_DAY - 30, -1, 0, 1]),
            6 => self.r.range(model::MIN_DAY, model::MAX_DAY),
            7 => self.r.range(-2000, 26000),
            _ => {
                let i = t.len() - 1;
                // 180 days on a table may end (EXPIRES)
                t[i].0 as i64 + if self.r.chance(1, 3) { self.r.range(179, 181) } else { self.r.range(-2, 400) }
            }
        };
        let day = day.clamp(model::MIN_DAY, model::MAX_DAY);
        let len = model::day_len(&t, day);
        let sec = match self.r.below(6) {
            0..=2 => len - 1 - *self.r.pick(&[0, 0, 0, 1, 2]),
            3 => *self.r.pick(&[0, 1, 59, 60, 3599, 3600, 43200, 65535, 65536, 86339, 86340]),
            4 => self.r.range(0, len - 1),
            _ => self.r.range(0, 1439) * 60 + *self.r.pick(&[0, 58, 59]),
        };
        (day, sec.clamp(0, len - 1))
    }
    fn frac(&mut self) -> (i64, i64) {
        // ns, precision (number of fields)
        let r = &mut self.r;
        match r.below(6) {
            0 => (0, 6),
            1 => (r.range(0, 999) * 1_000_000, 7),
            2 => (r.range(0, 999_999) * 1000, 8),
            3 => (*r.pick(&[999_999_999, 65_536, 1 << 29, 65_535, 536_870_912 + 65_536, 1, 0, 123_456_789]), 9),
            4 => (1i64 << r.range(0, 29), 9),
            _ => (r.range(0, 999_999_999), 9),
        }
    }
    fn build_valid(&mut self, t: usize, slot: i64, chron: i64) -> usize {
        let ti = if chron < 0 { self.cur[self.tz] } else { self.ch[chron as usize].unwrap_or(0) };
        let (day, sec) = self.civil(ti);
        let (ns, prec) = self.frac();
        let mut d = Dt { day, sec, ns, prec };
        if self.force.is_none() && self.r.chance(1, 12) {
            // a day, an hour, a minute
            let (y, m, _) = model::date_of(day);
            let min = (sec / 60).min(1439);
            d.prec = self.r.range(1, 5);
            d.ns = 0;
            d.sec = [0, 0, 0, min / 60 * 3600, min * 60][d.prec as usize - 1];
            d.day = [model::day_of(y, 1, 1), model::day_of(y, m, 1), day, day, day][d.prec as usize - 1];
        }
        let (ns, prec) = (d.ns, d.prec);
        let f = model::fields(&d);
        self.dt[slot as usize] = Some((d, ti));
        let form = *self.r.pick(&[0, 0, 0, 1, 2, 4]);
        self.emit_build(t, &[slot, chron, prec, f.y, f.mo, f.d, f.h, f.mi, f.s, ns / 1_000_000, ns / 1000 % 1000, ns % 1000, form])
    }
    fn build_any(&mut self, t: usize, slot: i64, chron: i64) -> usize {
        let ti = if chron < 0 { self.cur[self.tz] } else { self.ch[chron as usize].unwrap_or(0) };
        let (day, sec) = self.civil(ti);
        let (ns, _) = self.frac();
        let f = model::fields(&Dt { day, sec, ns, prec: 9 });
        let mut v = [f.y, f.mo, f.d, f.h, f.mi, f.s, ns / 1_000_000, ns / 1000 % 1000, ns % 1000];
        let r = &mut self.r;
        let n = if r.chance(1, 3) { r.range(1, 6) } else { r.range(6, 9) };
        for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2]) {
            let i = r.below(n as u64) as usize;
            v[i] = match i {
                0 => *r.pick(&[0, 9999, 10000, 65535, 1900, 2000, 2100, 400, 1, 32768]),
                1 => *r.pick(&[0, 1, 2, 12, 13, 255, 128]),
                2 => *r.pick(&[0, 1, 28, 29, 30, 31, 32, 255]),
                3 => *r.pick(&[0, 23, 24, 255]),
                4 => *r.pick(&[0, 59, 60, 255]),
                5 => *r.pick(&[0, 58, 59, 60, 61, 62, 255]),
                _ => *r.pick(&[0, 999, 1000, 65535, 1001]),
            };
        }
        let form = *r.pick(&[0, 0, 0, 0, 1, 2, 4, 8, 6]);
        let d = model::build(&self.p.tables[ti], &v, n as usize).ok();
        self.dt[slot as usize] = d.map(|d| (d, ti));
        let mut a = vec![slot, chron, n];
        a.extend_from_slice(&v);
        a.push(form);
        self.emit_build(t, &a)
    }
    /// Builds at once, or prepares the builder and finishes it later.
    fn emit_build(&mut self, t: usize, a: &[i64]) -> usize {
        if self.held.len() < 3 && self.r.chance(1, 8) {
            let h = self.held.len() as i64;
            let d = self.dt[a[0] as usize].take();
            self.held.push((h, a[0], d));
            let mut b = a.to_vec();
            b[0] = h;
            return self.op(t, HOLD, &b);
        }
        self.op(t, BUILD, a)
    }
    fn have_dt(&mut self) -> Option<i64> {
        let v: Vec<i64> = (0..self.dt.len()).filter(|&i| self.dt[i].is_some()).map(|i| i as i64).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn sec_op(&mut self, t: usize, dst: i64, src: i64) -> usize {
        let n = match self.dt[src as usize] {
            Some((d, ti)) => {
                let tb = self.p.tables[ti].clone();
                match self.r.below(8) {
                    0..=3 => {
                        let (day, sec) = self.civil(ti);
                        (model::abs_of(&tb, day, sec) - model::abs_of(&tb, d.day, d.sec)) as i64 + *self.r.pick(&[0, 0, 0, 1, -1])
                    }
                    4 => {
                        // the ends of the calendar
                        let e = *self.r.pick(&[model::abs_of(&tb, model::MIN_DAY, 0), model::abs_of(&tb, model::MAX_DAY + 1, 0)]);
                        (e - model::abs_of(&tb, d.day, d.sec)) as i64 + *self.r.pick(&[-1, 0, 1])
                    }
                    5 => *self.r.pick(&[0, 1, -1, 2, -2, 60, -60, 86399, 86400, 86401, -86400, -86401]),
                    6 => {
                        let e = *self.r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, 1 << 32, 371_085_174_374_400, -371_085_174_374_400, 1 << 48, 86400 << 32, -(86400i64 << 32)]);
                        e.saturating_add(self.r.range(-100_000, 100_000))
                    }
                    _ => {
                        let x = self.r.logu(40) as i64;
                        if self.r.chance(1, 2) { x } else { -x }
                    }
                }
            }
            None => self.r.range(-100, 100),
        };
        if let Some((d, ti)) = self.dt[src as usize] {
            self.dt[dst as usize] = model::add_seconds(&self.p.tables[ti], &d, n as i128).map(|d| (d, ti));
        } else {
            self.dt[dst as usize] = None;
        }
        let form = self.form();
        self.op(t, SEC, &[dst, src, n, form])
    }
    fn form(&mut self) -> i64 {
        self.r.chance(1, 5) as i64
    }
    fn cal_op(&mut self, t: usize, dst: i64, src: i64, kind: i64, post: i64) -> usize {
        let mut n = match self.dt[src as usize] {
            Some((d, ti)) => match self.r.below(10) {
                9 => {
                    // land on a telling day, from near or from far
                    let (y0, m0, _) = model::date_of(d.day);
                    let day = self.telling(y0);
                    let (y1, m1, _) = model::date_of(day);
                    let b = *self.r.pick(&[0, 1439, 720]);
                    let mins = (day - d.day) * 1440 + b - (d.sec / 60).min(1439);
                    match kind {
                        0 => y1 - y0,
                        1 => (y1 - y0) * 12 + m1 - m0,
                        2 => day - d.day,
                        3 => mins.div_euclid(60),
                        _ => mins,
                    }
                }
                0..=3 => {
                    let (day, sec) = self.civil(ti);
                    let (y0, m0, _) = model::date_of(d.day);
                    let (y1, m1, _) = model::date_of(day);
                    let (a, b) = ((d.sec / 60).min(1439), (sec / 60).min(1439));
                    // half of the time aim for the last minute of the day
                    let b = if self.r.chance(1, 2) { 1439 } else { b };
                    let mins = (day - d.day) * 1440 + b - a;
                    let j = *self.r.pick(&[0, 0, 0, 1, -1]);
                    match kind {
                        0 => y1 - y0,
                        1 => (y1 - y0) * 12 + m1 - m0,
                        2 => day - d.day,
                        3 => mins.div_euclid(60) + j,
                        _ => mins + j,
                    }
                }
                4 => *self.r.pick(&[0, 1, -1, 2, -2, 3, 4, -4, 11, 12, -12, 13, 24, 60, 1440, -1440, 100, 400, -400, 365, 366, 1439]),
                5 => {
                    // the ends of the calendar
                    let (y0, m0, _) = model::date_of(d.day);
                    let min = (d.sec / 60).min(1439);
                    let hi = self.r.chance(1, 2);
                    let e = match kind {
                        0 => if hi { 9999 - y0 } else { -y0 },
                        1 => if hi { (9999 - y0) * 12 + 12 - m0 } else { -y0 * 12 + 1 - m0 },
                        2 => if hi { model::MAX_DAY - d.day } else { model::MIN_DAY - d.day },
                        3 => if hi { (model::MAX_DAY - d.day) * 24 + 23 - min / 60 } else { (model::MIN_DAY - d.day) * 24 - min / 60 },
                        _ => if hi { (model::MAX_DAY - d.day) * 1440 + 1439 - min } else { (model::MIN_DAY - d.day) * 1440 - min },
                    };
                    e + *self.r.pick(&[0, 0, 1, -1, 12, -12])
                }
                6 => {
                    // amounts that wrap narrow integers
                    let base: i64 = match kind {
                        0 => *self.r.pick(&[i16::MAX as i64, i16::MIN as i64, 12800, -12800, 51200, -25600, 25600, 102400]),
                        1 => *self.r.pick(&[i32::MAX as i64, i32::MIN as i64, 65536 * 12, -65536 * 12, 32768 * 12, 307200 * 4, 102400 * 12, i16::MAX as i64 * 12]),
                        2 => *self.r.pick(&[i32::MAX as i64, i32::MIN as i64, 146097 * 256, -146097 * 256, 146097 * 128, -146097 * 128, 146097 * 512, 146097 * 1024]),
                        3 => *self.r.pick(&[i32::MAX as i64, i32::MIN as i64, 146097 * 24 * 256, 146097 * 24 * 512]),
                        _ => *self.r.pick(&[i64::MAX, i64::MIN, (1i64 << 32) * 1440, -(1i64 << 32) * 1440, (1i64 << 33) * 1440, 146097 * 1440 * 256, (1i64 << 31) * 1440, i64::MAX - 1440]),
                    };
                    base.saturating_add(self.r.range(-800, 800))
                }
                _ => {
                    let bits = [14, 17, 22, 27, 33][kind as usize];
                    let x = self.r.logu(bits) as i64;
                    if self.r.chance(1, 2) { x } else { -x }
                }
            },
            None => self.r.range(-100, 100),
        };
        n = clamp_amount(kind, n);
        self.dt[dst as usize] = match self.dt[src as usize] {
            Some((d, ti)) => {
                let tb = &self.p.tables[ti];
                let c = match kind {
                    0 => model::add_months(tb, &d, n as i128 * 12),
                    1 => model::add_months(tb, &d, n as i128),
                    2 => model::add_days(tb, &d, n as i128),
                    3 => model::add_minutes(tb, &d, n as i128 * 60),
                    _ => model::add_minutes(tb, &d, n as i128),
                };
                match (c, post) {
                    (None, _) => None,
                    (Some(c), 1 | 2) => model::apply_carry(tb, &c.dt, c.days, c.secs).map(|d| (d, ti)),
                    (_, 4) => None,
                    (Some(c), 3) if c.days != 0 || c.secs != 0 => None,
                    (Some(c), _) => Some((c.dt, ti)),
                }
            }
            None => None,
        };
        let form = self.form();
        self.op(t, CAL, &[dst, src, kind, n, form, post])
    }
    fn load(&mut self, t: usize, slot: i64, zone: i64) -> usize {
        self.ch[slot as usize] = Some(self.cur[self.tz]);
        self.op(t, LOAD, &[slot, zone])
    }
    fn zone(&mut self) -> i64 {
        if self.r.chance(1, 2) { 0 } else { self.r.range(1, NZ as i64 - 1) }
    }

    /// A zone that exists, or one that does not.
    fn any_zone(&mut self) -> i64 {
        let z = self.r.range(0, NZ as i64);
        if z < NZ as i64 { z } else { self.r.range(NZ as i64, ZONES.len() as i64 - 1) }
    }

    // ---- the world changes ----
    /// A change of the published data, before operation `o` of task `t` or in the middle of it.
    fn update(&mut self, t: usize, o: usize, mid: bool) {
        let nt = self.p.tables.len() as i64;
        let (pt, n) = self.when(mid);
        let v = self.variant();
        match self.r.below(6) {
            0..=1 => {
                let tb = self.r.range(0, nt - 1);
                self.cur[self.tz] = tb as usize;
                let d = self.tz as i64;
                self.ev(t, o, pt, n, A_PUBALL, [d, tb, v, 0, 0]);
            }
            2..=3 => {
                let tb = self.r.range(0, nt - 1);
                self.cur[self.tz] = tb as usize;
                let d = self.tz as i64;
                self.ev(t, o, pt, n, A_PUBLISH, [d, 0, tb, v, 0]);
            }
            4 => {
                // another directory's data, perhaps used later
                let d = self.r.range(0, 2);
                let tb = self.r.range(0, nt - 1);
                self.cur[d as usize] = tb as usize;
                self.ev(t, o, pt, n, A_PUBALL, [d, tb, v, 0, 0]);
            }
            _ => {
                let d = self.r.range(0, 2);
                self.tz = d as usize;
                self.ev(t, o, pt, n, A_TZDIR, [d, 0, 0, 0, 0]);
            }
        }
    }
    /// Some blocks after a system call: where what was just read or looked up is put to use.
    fn after(&mut self) -> i64 {
        self.r.range(1, 14) * AFT + 1 + self.r.logu(7) as i64
    }
    fn when(&mut self, mid: bool) -> (i64, i64) {
        if !mid {
            return (P_START, 0);
        }
        match self.r.below(4) {
            0..=1 if self.r.chance(1, 3) => (P_AFT, self.after()),
            0..=1 => (P_SYS, self.r.range(1, 14)),
            2 => (P_BB, 1 + self.r.logu(13) as i64),
            _ => (*self.r.pick(&[P_OPEN, P_READ, P_STAT, P_CLOCK]), self.r.range(1, 3)),
        }
    }
    fn clock_event(&mut self, t: usize, o: usize, mid: bool) {
        let (pt, n) = self.when(mid);
        if self.r.chance(1, 3) {
            let s = *self.r.pick(&[1, 2, 60, 3600, 86400, 10_000_000]);
            self.ev(t, o, pt, n, A_STALL, [s, 0, 0, 0, 0]);
        } else {
            let tb = self.p.tables[self.p.host as usize].clone();
            let to = self.clock_near(&tb);
            let d = match self.r.below(3) {
                0 => *self.r.pick(&[1, -1, 2, -2, 27, -27, 3600, -86400, 31_536_000]),
                _ => to - self.p.now,
            };
            let ns = self.ns();
            self.ev(t, o, pt, n, A_STEP, [d, ns, 0, 0, 0]);
        }
    }
    fn soft(&mut self, t: usize, o: usize) {
        let n = self.r.range(1, 3);
        match self.r.below(6) {
            0 => {
                let k = self.r.range(1, 5);
                self.ev(t, o, P_OPEN, n.min(2), A_EINTR, [k, 0, 0, 0, 0]);
            }
            1 => {
                let k = self.r.range(1, 8);
                let n = self.r.range(1, 8);
                self.ev(t, o, P_READ, n, A_EINTR, [k, 0, 0, 0, 0]);
            }
            2 => {
                let k = 1 + self.r.logu(9) as i64;
                self.ev(t, o, P_READ, n, A_SHORT, [k, 0, 0, 0, 0]);
            }
            3..=4 => {
                let k = 1 + self.r.logu(8) as i64;
                let pt = *self.r.pick(&[P_OPEN, P_STAT, P_READ]);
                self.ev(t, o, pt, self_n(n), A_CHUNK, [k, 0, 0, 0, 0]);
            }
            _ => {
                let s = *self.r.pick(&[1, 30, 86400]);
                let (pt, n) = self.when(true);
                self.ev(t, o, pt, n, A_STALL, [s, 0, 0, 0, 0]);
            }
        }
    }
    fn hard(&mut self, t: usize, o: usize) {
        let (pt, e) = match self.r.below(3) {
            0 => (P_OPEN, *self.r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOMEM, libc::ELOOP])),
            1 => (P_READ, *self.r.pick(&[libc::EIO, libc::ENOMEM, libc::ESTALE, libc::EBADMSG])),
            _ => (P_STAT, *self.r.pick(&[libc::EIO, libc::ENOMEM, libc::EACCES])),
        };
        let n = self.r.range(1, if pt == P_READ { 5 } else { 2 });
        self.ev(t, o, pt, n, A_ERR, [e as i64, 0, 0, 0, 0]);
    }
    fn bad_kind(&mut self) -> (i64, i64) {
        let k = *self.r.pick(&[F_MISSING, F_MISSING, F_TRUNC, F_TRUNC, F_EMPTY, F_MAGIC, F_ZEROTAIL, F_ZEROTAIL, F_SLIM, F_ISDIR, F_ORDER, F_EACCES, F_EIO, F_COUNT, F_TOTAL]);
        let arg = match k {
            F_ZEROTAIL => {
                // lost blocks, at any offset: the leap-second records lie in the first part
                if self.r.chance(1, 2) { self.r.range(44, 700) } else { self.r.range(0, 4) * 512 }
            }
            F_TRUNC => if self.r.chance(1, 4) { self.r.range(0, 60) } else { self.r.range(0, 2000) },
            _ => self.r.range(0, 700),
        };
        (k, arg)
    }
    fn damage(&mut self, t: usize, o: usize, zone: i64, mid: bool) {
        let (k, arg) = self.bad_kind();
        let (pt, n) = self.when(mid);
        let d = self.tz as i64;
        // usually the damaged file is a copy of the current table
        let tb = if self.r.chance(3, 4) { self.cur[self.tz] } else { self.r.below(self.p.tables.len() as u64) as usize };
        self.ev(t, o, pt, n, A_STATE, [d, zone, k, tb as i64, arg]);
    }
    fn repair(&mut self, t: usize, o: usize) {
        let d = self.tz as i64;
        let tb = self.cur[self.tz] as i64;
        self.ev(t, o, P_START, 0, A_PUBALL, [d, tb, 1, 0, 0]);
    }

    // ---- mixtures ----
    /// One arithmetic operation of the given weights: seconds, years, months, days, hours, minutes.
    fn arith(&mut self, t: usize, w: &[u64; 6], posts: &[i64]) -> Option<usize> {
        let src = self.have_dt()?;
        let dst = if self.r.chance(1, 3) { src } else { self.r.range(0, 9) };
        let k = self.r.weighted(w);
        let mut post = *self.r.pick(posts);
        if !self.kept.is_empty() && self.r.chance(1, 3) {
            let i = self.r.below(self.kept.len() as u64) as usize;
            let c = if self.r.chance(3, 4) { self.kept.remove(i) } else { self.kept[i] };
            return Some(self.op(t, APPLY, &[c, dst, post]));
        }
        if !self.held.is_empty() && self.r.chance(1, 2) {
            return Some(self.finish(t));
        }
        if k > 0 && self.r.chance(1, 6) {
            post = 4;
            if !self.kept.contains(&dst) {
                self.kept.push(dst);
            }
        }
        Some(if k == 0 { self.sec_op(t, dst, src) } else { self.cal_op(t, dst, src, k as i64 - 1, post) })
    }
    fn finish(&mut self, t: usize) -> usize {
        let i = self.r.below(self.held.len() as u64) as usize;
        let (h, d, v) = if self.r.chance(3, 4) { self.held.remove(i) } else { self.held[i] };
        self.dt[d as usize] = v;
        let form = self.form();
        self.op(t, FINISH, &[h, d, form])
    }
    fn tick(&mut self, t: usize, lo: i64, hi: i64) -> usize {
        let src = self.r.range(lo, hi);
        let dst = if self.r.chance(1, 3) { src } else { self.r.range(lo, hi) };
        let (kind, ty, sc) = (self.r.range(0, 9), self.r.range(0, 4), self.r.range(0, 4));
        let (pk, pv, pe) = self.operand();
        self.op(t, TICK, &[dst, src, kind, ty, sc, pk, pv, pe])
    }
    fn dur(&mut self, t: usize, lo: i64, hi: i64) -> usize {
        let (a, b) = (self.r.range(lo, hi), self.r.range(lo, hi));
        let kind = if self.r.chance(2, 5) { self.r.range(6, 7) } else { self.r.range(0, 11) };
        let (ty, sc) = (self.r.range(0, 4), self.r.range(0, 4));
        let (pk, pv, pe) = self.operand();
        self.op(t, DUR, &[a, b, kind, ty, sc, pk, pv, pe])
    }
    fn operand(&mut self) -> (i64, i64, i64) {
        let pk = self.r.weighted(&[8, 1, 1, 2, 2, 2]) as i64;
        let pv = match self.r.below(5) {
            0 => self.r.range(-2, 2),
            1 => *self.r.pick(&[60, 3600, 86400, -86400, 7, -7, 999, 1001, 1_000_000_007]),
            2 => self.r.range(-1000, 1000),
            _ => {
                let x = self.r.logu(63) as i64;
                if self.r.chance(1, 2) { x } else { -x }
            }
        };
        let pe = if self.r.chance(1, 2) { 0 } else { *self.r.pick(&[1, 3, 6, 9, 9, 12, 18]) };
        (pk, pv, pe)
    }
    /// An instant for conversions between types: mostly of a signed type, before and after 1970.
    fn conv_wide(&mut self, t: usize, slot: i64) -> usize {
        let ty = self.r.weighted(&[6, 6, 3, 3, 2]);
        let sc = self.r.weighted(&[4, 3, 6, 2, 2]);
        let (s, n) = self.clock_value(ty, sc);
        self.op(t, CONV, &[slot, ty as i64, sc as i64, s, n])
    }
    fn any_op(&mut self, t: usize) -> usize {
        if self.r.chance(1, 16) {
            return if self.r.chance(1, 2) { self.tick(t, 0, 5) } else { self.dur(t, 0, 5) };
        }
        match self.r.weighted(&[4, 4, 3, 4, 6, 1, 1, 1, 1]) {
            0 => {
                let (s, z) = (self.r.range(0, 3), self.zone());
                self.load(t, s, z)
            }
            1 => {
                let s = self.r.range(0, 5);
                self.conv(t, s)
            }
            2 => {
                let s = self.r.range(0, 9);
                let c = if self.r.chance(1, 2) { -1 } else { self.r.range(0, 3) };
                self.build_valid(t, s, c)
            }
            3 => {
                let s = self.r.range(0, 9);
                let c = self.r.range(0, 3);
                self.build_any(t, s, c)
            }
            4 => self.arith(t, &[3, 1, 1, 1, 1, 1], &[0, 0, 1, 3]).unwrap_or_else(|| 0),
            5 => {
                let (a, b) = (self.r.range(0, 9), self.r.range(0, 9));
                self.op(t, CMPD, &[a, b])
            }
            6 => {
                let (a, b) = (self.r.range(0, 9), self.tweak());
                self.op(t, EQFRESH, &[a, b])
            }
            7 => {
                let (a, b) = (self.r.range(0, 5), self.r.range(0, 5));
                self.op(t, CMPI, &[a, b])
            }
            _ => {
                let (k, a, b) = (self.r.range(0, 1), self.r.range(0, 3), self.r.range(0, 3));
                if self.r.chance(1, 4) {
                    self.op(t, CMPC, &[a, b, self_n(k)])
                } else if self.r.chance(1, 2) {
                    self.op(t, CLONE, &[k, a, b])
                } else {
                    self.op(t, DROP, &[k, a])
                }
            }
        }
    }
    fn tweak(&mut self) -> i64 {
        match self.r.below(6) {
            0..=1 => 0,
            2..=3 => self.r.range(1, 49),
            _ => {
                let unit = self.r.range(0, 7);
                let d = match self.r.below(4) {
                    0 => *self.r.pick(&[10, 59, 60, 100, 12, 24, 31, 365, 366, 999, 1000, 1001, 48, 1461]),
                    1 => 1 + self.r.logu(10) as i64,
                    _ => self.r.range(1, 9),
                };
                100 + ((d - 1) * 2 + self.r.range(0, 1)) * 8 + unit
            }
        }
    }
    /// The same operations, shared out among several threads.
    /// A long-running client: the same round of operations, with the same faults and updates, again and again.
    fn soak(&mut self, t: usize) {
        let m = self.r.range(1, 6);
        let heal = self.r.chance(2, 3);
        for _ in 0..m {
            let o = match self.r.below(8) {
                0..=1 => {
                    let (s, z) = (self.r.range(0, 3), self.any_zone());
                    self.load(t, s, z)
                }
                2 => {
                    let s = self.r.range(0, 5);
                    self.conv(t, s)
                }
                3 => {
                    let s = self.r.range(0, 9);
                    self.build_any(t, s, -1)
                }
                _ => self.any_op(t),
            };
            match self.r.below(9) {
                0..=1 => self.hard(t, o),
                2 => {
                    let (z, mid) = (self.r.range(0, 1), self.r.chance(1, 3));
                    self.damage(t, o, z, mid)
                }
                3 => self.soft(t, o),
                4 => self.repair(t, o),
                5 => {
                    let mid = self.r.chance(1, 2);
                    self.update(t, o, mid)
                }
                6 => self.clock_event(t, o, false),
                _ => {}
            }
        }
        if heal {
            self.repair(t, 0);
        }
        self.op(t, ROUND, &[]);
        let body = self.p.tasks[t].clone();
        let evs: Vec<Ev> = self.p.evs.iter().filter(|e| e.t == t as i64).cloned().collect();
        // a conversion may be of a later time in every round, a distance longer
        let step: Vec<i64> = body.iter().map(|_| *self.r.pick(&[0, 0, 1, 60, 86400, 31_536_000])).collect();
        let n = if self.r.chance(1, 4) { self.r.range(40, 90) } else { self.r.range(18, 28) };
        for k in 1..n {
            for (o, st) in body.iter().zip(&step) {
                let mut o = o.clone();
                match o.k {
                    CONV => o.a[3] = o.a[3].saturating_add(k * st),
                    SEC => o.a[2] = o.a[2].saturating_add(k * st),
                    _ => {}
                }
                self.p.tasks[t].push(o);
            }
            for e in &evs {
                let mut e = e.clone();
                e.o += k * body.len() as i64;
                self.p.evs.push(e);
            }
        }
    }
    /// Anything, with anything going wrong meanwhile.
    fn mixture(&mut self, t: usize, m: usize) {
        for _ in 0..m {
            let o = match self.r.below(4) {
                0 => {
                    let (s, z) = (self.r.range(0, 3), self.any_zone());
                    self.load(t, s, z)
                }
                1 => match self.arith(t, &[3, 1, 1, 1, 1, 1], &[0, 0, 1, 3]) {
                    Some(o) => o,
                    None => {
                        let c = self.r.range(-1, 3);
                        let s = self.r.range(0, 9);
                        self.build_valid(t, s, c)
                    }
                },
                _ => self.any_op(t),
            };
            match self.r.below(12) {
                0 => self.hard(t, o),
                1 => {
                    let (z, mid) = (self.r.range(0, 1), self.r.chance(1, 3));
                    self.damage(t, o, z, mid)
                }
                2 => self.soft(t, o),
                3..=4 => self.repair(t, o),
                5 => {
                    let mid = self.r.chance(1, 2);
                    self.update(t, o, mid)
                }
                6 => {
                    let mid = self.r.chance(1, 2);
                    self.clock_event(t, o, mid)
                }
                _ => {}
            }
        }
    }
    fn scatter(&mut self) {
        if self.p.tasks.len() != 1 || self.p.tasks[0].len() < 2 {
            return;
        }
        let ops = std::mem::take(&mut self.p.tasks[0]);
        let nt = (self.r.range(2, 3) as usize).min(ops.len());
        let mut cuts: Vec<usize> = (1..nt).map(|_| self.r.range(1, ops.len() as i64 - 1) as usize).collect();
        cuts.sort();
        cuts.dedup();
        let whose = |o: usize| cuts.iter().filter(|c| o >= **c).count();
        let first = |t: usize| if t == 0 { 0 } else { cuts[t - 1] };
        for e in self.p.evs.iter_mut() {
            let t = whose(e.o as usize);
            (e.t, e.o) = (t as i64, e.o - first(t) as i64);
        }
        self.p.tasks = vec![vec![]; cuts.len() + 1];
        for (i, o) in ops.into_iter().enumerate() {
            self.p.tasks[whose(i)].push(o);
        }
        self.preempts();
    }
    fn preempts(&mut self) {
        let nt = self.p.tasks.len();
        if nt > 1 && self.r.chance(1, 6) {
            self.lockstep(nt);
        }
        for t in 0..nt {
            let no = self.p.tasks[t].len();
            if no == 0 {
                continue;
            }
            for _ in 0..self.r.range(0, 2 + 2 * no as i64) {
                let o = self.r.below(no as u64) as i64;
                let (pt, n) = match self.r.below(9) {
                    0 => (P_START, 0),
                    1..=2 => (P_SYS, self.r.range(1, 14)),
                    6..=8 => (P_AFT, self.after()),
                    3 => (P_BB, 1 + self.r.range(0, 60)),
                    _ => (P_BB, 1 + self.r.logu(12) as i64),
                };
                let to = self.r.below(nt as u64) as i64;
                self.p.pres.push(Pre { t: t as i64, o, pt, n, to });
            }
        }
    }
    /// Two threads that take turns every few blocks, from some system call of an operation of each on.
    fn lockstep(&mut self, nt: usize) {
        let t1 = self.r.below(nt as u64) as usize;
        let t2 = (t1 + 1 + self.r.below(nt as u64 - 1) as usize) % nt;
        let (n1, n2) = (self.p.tasks[t1].len(), self.p.tasks[t2].len());
        if n1 == 0 || n2 == 0 {
            return;
        }
        // Operations of the same kind, if there are any, are in the same place of the code.
        let o1 = self.r.below(n1 as u64) as usize;
        let same: Vec<usize> = (0..n2).filter(|&o| self.p.tasks[t2][o].k == self.p.tasks[t1][o1].k).collect();
        let o2 = if same.is_empty() || self.r.chance(1, 4) { self.r.below(n2 as u64) as usize } else { *self.r.pick(&same) };
        let m = self.r.range(1, 14);
        let d1 = 1 + self.r.logu(3) as i64;
        let d2 = if self.r.chance(1, 2) { d1 } else { 1 + self.r.logu(3) as i64 };
        let k = self.r.range(5, 40);
        for (t, o, d, to) in [(t1, o1, d1, t2), (t2, o2, d2, t1)] {
            self.p.pres.push(Pre { t: t as i64, o: o as i64, pt: P_SYS, n: m, to: to as i64 });
            for i in 1..=k {
                self.p.pres.push(Pre { t: t as i64, o: o as i64, pt: P_AFT, n: m * AFT + i * d, to: to as i64 });
            }
        }
    }
    /// Background changes for properties that are about something else.
    fn background(&mut self, t: usize, o: usize) {
        match self.r.below(16) {
            0 => self.update(t, o, false),
            1 => self.update(t, o, true),
            2 => {
                let mid = self.r.chance(1, 2);
                self.clock_event(t, o, mid)
            }
            3 => self.soft(t, o),
            _ => {}
        }
    }
}
fn g_slot(i: usize) -> i64 {
    i as i64 % 4
}
fn self_n(n: i64) -> i64 {
    n.min(2)
}

pub fn gen(prop: usize, seed: u64) -> Plan {
    let mut g = G {
        r: Rng::new(seed),
        p: Plan::new(),
        ch: vec![None; 12],
        dt: vec![None; 12],
        tz: 0,
        cur: vec![0; NDIR],
        force: None,
        kept: vec![],
        held: vec![],
    };
    let n = |g: &mut G, a: i64, b: i64| g.r.range(a, b) as usize;
    match prop {
        // C01
        0 => {
            let k = n(&mut g, 1, 3);
            g.tables(k);
            g.layout(true);
            for i in 0..n(&mut g, 3, 12) {
                let o = g.conv(0, i as i64 % 6);
                g.background(0, o);
                if g.r.chance(1, 20) {
                    g.hard(0, o);
                }
            }
        }
        // C02
        1 => {
            g.host(1, 8);
            let k = n(&mut g, 1, 2);
            g.tables(k);
            g.layout(false);
            let m = n(&mut g, 2, 6);
            // clock values close to each other, at several resolutions
            let (s0, n0) = g.clock_value(0, 2);
            for i in 0..m {
                let ty = g.r.weighted(&[6, 6, 3, 3]) as i64;
                let sc = g.r.weighted(&[4, 3, 6]) as i64;
                let (s, ns) = match g.r.below(4) {
                    0 => (s0, n0),
                    1 => (s0, g.ns()),
                    2 => (s0.saturating_add(g.r.range(-2, 2)), g.ns()),
                    _ => g.clock_value(ty as usize, sc as usize),
                };
                let o = g.op(0, CONV, &[i as i64, ty, sc, s, ns]);
                g.background(0, o);
            }
            for _ in 0..n(&mut g, 2, 8) {
                let (a, b) = (g.r.range(0, m as i64 - 1), g.r.range(0, m as i64 - 1));
                if g.r.chance(1, 4) {
                    // the same moment at another resolution or width
                    let (c, kind, ty, sc) = (m as i64 + g.r.range(0, 2), *g.r.pick(&[0, 2, 2, 3, 5, 6]), g.r.range(0, 4), g.r.range(0, 4));
                    g.op(0, TICK, &[c, a, kind, ty, sc, 0, 0, 0]);
                    g.op(0, CMPI, &[a, c]);
                    g.op(0, CMPI, &[c, b]);
                }
                g.op(0, CMPI, &[a, b]);
            }
        }
        // C03
        2 => {
            g.host(3, 4);
            let k = n(&mut g, 1, 3);
            g.tables(k);
            if g.p.right == 1 {
                g.p.host = g.r.range(0, k as i64 - 1);
            }
            g.layout(true);
            // a clock that is only set some time after the start
            let mut set_at = 0;
            if g.r.chance(1, 5) {
                let first = (g.p.tables[g.p.host as usize][0].0 as i64 + 1) * 86400;
                let to = g.p.now - first;
                g.p.now = *g.r.pick(&[0, 1, 100, 3600, 86399, 86400, 40_000_000, first - 1, first]);
                g.p.now = g.p.now.min(first);
                set_at = g.r.range(1, 4);
                g.p.evs.push(Ev { t: 0, o: set_at, pt: P_START, n: 0, act: A_STEP, a: [first + to - g.p.now, 0, 0, 0, 0] });
            }
            for i in 0..n(&mut g, 2, 8) {
                let o = g.conv(0, i as i64 % 6);
                if (o as i64) > set_at && g.r.chance(1, 2) {
                    let mid = g.r.chance(1, 2);
                    g.clock_event(0, o, mid);
                }
                if g.p.right == 1 && g.r.chance(1, 6) {
                    g.damage(0, o, 0, false);
                }
            }
        }
        // C04
        3 => {
            g.host(1, 3);
            g.tables(1);
            g.layout(false);
            let vals: Vec<(i64, i64, i64, i64)> = (0..n(&mut g, 1, 3))
                .map(|_| {
                    let ty = g.r.weighted(&[8, 6, 3, 3]) as i64;
                    let sc = g.r.weighted(&[5, 3, 6]) as i64;
                    let (s, ns) = g.clock_value(ty as usize, sc as usize);
                    (ty, sc, s, ns)
                })
                .collect();
            for i in 0..n(&mut g, 4, 12) {
                let o = match g.r.below(8) {
                    0 => {
                        let (s, z) = (g.r.range(0, 3), g.zone());
                        g.load(0, s, z)
                    }
                    1 => g.conv(0, i as i64 % 6),
                    2 => g.build_valid(0, 0, -1),
                    _ => {
                        let v = *g.r.pick(&vals);
                        g.op(0, CONV, &[i as i64 % 6, v.0, v.1, v.2, v.3])
                    }
                };
                for _ in 0..g.r.range(0, 2) {
                    let mid = g.r.chance(2, 3);
                    g.clock_event(0, o, mid);
                }
                if g.r.chance(1, 10) {
                    g.hard(0, o);
                }
            }
        }
        // C05
        4 => {
            g.host(1, 8);
            let k = n(&mut g, 2, 4);
            g.tables(k);
            g.layout(true);
            let nc = n(&mut g, 1, 3);
            for c in 0..nc {
                let z = g.zone();
                let o = g.load(0, c as i64, z);
                if c > 0 {
                    g.update(0, o, false);
                }
                if g.r.chance(1, 3) {
                    g.op(0, PROBE, &[c as i64]);
                }
                for _ in 0..g.r.range(1, 3) {
                    let s = g.r.range(0, 9);
                    g.build_valid(0, s, c as i64);
                }
            }
            for _ in 0..n(&mut g, 4, 14) {
                let o = match g.r.below(10) {
                    0 => {
                        let c = g.r.range(0, nc as i64 - 1);
                        g.op(0, PROBE, &[c])
                    }
                    1 => {
                        let z = g.zone();
                        g.load(0, 3, z)
                    }
                    2 => g.conv(0, 0),
                    3 => {
                        let (s, c) = (g.r.range(0, 9), g.r.range(0, nc as i64 - 1));
                        g.build_any(0, s, c)
                    }
                    4 => g.build_valid(0, 9, -1),
                    5 => {
                        let (a, b) = (g.r.range(0, 9), g.tweak());
                        g.op(0, EQFRESH, &[a, b])
                    }
                    _ => match g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 0, 1, 3]) {
                        Some(o) => o,
                        None => g.build_valid(0, 0, 0),
                    },
                };
                match g.r.below(6) {
                    0..=1 => {
                        let mid = g.r.chance(1, 2);
                        g.update(0, o, mid)
                    }
                    2 => {
                        let mid = g.r.chance(1, 2);
                        let z = g.r.range(0, 1);
                        g.damage(0, o, z, mid)
                    }
                    3 => g.clock_event(0, o, false),
                    _ => {}
                }
            }
            for c in 0..nc {
                g.op(0, PROBE, &[c as i64]);
            }
        }
        // C06
        5 => {
            let k = n(&mut g, 2, 4);
            g.tables(k);
            g.layout(true);
            for i in 0..n(&mut g, 3, 10) {
                let o = match g.r.below(5) {
                    0..=1 => {
                        let (s, z) = (g.r.range(0, 3), g.zone());
                        let o = g.load(0, s, z);
                        g.op(0, PROBE, &[s]);
                        o
                    }
                    2 => {
                        let c = -1;
                        let s = g.r.range(0, 9);
                        let o = g.build_valid(0, s, c);
                        if g.r.chance(1, 2) {
                            g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 1]);
                        }
                        o
                    }
                    3 => {
                        let s = g.r.range(0, 9);
                        g.build_any(0, s, -1)
                    }
                    _ => g.conv(0, i as i64 % 6),
                };
                if !g.held.is_empty() && g.r.chance(1, 2) {
                    let o = g.finish(0);
                    if g.r.chance(1, 2) {
                        g.update(0, o, false);
                    }
                }
                if g.r.chance(3, 5) {
                    let mid = g.r.chance(1, 2);
                    g.update(0, o, mid);
                }
                if g.r.chance(1, 5) {
                    g.update(0, o, true);
                }
                if g.r.chance(1, 8) {
                    g.clock_event(0, o, false);
                }
                if g.r.chance(1, 10) {
                    g.soft(0, o);
                }
            }
        }
        // C07
        6 => {
            let k = n(&mut g, 1, 3);
            g.tables(k);
            g.layout(true);
            if g.r.chance(1, 4) {
                let (kind, arg) = g.bad_kind();
                let (d, z) = (g.tz as i64, g.r.range(0, 1));
                g.p.files.retain(|f| !(f.dir == d && f.zone == z));
                g.p.files.push(File { dir: d, zone: z, kind, table: 0, variant: 1, arg });
            }
            for i in 0..n(&mut g, 3, 10) {
                let o = match g.r.below(8) {
                    0..=2 => {
                        let (s, z) = (g.r.range(0, 3), g.r.range(0, 1));
                        let o = g.load(0, s, z);
                        g.op(0, PROBE, &[s]);
                        o
                    }
                    3 => {
                        let s = g.r.range(0, 9);
                        let o = g.build_valid(0, s, -1);
                        g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 1]);
                        o
                    }
                    4..=5 => g.conv(0, i as i64 % 6),
                    6 => g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 1]).unwrap_or(0),
                    _ => {
                        let s = g.r.range(0, 3);
                        g.op(0, PROBE, &[s])
                    }
                };
                match g.r.below(8) {
                    0..=2 => {
                        let mid = g.r.chance(1, 3);
                        let z = if g.r.chance(3, 4) { 0 } else { 1 };
                        g.damage(0, o, z, mid);
                        // and perhaps repaired before the next one
                        if g.r.chance(1, 2) {
                            let z = g.r.range(0, 1);
                            let o2 = g.load(0, 2, z);
                            g.repair(0, o2);
                            g.op(0, PROBE, &[2]);
                        }
                    }
                    3..=4 => {
                        for _ in 0..g.r.range(1, 2) {
                            g.hard(0, o);
                        }
                    }
                    5 => {
                        let mid = g.r.chance(1, 3);
                        g.update(0, o, mid)
                    }
                    6 => g.repair(0, o),
                    _ => {}
                }
                if g.r.chance(1, 8) {
                    g.soft(0, o);
                }
            }
        }
        // C08
        7 => {
            let k = n(&mut g, 1, 2);
            g.tables(k);
            g.layout(false);
            for i in 0..n(&mut g, 1, 6) {
                let o = match g.r.below(4) {
                    0..=1 => {
                        let (s, z) = (g.r.range(0, 3), g.zone());
                        let o = g.load(0, s, z);
                        g.op(0, PROBE, &[s]);
                        o
                    }
                    2 => {
                        let s = g.r.range(0, 9);
                        g.build_valid(0, s, -1)
                    }
                    _ => g.conv(0, i as i64 % 6),
                };
                for _ in 0..g.r.range(1, 3) {
                    g.soft(0, o);
                }
                if g.r.chance(1, 6) {
                    g.update(0, o, true);
                }
            }
        }
        // C09..C12
        8..=11 => {
            g.host(1, 10);
            let k = n(&mut g, 1, 3);
            g.tables(k);
            let chain = if g.r.chance(if prop == 11 { 3 } else { 1 }, 12) { g.chain() } else { None };
            g.layout(true);
            let nc = n(&mut g, 1, 2);
            for c in 0..nc {
                let z = g.zone();
                let o = g.load(0, c as i64, z);
                g.background(0, o);
            }
            if let Some((day, kind, amount)) = chain {
                g.force = Some(day);
                g.build_valid(0, 8, 0);
                g.force = None;
                let post = *g.r.pick(&[1, 1, 0, 2]);
                let form = g.form();
                g.op(0, CAL, &[9, 8, kind, amount, form, post]);
            }
            for _ in 0..n(&mut g, 1, 4) {
                let (s, c) = (g.r.range(0, 9), if g.r.chance(1, 8) { -1 } else { g.r.range(0, nc as i64 - 1) });
                let o = g.build_valid(0, s, c);
                g.background(0, o);
            }
            let (w, posts): ([u64; 6], &[i64]) = match prop {
                8 => ([12, 1, 1, 1, 1, 1], &[0, 1]),
                9 => ([2, 5, 5, 5, 1, 1], &[0, 0, 0, 3]),
                10 => ([2, 1, 1, 1, 5, 5], &[0, 0, 0, 3]),
                _ => ([1, 4, 4, 3, 2, 3], &[1, 1, 1, 2, 3, 0]),
            };
            for _ in 0..n(&mut g, 4, 16) {
                let o = match g.arith(0, &w, posts) {
                    Some(o) => o,
                    None => {
                        let (s, c) = (g.r.range(0, 9), g.r.range(0, nc as i64 - 1));
                        g.build_valid(0, s, c)
                    }
                };
                g.background(0, o);
                if g.r.chance(1, 10) {
                    let s = g.r.range(0, 9);
                    let tw = g.tweak();
                    g.op(0, EQFRESH, &[s, tw]);
                }
                if g.r.chance(1, 8) {
                    let (s, c) = (g.r.range(0, 9), g.r.range(0, nc as i64 - 1));
                    g.build_valid(0, s, c);
                }
            }
        }
        // C13
        12 => {
            let k = n(&mut g, 1, 3);
            g.tables(k);
            g.layout(true);
            let nc = n(&mut g, 1, 2);
            for c in 0..nc {
                let z = g.zone();
                let o = g.load(0, c as i64, z);
                g.background(0, o);
            }
            for _ in 0..n(&mut g, 6, 20) {
                let s = g.r.range(0, 9);
                let c = if g.r.chance(1, 5) { -1 } else { g.r.range(0, nc as i64 - 1) };
                let o = if g.r.chance(1, 4) { g.build_valid(0, s, c) } else { g.build_any(0, s, c) };
                g.background(0, o);
                if g.r.chance(1, 8) {
                    g.op(0, READ, &[s]);
                }
                if g.r.chance(1, 12) {
                    g.hard(0, o);
                }
                if g.r.chance(1, 6) {
                    // the first moment of the unit: same as the full date-time reached by arithmetic
                    g.sec_op(0, 9, s);
                }
            }
        }
        // C14
        13 => {
            let k = n(&mut g, 1, 2);
            g.tables(k);
            g.layout(false);
            let z = g.zone();
            g.load(0, 0, z);
            for _ in 0..n(&mut g, 1, 3) {
                let s = g.r.range(0, 9);
                g.build_valid(0, s, 0);
            }
            for _ in 0..n(&mut g, 5, 16) {
                let o = match g.r.below(8) {
                    0 => {
                        let s = g.r.range(0, 9);
                        g.build_valid(0, s, 0)
                    }
                    1..=2 => {
                        let (a, b) = (g.have_dt().unwrap_or(0), g.have_dt().unwrap_or(0));
                        g.op(0, CMPD, &[a, b])
                    }
                    3..=4 => {
                        let (a, b) = (g.have_dt().unwrap_or(0), g.tweak());
                        g.op(0, EQFRESH, &[a, b])
                    }
                    5 => {
                        // there and back again
                        match g.have_dt() {
                            Some(s) => {
                                let x = g.r.range(-200_000, 200_000);
                                let a = g.op(0, SEC, &[10, s, x, 0]);
                                g.op(0, SEC, &[11, 10, -x, 0]);
                                g.op(0, CMPD, &[s, 11]);
                                g.op(0, EQFRESH, &[11, 0]);
                                a
                            }
                            None => g.build_valid(0, 0, 0),
                        }
                    }
                    6 => {
                        let (a, b) = (g.have_dt().unwrap_or(0), g.r.range(0, 9));
                        g.dt[b as usize] = g.dt[a as usize];
                        g.op(0, CLONE, &[1, a, b])
                    }
                    _ => match g.arith(0, &[3, 1, 1, 2, 1, 2], &[0, 1, 3]) {
                        Some(o) => o,
                        None => g.build_valid(0, 0, 0),
                    },
                };
                g.background(0, o);
            }
        }
        // C15
        14 => {
            g.host(1, 10);
            let k = n(&mut g, 1, 3);
            g.tables(k);
            g.layout(true);
            if g.r.chance(1, 2) {
                // zones that can be told from each other by their files
                for z in 1..NZ as i64 {
                    let tb = g.r.range(0, k as i64 - 1);
                    let (kind, arg) = if g.r.chance(1, 6) { g.bad_kind() } else { (F_GOOD, 0) };
                    let (d, v) = (g.p.tzdir, g.variant());
                    g.p.files.push(File { dir: d, zone: z, kind, table: tb, variant: v, arg });
                }
            }
            let nt = *g.r.pick(&[2, 2, 3, 4]);
            let hot = g.r.below(5);
            for t in 0..nt {
                let m = n(&mut g, 1, 6);
                for i in 0..m {
                    let o = match hot {
                        // everybody loads
                        0 if g.r.chance(2, 3) => {
                            let (s, z) = (g.r.range(0, 3), g.zone());
                            g.load(t, s, z)
                        }
                        // everybody converts
                        1 if g.r.chance(2, 3) => g.conv(t, (t * 2 + i) as i64 % 8),
                        // everybody uses one chronology
                        2 => {
                            if t == 0 && i == 0 {
                                let z = g.zone();
                                g.load(t, 0, z)
                            } else if g.r.chance(1, 3) {
                                let s = g.r.range(0, 9);
                                g.build_valid(t, s, 0)
                            } else {
                                match g.arith(t, &[3, 1, 1, 2, 1, 2], &[0, 1, 3]) {
                                    Some(o) => o,
                                    None => g.build_valid(t, 0, 0),
                                }
                            }
                        }
                        // one thread's calls are refused while the others go on
                        4 if t == 1 => {
                            let o = if g.r.chance(2, 3) {
                                let (s, z) = (g.r.range(0, 3), g.zone());
                                g.load(t, s, z)
                            } else {
                                g.conv(t, 10 + i as i64 % 4)
                            };
                            if g.r.chance(1, 2) {
                                g.hard(t, o);
                            } else {
                                g.damage(t, o, 0, false);
                                // whole again before this thread goes on
                                let o2 = match g.r.below(3) {
                                    0 => g.conv(t, 14),
                                    _ => g.op(t, PROBE, &[g_slot(i)]),
                                };
                                g.repair(t, o2);
                            }
                            o
                        }
                        4 if g.r.chance(4, 5) => match g.r.below(3) {
                            0 => {
                                let (s, z) = (g.r.range(0, 3), g.zone());
                                g.load(t, s, z)
                            }
                            1 => g.conv(t, (t * 2 + i) as i64 % 8),
                            _ => {
                                let s = g.r.range(0, 9);
                                g.build_valid(t, s, -1)
                            }
                        },
                        _ => {
                            let before = g.p.tasks.get(t).map_or(0, |x| x.len());
                            let o = g.any_op(t);
                            if g.p.tasks.get(t).map_or(0, |x| x.len()) == before {
                                g.build_valid(t, 0, -1)
                            } else {
                                o
                            }
                        }
                    };
                    if hot == 4 {
                        continue;
                    }
                    match g.r.below(14) {
                        0 => g.update(t, o, true),
                        1 => g.update(t, o, false),
                        2 => g.hard(t, o),
                        3 => g.soft(t, o),
                        4 => g.clock_event(t, o, true),
                        5 => {
                            g.damage(t, o, 0, false);
                            let s = g.r.range(0, 3);
                            let o2 = g.load(t, s, 0);
                            g.repair(t, o2);
                        }
                        _ => {}
                    }
                }
                if g.r.chance(1, 3) {
                    let s = g.r.range(0, 3);
                    g.op(t, PROBE, &[s]);
                }
            }
            g.preempts();
        }
        // C16
        15 => {
            let k = n(&mut g, 1, 2);
            g.tables(k);
            g.layout(true);
            for i in 0..n(&mut g, 3, 12) {
                let o = match g.r.below(6) {
                    0..=1 => {
                        let (s, z) = (g.r.range(0, 3), g.any_zone());
                        g.load(0, s, z)
                    }
                    2 => {
                        let s = g.r.range(0, 9);
                        g.build_any(0, s, -1)
                    }
                    3 => g.conv(0, i as i64 % 6),
                    4 => g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 1]).unwrap_or(0),
                    _ => {
                        let (k, s) = (g.r.range(0, 1), g.r.range(0, 9));
                        g.op(0, DROP, &[k, s])
                    }
                };
                match g.r.below(8) {
                    0..=1 => g.hard(0, o),
                    2 => {
                        let (z, mid) = (g.r.range(0, 1), g.r.chance(1, 3));
                        g.damage(0, o, z, mid)
                    }
                    3 => g.soft(0, o),
                    4 => g.repair(0, o),
                    5 => {
                        let mid = g.r.chance(1, 2);
                        g.update(0, o, mid)
                    }
                    _ => {}
                }
            }
        }
        // C18, C19
        17 | 18 => {
            g.host(1, 6);
            let k = n(&mut g, 1, 2);
            g.tables(k);
            g.layout(false);
            let m = n(&mut g, 1, 5);
            for i in 0..m {
                let o = g.conv_wide(0, i as i64);
                g.background(0, o);
            }
            let hi = m as i64 - 1;
            for _ in 0..n(&mut g, 6, 24) {
                let o = match (prop, g.r.below(8)) {
                    (_, 0) => {
                        let s = g.r.range(0, hi);
                        g.conv_wide(0, s)
                    }
                    (17, 1) => {
                        let (a, b) = (g.r.range(0, hi), g.r.range(0, hi));
                        g.op(0, CMPI, &[a, b])
                    }
                    (17, 2) | (18, 3..) => g.dur(0, 0, hi),
                    _ => g.tick(0, 0, hi),
                };
                if g.r.chance(1, 6) {
                    g.background(0, o);
                }
            }
        }
        // C20
        19 => {
            g.host(1, 10);
            let k = n(&mut g, 1, 4);
            g.tables(k);
            g.layout(true);
            let nc = n(&mut g, 2, 5) as i64;
            for c in 0..nc {
                let z = g.zone();
                let o = g.load(0, c, z);
                if c > 0 && g.r.chance(2, 3) {
                    let mid = g.r.chance(1, 4);
                    g.update(0, o, mid);
                }
            }
            // the same moment on several chronologies
            let (day, sec) = g.civil(0);
            let (ns, prec) = g.frac();
            let f = model::fields(&Dt { day, sec, ns, prec });
            for c in 0..nc {
                let slot = g.r.range(0, 9);
                let v = [slot, c, prec, f.y, f.mo, f.d, f.h, f.mi, f.s, ns / 1_000_000, ns / 1000 % 1000, ns % 1000, 0];
                g.op(0, BUILD, &v);
            }
            for _ in 0..n(&mut g, 4, 16) {
                let (a, b) = (g.r.range(0, nc - 1), g.r.range(0, nc - 1));
                let o = match g.r.below(12) {
                    0..=3 => {
                        let c = g.r.range(0, 3);
                        g.op(0, CMPC, &[a, b, c])
                    }
                    4..=6 => {
                        let (a, b) = (g.r.range(0, 9), g.r.range(0, 9));
                        g.op(0, CMPD, &[a, b])
                    }
                    7 => {
                        let z = g.zone();
                        g.load(0, a, z)
                    }
                    8 => g.op(0, CLONE, &[0, a, b]),
                    9 => {
                        let (s, c) = (g.r.range(0, 9), if g.r.chance(1, 3) { -1 } else { a });
                        let v = [s, c, prec, f.y, f.mo, f.d, f.h, f.mi, f.s, ns / 1_000_000, ns / 1000 % 1000, ns % 1000, 0];
                        g.op(0, BUILD, &v)
                    }
                    10 => g.op(0, DROP, &[0, a]),
                    _ => match g.arith(0, &[3, 1, 1, 2, 1, 2], &[0, 1]) {
                        Some(o) => o,
                        None => g.build_valid(0, 0, 0),
                    },
                };
                g.background(0, o);
                if g.r.chance(1, 5) {
                    g.update(0, o, false);
                }
            }
        }
        // C21, C22, C23
        20..=22 => {
            g.host(1, 6);
            let k = n(&mut g, 1, 3);
            g.tables(k);
            g.layout(true);
            let nt = if g.r.chance(1, 4) { n(&mut g, 2, 3) } else { 1 };
            let soak = prop == 20 || prop == 21 && g.r.chance(1, 2);
            for t in 0..nt {
                g.p.tasks.resize(t + 1, vec![]);
                if soak {
                    g.soak(t);
                } else {
                    let m = n(&mut g, 3, 14);
                    g.mixture(t, m);
                }
            }
            if nt > 1 {
                g.preempts();
            }
        }
        // C17
        _ => {
            let k = n(&mut g, 2, 4);
            g.tables(k);
            g.p.tzdir = g.r.range(0, 2);
            g.tz = g.p.tzdir as usize;
            g.now();
            // a partly updated or partly damaged database
            for z in 1..NZ as i64 {
                if g.r.chance(2, 3) {
                    let tb = g.r.range(0, k as i64 - 1);
                    let (kind, arg) = if g.r.chance(1, 4) { g.bad_kind() } else { (F_GOOD, 0) };
                    let (d, v) = (g.p.tzdir, g.variant());
                    g.p.files.push(File { dir: d, zone: z, kind, table: tb, variant: v, arg });
                }
            }
            for _ in 0..n(&mut g, 2, 8) {
                let (s, z) = (g.r.range(0, 3), g.any_zone());
                let o = g.load(0, s, z);
                g.op(0, PROBE, &[s]);
                if g.r.chance(1, 3) {
                    let sl = g.r.range(0, 9);
                    g.build_valid(0, sl, s);
                    g.arith(0, &[4, 1, 1, 2, 1, 2], &[0, 1]);
                }
                match g.r.below(6) {
                    0 => {
                        let (z, tb, v) = (g.r.range(0, NZ as i64 - 1), g.r.range(0, k as i64 - 1), g.variant());
                        let (pt, m) = {
                            let mid = g.r.chance(1, 3);
                            g.when(mid)
                        };
                        let d = g.tz as i64;
                        if z == 0 {
                            g.cur[g.tz] = tb as usize;
                        }
                        g.ev(0, o, pt, m, A_PUBLISH, [d, z, tb, v, 0]);
                    }
                    1 => {
                        let z = g.r.range(1, NZ as i64 - 1);
                        g.damage(0, o, z, false)
                    }
                    _ => {}
                }
            }
        }
    }
    let last = g.p.tasks.len().max(1) - 1;
    while !g.held.is_empty() {
        let o = g.finish(last);
        g.background(last, o);
    }
    for c in std::mem::take(&mut g.kept) {
        let post = g.r.range(0, 3);
        let o = g.op(last, APPLY, &[c, 9, post]);
        g.background(last, o);
    }
    if g.p.tasks.iter().all(|t| t.is_empty()) {
        g.load(0, 0, 0);
    }
    if prop != 14 && prop != 20 && g.r.chance(1, 10) {
        g.scatter();
    }
    g.p
}
