//! Executes a plan's operations against the real library and judges every answer against the reference model.
use crate::model::{self, BuildErr, Dt};
use crate::plan::*;
use crate::shm::*;
use crate::world::*;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use momentous::{Duration as MDuration, Instant, InstantNs128, Nanoseconds, Scale};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::{Duration, SystemTime};

pub const NSLOT: usize = 12;

pub struct ChronObj {
    id: usize,
    handle: Option<Chronology>,
    cand: UnsafeCell<Vec<usize>>,
    tainted: bool,
}
impl ChronObj {
    #[allow(clippy::mut_from_ref)]
    fn cand(&self) -> &mut Vec<usize> {
        unsafe { &mut *self.cand.get() }
    }
}
pub struct DtObj {
    dt: DateTime,
    chron: Arc<ChronObj>,
    vals: Vec<(usize, Dt)>,
}
#[derive(Clone)]
pub struct InstObj {
    ty: usize,
    sc: usize,
    ticks: i128,
    clock: i128,       // clock value in ns
    tables: Vec<usize>, // tables the conversion may have used (posix host)
    memo: bool,
    derived: bool, // reached from another instant
}
/// A calendar result whose carry is still to be used.
pub struct CalObj {
    c: DateTimeWithCarry,
    chron: Arc<ChronObj>,
    vals: Vec<(usize, model::Cal)>,
    what: String,
}
/// A builder with its fields set.
pub struct HoldObj {
    b: DateTimeBuilder,
    chron: Option<Arc<ChronObj>>,
    f: [i64; 9],
    n: usize,
}
pub struct Slots {
    cal: Vec<Option<Arc<CalObj>>>,
    hold: Vec<Option<HoldObj>>,
    chron: Vec<Option<Arc<ChronObj>>>,
    dt: Vec<Option<Arc<DtObj>>>,
    inst: Vec<Option<InstObj>>,
    ids: usize,
    ceq: Vec<(usize, usize, bool)>, // answers to comparisons of chronologies
    memo: Vec<(i128, usize, usize, usize, i128)>, // clock, type, scale, table -> ticks
}
static mut S: *mut Slots = std::ptr::null_mut();
fn s() -> &'static mut Slots {
    unsafe { &mut *S }
}

fn new_id() -> usize {
    s().ids += 1;
    s().ids
}
/// Most basic blocks a call may take: more than ten times what any call takes.
const PURE_WORK: u64 = 20_000;
const IO_WORK: u64 = 2_500_000;
/// The most memory a call may hold at a time.
const IO_MEMORY: u64 = 16 << 20;
/// So many rounds in a row, each taking more than the one before, are growth and not chance: what a round can differ in
/// (the table it finds, the slots it fills, the interleaving) is bounded.
const STREAK: usize = 16;

/// Runs library code under the simulator; a panic becomes Err.
fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let (b0, c0) = (unsafe { BB }, w().tasks[unsafe { CUR }].cnt[1]);
    w().tasks[unsafe { CUR }].busy = true;
    let m0 = unsafe { crate::mem::LIVE };
    unsafe { crate::mem::PEAK = m0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        set_lib(true);
        let r = f();
        set_lib(false);
        r
    }));
    set_lib(false);
    let calls = w().tasks[unsafe { CUR }].cnt[1] - c0;
    let blocks = unsafe { BB } - b0;
    let k = if calls == 0 { K_MAXPURE } else { K_MAXIO };
    shm().ctr[k] = shm().ctr[k].max(blocks);
    shm().ctr[K_MAXSYS] = shm().ctr[K_MAXSYS].max(calls);
    let peak = unsafe { crate::mem::PEAK }.wrapping_sub(m0) as i64;
    shm().ctr[K_MAXMEM] = shm().ctr[K_MAXMEM].max(peak.max(0) as u64);
    if peak > IO_MEMORY as i64 {
        violation("work.memory", format!("a call held more than {IO_MEMORY} bytes at a time"));
    }
    let t = &mut w().tasks[unsafe { CUR }];
    t.busy = false;
    t.work += blocks + 16 * calls;
    let (limit, what) = if calls == 0 { (PURE_WORK, "reads nothing") } else { (IO_WORK, "reads zone data or the clock") };
    if blocks > limit {
        violation("work.blocks", format!("a call that {what} executed more than {limit} basic blocks"));
    }
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

pub fn run(plan: Plan, shm: *mut Shm, verbose: bool) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let nt = plan.tasks.len();
    init(plan, shm, verbose);
    let sl = Slots {
        ids: 0,
        ceq: vec![],
        chron: (0..NSLOT).map(|_| None).collect(),
        dt: (0..NSLOT).map(|_| None).collect(),
        inst: vec![None; NSLOT],
        memo: vec![],
        cal: (0..NSLOT).map(|_| None).collect(),
        hold: (0..NSLOT).map(|_| None).collect(),
    };
    unsafe { S = Box::into_raw(Box::new(sl)) };
    if nt == 1 {
        unsafe { CUR = 0 };
        task_main(0);
    }
    for t in 0..nt {
        let b = std::thread::Builder::new().stack_size(1 << 20);
        let h = b.spawn(move || {
            park_start(t);
            task_main(t)
        });
        std::mem::forget(h.expect("thread"));
    }
    kick(0);
    loop {
        unsafe { raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0) };
    }
}
/// Whether a type may be shared between threads, as a value: the inherent constant wins where it exists.
struct Shareable<T>(std::marker::PhantomData<T>);
trait NotShareable {
    const YES: bool = false;
}
impl<T> NotShareable for Shareable<T> {}
impl<T: Send + Sync> Shareable<T> {
    const YES: bool = true;
}
fn task_main(t: usize) -> ! {
    if t == 0 && w().plan.tasks.len() > 1 {
        let types = [
            ("Chronology", Shareable::<Chronology>::YES),
            ("DateTime", Shareable::<DateTime>::YES),
            ("DateTimeWithCarry", Shareable::<DateTimeWithCarry>::YES),
            ("Instant", Shareable::<InstantNs128>::YES),
        ];
        for (n, yes) in types {
            if !yes {
                violation("notsync", format!("{n} cannot be shared between threads"));
            }
        }
    }
    let ops = w().plan.tasks[t].clone();
    for (i, o) in ops.iter().enumerate() {
        op_begin(i, o.k);
        log(|| format!("task {} op {}: {} {:?}", t, i, OPN[o.k as usize], o.a));
        let v0 = shm().nvio;
        exec(o);
        op_end();
        let _ = v0;
    }
    w().tasks[t].op = ops.len();
    unsafe {
        BB = 0;
    }
    task_done()
}
fn op_end() {
    let me = unsafe { CUR };
    ctr(K_BB, unsafe { BB });
    let t = &mut w().tasks[me];
    if t.win != w().seq {
        ctr(K_OVERLAP, 1);
    }
    if let Some(b) = t.bad_call.take() {
        violation("fs.write", format!("the library made a file-system changing call: {b}"));
    }
    if let Some(b) = t.state_call.take() {
        violation("proc.state", format!("the library changed the state of the process: {b}"));
    }
    let fds = std::mem::take(&mut t.fds);
    if !fds.is_empty() {
        violation("fd.leak", format!("{} descriptor(s) opened by this call are still open after it returned", fds.len()));
        for f in fds {
            w().vfd.retain(|v| v.0 != f);
            unsafe { raw(libc::SYS_close, f as i64, 0, 0, 0, 0, 0) };
        }
    }
}
pub fn final_checks() {}

/// A round has ended: what the library holds, and what the round took, must not go on growing.
fn do_round() {
    let me = unsafe { CUR };
    let work = std::mem::take(&mut w().tasks[me].work);
    if w().tasks.iter().any(|t| t.busy) {
        return; // another client is in the middle of a call
    }
    let live = unsafe { crate::mem::LIVE };
    log(|| format!("  round {}: {} bytes held, {} blocks", w().tasks[me].rounds.len(), live, work));
    let alone = w().plan.tasks.len() == 1;
    let r = &mut w().tasks[me].rounds;
    r.push((live, work));
    ctr(K_CHECKS, 1);
    // what grows by pages or nodes grows in some rounds only: after the first eighth it never shrank, it grew at least
    // three times, and it still grew in the second half
    if r.len() >= 24 && alone {
        let l = &r[r.len() / 8..];
        let up = |l: &[(u64, u64)]| l.windows(2).filter(|x| x[0].0 < x[1].0).count();
        if l.windows(2).all(|x| x[0].0 <= x[1].0) && up(l) >= 3 && up(&r[r.len() / 2..]) >= 1 {
            violation(
                "mem.growth",
                format!("over {} equal rounds the memory held by the library never shrank and kept growing, from {} to {} bytes", l.len(), l[0].0, l[l.len() - 1].0),
            );
            r.clear();
            return;
        }
    }
    if r.len() <= STREAK {
        return;
    }
    let l = &r[r.len() - STREAK - 1..];
    if l.windows(2).all(|x| x[0].0 < x[1].0) {
        violation(
            "mem.growth",
            format!("the memory held by the library grew in each of {STREAK} equal rounds, from {} to {} bytes", l[0].0, l[STREAK].0),
        );
        r.clear();
    } else if l.windows(2).all(|x| x[0].1 < x[1].1) {
        violation(
            "work.growth",
            format!("each of {STREAK} equal rounds took more work than the one before, from {} to {} blocks", l[0].1, l[STREAK].1),
        );
        r.clear();
    }
}

// ---------- refusals ----------
fn from() -> u64 {
    w().tasks[unsafe { CUR }].win
}
struct Source {
    tables: Vec<usize>, // candidate tables, deduplicated
    bad: bool,          // some state in the window is bad or missing
    tainted: bool,      // a table may come from a damaged file
}
fn source() -> Source {
    let mut r = Source { tables: vec![], bad: false, tainted: false };
    for st in states_since(from(), 0) {
        if st.kind != F_GOOD {
            r.bad = true;
        }
        if st.kind != F_MISSING {
            if st.kind != F_GOOD {
                r.tainted = true;
            }
            if !r.tables.contains(&st.table) {
                r.tables.push(st.table);
            }
        }
    }
    r
}
fn hard() -> bool {
    w().tasks[unsafe { CUR }].hard_fault
}
fn refused(what: &str) {
    ctr(K_REFUSED, 1);
    hist(0xdead);
    log(|| format!("  refused: {what}"));
}
fn ok_check() {
    ctr(K_CHECKS, 1);
}

// ---------- scales and ticks ----------
macro_rules! scale {
    ($n:ident $k:expr) => {
        #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
        pub struct $n;
        impl Scale for $n {
            const TICKS_PER_SECOND: u32 = $k;
        }
    };
}
scale!(S1 1);
scale!(S10 10);
scale!(S1k 1000);
scale!(S1m 1_000_000);
pub const SCALES: [i128; 5] = [1, 1000, 1_000_000_000, 1_000_000, 10];
pub const TYS: [&str; 9] = ["i64", "i128", "i32", "u64", "u32", "u128", "i16", "u8", "usize"];
pub fn ty_bounds(ty: usize) -> (i128, i128) {
    match ty {
        0 => (i64::MIN as i128, i64::MAX as i128),
        1 => (i128::MIN, i128::MAX),
        2 => (i32::MIN as i128, i32::MAX as i128),
        3 | 8 => (0, u64::MAX as i128),
        4 => (0, u32::MAX as i128),
        5 => (0, i128::MAX),
        6 => (i16::MIN as i128, i16::MAX as i128),
        _ => (0, 255),
    }
}
fn conv_as<T, Sc>(st: SystemTime) -> Result<i128, ()>
where
    T: momentous_tick::T,
    Sc: Scale,
    Instant<T, Sc>: TryFrom<SystemTime>,
{
    match <Instant<T, Sc> as TryFrom<SystemTime>>::try_from(st) {
        Ok(i) => Ok(i.ticks_since_epoch().i()),
        Err(_) => Err(()),
    }
}
pub mod momentous_tick {
    use num_integer::Integer;
    use num_traits::{Bounded, PrimInt};
    use std::hash::Hash;
    pub trait T: PrimInt + Bounded + Hash + Eq + Copy + Ord + PartialOrd + Integer {
        fn i(self) -> i128;
        fn of(x: i128) -> Self;
    }
    macro_rules! t {
        ($($t:ty)*) => {$(
            impl T for $t {
                fn i(self) -> i128 { self as i128 }
                fn of(x: i128) -> $t { x as $t }
            }
        )*};
    }
    t!(i64 i128 i32 u64 u32 u128 i16 u8 usize);
}
macro_rules! by_scale {
    ($f:ident, $t:ty, $sc:expr, ($($a:expr),*)) => {
        match $sc {
            0 => $f::<$t, S1>($($a),*),
            1 => $f::<$t, S1k>($($a),*),
            2 => $f::<$t, Nanoseconds>($($a),*),
            3 => $f::<$t, S1m>($($a),*),
            _ => $f::<$t, S10>($($a),*),
        }
    };
}
fn convert(ty: usize, sc: usize, st: SystemTime) -> Result<i128, ()> {
    match ty {
        0 => by_scale!(conv_as, i64, sc, (st)),
        1 => by_scale!(conv_as, i128, sc, (st)),
        2 => by_scale!(conv_as, i32, sc, (st)),
        3 => by_scale!(conv_as, u64, sc, (st)),
        4 => by_scale!(conv_as, u32, sc, (st)),
        5 => by_scale!(conv_as, u128, sc, (st)),
        6 => by_scale!(conv_as, i16, sc, (st)),
        7 => by_scale!(conv_as, u8, sc, (st)),
        _ => by_scale!(conv_as, usize, sc, (st)),
    }
}
pub fn system_time(secs: i64, ns: i64) -> Option<SystemTime> {
    let e = SystemTime::UNIX_EPOCH;
    let d = Duration::from_secs(secs.unsigned_abs());
    let t = if secs < 0 { e.checked_sub(d)? } else { e.checked_add(d)? };
    t.checked_add(Duration::from_nanos(ns as u64))
}
fn clock_of(t: SystemTime) -> i128 {
    match t.duration_since(SystemTime::UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}
/// Leap seconds to add to a clock value; two answers for a second that was removed.
fn adjs(t: &model::Table, secs: i64) -> Vec<i64> {
    let a = model::adj_unix(t, secs);
    if model::removed_unix(t, secs) {
        vec![a, a - 1]
    } else {
        vec![a]
    }
}
fn ticks_of(clock: i128, adj: i64, sc: usize) -> i128 {
    (clock + adj as i128 * 1_000_000_000).div_euclid(1_000_000_000 / SCALES[sc])
}
pub fn fits(ty: usize, t: i128) -> bool {
    let (a, b) = ty_bounds(ty);
    a <= t && t <= b
}

fn do_conv(slot: usize, ty: usize, sc: usize, st: SystemTime) {
    let clock = clock_of(st);
    let secs = clock.div_euclid(1_000_000_000) as i64;
    let got = lib(|| convert(ty, sc, st));
    s().inst[slot] = None;
    let src = source();
    let p = &w().plan;
    let right = p.right == 1;
    // (table, expected ticks)
    let exp: Vec<(usize, i128)> = if right {
        vec![(usize::MAX, ticks_of(clock, 0, sc))]
    } else {
        src.tables
            .iter()
            .flat_map(|&i| adjs(&p.tables[i], secs).into_iter().map(move |a| (i, a)))
            .map(|(i, a)| (i, ticks_of(clock, a, sc)))
            .collect()
    };
    let excuse = hard() || (!right && src.bad);
    if w().tasks[unsafe { CUR }].early {
        // read before the first leap second: nothing shows what the clock counts
        log(|| format!("  {got:?}, with the clock not set"));
        hist(0xea51);
        ctr(K_SKIP, 1);
        return;
    }
    ok_check();
    let show = || format!("{}.{:09} s as {} at {} ticks/s", secs, clock.rem_euclid(1_000_000_000), TYS[ty], SCALES[sc]);
    match got {
        Ok(Ok(v)) => {
            hist(v as u64);
            log(|| format!("  {v}"));
            let m: Vec<usize> = exp.iter().filter(|e| e.1 == v && fits(ty, v)).map(|e| e.0).collect();
            if exp.is_empty() {
                violation("load.accepted", format!("conversion of {} answered {} though no zone data is published", show(), v));
                return;
            }
            if m.is_empty() {
                let other = if right {
                    String::new()
                } else {
                    (0..p.tables.len())
                        .filter(|i| !src.tables.contains(i))
                        .find(|&i| adjs(&p.tables[i], secs).iter().any(|&a| ticks_of(clock, a, sc) == v))
                        .map_or(String::new(), |i| format!(" (the answer of table {i}, which is not current)"))
                };
                let class = if right {
                    "conv.right"
                } else if !other.is_empty() {
                    "conv.value@other"
                } else {
                    "conv.value"
                };
                violation(class, format!("conversion of {} gave {}, expected {:?}{}", show(), v, exp.iter().map(|e| e.1).collect::<Vec<_>>(), other));
            }
            let one = !right && src.tables.len() == 1;
            let key = if right { usize::MAX } else { *src.tables.first().unwrap_or(&0) };
            if one || right {
                if let Some(k) = s().memo.iter().find(|k| (k.0, k.1, k.2, k.3) == (clock, ty, sc, key)) {
                    if k.4 != v {
                        violation("conv.memo", format!("conversion of {} gave {} earlier and {} now, with the same table", show(), k.4, v));
                    }
                } else {
                    s().memo.push((clock, ty, sc, key, v));
                }
            }
            s().inst[slot] = Some(InstObj { ty, sc, ticks: v, clock, tables: if right { vec![] } else { src.tables.clone() }, memo: one, derived: false });
        }
        Ok(Err(())) => {
            if excuse {
                refused("conversion");
                return;
            }
            hist(0xe44);
            log(|| "  out of range".into());
            if exp.iter().all(|e| fits(ty, e.1)) {
                violation("conv.refused", format!("conversion of {} was an error though {:?} fits", show(), exp.iter().map(|e| e.1).collect::<Vec<_>>()));
            } else {
                ctr(K_EDGE, 1);
            }
        }
        Err(m) => {
            if excuse {
                refused(&m);
                return;
            }
            violation("conv.panic", format!("conversion of {} panicked: {m}", show()));
        }
    }
}

// ---------- instants ----------
fn cmp_one<T1, A, T2, B>(x: i128, y: i128) -> (Option<std::cmp::Ordering>, [bool; 6])
where
    T1: momentous_tick::T + numcmp::NumCmp<T2>,
    T2: momentous_tick::T,
    A: Scale,
    B: Scale,
{
    let a = Instant::<T1, A>::from_ticks_since_epoch(T1::of(x));
    let b = Instant::<T2, B>::from_ticks_since_epoch(T2::of(y));
    (a.partial_cmp(&b), [a == b, a != b, a < b, a <= b, a > b, a >= b])
}
macro_rules! cmp_dispatch {
    ($ty1:expr, $sc1:expr, $ty2:expr, $sc2:expr, $x:expr, $y:expr; $($i:tt $t:ty),*) => {
        cmp_dispatch!(@1 $ty1, $sc1, $ty2, $sc2, $x, $y; [$($i $t),*] [$($i $t),*])
    };
    (@1 $ty1:expr, $sc1:expr, $ty2:expr, $sc2:expr, $x:expr, $y:expr; [$($i:tt $t:ty),*] $all:tt) => {
        match $ty1 { $($i => cmp_dispatch!(@2 $t, $sc1, $ty2, $sc2, $x, $y; $all),)* _ => None }
    };
    (@2 $t1:ty, $sc1:expr, $ty2:expr, $sc2:expr, $x:expr, $y:expr; [$($i:tt $t:ty),*]) => {
        match $ty2 { $($i => cmp_sc::<$t1, $t>($sc1, $sc2, $x, $y),)* _ => None }
    };
}
type CmpR = Option<(Option<std::cmp::Ordering>, [bool; 6])>;
fn cmp_sc<T1, T2>(a: usize, b: usize, x: i128, y: i128) -> CmpR
where
    T1: momentous_tick::T + numcmp::NumCmp<T2>,
    T2: momentous_tick::T,
{
    Some(match (a, b) {
        (0, 0) => cmp_one::<T1, S1, T2, S1>(x, y),
        (0, 1) => cmp_one::<T1, S1, T2, S1k>(x, y),
        (0, 2) => cmp_one::<T1, S1, T2, Nanoseconds>(x, y),
        (0, 3) => cmp_one::<T1, S1, T2, S1m>(x, y),
        (0, 4) => cmp_one::<T1, S1, T2, S10>(x, y),
        (1, 0) => cmp_one::<T1, S1k, T2, S1>(x, y),
        (1, 1) => cmp_one::<T1, S1k, T2, S1k>(x, y),
        (1, 2) => cmp_one::<T1, S1k, T2, Nanoseconds>(x, y),
        (1, 3) => cmp_one::<T1, S1k, T2, S1m>(x, y),
        (1, 4) => cmp_one::<T1, S1k, T2, S10>(x, y),
        (2, 0) => cmp_one::<T1, Nanoseconds, T2, S1>(x, y),
        (2, 1) => cmp_one::<T1, Nanoseconds, T2, S1k>(x, y),
        (2, 2) => cmp_one::<T1, Nanoseconds, T2, Nanoseconds>(x, y),
        (2, 3) => cmp_one::<T1, Nanoseconds, T2, S1m>(x, y),
        (2, 4) => cmp_one::<T1, Nanoseconds, T2, S10>(x, y),
        (3, 0) => cmp_one::<T1, S1m, T2, S1>(x, y),
        (3, 1) => cmp_one::<T1, S1m, T2, S1k>(x, y),
        (3, 2) => cmp_one::<T1, S1m, T2, Nanoseconds>(x, y),
        (3, 3) => cmp_one::<T1, S1m, T2, S1m>(x, y),
        (3, 4) => cmp_one::<T1, S1m, T2, S10>(x, y),
        (4, 0) => cmp_one::<T1, S10, T2, S1>(x, y),
        (4, 1) => cmp_one::<T1, S10, T2, S1k>(x, y),
        (4, 2) => cmp_one::<T1, S10, T2, Nanoseconds>(x, y),
        (4, 3) => cmp_one::<T1, S10, T2, S1m>(x, y),
        (4, 4) => cmp_one::<T1, S10, T2, S10>(x, y),
        _ => return None,
    })
}
fn diff_as<T: momentous_tick::T, Sc: Scale>(x: i128, y: i128, d: i128) -> bool {
    let a = Instant::<T, Sc>::from_ticks_since_epoch(T::of(x));
    let b = Instant::<T, Sc>::from_ticks_since_epoch(T::of(y));
    let r: MDuration<T, Sc> = a - b;
    r == Instant::<T, Sc>::from_ticks_since_epoch(T::of(d)).duration_since_epoch()
}
fn do_cmpi(a: usize, b: usize) {
    let (Some(x), Some(y)) = (s().inst[a].clone(), s().inst[b].clone()) else {
        ctr(K_SKIP, 1);
        return;
    };
    let show = || {
        format!(
            "{} ticks of 1/{} s ({}) and {} ticks of 1/{} s ({})",
            x.ticks, SCALES[x.sc], TYS[x.ty], y.ticks, SCALES[y.sc], TYS[y.ty]
        )
    };
    // 1. comparison of the tick counts, in ticks of the finer scale; what does not fit there is decided by its sign
    let l = SCALES[x.sc].max(SCALES[y.sc]);
    let order = match (x.ticks.checked_mul(l / SCALES[x.sc]), y.ticks.checked_mul(l / SCALES[y.sc])) {
        (Some(a), Some(b)) => a.cmp(&b),
        (None, _) => x.ticks.cmp(&0),
        (_, None) => 0.cmp(&y.ticks),
    };
    {
        let (t1, s1, t2, s2, u, v) = (x.ty, x.sc, y.ty, y.sc, x.ticks, y.ticks);
        let r = lib(|| cmp_dispatch!(t1, s1, t2, s2, u, v; 0 i64, 1 i128, 2 i32, 3 u64));
        match r {
            Ok(Some((o, f))) => {
                ok_check();
                let e = order;
                use std::cmp::Ordering::*;
                let ef = [e == Equal, e != Equal, e == Less, e != Greater, e == Greater, e != Less];
                hist(o.map_or(9, |o| o as i8 as u64));
                if o != Some(e) || f != ef {
                    violation("inst.cmp", format!("comparing {}: partial_cmp {:?}, [==,!=,<,<=,>,>=] {:?}; expected {:?}", show(), o, f, e));
                }
            }
            Ok(None) => {}
            Err(m) => violation("inst.panic", format!("comparing {} panicked: {m}", show())),
        }
    }
    // 2. the difference of the tick counts
    if x.ty == y.ty && x.sc == y.sc {
        if let Some(d) = x.ticks.checked_sub(y.ticks).filter(|d| fits(x.ty, *d)) {
            let (ty, sc, u, v) = (x.ty, x.sc, x.ticks, y.ticks);
            let r = lib(|| match ty {
                0 => by_scale!(diff_as, i64, sc, (u, v, d)),
                1 => by_scale!(diff_as, i128, sc, (u, v, d)),
                2 => by_scale!(diff_as, i32, sc, (u, v, d)),
                3 => by_scale!(diff_as, u64, sc, (u, v, d)),
                4 => by_scale!(diff_as, u32, sc, (u, v, d)),
                5 => by_scale!(diff_as, u128, sc, (u, v, d)),
                6 => by_scale!(diff_as, i16, sc, (u, v, d)),
                7 => by_scale!(diff_as, u8, sc, (u, v, d)),
                _ => by_scale!(diff_as, usize, sc, (u, v, d)),
            });
            ok_check();
            match r {
                Ok(true) => {}
                Ok(false) => violation("inst.sub", format!("the difference of {} is not {d} ticks", show())),
                Err(m) => violation("inst.panic", format!("subtracting {} panicked: {m}", show())),
            }
        }
    }
    // 3. order and difference of the clock values
    let p = &w().plan;
    if x.sc == y.sc && !x.derived && !y.derived && (p.right == 1 || (x.memo && y.memo && x.tables == y.tables)) {
        let (sx, sy) = (x.clock.div_euclid(1_000_000_000) as i64, y.clock.div_euclid(1_000_000_000) as i64);
        let (mut ax, mut ay) = (0, 0);
        if p.right == 0 {
            let t = &p.tables[x.tables[0]];
            if model::removed_unix(t, sx) || model::removed_unix(t, sy) {
                return;
            }
            ax = model::adj_unix(t, sx);
            ay = model::adj_unix(t, sy);
        }
        ok_check();
        let bad_order = match x.clock.cmp(&y.clock) {
            std::cmp::Ordering::Less => x.ticks > y.ticks,
            std::cmp::Ordering::Equal => x.ticks != y.ticks,
            std::cmp::Ordering::Greater => x.ticks < y.ticks,
        };
        let clocks = || format!("clock values {} ns and {} ns became {} and {} ticks of 1/{} s", x.clock, y.clock, x.ticks, y.ticks, SCALES[x.sc]);
        if bad_order {
            violation("inst.order", clocks());
        }
        let d = ticks_of(x.clock, ax, x.sc) - ticks_of(y.clock, ay, y.sc);
        if x.ticks - y.ticks != d {
            violation("inst.diff", format!("{}; the difference should be {d} ticks", clocks()));
        }
    }
}

// ---------- date-times ----------
#[derive(Clone, Copy, PartialEq, Debug)]
struct F6(i64, i64, i64, i64, i64, i64);
fn fields_of(d: &Dt) -> F6 {
    let f = model::fields(d);
    F6(f.y, f.mo, f.d, f.h, f.mi, f.s)
}
fn read_fields(dt: &DateTime) -> Result<F6, String> {
    lib(|| {
        F6(
            dt.year() as i64,
            dt.month() as i64,
            dt.day() as i64,
            dt.hour() as i64,
            dt.minute() as i64,
            dt.second() as i64,
        )
    })
}
#[derive(Clone, PartialEq, Debug)]
enum Exp {
    Val(F6, i64, i64), // fields, carried days, carried seconds
    None,
    Err(BuildErr),
}
enum Got {
    Val(DateTime, i64, i64),
    None,
    Err(String),
    Panic(String),
}
fn hist_f(f: &F6) {
    hist((f.0 * 400 + f.1 * 32 + f.2) as u64);
    hist((f.3 * 3600 + f.4 * 100 + f.5) as u64);
}
fn note(d: &Dt, t: &model::Table) {
    if model::leap_on(t, d.day) != 0 && d.sec >= 86398 {
        ctr(K_LEAPSEC, 1);
    }
}
/// Judges an answer against what each candidate table would give. `checked`: a refusal is None/Err rather than a panic.
/// Returns the date-time and the tables that explain it.
#[allow(clippy::too_many_arguments)]
fn judge(
    class: &str,
    what: &dyn Fn() -> String,
    exps: &[(usize, Exp)],
    others: &[(usize, Exp)],
    got: Got,
    checked: bool,
    excuse: bool,
) -> (Option<DateTime>, Vec<usize>) {
    ok_check();
    let list = || exps.iter().map(|e| format!("{:?}", e.1)).collect::<Vec<_>>().join(" or ");
    let pick = |e: &Exp| -> (Vec<usize>, bool) {
        let m: Vec<usize> = exps.iter().filter(|x| x.1 == *e).map(|x| x.0).collect();
        let o = others.iter().any(|x| x.1 == *e);
        (m, o)
    };
    let at = |o: bool| if o { "@other" } else { "" };
    match got {
        Got::Val(dt, days, secs) => {
            let f = match read_fields(&dt) {
                Ok(f) => f,
                Err(m) => {
                    violation(&format!("{class}.value"), format!("{}: reading the result panicked: {m}; expected {}", what(), list()));
                    return (None, vec![]);
                }
            };
            hist_f(&f);
            hist((days * 7 + secs) as u64);
            log(|| format!("  {:?} carry {} d {} s", f, days, secs));
            if days != 0 || secs != 0 {
                ctr(K_CARRY, 1);
            }
            let (m, o) = pick(&Exp::Val(f, days, secs));
            if m.is_empty() {
                let kind = if exps.iter().all(|e| !matches!(e.1, Exp::Val(..))) {
                    "accepted"
                } else if exps.iter().any(|e| matches!(e.1, Exp::Val(g, ..) if g == f)) {
                    "carry"
                } else {
                    "value"
                };
                violation(&format!("{class}.{kind}{}", at(o)), format!("{}: got {:?} carry {} d {} s, expected {}", what(), f, days, secs, list()));
                return (None, vec![]);
            }
            (Some(dt), m)
        }
        Got::None | Got::Err(_) => {
            let e = match &got {
                Got::Err(m) if m.contains("bounds") => Exp::Err(BuildErr::OutOfBounds),
                Got::Err(_) => Exp::Err(BuildErr::Invalid),
                _ => Exp::None,
            };
            hist(0x0e);
            log(|| format!("  {:?}", e));
            let (m, o) = pick(&e);
            if m.is_empty() {
                if excuse {
                    refused("error");
                    return (None, exps.iter().map(|e| e.0).collect());
                }
                violation(&format!("{class}.refused{}", at(o)), format!("{}: got {:?}, expected {}", what(), e, list()));
                return (None, vec![]);
            }
            ctr(K_EDGE, 1);
            (None, m)
        }
        Got::Panic(msg) => {
            hist(0x9a);
            let m: Vec<usize> = exps.iter().filter(|x| !matches!(x.1, Exp::Val(..))).map(|x| x.0).collect();
            if !checked && !m.is_empty() {
                ctr(K_EDGE, 1);
                log(|| format!("  panicked as specified: {msg}"));
                return (None, m);
            }
            if excuse {
                refused(&msg);
                return (None, exps.iter().map(|e| e.0).collect());
            }
            violation(&format!("{class}.panic"), format!("{}: panicked ({msg}), expected {}", what(), list()));
            (None, vec![])
        }
    }
}
/// The candidate values of a date-time that its chronology's earlier answers have not ruled out.
fn live(d: &DtObj) -> Vec<(usize, Dt)> {
    d.vals.iter().filter(|v| d.chron.cand().contains(&v.0)).cloned().collect()
}
fn narrow(c: &ChronObj, m: &[usize]) {
    if !m.is_empty() {
        c.cand().retain(|x| m.contains(x));
    }
}
fn store_dt(slot: usize, dt: Option<DateTime>, chron: &Arc<ChronObj>, vals: Vec<(usize, Dt)>) {
    s().dt[slot] = dt.map(|dt| {
        for v in &vals {
            note(&v.1, &w().plan.tables[v.0]);
        }
        Arc::new(DtObj { dt, chron: chron.clone(), vals })
    });
}

fn setters(b: &mut DateTimeBuilder, f: &[i64; 9], n: usize, reverse: bool) {
    let mut idx: Vec<usize> = (0..n).collect();
    if reverse {
        idx.reverse();
    }
    for i in idx {
        let v = f[i];
        match i {
            0 => b.year(v as u16),
            1 => b.month(v as u8),
            2 => b.day(v as u8),
            3 => b.hour(v as u8),
            4 => b.minute(v as u8),
            5 => b.second(v as u8),
            6 => b.millisecond(v as u16),
            7 => b.microsecond(v as u16),
            _ => b.nanosecond(v as u16),
        };
    }
}
fn clampf(f: &[i64]) -> [i64; 9] {
    let mut g = [0i64; 9];
    for i in 0..9 {
        let max = if i == 0 || i > 5 { 65535 } else { 255 };
        g[i] = f[i].clamp(0, max);
    }
    g
}
fn build_got(h: Option<&Chronology>, f: &[i64; 9], n: usize, form: i64) -> Got {
    let unchecked = form & 1 == 1;
    let r = lib(|| {
        let mut b = DateTime::builder();
        if form & 8 != 0 {
            // fields set twice keep the last value
            b.year(1999).second(0);
            b = DateTimeBuilder::new();
        }
        if form & 2 == 0 {
            if let Some(h) = h {
                b.chronology(h);
            }
        }
        setters(&mut b, f, n, form & 2 != 0);
        if form & 2 != 0 {
            if let Some(h) = h {
                b.chronology(h);
            }
        }
        if unchecked {
            return Ok(b.build());
        }
        let r = b.checked_build();
        if form & 4 != 0 && h.is_some() {
            // a builder can be used again
            drop(r);
            return b.checked_build().map_err(|e| format!("{:?}", e));
        }
        r.map_err(|e| format!("{:?}", e))
    });
    match r {
        Ok(Ok(dt)) => Got::Val(dt, 0, 0),
        Ok(Err(e)) => Got::Err(e),
        Err(m) => Got::Panic(m),
    }
}
fn exp_build(t: &model::Table, f: &[i64; 9], n: usize) -> (Exp, Option<Dt>) {
    match model::build(t, f, n) {
        Ok(d) => (Exp::Val(fields_of(&d), 0, 0), Some(d)),
        Err(e) => (Exp::Err(e), None),
    }
}
fn do_build(class: &str, slot: Option<usize>, chron: Option<Arc<ChronObj>>, f: [i64; 9], n: usize, form: i64) {
    do_build_with(class, slot, chron, f, n, form, &|h| build_got(h, &f, n, form))
}
fn do_build_with(
    class: &str,
    slot: Option<usize>,
    chron: Option<Arc<ChronObj>>,
    f: [i64; 9],
    n: usize,
    form: i64,
    run: &dyn Fn(Option<&Chronology>) -> Got,
) {
    let p = &w().plan;
    if let Some(sl) = slot {
        s().dt[sl] = None;
    }
    let unchecked = form & 1 == 1;
    let what = || format!("building {:?} (first {} fields)", f, n);
    match chron {
        Some(c) => {
            let Some(h) = &c.handle else {
                ctr(K_SKIP, 1);
                return;
            };
            let got = run(Some(h));
            let all: Vec<(usize, Exp, Option<Dt>)> = (0..p.tables.len())
                .map(|i| {
                    let (e, d) = exp_build(&p.tables[i], &f, n);
                    (i, e, d)
                })
                .collect();
            let exps: Vec<_> = all.iter().filter(|x| c.cand().contains(&x.0)).map(|x| (x.0, x.1.clone())).collect();
            let others: Vec<_> = all.iter().filter(|x| !c.cand().contains(&x.0)).map(|x| (x.0, x.1.clone())).collect();
            let (dt, m) = judge(class, &what, &exps, &others, got, !unchecked, c.tainted);
            narrow(&c, &m);
            let vals = all.iter().filter(|x| m.contains(&x.0)).filter_map(|x| x.2.map(|d| (x.0, d))).collect();
            if let Some(sl) = slot {
                store_dt(sl, dt, &c, vals);
            }
        }
        None => {
            let got = run(None);
            let src = source();
            let all: Vec<(usize, Exp, Option<Dt>)> = (0..p.tables.len())
                .map(|i| {
                    let (e, d) = exp_build(&p.tables[i], &f, n);
                    (i, e, d)
                })
                .collect();
            let excuse = hard() || src.bad;
            if src.tables.is_empty() {
                match got {
                    Got::Val(..) => violation("load.accepted", format!("{} without a chronology succeeded though no zone data is published", what())),
                    _ => refused("build"),
                }
                return;
            }
            let exps: Vec<_> = all.iter().filter(|x| src.tables.contains(&x.0)).map(|x| (x.0, x.1.clone())).collect();
            let others: Vec<_> = all.iter().filter(|x| !src.tables.contains(&x.0)).map(|x| (x.0, x.1.clone())).collect();
            let (dt, m) = judge(class, &what, &exps, &others, got, !unchecked, excuse);
            let vals: Vec<(usize, Dt)> = all.iter().filter(|x| m.contains(&x.0)).filter_map(|x| x.2.map(|d| (x.0, d))).collect();
            if let Some(sl) = slot {
                let c = Arc::new(ChronObj { id: new_id(), handle: None, cand: UnsafeCell::new(m), tainted: src.tainted });
                store_dt(sl, dt, &c, vals);
            }
        }
    }
}

fn do_load(slot: usize, zone: usize) {
    s().chron[slot] = None;
    let name = ZONES[zone];
    let got = lib(|| load_chronology(name));
    let src = source();
    let zs = if zone < NZ { states_since(from(), zone) } else { vec![] };
    let zone_present = zs.iter().any(|z| z.kind != F_MISSING);
    let bad = src.bad || zs.iter().any(|z| z.kind != F_GOOD) || zone >= NZ;
    ok_check();
    match got {
        Ok(c) => {
            hist(0x10ad);
            if src.tables.is_empty() || !zone_present {
                violation("load.accepted", format!("loading {name} succeeded though {}", if zone_present { "no UTC zone data is published" } else { "the zone is not in the database" }));
                return;
            }
            log(|| format!("  loaded {name}: candidate tables {:?}{}", src.tables, if src.tainted { " (damaged)" } else { "" }));
            s().chron[slot] = Some(Arc::new(ChronObj { id: new_id(), handle: Some(c), cand: UnsafeCell::new(src.tables), tainted: src.tainted }));
        }
        Err(m) => {
            if bad || hard() {
                refused(&m);
            } else {
                violation("load.refused", format!("loading {name} was refused though its zone data is intact: {m}"));
            }
        }
    }
}

fn do_sec(dst: usize, src: usize, n: i64, form: i64) {
    let Some(d) = s().dt[src].clone() else {
        ctr(K_SKIP, 1);
        return;
    };
    if dst != src {
        s().dt[dst] = None;
    }
    let p = &w().plan;
    let unchecked = form & 1 == 1;
    let got = match lib(|| if unchecked { Some(d.dt.add_seconds(n)) } else { d.dt.checked_add_seconds(n) }) {
        Ok(Some(x)) => Got::Val(x, 0, 0),
        Ok(None) => Got::None,
        Err(m) => Got::Panic(m),
    };
    let lv = live(&d);
    let f = |i: usize, x: &Dt| match model::add_seconds(&p.tables[i], x, n as i128) {
        Some(r) => (i, Exp::Val(fields_of(&r), 0, 0), Some(r)),
        None => (i, Exp::None, None),
    };
    let all: Vec<_> = lv.iter().map(|(i, x)| f(*i, x)).collect();
    let exps: Vec<_> = all.iter().map(|x| (x.0, x.1.clone())).collect();
    let others = other_tables(&d, &lv, &|i, x| f(i, x).1);
    let what = || format!("{} + {n} s", show_dt(&lv));
    let (dt, m) = judge("sec", &what, &exps, &others, got, !unchecked, d.chron.tainted);
    narrow(&d.chron, &m);
    let vals = all.iter().filter(|x| m.contains(&x.0)).filter_map(|x| x.2.map(|d| (x.0, d))).collect();
    store_dt(dst, dt, &d.chron, vals);
}
fn show_dt(lv: &[(usize, Dt)]) -> String {
    match lv.first() {
        Some((_, d)) => {
            let p = ["year", "month", "day", "hour", "minute", "second", "ms", "us", "ns"][(d.prec as usize).clamp(1, 9) - 1];
            format!("{:?}.{:09} ({p} precision)", fields_of(d), d.ns)
        }
        None => "?".into(),
    }
}
/// What tables that are not candidates would answer (to tell a wrong table from wrong arithmetic).
fn other_tables(d: &DtObj, lv: &[(usize, Dt)], f: &dyn Fn(usize, &Dt) -> Exp) -> Vec<(usize, Exp)> {
    let Some((_, x)) = lv.first() else { return vec![] };
    (0..w().plan.tables.len()).filter(|i| !d.chron.cand().contains(i)).map(|i| (i, f(i, x))).collect()
}

fn call_cal(dt: &DateTime, kind: i64, n: i64, unchecked: bool) -> Option<DateTimeWithCarry> {
    match (kind, unchecked) {
        (0, true) => Some(dt.add_years(n as i16)),
        (0, false) => dt.checked_add_years(n as i16),
        (1, true) => Some(dt.add_months(n as i32)),
        (1, false) => dt.checked_add_months(n as i32),
        (2, true) => Some(dt.add_days(n as i32)),
        (2, false) => dt.checked_add_days(n as i32),
        (3, true) => Some(dt.add_hours(n as i32)),
        (3, false) => dt.checked_add_hours(n as i32),
        (_, true) => Some(dt.add_minutes(n)),
        (_, false) => dt.checked_add_minutes(n),
    }
}
fn model_cal(t: &model::Table, d: &Dt, kind: i64, n: i64) -> Option<model::Cal> {
    let n = n as i128;
    match kind {
        0 => model::add_months(t, d, n * 12),
        1 => model::add_months(t, d, n),
        2 => model::add_days(t, d, n),
        3 => model::add_minutes(t, d, n * 60),
        _ => model::add_minutes(t, d, n),
    }
}
pub fn clamp_amount(kind: i64, n: i64) -> i64 {
    match kind {
        0 => n.clamp(i16::MIN as i64, i16::MAX as i64),
        1..=3 => n.clamp(i32::MIN as i64, i32::MAX as i64),
        _ => n,
    }
}
/// form: bit 0 unchecked; post: 0 drop the carry, 1 checked_apply_carry, 2 apply_carry, 3 unwrap
fn do_cal(dst: usize, src: usize, kind: i64, n: i64, form: i64, post: i64) {
    let Some(d) = s().dt[src].clone() else {
        ctr(K_SKIP, 1);
        return;
    };
    if dst != src {
        s().dt[dst] = None;
    }
    let p = &w().plan;
    let kind = kind.rem_euclid(5);
    let n = clamp_amount(kind, n);
    let unchecked = form & 1 == 1;
    let class = if kind < 3 { "cal" } else { "min" };
    let unit = ["years", "months", "days", "hours", "minutes"][kind as usize];
    let mut carried: Option<DateTimeWithCarry> = None;
    let got = match lib(|| {
        call_cal(&d.dt, kind, n, unchecked).map(|c| {
            let days = c.days_carry() as i64;
            let secs = c.seconds_carry() as i64;
            let has = c.has_carry();
            let dt = c.clone().drop_carry();
            (c, dt, days, secs, has)
        })
    }) {
        Ok(Some((c, dt, days, secs, has))) => {
            if has != (days != 0 || secs != 0) {
                violation("carry.has", format!("has_carry() is {has} with {days} days and {secs} seconds"));
            }
            carried = Some(c);
            Got::Val(dt, days, secs)
        }
        Ok(None) => Got::None,
        Err(m) => Got::Panic(m),
    };
    let lv = live(&d);
    let f = |i: usize, x: &Dt| match model_cal(&p.tables[i], x, kind, n) {
        Some(c) => (i, Exp::Val(fields_of(&c.dt), c.days, c.secs), Some(c)),
        None => (i, Exp::None, None),
    };
    let all: Vec<_> = lv.iter().map(|(i, x)| f(*i, x)).collect();
    let exps: Vec<_> = all.iter().map(|x| (x.0, x.1.clone())).collect();
    let others = other_tables(&d, &lv, &|i, x| f(i, x).1);
    let what = || format!("{} + {n} {unit}", show_dt(&lv));
    let (dt, m) = judge(class, &what, &exps, &others, got, !unchecked, d.chron.tainted);
    narrow(&d.chron, &m);
    let all: Vec<(usize, model::Cal)> = all.into_iter().filter(|x| m.contains(&x.0)).filter_map(|x| x.2.map(|c| (x.0, c))).collect();
    let (Some(dt), Some(c)) = (dt, carried) else {
        store_dt(dst, None, &d.chron, vec![]);
        return;
    };
    let (cd, cs) = all.first().map_or((0, 0), |x| (x.1.days, x.1.secs));
    let what = || format!("({} + {n} {unit}) with its carry of {cd} d {cs} s", show_dt(&lv));
    if post == 4 {
        // kept with its carry for later
        s().cal[dst] = Some(Arc::new(CalObj { c, chron: d.chron.clone(), vals: all, what: what() }));
        store_dt(dst, None, &d.chron, vec![]);
        return;
    }
    use_carry(dst, dt, c, &d.chron, all, post, &what);
}
fn use_carry(
    dst: usize,
    dt: DateTime,
    c: DateTimeWithCarry,
    chron: &Arc<ChronObj>,
    all: Vec<(usize, model::Cal)>,
    post: i64,
    what: &dyn Fn() -> String,
) {
    let p = &w().plan;
    let excuse = chron.tainted;
    let vals: Vec<(usize, Dt)> = all.iter().map(|x| (x.0, x.1.dt)).collect();
    match post {
        1 | 2 => {
            let got = match lib(|| if post == 1 { c.checked_apply_carry() } else { Some(c.apply_carry()) }) {
                Ok(Some(x)) => Got::Val(x, 0, 0),
                Ok(None) => Got::None,
                Err(m) => Got::Panic(m),
            };
            let g: Vec<(usize, Exp, Option<Dt>)> = all
                .iter()
                .map(|(i, c)| match model::apply_carry(&p.tables[*i], &c.dt, c.days, c.secs) {
                    Some(r) => (*i, Exp::Val(fields_of(&r), 0, 0), Some(r)),
                    None => (*i, Exp::None, None),
                })
                .collect();
            let exps: Vec<_> = g.iter().map(|x| (x.0, x.1.clone())).collect();
            let what2 = || format!("{} applied", what());
            let (dt, m) = judge("carry", &what2, &exps, &[], got, post == 1, excuse);
            narrow(chron, &m);
            let vals = g.iter().filter(|x| m.contains(&x.0)).filter_map(|x| x.2.map(|d| (x.0, d))).collect();
            store_dt(dst, dt, chron, vals);
        }
        3 => {
            let got = match lib(|| c.unwrap()) {
                Ok(x) => Got::Val(x, 0, 0),
                Err(m) => Got::Panic(m),
            };
            let exps: Vec<_> = all
                .iter()
                .map(|(i, c)| (*i, if c.days == 0 && c.secs == 0 { Exp::Val(fields_of(&c.dt), 0, 0) } else { Exp::None }))
                .collect();
            let what2 = || format!("{} unwrapped", what());
            let (dt, m) = judge("carry", &what2, &exps, &[], got, false, excuse);
            narrow(chron, &m);
            let vals = vals.into_iter().filter(|x| m.contains(&x.0)).collect();
            store_dt(dst, dt, chron, vals);
        }
        _ => store_dt(dst, Some(dt), chron, vals),
    }
}
/// Uses a kept carry: reads it again, then drops, applies or unwraps it.
fn do_apply(src: usize, dst: usize, post: i64) {
    let Some(k) = s().cal[src].clone() else {
        ctr(K_SKIP, 1);
        return;
    };
    s().dt[dst] = None;
    let got = lib(|| {
        let c = k.c.clone();
        let (days, secs, has) = (c.days_carry() as i64, c.seconds_carry() as i64, c.has_carry());
        let dt = c.clone().drop_carry();
        (c, dt, days, secs, has)
    });
    let all: Vec<(usize, model::Cal)> = k.vals.iter().filter(|x| k.chron.cand().contains(&x.0)).cloned().collect();
    let exps: Vec<_> = all.iter().map(|(i, c)| (*i, Exp::Val(fields_of(&c.dt), c.days, c.secs))).collect();
    let mut keep = None;
    let got = match got {
        Ok((c, dt, days, secs, has)) => {
            if has != (days != 0 || secs != 0) {
                violation("carry.has", format!("has_carry() is {has} with {days} days and {secs} seconds"));
            }
            keep = Some(c);
            Got::Val(dt, days, secs)
        }
        Err(m) => Got::Panic(m),
    };
    let what = || format!("{} (kept)", k.what);
    let (dt, m) = judge("carry.kept", &what, &exps, &[], got, true, k.chron.tainted);
    narrow(&k.chron, &m);
    let (Some(dt), Some(c)) = (dt, keep) else { return };
    let all = all.into_iter().filter(|x| m.contains(&x.0)).collect();
    use_carry(dst, dt, c, &k.chron, all, post.rem_euclid(4), &what);
}
fn do_hold(slot: usize, chron: Option<Arc<ChronObj>>, f: [i64; 9], n: usize, form: i64) {
    s().hold[slot] = None;
    let h = match &chron {
        Some(c) => match &c.handle {
            Some(h) => Some(h.clone()),
            None => {
                ctr(K_SKIP, 1);
                return;
            }
        },
        None => None,
    };
    match lib(|| {
        let mut b = DateTime::builder();
        if let Some(h) = &h {
            b.chronology(h);
        }
        setters(&mut b, &f, n, form & 2 != 0);
        b
    }) {
        Ok(b) => s().hold[slot] = Some(HoldObj { b, chron, f, n }),
        Err(m) => violation("build.panic", format!("setting the fields {:?} (first {n}) of a builder panicked: {m}", f)),
    }
}
fn do_finish(src: usize, dst: usize, form: i64) {
    let Some(h) = s().hold[src].take() else {
        ctr(K_SKIP, 1);
        return;
    };
    let unchecked = form & 1 == 1;
    let run = |_: Option<&Chronology>| {
        match lib(|| if unchecked { Ok(h.b.build()) } else { h.b.checked_build().map_err(|e| format!("{:?}", e)) }) {
            Ok(Ok(dt)) => Got::Val(dt, 0, 0),
            Ok(Err(e)) => Got::Err(e),
            Err(m) => Got::Panic(m),
        }
    };
    do_build_with("build", Some(dst), h.chron.clone(), h.f, h.n, form, &run);
    // it can be used again, unless another client has refilled the slot
    if s().hold[src].is_none() {
        s().hold[src] = Some(h);
    }
}
fn show_ticks(x: i128, ty: usize, sc: usize) -> String {
    format!("{} ticks of 1/{} s ({})", x, SCALES[sc], TYS[ty])
}
fn judge_ticks(class: &str, what: &dyn Fn() -> String, want: crate::ticks::Want, got: Result<crate::ticks::Ans, String>) -> Option<Vec<i128>> {
    use crate::ticks::Want;
    if let Want::Any = want {
        return None;
    }
    ok_check();
    match (want, got) {
        (Want::Is(w), Ok(g)) => {
            hist(g.as_ref().map_or(7, |g| g.iter().fold(1u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))));
            log(|| format!("  {:?}", g));
            // a specified quotient may come with an unspecified rest
            let same = match (&w, &g) {
                (Some(w), Some(g)) => g.len() >= w.len() && g[..w.len()] == w[..],
                (None, None) => true,
                _ => false,
            };
            if !same {
                violation(&format!("{class}.value"), format!("{}: got {:?}, expected {:?}", what(), g, w));
                return None;
            }
            if w.is_none() {
                ctr(K_EDGE, 1);
            }
            w
        }
        (Want::Is(w), Err(m)) => {
            violation(&format!("{class}.panic"), format!("{}: panicked ({m}), expected {:?}", what(), w));
            None
        }
        (_, Ok(g)) => {
            violation(&format!("{class}.accepted"), format!("{}: got {:?} though the result does not fit", what(), g));
            None
        }
        (_, Err(_)) => {
            hist(0x9b);
            ctr(K_EDGE, 1);
            None
        }
    }
}
fn do_tick(dst: usize, src: usize, kind: usize, ty2: usize, sc2: usize, pk: i64, pv: i64, pe: i64) {
    let Some(x) = s().inst[src].clone().filter(|x| x.ty < 5) else {
        ctr(K_SKIP, 1);
        return;
    };
    let Some(p) = (if kind == 7 || kind == 8 { crate::ticks::operand(x.ticks, x.ty, pk, pv, pe) } else { Some(0) }) else {
        ctr(K_SKIP, 1);
        return;
    };
    let got = lib(|| crate::ticks::call_tick(kind, x.ty, x.sc, ty2, sc2, x.ticks, p));
    let what = || {
        format!(
            "{} of {}{}",
            crate::ticks::TK[kind],
            show_ticks(x.ticks, x.ty, x.sc),
            match kind {
                0 | 1 => format!(" to 1/{} s", SCALES[sc2]),
                2 => format!(" to {} at 1/{} s", TYS[ty2], SCALES[sc2]),
                3..=6 => format!(" to {}", TYS[ty2]),
                _ => format!(" and {p}"),
            }
        )
    };
    let want = crate::ticks::want_tick(kind, x.ty, x.sc, ty2, sc2, x.ticks, p);
    let r = judge_ticks("tick", &what, want, got);
    if let (Some(v), true) = (r, kind != 9) {
        let (ty, sc) = match kind {
            0 | 1 => (x.ty, sc2),
            2 => (ty2, sc2),
            3..=5 => (ty2, x.sc),
            6 => (if (x.ty, ty2) == (0, 2) { 0 } else if (x.ty, ty2) == (1, 0) { 1 } else { ty2 }, x.sc),
            _ => (x.ty, x.sc),
        };
        s().inst[dst] = Some(InstObj { ty, sc, ticks: v[0], clock: 0, tables: vec![], memo: false, derived: true });
    }
}
fn do_dur(a: usize, b: usize, kind: usize, ty2: usize, sc2: usize, pk: i64, pv: i64, pe: i64) {
    let Some(x) = s().inst[a].clone().filter(|x| x.ty < 5) else {
        ctr(K_SKIP, 1);
        return;
    };
    // the difference of two instants where both are of the same kind
    let d = match &s().inst[b] {
        Some(y) if a != b && y.ty == x.ty && y.sc == x.sc => x.ticks.checked_sub(y.ticks).filter(|d| fits(x.ty, *d)).unwrap_or(x.ticks),
        _ => x.ticks,
    };
    let Some(p) = (if kind >= 6 { crate::ticks::operand(d, x.ty, pk, pv, pe) } else { Some(0) }) else {
        ctr(K_SKIP, 1);
        return;
    };
    if (kind == 6 || kind == 7) && p == 0 {
        ctr(K_SKIP, 1);
        return;
    }
    let got = lib(|| crate::ticks::call_dur(kind, x.ty, x.sc, ty2, sc2, d, p));
    let what = || {
        format!(
            "{} of a duration of {}{}",
            crate::ticks::DK[kind],
            show_ticks(d, x.ty, x.sc),
            match kind {
                0 | 1 => format!(" to 1/{} s", SCALES[sc2]),
                2..=5 => format!(" to {}", TYS[ty2]),
                6 | 7 => format!(" by {}", show_ticks(p, x.ty, sc2)),
                _ => format!(" and {p}"),
            }
        )
    };
    let want = crate::ticks::want_dur(kind, x.ty, x.sc, ty2, sc2, d, p);
    judge_ticks("dur", &what, want, got);
}

fn judge_eq(chron: &ChronObj, what: String, exps: Vec<(usize, bool)>, got: Result<(bool, bool), String>) {
    ok_check();
    match got {
        Ok((eq, ne)) => {
            hist(eq as u64 + 2);
            log(|| format!("  {eq}"));
            if eq == ne {
                violation("eq.ne", format!("{what}: == is {eq} and != is {ne}"));
            }
            let m: Vec<usize> = exps.iter().filter(|e| e.1 == eq).map(|e| e.0).collect();
            if m.is_empty() {
                violation("eq.value", format!("{what}: == is {eq}"));
            } else {
                narrow(chron, &m);
            }
        }
        Err(m) => violation("eq.panic", format!("{what}: panicked: {m}")),
    }
}
fn do_cmpd(a: usize, b: usize) {
    let (Some(x), Some(y)) = (s().dt[a].clone(), s().dt[b].clone()) else {
        ctr(K_SKIP, 1);
        return;
    };
    if x.vals.is_empty() || y.vals.is_empty() {
        ctr(K_SKIP, 1);
        return;
    }
    let (lx, ly) = (live(&x), live(&y));
    if !Arc::ptr_eq(&x.chron, &y.chron) {
        // of two loads: never equal when the tables or the fields differ
        let t = &w().plan.tables;
        let may = x.chron.tainted || y.chron.tainted || lx.iter().any(|a| ly.iter().any(|b| a.1 == b.1 && t[a.0] == t[b.0]));
        ok_check();
        match lib(|| (x.dt == y.dt, y.dt == x.dt, x.dt != y.dt)) {
            Ok((e, f, ne)) => {
                hist(e as u64 + 12);
                log(|| format!("  {e}"));
                let what = || format!("comparing {} with {} of another load", show_dt(&lx), show_dt(&ly));
                if e != f || e == ne {
                    violation("ceq.date", format!("{}: == is {e}, the other way round {f}, != is {ne}", what()));
                } else if e && !may {
                    violation("ceq.date", format!("{}: == is true", what()));
                }
            }
            Err(m) => violation("ceq.panic", format!("comparing date-times of two loads panicked: {m}")),
        }
        return;
    }
    let mut exps = vec![];
    for (i, v) in &lx {
        if let Some((_, u)) = ly.iter().find(|z| z.0 == *i) {
            exps.push((*i, v == u));
        }
    }
    if exps.is_empty() {
        return;
    }
    let got = lib(|| (x.dt == y.dt, x.dt != y.dt));
    judge_eq(&x.chron, format!("comparing {} with {}", show_dt(&lx), show_dt(&ly)), exps, got);
}
/// Compares two chronologies, or clones of them.
fn do_cmpc(a: usize, b: usize, clones: i64) {
    let (Some(x), Some(y)) = (s().chron[a].clone(), s().chron[b].clone()) else {
        ctr(K_SKIP, 1);
        return;
    };
    let (Some(h), Some(k)) = (&x.handle, &y.handle) else {
        ctr(K_SKIP, 1);
        return;
    };
    let got = lib(|| {
        let (h, k) = (if clones & 1 == 0 { h.clone() } else { h.clone().clone() }, k.clone());
        let k = if clones & 2 == 0 { &k } else { y.handle.as_ref().unwrap() };
        (h == *k, *k == h, h != *k)
    });
    ok_check();
    match got {
        Ok((e, f, ne)) => {
            hist(e as u64 + 22);
            log(|| format!("  {e}"));
            let t = &w().plan.tables;
            let same = x.id == y.id;
            let may = same || x.tainted || y.tainted || x.cand().iter().any(|i| y.cand().iter().any(|j| t[*i] == t[*j]));
            let what = format!("comparing chronologies {} and {} (tables {:?} and {:?})", x.id, y.id, x.cand(), y.cand());
            if e != f || e == ne {
                violation("ceq.chron", format!("{what}: == is {e}, the other way round {f}, != is {ne}"));
            } else if same && !e {
                violation("ceq.chron", format!("{what}: a clone differs from the original"));
            } else if e && !may {
                violation("ceq.chron", format!("{what}: == is true"));
            }
            if same {
                return;
            }
            let (i, j) = (x.id.min(y.id), x.id.max(y.id));
            let m = &mut s().ceq;
            let at = |m: &Vec<(usize, usize, bool)>, i: usize, j: usize| m.iter().find(|c| c.0 == i.min(j) && c.1 == i.max(j)).map(|c| c.2);
            match at(m, i, j) {
                Some(v) if v != e => violation("ceq.chron", format!("{what}: == is {e} and was {v} before")),
                Some(_) => {}
                None => {
                    m.push((i, j, e));
                    for k in 1..=s().ids {
                        if let (Some(p), Some(q)) = (at(m, i, k), at(m, j, k)) {
                            if e && p != q {
                                violation("ceq.chron", format!("{what}: == is true, but only one of them equals chronology {k}"));
                            }
                        }
                    }
                }
            }
        }
        Err(m) => violation("ceq.panic", format!("comparing chronologies panicked: {m}")),
    }
}
/// Builds a date-time from the model's fields (`tweak` 0) or from neighbouring ones and compares.
fn do_eqfresh(src: usize, tweak: i64) {
    let Some(d) = s().dt[src].clone() else {
        ctr(K_SKIP, 1);
        return;
    };
    let lv = live(&d);
    let (Some(h), Some((ti, v))) = (&d.chron.handle, lv.first().cloned()) else {
        ctr(K_SKIP, 1);
        return;
    };
    let t = &w().plan.tables[ti];
    let mut u = v;
    let unit = [1_000_000, 1000, 1][(v.prec as usize).clamp(7, 9) - 7];
    match tweak {
        0 => {}
        1..=30 => u.ns = (v.ns / unit ^ (1 << (tweak - 1))) * unit,
        31 => u.ns = v.ns + unit,
        32 => u.sec -= 1,
        33 => u.sec += 1,
        34 => u.day += 1,
        35 => u.sec ^= 0x10000,
        36 => u.day -= 1,
        37 => u.day += 146097,
        38 => u.day -= 365,
        39 => u.sec = v.sec ^ 0x8000,
        // so many units apart
        100.. => {
            let z = (tweak - 100) / 8;
            let d = if z % 2 == 0 { z / 2 + 1 } else { -(z / 2) - 1 };
            match (tweak - 100) % 8 {
                0 => u.ns += d * unit,
                1 => u.ns += d * 1000 * unit,
                2 => u.sec += d,
                3 => u.sec += d * 60,
                4 => u.sec += d * 3600,
                5 => u.day += d,
                6 => u.day += d * 146097,
                _ => {
                    let (y, mo, dd) = model::date_of(v.day);
                    let k = y * 12 + mo - 1 + d;
                    let (y, mo) = (k.div_euclid(12), k.rem_euclid(12) + 1);
                    u.day = model::day_of(y, mo, dd.min(model::month_len(y, mo)));
                }
            }
        }
        // the same point in time, said more or less precisely
        _ if tweak % 2 == 0 => u.prec += 1,
        _ => u.prec -= 1,
    }
    let n = u.prec as usize;
    let (y, mo, dd) = model::date_of(u.day);
    if !(0..=9999).contains(&y) || !(1..=9).contains(&n) || u.sec < 0 || u.ns < 0 || u.ns > 999_999_999 {
        ctr(K_SKIP, 1);
        return;
    }
    let ff = fields_of(&u);
    let f = [y, mo, dd, ff.3, ff.4, ff.5, u.ns / 1_000_000, u.ns / 1000 % 1000, u.ns % 1000];
    let f = clampf(&f);
    // fields below the precision must be at their first value for a fresh date-time to exist
    let def = [0, 1, 1, 0, 0, 0, 0, 0, 0];
    if (n..9).any(|i| f[i] != def[i]) || model::build(t, &f, n).map_or(true, |r| r != u) {
        ctr(K_SKIP, 1);
        return;
    }
    match build_got(Some(h), &f, n, 0) {
        Got::Val(fresh, _, _) => {
            let got = lib(|| {
                let e = d.dt == fresh;
                let r = fresh == d.dt;
                if e != r {
                    return (e, e);
                }
                (e, d.dt != fresh)
            });
            let exps = lv.iter().map(|(i, x)| (*i, *x == u)).collect();
            judge_eq(&d.chron, format!("comparing {} with a fresh {}", show_dt(&lv), show_dt(&[(0, u)])), exps, got);
        }
        Got::Panic(_) if d.chron.tainted => refused("build"),
        _ => violation("build.refused", format!("building {:?} (first {n} fields) was refused", f)),
    }
}
fn do_probe(slot: usize) {
    let Some(c) = s().chron[slot].clone() else {
        ctr(K_SKIP, 1);
        return;
    };
    let p = &w().plan;
    let mut days: Vec<i32> = p.tables.iter().flatten().map(|x| x.0).collect();
    days.sort();
    days.dedup();
    // with many tables look at every day that tells candidates apart and a spread of the others
    let step = (days.len() / 36).max(1);
    let n0 = shm().nvio;
    for (k, d) in days.iter().enumerate() {
        let telling = p.tables.iter().any(|t| model::leap_on(t, *d as i64) != model::leap_on(&p.tables[0], *d as i64));
        if !telling && k % step != 0 && k + 2 < days.len() {
            continue;
        }
        let (y, m, dd) = model::date_of(*d as i64);
        for sec in [60, 59] {
            do_build("probe", None, Some(c.clone()), [y, m, dd, 23, 59, sec, 0, 0, 0], 6, 0);
            if shm().nvio > n0 {
                return;
            }
        }
    }
    // running totals: from the epoch to the day after the last leap second of each table
    let Some(h) = &c.handle else { return };
    let Got::Val(e, _, _) = build_got(Some(h), &[1970, 1, 1, 0, 0, 0, 0, 0, 0], 6, 0) else { return };
    let cand = c.cand().clone();
    for i in cand {
        if let Some(&(d, _)) = p.tables[i].last() {
            let n = model::abs_of(&p.tables[i], d as i64 + 1, 0) as i64;
            let got = match lib(|| e.checked_add_seconds(n)) {
                Ok(Some(x)) => Got::Val(x, 0, 0),
                Ok(None) => Got::None,
                Err(m) => Got::Panic(m),
            };
            let x0 = Dt { day: 0, sec: 0, ns: 0, prec: 6 };
            let f = |i: usize| match model::add_seconds(&p.tables[i], &x0, n as i128) {
                Some(r) => (i, Exp::Val(fields_of(&r), 0, 0)),
                None => (i, Exp::None),
            };
            let exps: Vec<_> = c.cand().iter().map(|&i| f(i)).collect();
            let others: Vec<_> = (0..p.tables.len()).filter(|i| !c.cand().contains(i)).map(f).collect();
            let (_, m) = judge("probe", &|| format!("1970-01-01T00:00:00 + {n} s"), &exps, &others, got, true, c.tainted);
            narrow(&c, &m);
        }
    }
}

fn exec(o: &Op) {
    let a = &o.a;
    let sl = |x: i64| (x.unsigned_abs() as usize) % NSLOT;
    match o.k {
        LOAD => do_load(sl(a[0]), (a[1].unsigned_abs() as usize) % ZONES.len()),
        CONV => match system_time(a[3], a[4].rem_euclid(1_000_000_000)) {
            Some(t) => do_conv(sl(a[0]), a[1].unsigned_abs() as usize % 9, a[2].unsigned_abs() as usize % 5, t),
            None => ctr(K_SKIP, 1),
        },
        CONVNOW => {
            let r = lib(|| {
                let t = SystemTime::now();
                if a[3] >= 0 {
                    t.checked_add(Duration::new(a[3] as u64, a[4].rem_euclid(1_000_000_000) as u32))
                } else {
                    t.checked_sub(Duration::new(a[3].unsigned_abs(), 0))
                }
            });
            if let Ok(Some(t)) = r {
                // what counts is what the clock shows to the conversion
                w().tasks[unsafe { CUR }].early = false;
                do_conv(sl(a[0]), a[1].unsigned_abs() as usize % 9, a[2].unsigned_abs() as usize % 5, t)
            }
        }
        ROUND => do_round(),
        CMPI => do_cmpi(sl(a[0]), sl(a[1])),
        BUILD => {
            let f = clampf(&a[3..12]);
            let n = (a[2].clamp(1, 9)) as usize;
            let c = if a[1] < 0 {
                None
            } else {
                match &s().chron[sl(a[1])] {
                    Some(c) => Some(c.clone()),
                    None => {
                        ctr(K_SKIP, 1);
                        return;
                    }
                }
            };
            do_build("build", Some(sl(a[0])), c, f, n, a[12]);
        }
        SEC => do_sec(sl(a[0]), sl(a[1]), a[2], a[3]),
        CAL => do_cal(sl(a[0]), sl(a[1]), a[2], a[3], a[4], a[5]),
        CMPD => do_cmpd(sl(a[0]), sl(a[1])),
        EQFRESH => do_eqfresh(sl(a[0]), a[1]),
        APPLY => do_apply(sl(a[0]), sl(a[1]), a[2]),
        HOLD => {
            let f = clampf(&a[3..12]);
            let n = (a[2].clamp(1, 9)) as usize;
            let c = if a[1] < 0 {
                None
            } else {
                match &s().chron[sl(a[1])] {
                    Some(c) => Some(c.clone()),
                    None => {
                        ctr(K_SKIP, 1);
                        return;
                    }
                }
            };
            do_hold(sl(a[0]), c, f, n, a[12]);
        }
        FINISH => do_finish(sl(a[0]), sl(a[1]), a[2]),
        TICK => {
            let m = |x: i64, n: usize| x.unsigned_abs() as usize % n;
            do_tick(sl(a[0]), sl(a[1]), m(a[2], 10), m(a[3], 5), m(a[4], 5), a[5], a[6], a[7])
        }
        DUR => {
            let m = |x: i64, n: usize| x.unsigned_abs() as usize % n;
            do_dur(sl(a[0]), sl(a[1]), m(a[2], 12), m(a[3], 5), m(a[4], 5), a[5], a[6], a[7])
        }
        CMPC => do_cmpc(sl(a[0]), sl(a[1]), a[2]),
        PROBE => do_probe(sl(a[0])),
        DROP => match a[0] {
            0 => s().chron[sl(a[1])] = None,
            1 => s().dt[sl(a[1])] = None,
            _ => s().inst[sl(a[1])] = None,
        },
        READ => {
            let Some(d) = s().dt[sl(a[0])].clone() else {
                ctr(K_SKIP, 1);
                return;
            };
            let lv = live(&d);
            let exps: Vec<_> = lv.iter().map(|(i, x)| (*i, Exp::Val(fields_of(x), 0, 0))).collect();
            let got = match lib(|| d.dt.clone()) {
                Ok(x) => Got::Val(x, 0, 0),
                Err(m) => Got::Panic(m),
            };
            let (_, m) = judge("read", &|| format!("reading {}", show_dt(&lv)), &exps, &[], got, true, false);
            narrow(&d.chron, &m);
        }
        CLONE => {
            // a clone of a chronology or date-time is interchangeable with the original
            if a[0] == 0 {
                let (x, y) = (sl(a[1]), sl(a[2]));
                let Some(c) = s().chron[x].clone() else {
                    ctr(K_SKIP, 1);
                    return;
                };
                let Some(h) = &c.handle else { return };
                match lib(|| {
                    let k = h.clone();
                    let same = k == *h;
                    (k, same)
                }) {
                    Ok((k, same)) => {
                        if !same {
                            violation("ceq.chron", "a clone of a chronology differs from the original".into());
                        }
                        drop(k);
                        s().chron[y] = Some(c);
                    }
                    Err(m) => violation("eq.panic", format!("cloning a chronology panicked: {m}")),
                }
            } else {
                let (x, y) = (sl(a[1]), sl(a[2]));
                let Some(d) = s().dt[x].clone() else {
                    ctr(K_SKIP, 1);
                    return;
                };
                match lib(|| d.dt.clone()) {
                    Ok(k) => s().dt[y] = Some(Arc::new(DtObj { dt: k, chron: d.chron.clone(), vals: d.vals.clone() })),
                    Err(m) => violation("eq.panic", format!("cloning a date-time panicked: {m}")),
                }
            }
        }
        _ => {}
    }
}
