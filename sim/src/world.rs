//! The simulated world outside the library: zone database, environment, clock, C library calendar, and the baton
//! that lets exactly one client thread run at a time. One world per process (each run is a forked child).
use crate::model;
use crate::plan::*;
use crate::rng::fnv;
use crate::shm::*;
use crate::tzif;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, Debug)]
pub struct FState {
    pub kind: i64,
    pub table: usize,
    pub variant: i64,
    pub arg: i64,
    pub ino: u64,
    pub mtime: i64,
}
pub struct Task {
    pub word: AtomicU32,
    pub blocked: Option<(usize, Option<i128>)>, // futex address, deadline (monotonic ns)
    pub woken: i32,                             // 0 woken, 1 timed out
    pub finished: bool,
    pub op: usize,
    pub cnt: [u64; 8],
    pub next_bb: u64,
    pub evs: Vec<Ev>,
    pub pres: Vec<Pre>,
    pub eintr: [i64; 3], // open, read, stat
    pub chunk: usize,
    pub hard_fault: bool,
    /// The clock was read while nothing could show whether it counts leap seconds.
    pub early: bool,
    pub soft_fault: bool,
    pub fds: Vec<i32>,
    pub win: u64,
    pub bad_call: Option<String>,
    pub state_call: Option<String>,
    /// A library call of this client is in progress.
    pub busy: bool,
    /// Blocks executed since the last end of a round, and what earlier rounds took and left behind.
    pub work: u64,
    pub rounds: Vec<(u64, u64)>,
}
pub struct World {
    pub plan: Plan,
    pub seq: u64,
    pub tzlog: Vec<(u64, usize)>,
    pub files: Vec<Vec<Vec<(u64, FState)>>>,
    pub now: i128,
    pub mono: i128,
    pub next_ino: u64,
    pub tasks: Vec<Task>,
    pub vfd: Vec<(i32, FState)>,
    pub shm: *mut Shm,
    pub verbose: bool,
    pub rng: u64,
    pub since_switch: u64,
    pub contents: Vec<((i64, usize, i64, i64, bool), Vec<u8>)>,
}
pub static mut W: *mut World = std::ptr::null_mut();
pub static mut LIB_TP: u64 = 0;
#[inline(always)]
fn tp() -> u64 {
    let r: u64;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) r, options(nostack, readonly, preserves_flags)) };
    r
}
/// This thread is running library code. Volatile: the coverage callbacks read it behind the optimiser's back.
#[inline(always)]
pub fn in_lib() -> bool {
    unsafe { std::ptr::read_volatile(&raw const LIB_TP) == tp() }
}
#[inline(always)]
pub fn set_lib(on: bool) {
    unsafe { std::ptr::write_volatile(&raw mut LIB_TP, if on { tp() } else { 0 }) }
}
pub static mut CUR: usize = 0;
pub static mut BB: u64 = 0;
pub static mut NEXT_BB: u64 = u64::MAX;
pub static mut COV: *mut u8 = std::ptr::null_mut();

pub const BB_CAP: u64 = 6_000_000;
pub const SYS_CAP: u64 = 250_000;
const QUANTUM: u64 = 400_000;
const MIN_NOW: i64 = 94_694_400; // 1973
const MAX_NOW: i64 = 8_267_788_800; // 2232

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *w().shm }
}
pub fn ctr(k: usize, n: u64) {
    shm().ctr[k] += n;
}
pub fn log(f: impl FnOnce() -> String) {
    if w().verbose {
        let s = f();
        shm().logs(&s);
    }
}
pub fn hist(x: u64) {
    let s = shm();
    s.hist = fnv(if s.hist == 0 { 0xcbf29ce484222325 } else { s.hist }, x);
}
fn sched_hash(x: u64) {
    let s = shm();
    s.sched = fnv(if s.sched == 0 { 0xcbf29ce484222325 } else { s.sched }, x);
}
pub fn violation(class: &str, msg: String) {
    let t = unsafe { CUR };
    let op = w().tasks[t].op;
    log(|| format!("VIOLATION {class}: {msg}"));
    shm().violation(class, t, op, &msg);
}
pub fn finish() -> ! {
    shm().done = 1;
    unsafe { libc::_exit(0) }
}

// ---- raw system calls (the libc wrappers are the simulator's own) ----
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
pub fn fail(errno: i32) -> i64 {
    unsafe { *libc::__errno_location() = errno };
    -1
}

// ---- baton ----
fn park(t: usize) {
    let word = &w().tasks[t].word;
    while word.compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        unsafe { raw(libc::SYS_futex, word.as_ptr() as i64, 128, 0, 0, 0, 0) };
    }
}
pub fn park_start(t: usize) {
    park(t);
    restore(t);
}
fn restore(t: usize) {
    unsafe {
        CUR = t;
        BB = w().tasks[t].cnt[5];
        NEXT_BB = w().tasks[t].next_bb;
    }
}
fn unpark(t: usize) {
    let word = &w().tasks[t].word;
    word.store(1, SeqCst);
    unsafe { raw(libc::SYS_futex, word.as_ptr() as i64, 129, 1, 0, 0, 0) };
}
pub fn kick(t: usize) {
    unpark(t);
}
/// Must be called with IN_LIB false; the caller restores it afterwards.
fn switch_to(t: usize) {
    let me = unsafe { CUR };
    if t == me {
        return;
    }
    ctr(K_SWITCH, 1);
    sched_hash(((me as u64) << 48) ^ ((t as u64) << 40) ^ ((w().tasks[me].op as u64) << 32) ^ unsafe { BB });
    log(|| format!("  [switch {} -> {} at op {} block {}]", me, t, w().tasks[me].op, unsafe { BB }));
    unsafe { w().tasks[me].cnt[5] = BB };
    w().since_switch = 0;
    unpark(t);
    park(me);
    restore(me);
}
fn runnable(t: usize) -> bool {
    !w().tasks[t].finished && w().tasks[t].blocked.is_none()
}
fn next_runnable(from: usize) -> Option<usize> {
    let n = w().tasks.len();
    (1..=n).map(|k| (from + k) % n).find(|&t| runnable(t))
}
/// The current task cannot go on: hand the baton to another, let time pass for a timed wait, or report a deadlock.
fn give_up_baton() {
    let me = unsafe { CUR };
    loop {
        if let Some(t) = next_runnable(me) {
            if t == me {
                return;
            }
            switch_to(t);
            if w().tasks[me].blocked.is_none() {
                return;
            }
            continue;
        }
        // all blocked or finished
        let mut best: Option<(i128, usize)> = None;
        for (i, t) in w().tasks.iter().enumerate() {
            if let Some((_, Some(d))) = t.blocked {
                if best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
        }
        match best {
            Some((d, i)) => {
                if d > w().mono {
                    let dt = d - w().mono;
                    advance(dt);
                }
                w().tasks[i].blocked = None;
                w().tasks[i].woken = 1;
            }
            None => {
                let who: Vec<String> = w()
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| !t.finished)
                    .map(|(i, t)| format!("task {} in op {}", i, t.op))
                    .collect();
                violation("deadlock", format!("every unfinished client is blocked forever: {}", who.join(", ")));
                finish();
            }
        }
    }
}
pub fn task_done() -> ! {
    let me = unsafe { CUR };
    w().tasks[me].finished = true;
    if w().tasks.iter().all(|t| t.finished) {
        crate::exec::final_checks();
        finish();
    }
    loop {
        give_up_baton();
    }
}

// ---- time ----
pub fn advance(ns: i128) {
    w().mono += ns;
    ctr(K_SIMUS, (ns.max(0) / 1000) as u64);
    set_now(w().now + ns);
}
fn set_now(n: i128) {
    // a clock that has not been set yet stays where the plan put it; a set one is never set back before then
    let early = w().now < min_now() * 1_000_000_000;
    let lo = if early { 0 } else { min_now() * 1_000_000_000 };
    let hi = MAX_NOW as i128 * 1_000_000_000;
    w().now = n.clamp(lo, hi);
}
/// The earliest clock value, in seconds, of a clock that has been set.
pub fn min_now() -> i128 {
    let p = &w().plan;
    if p.right == 1 {
        // after the host's first leap second: before that nothing shows what the clock counts
        let t = &p.tables[p.host as usize];
        t.first().map_or(0, |&(d, _)| (d as i128 + 1) * 86400 + 1)
    } else {
        MIN_NOW as i128
    }
}
/// The realtime clock as read by the code under test.
pub fn read_clock() -> i128 {
    let n = w().now;
    if w().plan.right == 1 && n < min_now() * 1_000_000_000 {
        w().tasks[unsafe { CUR }].early = true;
    }
    n
}

// ---- setting up ----
pub fn fresh_state(kind: i64, table: usize, variant: i64, arg: i64) -> FState {
    let kind = kind.rem_euclid(FN.len() as i64);
    let w = w();
    w.next_ino += 1;
    // modification times neither order the files nor tell them apart: packages restore the times they were built
    // with; inode and change time do tell them apart
    let h = crate::rng::mix(w.next_ino, 77);
    let mtime = 1_500_000_000 + if h % 2 == 0 { 0 } else { (h / 2 % 100_000_000) as i64 };
    FState { kind, table, variant, arg, ino: 1000 + w.next_ino, mtime }
}
pub fn init(plan: Plan, shm: *mut Shm, verbose: bool) {
    let nt = plan.tables.len();
    let world = World {
        seq: 1,
        tzlog: vec![(0, plan.tzdir as usize % NDIR)],
        files: vec![],
        now: 0,
        mono: 1_000_000_000,
        next_ino: 0,
        tasks: plan
            .tasks
            .iter()
            .map(|_| Task {
                word: AtomicU32::new(0),
                blocked: None,
                woken: 0,
                finished: false,
                op: 0,
                cnt: [0; 8],
                next_bb: u64::MAX,
                evs: vec![],
                pres: vec![],
                eintr: [0; 3],
                chunk: 0,
                hard_fault: false,
                early: false,
                soft_fault: false,
                fds: vec![],
                win: 0,
                bad_call: None,
                state_call: None,
                busy: false,
                work: 0,
                rounds: vec![],
            })
            .collect(),
        vfd: vec![],
        shm,
        verbose,
        rng: 12345,
        since_switch: 0,
        contents: vec![],
        plan,
    };
    unsafe {
        W = Box::into_raw(Box::new(world));
        COV = (*shm).cov.as_mut_ptr();
    }
    for _ in 0..NDIR {
        let mut zs = vec![];
        for _ in 0..NZ {
            zs.push(vec![(0, fresh_state(F_GOOD, 0, 1, 0))]);
        }
        w().files.push(zs);
    }
    let fs = w().plan.files.clone();
    for f in fs {
        let (d, z, t) = (f.dir as usize % NDIR, f.zone as usize % NZ, f.table as usize % nt);
        w().files[d][z] = vec![(0, fresh_state(f.kind, t, f.variant, f.arg))];
    }
    let n = w().plan.now as i128 * 1_000_000_000 + w().plan.now_ns as i128;
    w().now = n;
    set_now(n);
    w().rng = crate::rng::mix(w().plan.now as u64, 99);
}

// ---- operations ----
pub fn op_begin(op: usize, kind: i64) {
    let me = unsafe { CUR };
    let (evs, pres): (Vec<Ev>, Vec<Pre>) = {
        let p = &w().plan;
        (
            p.evs.iter().filter(|e| e.t == me as i64 && e.o == op as i64).cloned().collect(),
            p.pres.iter().filter(|e| e.t == me as i64 && e.o == op as i64).cloned().collect(),
        )
    };
    let t = &mut w().tasks[me];
    t.op = op;
    t.cnt = [0; 8];
    t.evs = evs;
    t.pres = pres;
    t.eintr = [0; 3];
    t.chunk = 0;
    t.hard_fault = false;
    t.early = false;
    t.soft_fault = false;
    t.fds.clear();
    t.bad_call = None;
    unsafe { BB = 0 };
    reset_next_bb();
    point(P_START);
    let s = shm();
    s.cur_task = me as i32;
    s.cur_op = op as i32;
    w().tasks[me].win = w().seq;
    ctr(K_OPS, 1);
    ctr(K_OP + kind as usize, 1);
}
fn reset_next_bb() {
    let me = unsafe { CUR };
    let t = &mut w().tasks[me];
    let bb = unsafe { BB };
    let mut m = BB_CAP;
    for n in t.evs.iter().filter(|e| e.pt == P_BB).map(|e| e.n as u64) {
        m = m.min(n.max(bb + 1));
    }
    for n in t.pres.iter().filter(|e| e.pt == P_BB).map(|e| e.n as u64) {
        m = m.min(n.max(bb + 1));
    }
    m = m.min(bb + QUANTUM);
    t.next_bb = m;
    unsafe { NEXT_BB = m };
}
/// What the plan puts some blocks after system call `n` gets its block number.
fn arm_after(me: usize, n: u64) {
    let bb = unsafe { BB };
    let t = &mut w().tasks[me];
    let mut any = false;
    let mut at = |pt: &mut i64, k: &mut i64| {
        if *pt == P_AFT && (*k / AFT) as u64 == n {
            *pt = P_BB;
            *k = bb as i64 + (*k % AFT).max(1);
            any = true;
        }
    };
    t.evs.iter_mut().for_each(|e| at(&mut e.pt, &mut e.n));
    t.pres.iter_mut().for_each(|e| at(&mut e.pt, &mut e.n));
    if any {
        reset_next_bb();
    }
}
/// Fires what the plan puts at this occurrence of `pt`; returns the fault for this call.
pub fn point(pt: i64) -> Option<(i64, i64)> {
    let me = unsafe { CUR };
    let n = if pt == P_BB {
        unsafe { BB }
    } else {
        w().tasks[me].cnt[pt as usize] += 1;
        let n = w().tasks[me].cnt[pt as usize];
        if pt == P_SYS {
            arm_after(me, n);
        }
        n
    };
    let mut fault = None;
    let mut i = 0;
    while i < w().tasks[me].evs.len() {
        let e = &w().tasks[me].evs[i];
        let hit = e.pt == pt && (pt == P_START || e.n as u64 == n || (pt == P_BB && e.n as u64 <= n));
        if hit {
            let e = w().tasks[me].evs.remove(i);
            if let Some(f) = fire(&e, pt) {
                fault = Some(f);
            }
        } else {
            i += 1;
        }
    }
    let mut to = None;
    let mut i = 0;
    while i < w().tasks[me].pres.len() {
        let e = &w().tasks[me].pres[i];
        if e.pt == pt && (pt == P_START || e.n as u64 == n || (pt == P_BB && e.n as u64 <= n)) {
            let e = w().tasks[me].pres.remove(i);
            to = Some(e.to as usize % w().tasks.len());
        } else {
            i += 1;
        }
    }
    if let Some(t) = to {
        let t = if runnable(t) { Some(t) } else { next_runnable(me) };
        if let Some(t) = t {
            if t != me {
                ctr(K_PREEMPT, 1);
                switch_to(t);
            }
        }
    }
    fault
}
fn fire(e: &Ev, pt: i64) -> Option<(i64, i64)> {
    let me = unsafe { CUR };
    let nt = w().plan.tables.len();
    ctr(K_ACT + e.act as usize, 1);
    log(|| format!("  [event {} {:?} at {}#{} of task {} op {}]", ACTN[e.act as usize], e.a, PTN[pt as usize], e.n, me, e.o));
    if pt != P_START {
        ctr(K_MIDOP, 1);
    }
    let a = e.a;
    match e.act {
        A_ERR | A_EINTR | A_SHORT => {
            if pt == P_OPEN || pt == P_READ || pt == P_STAT {
                return Some((e.act, a[0]));
            }
        }
        A_CHUNK => {
            w().tasks[me].chunk = a[0].max(1) as usize;
            w().tasks[me].soft_fault = true;
        }
        A_STALL => advance(a[0].max(0) as i128 * 1_000_000_000),
        A_STEP => {
            let n = w().now + a[0] as i128 * 1_000_000_000 + a[1] as i128;
            set_now(n);
        }
        A_PUBLISH => set_file(a[0], a[1], fresh_state(F_GOOD, a[2] as usize % nt, a[3], 0)),
        A_STATE => set_file(a[0], a[1], fresh_state(a[2], a[3] as usize % nt, 1, a[4])),
        A_PUBALL => {
            for z in 0..NZ as i64 {
                set_file(a[0], z, fresh_state(F_GOOD, a[1] as usize % nt, a[2], 0));
            }
        }
        A_TZDIR => {
            w().seq += 1;
            let s = w().seq;
            w().tzlog.push((s, a[0] as usize % NDIR));
        }
        _ => {}
    }
    None
}
fn set_file(dir: i64, zone: i64, st: FState) {
    w().seq += 1;
    let s = w().seq;
    w().files[dir as usize % NDIR][zone as usize % NZ].push((s, st));
}
fn bb_slow() {
    unsafe {
        set_lib(false);
        if BB >= BB_CAP {
            violation("stuck", format!("the operation has executed {} basic blocks without finishing", BB));
            finish();
        }
    }
    let me = unsafe { CUR };
    let before = w().tasks[me].pres.len() + w().tasks[me].evs.len();
    point(P_BB);
    let after = w().tasks[me].pres.len() + w().tasks[me].evs.len();
    if before == after && w().tasks.len() > 1 {
        // fairness: a client that has run this long lets another run (it may be spinning)
        if let Some(t) = next_runnable(me) {
            switch_to(t);
        }
    }
    reset_next_bb();
    set_lib(true);
}
pub fn spin_yield() {
    let me = unsafe { CUR };
    if let Some(t) = next_runnable(me) {
        switch_to(t);
    }
}

// ---- what an operation may have seen ----
/// TZDIR values current at some moment since `from`.
pub fn dirs_since(from: u64) -> Vec<usize> {
    window(&w().tzlog, from).into_iter().map(|d| *d).collect()
}
fn window<T>(v: &[(u64, T)], from: u64) -> Vec<&T> {
    let first = v.iter().rposition(|x| x.0 <= from).unwrap_or(0);
    v[first..].iter().map(|x| &x.1).collect()
}
pub fn states_since(from: u64, zone: usize) -> Vec<FState> {
    let mut out = vec![];
    for d in dirs_since(from) {
        for s in window(&w().files[d][zone], from) {
            out.push(*s);
        }
    }
    out
}

// ---- virtual files ----
pub enum Node {
    Dir,
    File(usize, usize, bool), // dir, zone, right
    None,
}
pub unsafe fn lookup(path: *const libc::c_char) -> Option<Node> {
    // The byte that is not UTF-8 in one of the directory names is kept apart from its lossy replacement.
    let p = CStr::from_ptr(path).to_bytes().iter().map(|&b| if b < 128 { b as char } else { char::from_u32(0xe000 + b as u32).unwrap() }).collect::<String>();
    let mut parts: Vec<&str> = vec![];
    if !p.starts_with('/') {
        return None;
    }
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let slash = p.ends_with('/');
    let p = format!("/{}", parts.join("/"));
    for (i, r) in ["/usr/share/zoneinfo", "/simtz/a", "/simtz/b\u{e0ff}"].iter().enumerate() {
        if p == *r {
            return Some(Node::Dir);
        }
        if let Some(rest) = p.strip_prefix(&format!("{r}/")) {
            if ["right", "posix", "right/Europe", "right/America", "right/Asia", "right/Etc"].contains(&rest) {
                return Some(Node::Dir);
            }
            let (right, name) = match rest.strip_prefix("right/") {
                Some(n) => (true, n),
                None => (false, rest.strip_prefix("posix/").unwrap_or(rest)),
            };
            let z = ZONES[..NZ].iter().position(|z| *z == name && !slash);
            return Some(z.map_or(Node::None, |z| Node::File(i, z, right)));
        }
    }
    if p == "/simtz" {
        return Some(Node::Dir);
    }
    Some(Node::None)
}
pub fn state_of(d: usize, z: usize) -> FState {
    w().files[d][z].last().unwrap().1
}
pub fn content(st: &FState, right: bool) -> Vec<u8> {
    let key = (st.kind, st.table, st.variant, st.arg, right);
    if let Some(c) = w().contents.iter().find(|c| c.0 == key) {
        return c.1.clone();
    }
    let t = if right { w().plan.tables[st.table].clone() } else { vec![] };
    let (mut b, leaps) = tzif::write(&t, st.variant, st.kind != F_SLIM, st.kind == F_ORDER);
    match st.kind {
        F_TRUNC => {
            let n = (st.arg.unsigned_abs() as usize) % b.len();
            b.truncate(n);
        }
        F_EMPTY => b.clear(),
        F_COUNT => {
            // also ones whose product with a record size is small again in 32 bits
            let n = [u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 30, 0x3333_3334, 0x2aaa_aaab, 0x2000_0001, 0x1555_5556, 1_000_000][(st.arg.unsigned_abs() / 6 % 9) as usize];
            let k = 20 + 4 * (st.arg.unsigned_abs() % 6) as usize;
            b[k..k + 4].copy_from_slice(&n.to_be_bytes());
        }
        F_TOTAL if leaps.1 > leaps.0 => {
            // changes the total by four at least
            let i = st.arg.unsigned_abs() as usize;
            let bit = 2 + i % 30;
            let at = leaps.0 + 8 * (i / 30 % ((leaps.1 - leaps.0) / 8)) + 4;
            b[at + 3 - bit / 8] ^= 1 << (bit % 8);
        }
        F_MAGIC => {
            let k = (st.arg.unsigned_abs() as usize) % 4;
            b[k] ^= 0x20;
        }
        F_ZEROTAIL => {
            let mut n = (st.arg.unsigned_abs() as usize) % b.len();
            let good = tzif::v1_leaps(&b);
            loop {
                for x in &mut b[n..] {
                    *x = 0;
                }
                // Lost bytes that leave another well-formed table cannot be told from a genuine one: lose more.
                let left = tzif::v1_leaps(&b);
                if n == 0 || left == good || !tzif::well_formed(&left) {
                    break;
                }
                n -= 1;
            }
        }
        _ => {}
    }
    w().contents.push((key, b.clone()));
    b
}
pub fn size_of(st: &FState, right: bool) -> i64 {
    content(st, right).len() as i64
}

/// The C library's broken-down UTC time of a clock value on this host.
pub fn broken_down(secs: i64) -> libc::tm {
    let p = &w().plan;
    let (day, sec) = if p.right == 1 {
        model::civil_of(&p.tables[p.host as usize], secs as i128).unwrap_or((0, 0))
    } else {
        (secs.div_euclid(86400), secs.rem_euclid(86400))
    };
    let f = model::fields(&model::Dt { day, sec, ns: 0, prec: 9 });
    let mut tm: libc::tm = unsafe { std::mem::zeroed() };
    tm.tm_year = (f.y - 1900) as i32;
    tm.tm_mon = (f.mo - 1) as i32;
    tm.tm_mday = f.d as i32;
    tm.tm_hour = f.h as i32;
    tm.tm_min = f.mi as i32;
    tm.tm_sec = f.s as i32;
    tm.tm_wday = (day + 4).rem_euclid(7) as i32;
    tm.tm_yday = (day - model::day_of(f.y, 1, 1)) as i32;
    tm.tm_zone = c"UTC".as_ptr();
    tm
}
pub fn time_of(tm: &libc::tm) -> i64 {
    let p = &w().plan;
    let mo = tm.tm_mon as i64;
    let y = tm.tm_year as i64 + 1900 + mo.div_euclid(12);
    let day = model::day_of(y, mo.rem_euclid(12) + 1, 1) + tm.tm_mday as i64 - 1;
    let s = tm.tm_hour as i64 * 3600 + tm.tm_min as i64 * 60 + tm.tm_sec as i64;
    if p.right == 1 {
        model::abs_of(&p.tables[p.host as usize], day, s) as i64
    } else {
        day * 86400 + s
    }
}

/// Futex wait and wake under the simulator.
pub fn futex(addr: *const u32, op: i32, val: u32, ts: *const libc::timespec) -> i64 {
    let me = unsafe { CUR };
    match op & 127 & !128 {
        0 | 9 => {
            let cur = unsafe { std::ptr::read_volatile(addr) };
            if cur != val {
                return fail(libc::EAGAIN);
            }
            let deadline = if ts.is_null() {
                None
            } else {
                let t = unsafe { *ts };
                let ns = t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128;
                Some(if op & 127 == 9 {
                    if op & 256 != 0 {
                        w().mono + (ns - w().now).max(0)
                    } else {
                        ns
                    }
                } else {
                    w().mono + ns
                })
            };
            ctr(K_BLOCK, 1);
            w().tasks[me].blocked = Some((addr as usize, deadline));
            w().tasks[me].woken = 0;
            give_up_baton();
            if w().tasks[me].woken == 1 {
                return fail(libc::ETIMEDOUT);
            }
            0
        }
        1 | 10 => {
            let mut n = 0;
            for t in w().tasks.iter_mut() {
                if n < val as i64 && matches!(t.blocked, Some((a, _)) if a == addr as usize) {
                    t.blocked = None;
                    t.woken = 0;
                    n += 1;
                }
            }
            n
        }
        _ => fail(libc::ENOSYS),
    }
}
pub fn sleep(ns: i128) {
    let me = unsafe { CUR };
    w().tasks[me].blocked = Some((0, Some(w().mono + ns)));
    give_up_baton();
}

// ---- coverage callbacks: every basic block and store of the library is a scheduling point ----
#[inline(always)]
unsafe fn bump() {
    BB += 1;
    if BB >= NEXT_BB {
        set_lib(false); // the simulator itself is instrumented too
        bb_slow();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    static mut N: u32 = 0;
    while a < b {
        if *a == 0 {
            N += 1;
            *a = N;
        }
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if in_lib() {
        *COV.add((*g as usize) & (NCOV - 1)) = 1;
        bump();
    }
}
macro_rules! store {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_p: *mut u8) {
            if in_lib() {
                bump();
            }
        }
    )*};
}
store!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
