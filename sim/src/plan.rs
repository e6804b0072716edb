//! A plan is everything that decides a run: the simulated host, the leap-second tables, the zone database, each
//! client's operations, the faults and world events with the points at which they fire, and the preemptions.
use crate::model::Table;

pub const NOP: usize = 14;
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: i64,
    pub a: [i64; NOP],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub t: i64,
    pub o: i64,
    pub pt: i64,
    pub n: i64,
    pub act: i64,
    pub a: [i64; 5],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pre {
    pub t: i64,
    pub o: i64,
    pub pt: i64,
    pub n: i64,
    pub to: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct File {
    pub dir: i64,
    pub zone: i64,
    pub kind: i64,
    pub table: i64,
    pub variant: i64,
    pub arg: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub right: i64, // 1: the host's clock counts leap seconds
    pub host: i64,  // table the host's C library knows
    pub now: i64,
    pub now_ns: i64,
    pub tzdir: i64, // 0 unset, 1 /simtz/a, 2 /simtz/b\xff
    pub tables: Vec<Table>,
    pub files: Vec<File>, // exceptions to: every zone in every directory is Good with table 0
    pub tasks: Vec<Vec<Op>>,
    pub evs: Vec<Ev>,
    pub pres: Vec<Pre>,
}
pub const DEF_NOW: i64 = 1_600_000_000;

// operations
pub const LOAD: i64 = 0;
pub const CONV: i64 = 1;
pub const CONVNOW: i64 = 2;
pub const CMPI: i64 = 3;
pub const BUILD: i64 = 4;
pub const SEC: i64 = 5;
pub const CAL: i64 = 6;
pub const CMPD: i64 = 7;
pub const EQFRESH: i64 = 8;
pub const PROBE: i64 = 9;
pub const DROP: i64 = 10;
pub const READ: i64 = 11;
pub const CLONE: i64 = 12;
pub const APPLY: i64 = 13;
pub const HOLD: i64 = 14;
pub const FINISH: i64 = 15;
pub const TICK: i64 = 16;
pub const DUR: i64 = 17;
pub const CMPC: i64 = 18;
/// The end of a round of a long-running client that does the same over and over.
pub const ROUND: i64 = 19;
pub const OPN: [&str; 20] = [
    "load", "convert", "convert-now", "compare-instants", "build", "add-seconds", "add-calendar", "compare-datetimes",
    "compare-with-fresh", "probe", "drop", "read", "clone", "apply-carry", "prepare-builder", "finish-builder", "convert-instant",
    "convert-duration", "compare-chronologies", "end-of-round",
];
// points inside an operation
pub const P_START: i64 = 0; // before the operation
pub const P_SYS: i64 = 1; // nth call into the operating system
pub const P_OPEN: i64 = 2;
pub const P_READ: i64 = 3;
pub const P_CLOCK: i64 = 4;
pub const P_BB: i64 = 5; // nth basic block or store
pub const P_STAT: i64 = 6;
pub const P_AFT: i64 = 7; // block number n % AFT after call number n / AFT into the operating system
pub const AFT: i64 = 4096;
pub const PTN: [&str; 8] = ["start", "syscall", "open", "read", "clock", "block", "stat", "block-after-syscall"];
/// An occurrence of a point, for people.
pub fn nth(pt: i64, n: i64) -> String {
    if pt == P_AFT { format!("{}+{}", n / AFT, n % AFT) } else { format!("{n}") }
}
// actions
pub const A_ERR: i64 = 0; // fail this call with errno a0
pub const A_EINTR: i64 = 1; // this call is interrupted a0 times
pub const A_SHORT: i64 = 2; // this read returns at most a0 bytes
pub const A_CHUNK: i64 = 3; // every later read in the operation returns at most a0 bytes
pub const A_STALL: i64 = 4; // the process stalls for a0 seconds
pub const A_STEP: i64 = 5; // the clock is stepped by a0 seconds, a1 ns
pub const A_PUBLISH: i64 = 6; // dir, zone, table, variant: atomic replacement by a good file
pub const A_STATE: i64 = 7; // dir, zone, kind, table, arg: file becomes missing or damaged
pub const A_TZDIR: i64 = 8; // TZDIR changes
pub const A_PUBALL: i64 = 9; // dir, table, variant: whole database updated
pub const ACTN: [&str; 10] = [
    "syscall-error", "interrupted-call", "short-read", "short-reads", "stall", "clock-step", "publish", "damage-file",
    "tzdir-change", "publish-all",
];
// file states
pub const F_GOOD: i64 = 0;
pub const F_MISSING: i64 = 1;
pub const F_TRUNC: i64 = 2;
pub const F_EMPTY: i64 = 3;
pub const F_MAGIC: i64 = 4;
pub const F_ZEROTAIL: i64 = 5;
pub const F_SLIM: i64 = 6;
pub const F_ISDIR: i64 = 7;
pub const F_ORDER: i64 = 8;
pub const F_EACCES: i64 = 9;
pub const F_EIO: i64 = 10;
pub const F_COUNT: i64 = 11; // a count of the header is far too large
pub const F_TOTAL: i64 = 12; // a bit of a running total of leap seconds has flipped
pub const FN: [&str; 13] = [
    "good", "missing", "truncated", "empty", "bad-magic", "zero-tail", "slim", "is-a-directory", "out-of-order",
    "unreadable", "bad-sector", "huge-count", "wrong-total",
];

pub const ZONES: [&str; 13] = [
    "UTC", "Europe/Stockholm", "America/New_York", "Asia/Tokyo", "Etc/GMT+5", "Nowhere/Atall", "utc", "Europe", "",
    "Europe/Stockholm/", "Europe/Stockholm ", "UTC\0", "Etc/GMT+6",
];
/// Zones that exist in the database; the other names of ZONES never do (some name a directory).
pub const NZ: usize = 5;
pub const NDIR: usize = 3; // 0 /usr/share/zoneinfo, 1 /simtz/a, 2 /simtz/b\xff

impl Plan {
    pub fn new() -> Plan {
        Plan {
            right: 0,
            host: 0,
            now: DEF_NOW,
            now_ns: 0,
            tzdir: 0,
            tables: vec![],
            files: vec![],
            tasks: vec![],
            evs: vec![],
            pres: vec![],
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let l = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        s += &format!(
            "host {}  # clock counts leap seconds, host table, now s, now ns, TZDIR\n",
            l(&[self.right, self.host, self.now, self.now_ns, self.tzdir])
        );
        for t in &self.tables {
            let v: Vec<i64> = t.iter().flat_map(|&(d, c)| [d as i64, c as i64]).collect();
            s += &format!("table {}\n", l(&v));
        }
        for f in &self.files {
            s += &format!(
                "file {}  # dir {} zone {} {} table {}\n",
                l(&[f.dir, f.zone, f.kind, f.table, f.variant, f.arg]),
                f.dir,
                ZONES[f.zone as usize],
                FN[f.kind as usize],
                f.table
            );
        }
        for (i, t) in self.tasks.iter().enumerate() {
            s += &format!("task  # {}\n", i);
            for o in t {
                s += &format!("op {} {}  # {}\n", o.k, l(&o.a), OPN[o.k as usize]);
            }
        }
        for e in &self.evs {
            s += &format!(
                "ev {} {}  # task {} op {} {}#{} {}\n",
                l(&[e.t, e.o, e.pt, e.n, e.act]),
                l(&e.a),
                e.t,
                e.o,
                PTN[e.pt as usize],
                nth(e.pt, e.n),
                ACTN[e.act as usize]
            );
        }
        for p in &self.pres {
            s += &format!(
                "switch {}  # task {} op {} {}#{} to {}\n",
                l(&[p.t, p.o, p.pt, p.n, p.to]),
                p.t,
                p.o,
                PTN[p.pt as usize],
                nth(p.pt, p.n),
                p.to
            );
        }
        s
    }
    pub fn parse(s: &str) -> Result<Plan, String> {
        let mut p = Plan::new();
        for line in s.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut w = line.split_whitespace();
            let Some(k) = w.next() else { continue };
            if !["host", "table", "file", "task", "op", "ev", "switch"].contains(&k) {
                continue;
            }
            let v: Result<Vec<i64>, _> = w.map(|x| x.parse::<i64>()).collect();
            let v = v.map_err(|e| format!("{line}: {e}"))?;
            let need = |n: usize| if v.len() == n { Ok(()) } else { Err(format!("{line}: needs {n} numbers")) };
            match k {
                "host" => {
                    need(5)?;
                    p.right = v[0];
                    p.host = v[1];
                    p.now = v[2];
                    p.now_ns = v[3];
                    p.tzdir = v[4];
                }
                "table" => p.tables.push(v.chunks(2).map(|c| (c[0] as i32, c[1] as i8)).collect()),
                "file" => {
                    need(6)?;
                    p.files.push(File { dir: v[0], zone: v[1], kind: v[2], table: v[3], variant: v[4], arg: v[5] })
                }
                "task" => p.tasks.push(vec![]),
                "op" => {
                    need(NOP + 1)?;
                    let mut a = [0; NOP];
                    a.copy_from_slice(&v[1..]);
                    p.tasks.last_mut().ok_or("op before task")?.push(Op { k: v[0], a });
                }
                "ev" => {
                    need(10)?;
                    p.evs.push(Ev { t: v[0], o: v[1], pt: v[2], n: v[3], act: v[4], a: [v[5], v[6], v[7], v[8], v[9]] });
                }
                _ => {
                    need(5)?;
                    p.pres.push(Pre { t: v[0], o: v[1], pt: v[2], n: v[3], to: v[4] });
                }
            }
        }
        if p.tables.is_empty() || p.tasks.is_empty() {
            return Err("plan without table or task".into());
        }
        Ok(p)
    }
}
