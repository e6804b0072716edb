//! Memory shared between a worker and the forked child that executes one run.
use std::ptr::null_mut;

pub const NCTR: usize = 96;
pub const NCOV: usize = 1 << 16;
pub const MAXV: usize = 12;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Vio {
    pub class: [u8; 40],
    pub task: i32,
    pub op: i32,
    pub msg: [u8; 480],
}
#[repr(C)]
pub struct Shm {
    pub done: u32,
    pub nvio: u32,
    pub cur_task: i32,
    pub cur_op: i32,
    pub hist: u64,
    pub sched: u64,
    pub ctr: [u64; NCTR],
    pub vio: [Vio; MAXV],
    pub log_len: u64,
    pub log: [u8; 1 << 18],
    pub cov: [u8; NCOV],
}
pub fn alloc() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shm
    }
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
pub fn text(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
impl Shm {
    pub fn reset(&mut self) {
        self.done = 0;
        self.nvio = 0;
        self.cur_task = -1;
        self.cur_op = -1;
        self.hist = 0;
        self.sched = 0;
        self.ctr = [0; NCTR];
        self.log_len = 0;
    }
    pub fn violation(&mut self, class: &str, task: usize, op: usize, msg: &str) {
        let n = self.nvio as usize;
        if n < MAXV {
            let v = &mut self.vio[n];
            put(&mut v.class, class);
            put(&mut v.msg, msg);
            v.task = task as i32;
            v.op = op as i32;
            self.nvio += 1;
        }
    }
    pub fn logs(&mut self, s: &str) {
        let b = s.as_bytes();
        let at = self.log_len as usize;
        if at + b.len() + 1 < self.log.len() {
            self.log[at..at + b.len()].copy_from_slice(b);
            self.log[at + b.len()] = b'\n';
            self.log_len += b.len() as u64 + 1;
        }
    }
}
// counters
pub const K_OPS: usize = 0; // operations executed
pub const K_SKIP: usize = 1;
pub const K_REFUSED: usize = 2; // refused by the library, as allowed or required
pub const K_SWITCH: usize = 3;
pub const K_PREEMPT: usize = 4;
pub const K_SYSCALL: usize = 5;
pub const K_BB: usize = 6;
pub const K_SIMUS: usize = 7; // simulated microseconds that passed (clock steps do not count)
pub const K_CHECKS: usize = 8; // oracle judgements
pub const K_BLOCK: usize = 9; // futex waits simulated
pub const K_MIDOP: usize = 10; // world events that fired inside an operation
pub const K_OVERLAP: usize = 11; // operations that overlapped a change of what they may see
pub const K_LEAPSEC: usize = 12; // results that are 23:59:60 or next to a removed second
pub const K_CARRY: usize = 13; // operations with a nonzero carry
pub const K_EDGE: usize = 14; // out-of-range results refused
pub const K_ACT: usize = 16; // +action kind: world events and faults fired
pub const K_OP: usize = 40; // +op kind
pub const K_CLASS: usize = 60; // +file state kind read
pub const K_MAXPURE: usize = 80; // most blocks executed by one call that reads nothing
pub const K_MAXIO: usize = 81; // and by one that reads zone data or the clock
pub const K_MAXSYS: usize = 82; // most system calls made by one call
pub const K_MAXMEM: usize = 83; // most bytes held by one call at a time
/// Counters of which runs are combined by their maximum.
pub fn is_max(k: usize) -> bool {
    (K_MAXPURE..=K_MAXMEM).contains(&k)
}
