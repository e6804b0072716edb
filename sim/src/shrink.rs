//! Minimisation of a failing plan.
use crate::model::Table;
use crate::plan::*;
use std::time::Instant;

pub struct Budget {
    pub tries: usize,
    pub until: Instant,
}
pub type Test<'a> = &'a mut dyn FnMut(&Plan) -> bool;

fn drop_task(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    q.tasks.remove(t);
    let t = t as i64;
    q.evs.retain(|e| e.t != t);
    q.pres.retain(|e| e.t != t && e.to != t);
    for e in &mut q.evs {
        if e.t > t {
            e.t -= 1;
        }
    }
    for e in &mut q.pres {
        if e.t > t {
            e.t -= 1;
        }
        if e.to > t {
            e.to -= 1;
        }
    }
    q
}
fn merge(p: &Plan, order: &[usize], robin: bool) -> Plan {
    let mut q = p.clone();
    q.pres.clear();
    q.evs.clear();
    let mut ops = vec![];
    let mut from: Vec<(usize, usize)> = vec![];
    if robin {
        let n = p.tasks.iter().map(|t| t.len()).max().unwrap_or(0);
        for i in 0..n {
            for &t in order {
                if i < p.tasks[t].len() {
                    from.push((t, i));
                }
            }
        }
    } else {
        for &t in order {
            for i in 0..p.tasks[t].len() {
                from.push((t, i));
            }
        }
    }
    for (k, &(t, i)) in from.iter().enumerate() {
        ops.push(p.tasks[t][i].clone());
        for e in &p.evs {
            if e.t == t as i64 && e.o == i as i64 {
                let mut e = e.clone();
                e.t = 0;
                e.o = k as i64;
                q.evs.push(e);
            }
        }
    }
    q.tasks = vec![ops];
    q
}
fn drop_ops(p: &Plan, t: usize, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    q.tasks[t].drain(a..b);
    let (t, a, b) = (t as i64, a as i64, b as i64);
    q.evs.retain(|e| !(e.t == t && e.o >= a && e.o < b));
    q.pres.retain(|e| !(e.t == t && e.o >= a && e.o < b));
    for e in &mut q.evs {
        if e.t == t && e.o >= b {
            e.o -= b - a;
        }
    }
    for e in &mut q.pres {
        if e.t == t && e.o >= b {
            e.o -= b - a;
        }
    }
    q
}
/// Applies `f` to every table index the plan mentions.
fn map_tables(q: &mut Plan, f: &dyn Fn(i64) -> i64) {
    q.host = f(q.host);
    for x in &mut q.files {
        x.table = f(x.table);
    }
    for e in &mut q.evs {
        match e.act {
            A_PUBLISH => e.a[2] = f(e.a[2]),
            A_STATE => e.a[3] = f(e.a[3]),
            A_PUBALL => e.a[1] = f(e.a[1]),
            _ => {}
        }
    }
}
fn drop_table(p: &Plan, i: usize, to: usize) -> Plan {
    let mut q = p.clone();
    let n = q.tables.len() as i64;
    q.tables.remove(i);
    let (i, to) = (i as i64, to as i64);
    map_tables(&mut q, &move |x| {
        let x = x.rem_euclid(n);
        let x = if x == i { to } else { x };
        if x > i {
            x - 1
        } else {
            x
        }
    });
    q
}
fn swap_dirs(p: &Plan, d: i64) -> Plan {
    let f = |x: i64| {
        if x == d {
            0
        } else if x == 0 {
            d
        } else {
            x
        }
    };
    let mut q = p.clone();
    q.tzdir = f(q.tzdir);
    for x in &mut q.files {
        x.dir = f(x.dir);
    }
    for e in &mut q.evs {
        if [A_PUBLISH, A_STATE, A_TZDIR, A_PUBALL].contains(&e.act) {
            e.a[0] = f(e.a[0]);
        }
    }
    q
}
fn valid(p: &Plan) -> bool {
    let ok = |t: &Table| {
        let mut n = 0;
        !t.is_empty()
            && (p.right == 0
                || t.iter().all(|&(_, l)| {
                    n += l as i32;
                    n >= 1
                }))
    };
    !p.tables.is_empty() && p.tables.iter().all(ok) && !p.tasks.is_empty() && p.tasks.iter().any(|t| !t.is_empty())
}
struct S<'a> {
    p: Plan,
    test: Test<'a>,
    b: Budget,
    merge: bool,
}
impl S<'_> {
    fn out(&self) -> bool {
        self.b.tries == 0 || Instant::now() > self.b.until
    }
    fn attempt(&mut self, q: Plan) -> bool {
        if q == self.p || !valid(&q) || self.out() {
            return false;
        }
        self.b.tries -= 1;
        if (self.test)(&q) {
            self.p = q;
            true
        } else {
            false
        }
    }
    /// Removes chunks of a list.
    fn chunks(&mut self, len: &dyn Fn(&Plan) -> usize, cut: &dyn Fn(&Plan, usize, usize) -> Plan) -> bool {
        let mut any = false;
        let mut size = len(&self.p).max(1);
        while size >= 1 {
            let mut at = len(&self.p);
            while at > 0 {
                at = at.min(len(&self.p));
                if at == 0 {
                    break;
                }
                let a = at.saturating_sub(size);
                let q = cut(&self.p, a, at);
                if self.attempt(q) {
                    any = true;
                }
                at = a;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        any
    }
    fn int(&mut self, get: &dyn Fn(&mut Plan) -> &mut i64, def: i64) -> bool {
        let mut any = false;
        let v = *get(&mut self.p);
        if v == def {
            return false;
        }
        let set = |s: &Self, x: i64| {
            let mut q = s.p.clone();
            *get(&mut q) = x;
            q
        };
        let q = set(self, def);
        if self.attempt(q) {
            return true;
        }
        // towards the default by halving the distance, from the big steps down
        let mut step = (v as i128 - def as i128) / 2;
        while step != 0 && !self.out() {
            let cur = *get(&mut self.p) as i128;
            let x = cur - step;
            let q = set(self, x as i64);
            if self.attempt(q) {
                any = true;
            } else {
                step /= 2;
            }
        }
        any
    }
    fn pass(&mut self) -> bool {
        let mut any = false;
        // tasks
        let mut t = self.p.tasks.len();
        while t > 0 && self.p.tasks.len() > 1 {
            t -= 1;
            let q = drop_task(&self.p, t);
            any |= self.attempt(q);
        }
        let n = self.p.tasks.len();
        if n > 1 && self.merge {
            let mut orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
            for k in 0..n {
                orders.push((0..n).map(|i| (i + k) % n).collect());
            }
            'm: for o in orders {
                for robin in [false, true] {
                    let q = merge(&self.p, &o, robin);
                    if self.attempt(q) {
                        any = true;
                        break 'm;
                    }
                }
            }
        }
        for t in 0..self.p.tasks.len() {
            any |= self.chunks(&|p| p.tasks[t].len(), &|p, a, b| drop_ops(p, t, a, b));
        }
        any |= self.chunks(&|p| p.pres.len(), &|p, a, b| {
            let mut q = p.clone();
            q.pres.drain(a..b);
            q
        });
        any |= self.chunks(&|p| p.evs.len(), &|p, a, b| {
            let mut q = p.clone();
            q.evs.drain(a..b);
            q
        });
        any |= self.chunks(&|p| p.files.len(), &|p, a, b| {
            let mut q = p.clone();
            q.files.drain(a..b);
            q
        });
        // tables
        let mut i = self.p.tables.len();
        while i > 0 && self.p.tables.len() > 1 {
            i -= 1;
            if i >= self.p.tables.len() {
                continue;
            }
            for to in 0..self.p.tables.len().min(3) {
                if to != i {
                    let q = drop_table(&self.p, i, to);
                    if self.attempt(q) {
                        any = true;
                        break;
                    }
                }
            }
        }
        for i in 0..self.p.tables.len() {
            any |= self.chunks(&|p| p.tables[i].len(), &|p, a, b| {
                let mut q = p.clone();
                q.tables[i].drain(a..b);
                q
            });
        }
        // the host
        any |= self.int(&|p| &mut p.right, 0);
        any |= self.int(&|p| &mut p.now_ns, 0);
        any |= self.int(&|p| &mut p.now, DEF_NOW);
        any |= self.int(&|p| &mut p.host, 0);
        if self.p.tzdir != 0 {
            let q = swap_dirs(&self.p, self.p.tzdir);
            any |= self.attempt(q);
            any |= self.int(&|p| &mut p.tzdir, 0);
        }
        for i in 0..self.p.files.len() {
            any |= self.int(&|p| &mut p.files[i].kind, 0);
            any |= self.int(&|p| &mut p.files[i].variant, 1);
            any |= self.int(&|p| &mut p.files[i].arg, 0);
            any |= self.int(&|p| &mut p.files[i].table, 0);
            any |= self.int(&|p| &mut p.files[i].dir, 0);
            any |= self.int(&|p| &mut p.files[i].zone, 0);
        }
        for i in 0..self.p.evs.len() {
            if self.p.evs[i].pt != P_START && ![A_ERR, A_EINTR, A_SHORT].contains(&self.p.evs[i].act) {
                let mut q = self.p.clone();
                q.evs[i].pt = P_START;
                q.evs[i].n = 0;
                any |= self.attempt(q);
            }
            any |= self.int(&|p| &mut p.evs[i].n, 1);
            let def = match self.p.evs[i].act {
                A_PUBLISH => [0, 0, 0, 1, 0],
                A_PUBALL => [0, 0, 1, 0, 0],
                A_ERR => [5, 0, 0, 0, 0],
                A_EINTR | A_STALL | A_SHORT | A_CHUNK => [1, 0, 0, 0, 0],
                A_STATE => [0, 0, 1, 0, 0],
                _ => [0; 5],
            };
            for k in 0..5 {
                any |= self.int(&|p| &mut p.evs[i].a[k], def[k]);
            }
        }
        for i in 0..self.p.pres.len() {
            any |= self.int(&|p| &mut p.pres[i].n, 1);
            any |= self.int(&|p| &mut p.pres[i].to, 0);
        }
        for t in 0..self.p.tasks.len() {
            for i in 0..self.p.tasks[t].len() {
                for k in 0..NOP {
                    let o = &self.p.tasks[t][i];
                    let def = match (o.k, k) {
                        (BUILD | HOLD, 1) => -1,
                        (BUILD | HOLD, 2) => 6,
                        (BUILD | HOLD, 3) => 2000,
                        (BUILD | HOLD, 4 | 5) => 1,
                        _ => 0,
                    };
                    // slots are only renamed to 0
                    any |= self.int(&|p| &mut p.tasks[t][i].a[k], def);
                }
            }
        }
        any
    }
}
/// `join`: whether two clients may become one.
pub fn shrink(p: &Plan, test: Test, b: Budget, join: bool) -> Plan {
    let mut s = S { p: p.clone(), test, b, merge: join };
    for _ in 0..6 {
        if !s.pass() || s.out() {
            break;
        }
    }
    s.p
}
