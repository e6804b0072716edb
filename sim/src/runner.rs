//! Seeded search over plans: every run is a forked child that executes one plan and dies.
use crate::gen;
use crate::plan::*;
use crate::relevance::{within, primary, secondary};
use crate::rng::mix;
use crate::shm::{self, *};
use crate::shrink::{shrink, Budget};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub runs: u64,
    pub first: u64,
    pub workers: usize,
    pub secs: u64,
    pub out: String,
    pub replays: String,
    pub recheck: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub class: String,
    pub task: i32,
    pub op: i32,
    pub msg: String,
}

fn op_name(p: &Plan, t: i32, o: i32) -> String {
    match p.tasks.get(t.max(0) as usize).and_then(|v| v.get(o.max(0) as usize)) {
        Some(o) if o.k == CAL => (if o.a[2].rem_euclid(5) < 3 { "add-calendar-date" } else { "add-calendar-time" }).into(),
        Some(o) => OPN[o.k as usize].into(),
        None => "start".into(),
    }
}
/// Executes one plan in a forked child.
pub fn run_child(p: &Plan, sh: *mut Shm, verbose: bool) -> Vec<Found> {
    let s = unsafe { &mut *sh };
    s.reset();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            // out of processes or memory: the run did not take place
            eprintln!("momsim: fork failed");
            libc::_exit(3);
        }
        if pid == 0 {
            libc::alarm(20);
            let q = p.clone();
            crate::exec::run(q, sh, verbose);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut v: Vec<Found> = (0..s.nvio as usize)
            .map(|i| {
                let x = &s.vio[i];
                let mut class = text(&x.class);
                if class == "stuck" {
                    class = format!("stuck.{}", op_name(p, x.task, x.op));
                }
                Found { class, task: x.task, op: x.op, msg: text(&x.msg) }
            })
            .collect();
        if s.done == 0 {
            let (t, o) = (s.cur_task, s.cur_op);
            let name = op_name(p, t, o);
            let (class, msg) = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                (format!("stuck.{name}"), "the operation did not finish (and executes no instrumented code)".to_string())
            } else if libc::WIFSIGNALED(st) {
                (format!("crash.{name}"), format!("the process was killed by signal {}", libc::WTERMSIG(st)))
            } else if libc::WEXITSTATUS(st) == 101 {
                // panics of the library are caught: this one is the simulator's own
                ("harness".into(), "the simulator panicked".to_string())
            } else {
                (format!("crash.{name}"), format!("the process exited with status {}", libc::WEXITSTATUS(st)))
            };
            v.push(Found { class, task: t, op: o, msg });
        }
        v
    }
}
fn mkdir(p: &str) {
    let _ = std::fs::create_dir_all(p);
}
pub fn prop_index(prop: &str) -> usize {
    gen::PROPS.iter().position(|p| *p == prop).unwrap_or_else(|| {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    })
}
pub fn run_seed(prop: usize, seed: u64, index: u64) -> u64 {
    mix(mix(seed, 1000 + prop as u64), index)
}

#[repr(C)]
struct Shared {
    stop: std::sync::atomic::AtomicU32,
}

fn worker(c: &Cfg, w: usize, shared: &Shared, t0: Instant) {
    use std::sync::atomic::Ordering::SeqCst;
    let pi = prop_index(&c.prop);
    let sh = shm::alloc();
    let mut tot = [0u64; NCTR];
    let (mut runs, mut nontrivial, mut rechecked, mut mismatch, mut multi) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut plans: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut cand: Vec<(u64, String, bool)> = vec![];
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    let mut i = c.first + w as u64;
    let mut prim = 0;
    while i < c.first + c.runs {
        if t0.elapsed() > Duration::from_secs(c.secs) || shared.stop.load(SeqCst) >= 3 {
            break;
        }
        let p = gen::gen(pi, run_seed(pi, c.seed, i));
        let f = run_child(&p, sh, false);
        let s = unsafe { &*sh };
        runs += 1;
        for k in 0..NCTR {
            tot[k] = if is_max(k) { tot[k].max(s.ctr[k]) } else { tot[k].saturating_add(s.ctr[k]) };
        }
        // a run counts as non-trivial when at least one oracle judgement was made in it
        if s.ctr[K_CHECKS] > 0 {
            nontrivial += 1;
            seen.insert(mix(s.hist, s.sched));
        }
        plans.insert(p.text().bytes().fold(0xcbf29ce484222325, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
        if p.tasks.len() > 1 {
            multi += 1;
            scheds.insert(s.sched);
        }
        if c.recheck > 0 && i % c.recheck == 0 {
            let (h, sc, ct) = (s.hist, s.sched, s.ctr);
            let g = run_child(&p, sh, false);
            let s = unsafe { &*sh };
            rechecked += 1;
            if g != f || (h, sc) != (s.hist, s.sched) || ct != s.ctr {
                mismatch += 1;
            }
        }
        for x in &f {
            if x.class == "harness" {
                cand.push((i, x.class.clone(), true));
                continue;
            }
            let pr = primary(&c.prop, &x.class, &p);
            if !pr && !secondary(&c.prop, &x.class, &p) {
                continue;
            }
            let n = per.entry(x.class.clone()).or_default();
            *n += 1;
            if *n <= if pr { 3 } else { 5 } {
                cand.push((i, x.class.clone(), pr));
            }
            if pr {
                prim += 1;
                if prim == 3 || x.class.starts_with("stuck") {
                    shared.stop.fetch_add(1, SeqCst);
                }
            } else if x.class.starts_with("stuck") && *n > 20 {
                shared.stop.fetch_add(3, SeqCst);
            }
        }
        i += c.workers as u64;
    }
    let mut o = String::new();
    o += &format!("n {runs} {nontrivial} {rechecked} {mismatch} {multi}\n");
    o += &format!("ctr {}\n", tot.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for (i, k, p) in &cand {
        o += &format!("cand {i} {k} {}\n", *p as u8);
    }
    for (k, n) in &per {
        o += &format!("class {k} {n}\n");
    }
    let base = format!("{}.w{w}", c.out);
    std::fs::write(format!("{base}.txt"), o).expect("write");
    for (n, set) in [("hist", &seen), ("plan", &plans), ("sched", &scheds)] {
        let v: Vec<u8> = set.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{base}.{n}"), v).expect("write");
    }
    std::fs::write(format!("{base}.cov"), unsafe { &(*sh).cov }).expect("write");
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn main_run(c: Cfg) -> i32 {
    prop_index(&c.prop);
    let t0 = Instant::now();
    let shared = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Shared)
    };
    let mut pids = vec![];
    for w in 0..c.workers {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                worker(&c, w, shared, t0);
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut bad = false;
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        bad |= st != 0;
    }
    if bad {
        eprintln!("momsim: a worker failed");
        return 3;
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut tot = [0u64; NCTR];
    let mut n = [0u64; 5];
    let mut cand: Vec<(u64, String, bool)> = vec![];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut sets = [HashSet::new(), HashSet::new(), HashSet::new()];
    let mut cov = vec![0u8; NCOV];
    for w in 0..c.workers {
        let base = format!("{}.w{w}", c.out);
        for l in std::fs::read_to_string(format!("{base}.txt")).expect("read").lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f[0] {
                "n" => (0..5).for_each(|k| n[k] += f[1 + k].parse::<u64>().unwrap()),
                "ctr" => (0..NCTR).for_each(|k| {
                    let x = f[1 + k].parse::<u64>().unwrap();
                    tot[k] = if is_max(k) { tot[k].max(x) } else { tot[k].saturating_add(x) };
                }),
                "cand" => cand.push((f[1].parse().unwrap(), f[2].into(), f[3] == "1")),
                _ => *classes.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            }
        }
        for (k, s) in ["hist", "plan", "sched"].iter().enumerate() {
            for x in std::fs::read(format!("{base}.{s}")).expect("read").chunks(8) {
                sets[k].insert(u64::from_le_bytes(x.try_into().unwrap()));
            }
        }
        for (a, b) in cov.iter_mut().zip(std::fs::read(format!("{base}.cov")).expect("read")) {
            *a |= b;
        }
        for e in ["txt", "hist", "plan", "sched", "cov"] {
            let _ = std::fs::remove_file(format!("{base}.{e}"));
        }
    }
    // minimise the candidates, the primary ones first, and keep those that still concern the property
    cand.sort_by(|a, b| (!a.2, a.0, &a.1).cmp(&(!b.2, b.0, &b.1)));
    let mut reported: Vec<(String, String, String)> = vec![];
    let broken: Vec<u64> = cand.iter().filter(|c| c.1 == "harness").map(|c| c.0).collect();
    cand.retain(|c| c.1 != "harness");
    if !broken.is_empty() {
        eprintln!("momsim: the simulator itself failed in runs {:?}", &broken[..broken.len().min(10)]);
    }
    let mut dismissed: BTreeMap<String, u64> = BTreeMap::new();
    let sh = shm::alloc();
    let pi = prop_index(&c.prop);
    let t1 = Instant::now();
    for (i, class, _) in &cand {
        if reported.len() >= 3 || t1.elapsed() > Duration::from_secs(150) {
            break;
        }
        if reported.iter().any(|r| r.0 == *class) || dismissed.get(class).map_or(false, |n| *n >= 25) {
            continue;
        }
        let seed = run_seed(pi, c.seed, *i);
        let p = gen::gen(pi, seed);
        let slow = class.starts_with("stuck");
        let budget = || Budget { tries: if slow { 200 } else { 3000 }, until: Instant::now() + Duration::from_secs(25) };
        let mut fails = |q: &Plan| run_child(q, sh, false).iter().any(|f| f.class == *class);
        let mut q = shrink(&p, &mut fails, budget(), true);
        if c.prop == "C15" && p.tasks.len() > 1 && q.tasks.len() < 2 {
            // one thread could do all of it; does it take what another thread did?
            q = shrink(&p, &mut fails, budget(), false);
        }
        if !(primary(&c.prop, class, &q) || secondary(&c.prop, class, &q)) || !within(&c.prop, &q) {
            *dismissed.entry(class.clone()).or_default() += 1;
            continue;
        }
        let f = run_child(&q, sh, true);
        let Some(v) = f.iter().find(|f| f.class == *class) else {
            eprintln!("momsim: minimised plan of run {i} does not reproduce");
            continue;
        };
        mkdir(&c.replays);
        let path = format!("{}/{}-{}-{}-{}-{}.plan", c.replays, c.prop, class.replace('@', "-"), crate::profile(), c.seed, i);
        let s = unsafe { &*sh };
        let mut t = String::new();
        t += "# momentous simulation replay\n";
        t += &format!("# property {}\n# class {}\n# profile {}\n", c.prop, class, crate::profile());
        t += &format!("# seed {} run {} (run seed {})\n", c.seed, i, seed);
        t += &format!("# digest {:016x} {:016x}\n", s.hist, s.sched);
        t += &format!("# violation: {}\n", v.msg.replace('\n', " "));
        t += "# minimised plan:\n";
        t += &q.text();
        t += "#\n# execution:\n";
        for l in String::from_utf8_lossy(&s.log[..s.log_len as usize]).lines().take(400) {
            t += &format!("# {l}\n");
        }
        std::fs::write(&path, t).expect("write replay");
        // the replay file must reproduce it exactly, in a process of its own
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path, "--quiet", "1"])
            .status()
            .map_or(false, |s| s.code() == Some(1));
        if !ok {
            eprintln!("momsim: {path} does not replay exactly");
        }
        println!("FOUND {} {} {}", class, path, v.msg.replace('\n', " "));
        reported.push((class.clone(), path, v.msg.clone()));
    }
    // samples for the evidence
    let mut samples = vec![];
    for k in 0..6u64 {
        let idx = c.first + k * 37 % c.runs.max(1);
        let p = gen::gen(pi, run_seed(pi, c.seed, idx));
        let f = run_child(&p, sh, true);
        let s = unsafe { &*sh };
        let log: Vec<String> = String::from_utf8_lossy(&s.log[..s.log_len as usize]).lines().take(8).map(|l| l.trim().to_string()).collect();
        samples.push(format!(
            "{{\"run\":{},\"seed\":{},\"clients\":{},\"operations\":{},\"events\":{},\"preemptions_planned\":{},\"violations\":{},\"trace\":[{}]}}",
            idx,
            js(&format!("{:016x}", run_seed(pi, c.seed, idx))),
            p.tasks.len(),
            s.ctr[K_OPS],
            p.evs.len(),
            p.pres.len(),
            f.len(),
            log.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")
        ));
    }
    let named = |base: usize, names: &[&str]| {
        names.iter().enumerate().map(|(k, n)| format!("{}:{}", js(n), tot[base + k])).collect::<Vec<_>>().join(",")
    };
    let mut o = String::from("{");
    o += &format!("\"profile\":{},\"runs\":{},\"nontrivial\":{},\"rechecked\":{},\"determinism_mismatches\":{},\"concurrent_runs\":{},", js(crate::profile()), n[0], n[1], n[2], n[3], n[4]);
    o += &format!("\"distinct_histories\":{},\"distinct_plans\":{},\"distinct_schedules\":{},", sets[0].len(), sets[1].len(), sets[2].len());
    o += &format!("\"edges_covered\":{},", cov.iter().filter(|x| **x != 0).count());
    o += &format!("\"search_s\":{:.3},\"total_s\":{:.3},", search_s, t0.elapsed().as_secs_f64());
    o += &format!("\"world_events\":{{{}}},", named(K_ACT, &ACTN));
    o += &format!("\"operations\":{{{}}},", named(K_OP, &OPN));
    o += &format!("\"file_states_opened\":{{{}}},", named(K_CLASS, &FN));
    o += &format!("\"counters\":{{{}}},", named(0, &["operations", "skipped", "refused", "switches", "preemptions", "syscalls", "blocks", "simulated_us", "judgements", "futex_waits", "mid_operation_events", "overlapped_operations", "leap_second_results", "carries", "edge_refusals"]));
    o += &format!("\"most_work_of_one_call\":{{{}}},", named(K_MAXPURE, &["blocks_without_reading", "blocks_with_reading", "system_calls", "bytes"]));
    o += &format!("\"classes_seen\":{{{}}},", classes.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    o += &format!("\"dismissed\":{{{}}},", dismissed.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}],", reported.iter().map(|(k, p, m)| format!("{{\"class\":{},\"replay\":{},\"message\":{}}}", js(k), js(p), js(m))).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}]}}\n", samples.join(","));
    std::fs::File::create(&c.out).and_then(|mut f| f.write_all(o.as_bytes())).expect("write out");
    if reported.is_empty() {
        if broken.is_empty() {
            0
        } else {
            3
        }
    } else {
        1
    }
}
pub fn main_replay(path: &str, quiet: bool) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let head = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("# {k} "))).map(|s| s.trim().to_string()).unwrap_or_default();
    let p = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let sh = shm::alloc();
    let f = run_child(&p, sh, true);
    let s = unsafe { &*sh };
    let class = head("class");
    let digest = format!("{:016x} {:016x}", s.hist, s.sched);
    let same = digest == head("digest");
    if !quiet {
        println!("{}", String::from_utf8_lossy(&s.log[..s.log_len as usize]));
        for v in &f {
            println!("violation {} (task {} op {}): {}", v.class, v.task, v.op, v.msg);
        }
        println!("execution digest {digest}: {}", if same { "identical to the recorded run" } else { "differs from the recorded run (the code has changed)" });
    }
    if f.iter().any(|v| v.class == class || class.is_empty()) {
        if quiet && !same {
            return 4;
        }
        if !quiet {
            println!("VIOLATION property={} replay={}", head("property"), path);
        }
        1
    } else {
        0
    }
}
pub fn main_show(prop: &str, seed: u64, index: u64) -> i32 {
    let pi = prop_index(prop);
    let p = gen::gen(pi, run_seed(pi, seed, index));
    println!("{}", p.text());
    let sh = shm::alloc();
    let f = run_child(&p, sh, true);
    let s = unsafe { &*sh };
    println!("{}", String::from_utf8_lossy(&s.log[..s.log_len as usize]));
    for v in &f {
        println!("violation {} (task {} op {}): {}", v.class, v.task, v.op, v.msg);
    }
    0
}
