//! Deterministic simulation of momentous: seeded search, minimisation, replay.
#![allow(static_mut_refs)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod exec;
mod gen;
mod interpose;
mod mem;
mod model;
mod plan;
mod relevance;
mod rng;
mod runner;
mod selftest;
mod shm;
mod shrink;
mod ticks;
mod tzif;
mod world;

use std::collections::HashMap;

#[global_allocator]
static HEAP: mem::Heap = mem::Heap;

pub fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.into(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().expect("number"));
    let code = match pos.first().map(|s| s.as_str()) {
        Some("run") => runner::main_run(runner::Cfg {
            prop: opt["prop"].clone(),
            seed: num("seed", 1),
            runs: num("runs", 1000),
            first: num("first", 0),
            workers: num("workers", 8) as usize,
            secs: num("secs", 60),
            out: opt["out"].clone(),
            replays: opt.get("replays").cloned().unwrap_or("/verif/replays".into()),
            recheck: num("recheck", 50),
        }),
        Some("replay") => runner::main_replay(&pos[1], opt.get("quiet").is_some()),
        Some("show") => runner::main_show(&opt["prop"], num("seed", 1), num("index", 0)),
        Some("selftest") => selftest::run(),
        _ => {
            eprintln!("momsim run --prop P --seed S --runs N --workers K --secs T --out F | replay FILE | show --prop P --seed S --index I | selftest");
            2
        }
    };
    std::process::exit(code);
}
