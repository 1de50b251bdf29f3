//! Deterministic simulation of text conversion streams. See /verif/DESIGN.md.
mod coord;
mod enc;
mod gen;
mod oracle;
mod refmodel;
mod rng;
mod scenario;
mod shrink;
mod starve;
mod threads;
mod world;

use std::panic;
use world::*;

#[cfg(not(miri))]
#[global_allocator]
static MEMORY: starve::Alloc = starve::Alloc;

/// Stack of the threads on which simulated code runs.
const STACK: usize = 256 << 10;

pub fn context() -> Ctx {
    Ctx { encs: enc::all(), rf: refmodel::Ref::new(), known: coord::known_findings() }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    // Simulated code runs on a small stack, as on a thread of a server: depth that grows with the
    // input would end the process.
    let small = matches!(arg(1).as_str(), "shard" | "one" | "minimise" | "replay-child" | "hashes" | "series");
    let r = panic::catch_unwind(|| if small && !cfg!(miri) {
        let b = std::thread::Builder::new().stack_size(STACK);
        let a2 = a.clone();
        b.spawn(move || run(&a2)).expect("thread").join().unwrap_or_else(|p| panic::resume_unwind(p))
    } else {
        run(&a)
    });
    let code = match r {
        Ok(c) => c,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("HARNESS-ERROR {}", m);
            2
        }
    };
    std::process::exit(code);
}

fn run(a: &[String]) -> i32 {
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| coord::die(&format!("bad number: {}", arg(i))));
    match arg(1).as_str() {
        "check" => coord::check(coord::prop_no(&arg(2))),
        "shard" => coord::shard(coord::prop_no(&arg(2)), num(3), num(4), num(5), num(6), &arg(7)),
        "one" => coord::one(coord::prop_no(&arg(2)), num(3), num(4)),
        "minimise" => coord::minimise(coord::prop_no(&arg(2)), num(3), num(4), &arg(5), &arg(6)),
        "replay" => coord::replay_cmd(&arg(2)),
        "replay-child" => coord::replay_child(&arg(2), arg(3) == "quiet"),
        "series" => coord::series(coord::prop_no(&arg(2)), num(3), num(4), num(5)),
        "hashes" => coord::hashes(coord::prop_no(&arg(2)), num(3), num(4), num(5)),
        "threads-file" => threads::main_file(&arg(2)),
        _ => {
            println!("usage: sim check PNN | replay FILE | one PNN SEED RUN | hashes PNN SEED FROM TO");
            2
        }
    }
}
