//! Calls of the real code under Miri: its seeded scheduler decides every thread switch inside the
//! calls (P09), and its checks see undefined behaviour that leaves no trace in the output (P04).
//! Everything a Miri process does is in its calls file; nothing else is read.
use crate::enc::{self, Dir, Enc, Res};
use crate::gen::{self, Alpha};
use crate::rng::{mix, Fnv, Rng};
use crate::world::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub struct Job {
    pub thread: usize,
    pub enc: usize,
    pub dir: Dir,
    pub win: usize,
    pub end: bool,
    pub input: Vec<u8>,
    pub expect: u64,
}
#[derive(Clone, Debug)]
pub struct Script {
    pub miri_seed: u64,
    pub preempt: u32, // in 1/1000
    pub rounds: usize,
    pub jobs: Vec<Job>,
}

fn res_hash(r: &Res) -> u64 {
    let mut h = Fnv::new();
    match r {
        Res::Ok { out, used } => {
            h.u(1);
            h.bytes(out);
            h.u(*used as u64);
        }
        Res::Err { ch, invalid, range, written, out } => {
            h.u(2 + *invalid as u64);
            h.u(ch.map_or(0, |c| c as u64));
            h.u(range.0 as u64);
            h.u(range.1 as u64);
            h.u(*written as u64);
            h.bytes(out);
        }
        Res::Bad { class, .. } => h.bytes(class.as_bytes()),
    }
    h.0
}

fn text(encs: &[Enc], s: &Script) -> String {
    let mut t = format!("calls miri-seed={} preempt={} rounds={}\n", s.miri_seed, s.preempt, s.rounds);
    for j in &s.jobs {
        let hex: String = if j.input.is_empty() { "-".into() } else { j.input.iter().map(|b| format!("{:02x}", b)).collect() };
        t += &format!("job {} {} {} {} {} {} {:016x}\n", j.thread, if j.dir == Dir::Dec { "decode" } else { "encode" }, encs[j.enc].name, j.win, j.end as u8, hex, j.expect);
    }
    t
}
fn parse(encs: &[Enc], t: &str) -> Option<Script> {
    let mut s = Script { miri_seed: 0, preempt: 10, rounds: 1, jobs: vec![] };
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"calls") => {
                for x in &w[1..] {
                    let (k, v) = x.split_once('=')?;
                    match k {
                        "miri-seed" => s.miri_seed = v.parse().ok()?,
                        "preempt" => s.preempt = v.parse().ok()?,
                        _ => s.rounds = v.parse().ok()?,
                    }
                }
            }
            Some(&"job") => s.jobs.push(Job {
                thread: w[1].parse().ok()?,
                dir: if w[2] == "decode" { Dir::Dec } else { Dir::Enc },
                enc: encs.iter().position(|e| e.name == w[3])?,
                win: w[4].parse().ok()?,
                end: w[5] == "1",
                input: if w[6] == "-" { vec![] } else { (0..w[6].len() / 2).map(|i| u8::from_str_radix(&w[6][2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()? },
                expect: u64::from_str_radix(w[7], 16).ok()?,
            }),
            _ => {}
        }
    }
    Some(s)
}

/// The jobs in bytes, for the Miri process: text parsing is slow there.
fn binary(s: &Script) -> Vec<u8> {
    let mut v = vec![s.rounds as u8];
    for j in &s.jobs {
        v.extend_from_slice(&[j.thread as u8, j.enc as u8, (j.dir == Dir::Enc) as u8 | (j.end as u8) << 1]);
        for n in [j.win, j.input.len()] {
            v.extend_from_slice(&(n as u16).to_le_bytes());
        }
        v.extend_from_slice(&j.input);
        v.extend_from_slice(&j.expect.to_le_bytes());
    }
    v
}
fn unbinary(v: &[u8]) -> Script {
    let mut s = Script { miri_seed: 0, preempt: 0, rounds: v[0] as usize, jobs: vec![] };
    let mut p = 1;
    while p < v.len() {
        let n = v[p + 5] as usize | (v[p + 6] as usize) << 8;
        let q = p + 7 + n;
        s.jobs.push(Job {
            thread: v[p] as usize,
            enc: v[p + 1] as usize,
            dir: if v[p + 2] & 1 == 1 { Dir::Enc } else { Dir::Dec },
            end: v[p + 2] & 2 == 2,
            win: v[p + 3] as usize | (v[p + 4] as usize) << 8,
            input: v[p + 7..q].to_vec(),
            expect: u64::from_le_bytes([v[q], v[q + 1], v[q + 2], v[q + 3], v[q + 4], v[q + 5], v[q + 6], v[q + 7]]),
        });
        p = q + 8;
    }
    s
}

/// Runs inside Miri: performs the jobs, one thread per thread number.
pub fn main_file(path: &str) -> i32 {
    let encs = enc::all();
    let s = unbinary(&fs::read(path).expect("jobs file"));
    let n = s.jobs.iter().map(|j| j.thread + 1).max().unwrap_or(0);
    let work = |me: usize| -> Option<String> {
        let mut arena = enc::Arena::default();
        for round in 0..s.rounds {
            for (k, j) in s.jobs.iter().enumerate() {
                if j.thread != me {
                    continue;
                }
                let e = &encs[j.enc];
                let bad = if n == 1 {
                    println!("at {}", k);
                    // Heap blocks of exactly the right sizes, so that any access outside them is seen.
                    let mut w = vec![0x80u8; j.win].into_boxed_slice();
                    let input = j.input.clone().into_boxed_slice();
                    enc::bare(e, j.dir, &input, &mut w, j.end)
                } else {
                    enc::call(e, j.dir, &j.input, j.win, j.end, &mut arena, k & 3)
                };
                if res_hash(&bad) != j.expect {
                    return Some(format!("MISMATCH job {} (thread {} round {}): {}", k, me, round, res_text(&bad)));
                }
            }
        }
        None
    };
    let mut bad = vec![];
    if n <= 1 {
        bad.extend(work(0));
    } else {
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for i in 0..n {
                let work = &work;
                hs.push(sc.spawn(move || work(i)));
            }
            for h in hs {
                match h.join() {
                    Ok(b) => bad.extend(b),
                    Err(_) => bad.push("MISMATCH a thread panicked".into()),
                }
            }
        });
    }
    if bad.is_empty() {
        println!("CALLS-OK {}", s.jobs.len() * s.rounds);
        return 0;
    }
    for b in bad {
        println!("{}", b);
    }
    1
}

enum Miri {
    Fine,
    Failed { seed: u64, class: String, msg: String, at: Option<usize> },
    Unavailable(String),
}
fn miri(s: &Script, nseeds: u64, file: &Path) -> Miri {
    let (preempt, seeds) = (s.preempt, (s.miri_seed, s.miri_seed + nseeds));
    if let Err(e) = fs::write(file, binary(s)) {
        return Miri::Unavailable(e.to_string());
    }
    let root = crate::coord::root();
    let flags = format!(
        "-Zmiri-disable-isolation -Zmiri-preemption-rate={} {} {}",
        preempt as f64 / 1000.0,
        // Threads: only races and results matter; the other checks are P04's, and cost time.
        if s.jobs.iter().any(|j| j.thread > 0) { "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check" } else { "" },
        if seeds.1 - seeds.0 == 1 { format!("-Zmiri-seed={}", seeds.0) } else { format!("-Zmiri-many-seeds={}..{}", seeds.0, seeds.1) }
    );
    let o = Command::new("cargo")
        .args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path"])
        .arg(root.join("sim/Cargo.toml"))
        .args(["--", "threads-file"])
        .arg(file)
        .env("MIRIFLAGS", flags)
        .env("CARGO_TARGET_DIR", root.join("build/miri"))
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null())
        .output();
    let o = match o {
        Ok(o) => o,
        Err(e) => return Miri::Unavailable(e.to_string()),
    };
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.success() && out.contains("CALLS-OK") {
        return Miri::Fine;
    }
    let seed = err.lines().chain(out.lines()).find_map(|l| l.split("FAILING SEED: ").nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()))).unwrap_or(seeds.0);
    let at = out.lines().rev().find_map(|l| l.strip_prefix("at ").and_then(|x| x.parse().ok()));
    if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior")) {
        let race = l.contains("Data race");
        return Miri::Failed { seed, class: if race { "data-race" } else { "undefined-behaviour" }.into(), msg: l.trim().to_string(), at };
    }
    if let Some(l) = out.lines().find(|l| l.starts_with("MISMATCH")) {
        return Miri::Failed { seed, class: "result-depends-on-schedule".into(), msg: l.to_string(), at };
    }
    if let Some(l) = err.lines().find(|l| l.contains("deadlock")) {
        return Miri::Failed { seed, class: "deadlock".into(), msg: l.trim().to_string(), at };
    }
    Miri::Unavailable(format!("{} {}", o.status, err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ")))
}

pub struct Found {
    pub violation: Option<(PathBuf, String)>,
    pub extra: Vec<(String, String)>,
    pub warnings: Vec<String>,
}

pub fn replay(path: &str) -> Option<String> {
    let encs = enc::all();
    let s = parse(&encs, &fs::read_to_string(path).ok()?)?;
    let tmp = std::env::temp_dir().join(format!("sim-miri-{}.bin", std::process::id()));
    let r = miri(&s, 1, &tmp);
    let _ = fs::remove_file(&tmp);
    match r {
        Miri::Failed { class, msg, .. } => Some(format!("{}: {}", class, msg)),
        Miri::Fine => None,
        Miri::Unavailable(m) => crate::coord::die(&m),
    }
}

fn job(cx: &Ctx, thread: usize, e: usize, dir: Dir, win: usize, end: bool, input: Vec<u8>) -> Job {
    let mut arena = enc::Arena::default();
    let r = enc::call(&cx.encs[e], dir, &input, win, end, &mut arena, 0);
    Job { thread, enc: e, dir, win, end, input, expect: res_hash(&r) }
}

/// Thread workload number k: three or four threads, few encodings, short conversions.
fn workload(cx: &Ctx, al: &Alpha, seed: u64, k: u64) -> Script {
    let mut r = Rng::new(mix(seed ^ 0x7472_6561_6473) ^ mix(k));
    let nthreads = r.range(2, 4);
    // Walk through the encodings so that each is met by some workload.
    let n = cx.encs.len() as u64;
    let mut pool = vec![if k < n { k as usize } else { [5, 6, 0, 1, 2, 3, 4, 5, 6][(k % 9) as usize] }];
    if k >= n && r.pct(40) {
        pool[0] = r.below(n as usize);
    }
    if r.pct(50) {
        pool.push(r.below(n as usize));
    }
    let mut jobs = vec![];
    for t in 0..nthreads {
        // Every thread converts non-ASCII text both ways in the workload's encoding, and more.
        let extra = r.range(0, 2);
        let first = r.below(2);
        for x in 0..2 + extra {
            let (e, dec, plain) = if x < 2 { (pool[0], x == first, true) } else { (*r.pick(&pool), r.pct(55), false) };
            let m = if plain { gen::Mix::coded(&mut r) } else { gen::Mix::new(&mut r, true, true) };
            let units = if plain { r.range(2, 4) } else { r.range(1, 5) };
            let mut input = if dec { gen::bytes(cx, al, e, &mut r, units, &m) } else { gen::text(cx, al, e, &mut r, units, &m, &|_| true) };
            let mut cut = input.len().min(20);
            while !dec && cut < input.len() && (input[cut] & 0xC0) == 0x80 {
                cut -= 1;
            }
            input.truncate(cut);
            let win = if !plain && r.pct(30) { r.range(0, 12) } else { 4 * cut + 8 };
            jobs.push(job(cx, t, e, if dec { Dir::Dec } else { Dir::Enc }, win, r.pct(50), input));
        }
    }
    Script { miri_seed: mix(seed ^ k) % 1_000_000, preempt: *r.pick(&[10, 50, 200]), rounds: 2, jobs }
}

/// Calls of P04 runs, one for each abstract state met, for a single thread.
fn novel_calls(cx: &Ctx, al: &Alpha, seed: u64, want: usize) -> Vec<Job> {
    let mut seen = std::collections::HashSet::new();
    let mut jobs = vec![];
    let mut run = 0;
    while jobs.len() < want && run < 200_000 {
        let mut cov = std::mem::take(&mut seen);
        let mut recs = {
            let (_, w, _) = gen::search_run(cx, al, 4, seed, run, Some(&mut cov), false);
            let mut w = w;
            std::mem::take(&mut w.novel)
        };
        seen = cov;
        for c in recs.drain(..) {
            let long = c.input.len() <= 400 && c.win <= 1700 && jobs.len() % 8 == 0;
            if long || c.input.len() <= 40 && c.win <= 200 {
                jobs.push(job(cx, 0, c.st, c.dir, c.win, c.end, c.input));
            }
        }
        run += 1;
    }
    jobs
}

pub fn search(cx: &Ctx, prop: usize, seed: u64, thorough: bool, dir: &Path) -> Found {
    let t0 = Instant::now();
    let al = Alpha::new(cx);
    let mut f = Found { violation: None, extra: vec![], warnings: vec![] };
    let mut scripts: Vec<(Script, u64)> = vec![]; // with number of schedule seeds
    if prop == 9 {
        let n = if thorough { 228 } else { 44 };
        for k in 0..n {
            scripts.push((workload(cx, &al, seed, k), if thorough { 48 } else { 8 }));
        }
    } else {
        let want = if thorough { 24_000 } else { 1_600 };
        let jobs = novel_calls(cx, &al, seed, want);
        let per = (jobs.len() / if thorough { 64 } else { 8 }).max(1);
        for (i, c) in jobs.chunks(per).enumerate() {
            scripts.push((Script { miri_seed: mix(seed ^ i as u64) % 1_000_000, preempt: 0, rounds: 1, jobs: c.to_vec() }, 1));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: std::sync::Mutex<Vec<(usize, Miri)>> = Default::default();
    let files: Vec<PathBuf> = scripts
        .iter()
        .enumerate()
        .map(|(i, _)| dir.join(format!("calls.{}.bin", i)))
        .collect();
    // The first one builds.
    let one = |i: usize| {
        let (s, n) = &scripts[i];
        let r = miri(s, *n, &files[i]);
        let stop = !matches!(r, Miri::Fine);
        results.lock().unwrap().push((i, r));
        stop
    };
    // With many seeds Miri itself uses all processors.
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get());
    let workers = if prop == 9 { 2.min(workers) } else { workers };
    let halt = std::sync::atomic::AtomicBool::new(false);
    use std::sync::atomic::Ordering::SeqCst;
    if !one(next.fetch_add(1, SeqCst)) {
        std::thread::scope(|sc| {
            for _ in 0..workers {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= scripts.len() || halt.load(SeqCst) {
                        break;
                    }
                    if one(i) {
                        halt.store(true, SeqCst);
                    }
                });
            }
        });
    }
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    let fine = results.iter().filter(|r| matches!(r.1, Miri::Fine)).count();
    if prop == 9 {
        f.extra.push(("miri_thread_workloads".into(), fine.to_string()));
        f.extra.push(("miri_thread_schedules".into(), results.iter().filter(|r| matches!(r.1, Miri::Fine)).map(|r| scripts[r.0].1).sum::<u64>().to_string()));
    } else {
        f.extra.push(("miri_checked_calls".into(), results.iter().filter(|r| matches!(r.1, Miri::Fine)).map(|r| scripts[r.0].0.jobs.len()).sum::<usize>().to_string()));
    }
    for (i, r) in results {
        match r {
            Miri::Fine => {}
            Miri::Unavailable(m) => f.warnings.push(format!("Miri part gave no answer: {}", m)),
            Miri::Failed { seed: ms, class, msg, at } => {
                if f.violation.is_some() {
                    continue;
                }
                let mut s = scripts[i].0.clone();
                s.miri_seed = ms;
                let (s, msg2) = minimise(s, &class, at, dir);
                let rdir = crate::coord::root().join("replays");
                let _ = fs::create_dir_all(&rdir);
                let out = rdir.join(format!("P{:02}-seed{}-miri{}.txt", prop, seed, i));
                let m = msg2.unwrap_or(msg);
                let t = format!("# property P{:02}\n# expect class={} hash=-\n# under Miri, schedule seed {}\n# {}\n# replay with: ./check.sh replay THIS-FILE\n{}", prop, class, s.miri_seed, m, text(&cx.encs, &s));
                let _ = fs::write(&out, t);
                f.violation = Some((out, format!("{}: {}", class, m)));
            }
        }
    }
    f.extra.push(("miri_seconds".into(), format!("{:.1}", t0.elapsed().as_secs_f64())));
    f
}

/// Fewer jobs, fewer threads, fewer rounds, as long as it fails in the same way under some nearby
/// schedule seed.
fn minimise(s: Script, class: &str, at: Option<usize>, dir: &Path) -> (Script, Option<String>) {
    let tmp = dir.join("miri-try.bin");
    let t0 = Instant::now();
    let mut msg = None;
    let mut best = s.clone();
    let threads = s.jobs.iter().map(|j| j.thread).max().unwrap_or(0) + 1;
    let test = |c: &Script| -> Option<(u64, String)> {
        if c.jobs.is_empty() || t0.elapsed().as_secs() > 60 {
            return None;
        }
        let span = if threads > 1 { 32 } else { 1 };
        match miri(c, span, &tmp) {
            Miri::Failed { class: k, seed, msg, .. } if k == class => Some((seed, msg)),
            _ => None,
        }
    };
    let mut keep = |mut c: Script, best: &mut Script| -> bool {
        match test(&c) {
            Some((seed, m)) => {
                c.miri_seed = seed;
                *best = c;
                msg = Some(m);
                true
            }
            None => false,
        }
    };
    if threads == 1 {
        if let Some(k) = at {
            if k < s.jobs.len() {
                let mut c = s.clone();
                c.jobs = vec![s.jobs[k].clone()];
                if keep(c, &mut best) {
                    return (best, msg);
                }
            }
        }
    }
    let mut size = best.jobs.len().next_power_of_two();
    while size >= 1 {
        let mut e = best.jobs.len();
        while e > 0 {
            let a = e.saturating_sub(size);
            let mut c = best.clone();
            c.jobs.drain(a..e.min(c.jobs.len()));
            keep(c, &mut best);
            e = a;
        }
        size /= 2;
    }
    if best.rounds > 1 {
        let mut c = best.clone();
        c.rounds = 1;
        keep(c, &mut best);
    }
    (best, msg)
}
