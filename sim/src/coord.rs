//! Search coordination: shards in child processes, violation confirmation, minimisation, evidence.
use crate::gen::{self, Alpha};
use crate::shrink::Shrink;
use crate::threads;
use crate::world::*;
use crate::{context, scenario};
use std::collections::HashSet;
use std::fs;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 32;

pub fn die(m: &str) -> ! {
    println!("HARNESS-ERROR {}", m);
    std::process::exit(2)
}
/// The properties this simulator decides.
pub const PROPS: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16];
pub fn prop_no(s: &str) -> usize {
    match s.strip_prefix('P').and_then(|x| x.parse().ok()) {
        Some(n) if PROPS.contains(&n) => n,
        _ => die(&format!("unknown property {}", s)),
    }
}
pub fn root() -> PathBuf {
    match std::env::var("SIM_ROOT") {
        Ok(s) => PathBuf::from(s),
        Err(_) => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}
fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}
pub fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    if cfg!(miri) {
        return v;
    }
    for l in fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default().lines() {
        if !l.starts_with("KNOWN-FINDING: property=P03 ") {
            continue;
        }
        let get = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k));
        let cp = |k: &str| get(k).and_then(|x| x.strip_prefix("U+")).and_then(|x| u32::from_str_radix(x, 16).ok()).and_then(char::from_u32);
        if let (Some(e), Some(s), Some(g)) = (get("encoding="), cp("sent="), cp("received=")) {
            v.push(Known { enc: e.to_string(), sent: s, got: g, line: l.to_string() });
        }
    }
    v
}

/// One simulated run, with panics of the harness itself turned into a report.
fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

// ---------------------------------------------------------------- shard

/// Child: plays runs first, first+SHARDS, ... below `total`.
pub fn shard(prop: usize, seed: u64, index: u64, total: u64, from: u64, dir: &str) -> i32 {
    use std::os::unix::fs::FileExt;
    let cx = context();
    let al = Alpha::new(&cx);
    let dir = Path::new(dir);
    let stop = dir.join("stop");
    let progress = fs::File::create(dir.join(format!("progress.{}", index))).unwrap();
    let mut cover: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut faults = [0u64; NFAULTS];
    let mut fault_runs = [0u64; NFAULTS];
    let (mut runs, mut calls, mut steps, mut bytes, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut enc_runs = vec![[0u64; 2]; cx.encs.len()];
    let mut known = vec![0u64; cx.known.len()];
    let mut samples: Vec<String> = vec![];
    let mut order = crate::rng::Fnv::new();
    let mut found: Option<(u64, Viol)> = None;
    let mut run = index;
    let mut slowest = (0, 0);
    let mut harness: Option<String> = None;
    while run < total {
        if run < from {
            run += SHARDS;
            continue;
        }
        let t0 = Instant::now();
        let _ = progress.write_at(format!("{:>12}", run).as_bytes(), 0);
        if runs % 256 == 255 {
            if let Ok(s) = fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map_or(false, |r| r < run) {
                    break;
                }
            }
        }
        let r = guarded(|| {
            let (sc, w, o) = gen::search_run(&cx, &al, prop, seed, run, Some(&mut cover), false);
            runs += 1;
            calls += w.calls;
            steps += w.steps;
            bytes += w.bytes;
            order.u(o.hash);
            let mut any = 0;
            for i in 0..NFAULTS {
                faults[i] += w.faults[i];
                fault_runs[i] += (w.faults[i] > 0) as u64;
                any += w.faults[i];
            }
            for s in &sc.specs {
                enc_runs[s.enc][(s.dir == crate::enc::Dir::Enc) as usize] += 1;
            }
            for &k in &w.known_hits {
                known[k] += 1;
            }
            if w.calls >= 2 && any > 0 {
                nontrivial += 1;
                distinct.insert(o.hash ^ o.sched.rotate_left(17));
            }
            if samples.len() < 1 && index < 3 && w.calls >= 3 && any >= 2 && sc.steps.len() < 24 && sc.specs.iter().all(|s| s.src.len() < 60) {
                samples.push(scenario::write(&cx.encs, &sc));
            }
            o.viol
        });
        slowest = slowest.max((t0.elapsed().as_millis() as u64, run));
        match r {
            Ok(None) => {}
            Ok(Some(v)) => {
                found = Some((run, v));
                break;
            }
            Err(m) => {
                harness = Some(format!("run {}: {}", run, m));
                break;
            }
        }
        run += SHARDS;
    }
    let write_set = |name: &str, s: &HashSet<u64>| {
        let mut v: Vec<u8> = Vec::with_capacity(s.len() * 8);
        for x in s {
            v.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(dir.join(format!("{}.{}", name, index)), v).unwrap();
    };
    write_set("cover", &cover);
    write_set("distinct", &distinct);
    let mut t = String::new();
    t += &format!("runs {}\ncalls {}\nsteps {}\nbytes {}\nnontrivial {}\norder {}\n", runs, calls, steps, bytes, nontrivial, order.0);
    t += &format!("faults {}\n", faults.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t += &format!("fault_runs {}\n", fault_runs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t += &format!("encs {}\n", enc_runs.iter().map(|x| format!("{} {}", x[0], x[1])).collect::<Vec<_>>().join(" "));
    t += &format!("known {}\n", known.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t += &format!("slowest {} {}\n", slowest.0, slowest.1);
    if let Some((r, v)) = &found {
        t += &format!("found {} {} {}\n", r, v.class, v.msg.replace('\n', " "));
        let _ = fs::write(dir.join(format!("stop.{}", index)), r.to_string());
        let _ = fs::rename(dir.join(format!("stop.{}", index)), &stop);
    }
    if let Some(m) = &harness {
        t += &format!("harness {}\n", m.replace('\n', " "));
    }
    for s in &samples {
        t += &format!("sample {}\n", s.replace('\n', "|"));
    }
    fs::write(dir.join(format!("result.{}", index)), t).unwrap();
    0
}

/// Plays one run and prints it step by step as it goes, as a replay file.
pub fn one(prop: usize, seed: u64, run: u64) -> i32 {
    let cx = context();
    let al = Alpha::new(&cx);
    let (_, _, o) = gen::search_run(&cx, &al, prop, seed, run, None, true);
    match o.viol {
        Some(v) => {
            println!("# violation class={} hash={:016x} {}", v.class, o.hash, v.msg.replace('\n', " "));
            1
        }
        None => {
            println!("# no violation hash={:016x}", o.hash);
            0
        }
    }
}

/// Prints the scenarios of runs first, first+SHARDS, ... up to `last`.
pub fn series(prop: usize, seed: u64, first: u64, last: u64) -> i32 {
    let cx = context();
    let al = Alpha::new(&cx);
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut k = first;
    while k <= last {
        if let Ok((sc, _, _)) = guarded(|| gen::search_run(&cx, &al, prop, seed, k, None, false)) {
            let _ = out.write_all(scenario::write(&cx.encs, &sc).as_bytes());
        }
        k += SHARDS;
    }
    0
}

pub fn hashes(prop: usize, seed: u64, from: u64, to: u64) -> i32 {
    let cx = context();
    let al = Alpha::new(&cx);
    let mut v: Vec<(u64, u64)> = vec![];
    let back = std::env::var("SIM_REVERSE").is_ok();
    for k in from..to {
        let run = if back { to - 1 - (k - from) } else { k };
        let (sc, _, o) = gen::search_run(&cx, &al, prop, seed, run, None, false);
        let mut h = crate::rng::Fnv::new();
        h.u(o.hash);
        h.bytes(scenario::write(&cx.encs, &sc).as_bytes());
        if let Some(x) = o.viol {
            h.bytes(x.class.as_bytes());
        }
        v.push((run, h.0));
    }
    v.sort();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for (r, h) in v {
        let _ = writeln!(out, "{} {:016x}", r, h);
    }
    0
}

// ---------------------------------------------------------------- replay

/// Plays every scenario of a replay file in this process.
pub fn replay_child(path: &str, quiet: bool) -> i32 {
    let cx = context();
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.first() == Some(&"shard") {
            // A whole shard of the search, up to and including one run.
            let al = Alpha::new(&cx);
            let (p, seed, idx, upto) = (prop_no(w[1]), w[2].parse().unwrap(), w[3].parse::<u64>().unwrap(), w[4].parse::<u64>().unwrap());
            let mut run = idx;
            while run <= upto {
                let (_, _, o) = gen::search_run(&cx, &al, p, seed, run, None, false);
                if let Some(v) = o.viol {
                    println!("RESULT class={} hash={:016x} {}", v.class, o.hash, v.msg.replace('\n', " "));
                    return 1;
                }
                run += SHARDS;
            }
            println!("RESULT none");
            return 0;
        }
    }
    let scs = scenario::parse(&cx.encs, &text).unwrap_or_else(|| die("cannot parse replay file"));
    let n = scs.len();
    for (k, sc) in scs.iter().enumerate() {
        if !quiet {
            println!("-- scenario {} of {}", k + 1, n);
        }
        let (w, v, h) = gen::replay(&cx, sc, !quiet);
        if let Some(t) = &w.trace {
            for l in t {
                println!("{}", l);
            }
        }
        if let Some(v) = v {
            println!("RESULT class={} hash={:016x} {}", v.class, h, v.msg.replace('\n', " "));
            return 1;
        }
    }
    println!("RESULT none");
    0
}

#[derive(Clone, Debug, PartialEq)]
struct End {
    class: String,
    hash: String,
    msg: String,
}
fn cpu(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
/// Waits for a child whose life signs come from `sign`; kills it when it burns `limit` seconds of
/// processor time without one.
fn watch(c: &mut Child, limit: f64, sign: &mut dyn FnMut() -> Vec<u8>) -> Option<std::process::ExitStatus> {
    let mut last = sign();
    let mut at = cpu(c.id());
    let mut t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
        if t0.elapsed().as_secs_f64() > limit {
            let now = sign();
            if now != last {
                last = now;
                at = cpu(c.id());
                t0 = Instant::now();
            } else if cpu(c.id()) - at > limit {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}
/// Replays a file in a fresh process.
fn replay_fresh(path: &Path, limit: f64) -> Option<End> {
    let out = path.with_extension("out");
    let err = path.with_extension("err");
    let mut c = Command::new(me())
        .args(["replay-child", path.to_str().unwrap(), "quiet"])
        .stdout(fs::File::create(&out).unwrap())
        .stderr(fs::File::create(&err).unwrap())
        .stdin(Stdio::null())
        .spawn()
        .unwrap();
    let st = watch(&mut c, limit, &mut || vec![]);
    let o = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).into_owned();
    let e = String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).into_owned();
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&err);
    let end = |class: &str, msg: String| Some(End { class: class.into(), hash: "-".into(), msg });
    match st {
        None => end("never-returns", "a call did not return".into()),
        Some(s) => match s.code() {
            None => end("process-killed", format!("the process was ended by a signal ({}) {}", s, e.lines().filter(|l| !l.is_empty()).take(3).collect::<Vec<_>>().join(" | "))),
            Some(_) => {
                let l = o.lines().rev().find(|l| l.starts_with("RESULT "))?;
                if l.starts_with("RESULT none") {
                    return None;
                }
                let mut w = l.splitn(4, ' ');
                w.next();
                let c = w.next()?.strip_prefix("class=")?.to_string();
                let h = w.next()?.strip_prefix("hash=")?.to_string();
                Some(End { class: c, hash: h, msg: w.next().unwrap_or("").to_string() })
            }
        },
    }
}

pub fn replay_cmd(path: &str) -> i32 {
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    let want = text.lines().find_map(|l| l.strip_prefix("# expect ")).unwrap_or("").to_string();
    let prop = text.lines().find_map(|l| l.strip_prefix("# property ")).unwrap_or("?").to_string();
    let verdict = |got: String| {
        println!("expected: {}\nobserved: {}", want, got);
        if got == want {
            println!("reproduced exactly");
        }
    };
    if text.lines().any(|l| l.starts_with("calls ")) {
        let r = threads::replay(path);
        return match r {
            Some(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", prop, path);
                1
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("order ")) {
        let w: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = (w[2].parse().unwrap(), w[3].parse().unwrap());
        return match order_differs(prop_no(&prop), w[1].parse().unwrap(), a, b) {
            Some(r) => {
                println!("run {} gives another result when the runs are played in reverse order", r);
                println!("VIOLATION property={} replay={}", prop, path);
                1
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
    // The trace first, then the verdict of a fresh, watched process.
    let mut c = Command::new(me()).args(["replay-child", path]).spawn().unwrap();
    let limit = if text.lines().any(|l| l.starts_with("shard ")) { 800.0 } else { 10.0 };
    if watch(&mut c, limit, &mut || vec![]).is_none() {
        println!("(a call did not return)");
    }
    let tmp = std::env::temp_dir().join(format!("sim-replay-{}.txt", std::process::id()));
    fs::copy(path, &tmp).unwrap();
    let r = replay_fresh(&tmp, limit);
    let _ = fs::remove_file(&tmp);
    match r {
        Some(e) => {
            println!("{}", e.msg);
            verdict(format!("class={} hash={}", e.class, e.hash));
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// ---------------------------------------------------------------- minimise

fn header(prop: usize, seed: u64, run: u64, e: &End, how: &str) -> String {
    format!(
        "# property P{:02}\n# expect class={} hash={}\n# seed {} run {} ({})\n# {}\n# replay with: ./check.sh replay THIS-FILE\n",
        prop,
        e.class,
        e.hash,
        seed,
        run,
        how,
        e.msg
    )
}

/// Child: shrinks the violation of one run in this process and writes a replay file.
pub fn minimise(prop: usize, seed: u64, run: u64, class: &str, out: &str) -> i32 {
    let cx = context();
    let al = Alpha::new(&cx);
    let (sc, _, o) = gen::search_run(&cx, &al, prop, seed, run, None, false);
    let full = sc.steps.len();
    let size: usize = sc.specs.iter().map(|s| s.src.len()).sum();
    if o.viol.as_ref().map(|v| v.class.as_str()) != Some(class) {
        return 3;
    }
    fs::write(format!("{}.full", out), scenario::write(&cx.encs, &sc)).unwrap();
    let t0 = Instant::now();
    let mut fails = |s: &Scenario| {
        if t0.elapsed().as_secs() > 60 {
            return false;
        }
        guarded(|| gen::replay(&cx, s, false).1).ok().flatten().map_or(false, |v| v.class == class)
    };
    let small = Shrink { fails: &mut fails, budget: 20000 }.run(sc);
    let (_, v, h) = gen::replay(&cx, &small, false);
    let v = match v {
        Some(v) => v,
        None => return 3,
    };
    let e = End { class: v.class, hash: format!("{:016x}", h), msg: v.msg };
    let how = format!("minimised from {} steps and {} source bytes", full, size);
    fs::write(out, header(prop, seed, run, &e, &how) + &scenario::write(&cx.encs, &small)).unwrap();
    0
}

/// Shrinks by replaying in fresh processes (for crashes, hangs and state that outlives a run).
fn shrink_outside(cx: &Ctx, mut scs: Vec<Scenario>, class: &str, limit: f64, mut budget: usize, tmp: &Path, deadline: Instant) -> Vec<Scenario> {
    let text = |v: &[Scenario]| v.iter().map(|s| scenario::write(&cx.encs, s)).collect::<String>();
    let mut test = |v: &[Scenario]| {
        if budget == 0 || Instant::now() > deadline {
            return false;
        }
        budget -= 1;
        fs::write(tmp, text(v)).unwrap();
        replay_fresh(tmp, limit).map_or(false, |e| e.class == class)
    };
    let mut size = scs.len().next_power_of_two();
    while size >= 1 && scs.len() > 1 {
        let mut at = scs.len();
        while at > 0 && Instant::now() < deadline {
            let a = at.saturating_sub(size);
            let mut t = scs.clone();
            t.drain(a..at);
            if !t.is_empty() && test(&t) {
                scs = t;
            }
            at = a;
        }
        size /= 2;
    }
    for k in (0..scs.len()).rev() {
        if Instant::now() > deadline {
            break;
        }
        let base = scs.clone();
        let mut f = |s: &Scenario| {
            if Instant::now() > deadline {
                return false;
            }
            let mut v = base.clone();
            v[k] = s.clone();
            test(&v)
        };
        let r = Shrink { fails: &mut f, budget: 400 }.run(base[k].clone());
        scs[k] = r;
    }
    scs
}

/// Turns a found violation into a confirmed replay file.
fn report(cx: &Ctx, prop: usize, seed: u64, run: u64, class: &str, msg: &str, died: bool, dir: &Path) -> PathBuf {
    let deadline = Instant::now() + Duration::from_secs(180);
    let rdir = root().join("replays");
    let _ = fs::create_dir_all(&rdir);
    let out = rdir.join(format!("P{:02}-seed{}-run{}.txt", prop, seed, run));
    let tmp = dir.join("try.txt");
    let _ = fs::remove_file(&out);
    let p = format!("P{:02}", prop);
    let s = |x: u64| x.to_string();
    if !died {
        let mut c = Command::new(me()).args(["minimise", &p, &s(seed), &s(run), class, out.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let st = watch(&mut c, 120.0, &mut || vec![]);
        let ok = st.map_or(false, |s| s.code() == Some(0));
        let full = PathBuf::from(format!("{}.full", out.display()));
        let full_text = fs::read_to_string(&full).ok();
        let _ = fs::remove_file(&full);
        if ok {
            let text = fs::read_to_string(&out).unwrap();
            fs::write(&tmp, &text).unwrap();
            if let Some(e) = replay_fresh(&tmp, 10.0) {
                let want = text.lines().find_map(|l| l.strip_prefix("# expect ")).unwrap_or("").to_string();
                if format!("class={} hash={}", e.class, e.hash) == want {
                    return out;
                }
            }
        }
        if let Some(t) = full_text {
            fs::write(&tmp, &t).unwrap();
            if let Some(e) = replay_fresh(&tmp, 10.0) {
                if e.class == class {
                    let scs = scenario::parse(&cx.encs, &t).unwrap();
                    return finish_outside(cx, prop, seed, run, scs, &e, 10.0, 400, &tmp, &out, deadline);
                }
            }
        }
    } else {
        // The run ends its process: record it step by step, then shrink from outside.
        let log = dir.join("one.txt");
        let mut c = Command::new(me()).args(["one", &p, &s(seed), &s(run)]).stdout(fs::File::create(&log).unwrap()).stderr(Stdio::null()).spawn().unwrap();
        let _ = watch(&mut c, 10.0, &mut || vec![]);
        let t = fs::read_to_string(&log).unwrap_or_default();
        if let Some(scs) = scenario::parse(&cx.encs, &t) {
            if scs.len() == 1 {
                fs::write(&tmp, &t).unwrap();
                if let Some(e) = replay_fresh(&tmp, 10.0) {
                    let hang = e.class == "never-returns";
                    return finish_outside(cx, prop, seed, run, scs, &e, if hang { 1.0 } else { 10.0 }, if hang { 60 } else { 500 }, &tmp, &out, deadline);
                }
            }
        }
    }
    // It does not fail alone: state left behind by earlier runs of the shard takes part.
    let mut back = 1u64;
    loop {
        let mut first = run.saturating_sub(back * SHARDS);
        if back * SHARDS > run {
            first = run % SHARDS;
        }
        // Recorded in a child: any of them may hang or crash when played in another order.
        let log = dir.join("series.txt");
        let mut c = Command::new(me()).args(["series", &p, &s(seed), &s(first), &s(run)]).stdout(fs::File::create(&log).unwrap()).stderr(Stdio::null()).spawn().unwrap();
        let _ = watch(&mut c, 20.0, &mut || vec![]);
        let scs = scenario::parse(&cx.encs, &fs::read_to_string(&log).unwrap_or_default()).unwrap_or_default();
        fs::write(&tmp, scs.iter().map(|s| scenario::write(&cx.encs, s)).collect::<String>()).unwrap();
        if let Some(e) = replay_fresh(&tmp, 20.0) {
            return finish_outside(cx, prop, seed, run, scs, &e, 10.0, 600, &tmp, &out, deadline);
        }
        if first == run % SHARDS || back > 20000 || Instant::now() > deadline {
            break;
        }
        back *= 8;
    }
    let e = End { class: class.into(), hash: "-".into(), msg: msg.into() };
    fs::write(&out, header(prop, seed, run, &e, "needs the whole shard of the search that led to it") + &format!("shard P{:02} {} {} {}\n", prop, seed, run % SHARDS, run)).unwrap();
    out
}
#[allow(clippy::too_many_arguments)]
fn finish_outside(cx: &Ctx, prop: usize, seed: u64, run: u64, scs: Vec<Scenario>, e: &End, limit: f64, budget: usize, tmp: &Path, out: &Path, deadline: Instant) -> PathBuf {
    let before: usize = scs.iter().map(|s| s.steps.len()).sum();
    let small = shrink_outside(cx, scs.clone(), &e.class, limit, budget, tmp, deadline);
    for (v, how) in [(small, format!("minimised from {} steps in fresh processes", before)), (scs, "not minimised".to_string())] {
        let body: String = v.iter().map(|s| scenario::write(&cx.encs, s)).collect();
        fs::write(tmp, &body).unwrap();
        if let Some(e2) = replay_fresh(tmp, limit.max(5.0)) {
            fs::write(out, header(prop, seed, run, &e2, &how) + &body).unwrap();
            return out.to_path_buf();
        }
    }
    fs::write(out, header(prop, seed, run, e, "unstable")).unwrap();
    out.to_path_buf()
}

// ---------------------------------------------------------------- check

/// Runs played, per property and tier. Fixed counts: the same seed always explores the same runs.
fn budget(prop: usize, thorough: bool) -> u64 {
    let q = match prop {
        3 | 14 | 16 => 1_800_000,
        4 => 900_000,
        8 => 2_500_000,
        9 => 600_000,
        _ => 3_500_000,
    };
    let scale = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    ((q * if thorough { 20 } else { 1 }) as f64 * scale) as u64
}

fn order_differs(prop: usize, seed: u64, a: u64, b: u64) -> Option<u64> {
    let p = format!("P{:02}", prop);
    let run = |rev: bool| {
        let mut c = Command::new(me());
        c.args(["hashes", &p, &seed.to_string(), &a.to_string(), &b.to_string()]);
        if rev {
            c.env("SIM_REVERSE", "1");
        }
        let o = c.stderr(Stdio::null()).output().unwrap();
        String::from_utf8_lossy(&o.stdout).into_owned()
    };
    let (x, y) = std::thread::scope(|s| {
        let h = s.spawn(|| run(true));
        (run(false), h.join().unwrap())
    });
    if x.lines().count() as u64 != b - a || y.lines().count() as u64 != b - a {
        return Some(a); // a child died
    }
    let k = x.lines().zip(y.lines()).position(|(p, q)| p != q)?;
    Some(a + k as u64)
}

pub fn check(prop: usize) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let p = format!("P{:02}", prop);
    println!("{} VERIF_SEED={} tier={}", p, seed, if thorough { "thorough" } else { "quick" });
    let cx = context();
    let total = budget(prop, thorough);
    let dir = root().join("build").join(format!("run-{}-{}", p, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let next = AtomicUsize::new(0);
    let deaths: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(SHARDS as usize);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i as u64 >= SHARDS {
                    break;
                }
                let err = dir.join(format!("stderr.{}", i));
                let prog = dir.join(format!("progress.{}", i));
                let mut c = Command::new(me())
                    .args(["shard", &p, &seed.to_string(), &i.to_string(), &total.to_string(), "0", dir.to_str().unwrap()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(fs::File::create(&err).unwrap())
                    .spawn()
                    .unwrap();
                let st = watch(&mut c, 30.0, &mut || fs::read(&prog).unwrap_or_default());
                if st.map_or(false, |s| s.code() == Some(0)) {
                    continue;
                }
                let run = fs::read_to_string(&prog).ok().and_then(|t| t.trim().parse().ok());
                let e = fs::read_to_string(&err).unwrap_or_default();
                let e = e.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
                let (class, m) = match st {
                    None => ("never-returns", "a call did not return".to_string()),
                    Some(s) if s.code().is_none() => ("process-killed", format!("the process was ended by a signal ({}) {}", s, e)),
                    Some(s) => ("harness", format!("shard {} ended with {} {}", i, s, e)),
                };
                deaths.lock().unwrap().push((run.unwrap_or(u64::MAX), class.into(), m));
                if let Some(r) = run {
                    let _ = fs::write(dir.join(format!("stop.{}", i)), r.to_string());
                    let _ = fs::rename(dir.join(format!("stop.{}", i)), dir.join("stop"));
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    // Gather.
    let mut sum: std::collections::BTreeMap<String, Vec<u64>> = Default::default();
    let mut found: Vec<(u64, String, String, bool)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut slowest = (0u64, 0u64);
    let mut harness: Vec<String> = vec![];
    for (r, c, m) in deaths.into_inner().unwrap() {
        if c == "harness" {
            harness.push(m);
        } else {
            found.push((r, c, m, true));
        }
    }
    for i in 0..SHARDS {
        let t = fs::read_to_string(dir.join(format!("result.{}", i))).unwrap_or_default();
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "found" => {
                    let mut w = v.splitn(3, ' ');
                    let r = w.next().unwrap().parse().unwrap();
                    let c = w.next().unwrap().to_string();
                    found.push((r, c, w.next().unwrap_or("").to_string(), false));
                }
                "harness" => harness.push(v.to_string()),
                "sample" => samples.push(v.replace('|', "\n")),
                "order" => {}
                "slowest" => slowest = slowest.max(v.split_once(' ').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).unwrap_or((0, 0))),
                _ => {
                    let n: Vec<u64> = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    let e = sum.entry(k.to_string()).or_insert_with(|| vec![0; n.len()]);
                    for (a, b) in e.iter_mut().zip(n) {
                        *a += b;
                    }
                }
            }
        }
    }
    let union = |name: &str| {
        let mut v: Vec<u64> = vec![];
        for i in 0..SHARDS {
            let mut b = vec![];
            if let Ok(mut f) = fs::File::open(dir.join(format!("{}.{}", name, i))) {
                let _ = f.read_to_end(&mut b);
            }
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        v.sort_unstable();
        v.dedup();
        v.len() as u64
    };
    let (states, distinct) = (union("cover"), union("distinct"));
    let g = |k: &str| sum.get(k).and_then(|v| v.first().cloned()).unwrap_or(0);
    let mut violations: Vec<(PathBuf, String)> = vec![];
    found.sort();
    if let Some((r, c, m, died)) = found.first() {
        let path = report(&cx, prop, seed, *r, c, m, *died, &dir);
        violations.push((path, format!("{}: {}", c, m)));
    }
    let mut extra: Vec<(String, String)> = vec![];
    let mut warnings: Vec<String> = vec![];
    if violations.is_empty() && harness.is_empty() {
        if prop == 9 {
            // Every run again in two more processes, whose histories run in opposite directions.
            let n = total / 2;
            let parts = workers as u64 * if thorough { 8 } else { 1 };
            let hit: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(vec![]);
            let next = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..(workers / 2).max(1) {
                    s.spawn(|| loop {
                        let k = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if k >= parts {
                            break;
                        }
                        let (a, b) = (n * k / parts, n * (k + 1) / parts);
                        if let Some(r) = order_differs(prop, seed, a, b) {
                            hit.lock().unwrap().push((r, a, b));
                        }
                    });
                }
            });
            let mut hit = hit.into_inner().unwrap();
            hit.sort();
            if let Some(&(r, a, b)) = hit.first() {
                // Narrow the range of runs that still disagree.
                let (mut lo, mut hi, mut at) = (a, b, r);
                for _ in 0..30 {
                    let (w, mid) = (hi - lo, (lo + hi) / 2);
                    let tries = [(lo, mid), (mid, hi), (lo, hi - w / 4), (lo + w / 4, hi)];
                    match tries.iter().find_map(|&(x, y)| if y - x < w && y > x + 1 { order_differs(prop, seed, x, y).map(|r| (x, y, r)) } else { None }) {
                        Some((x, y, r)) => {
                            lo = x;
                            hi = y;
                            at = r;
                        }
                        None => break,
                    }
                }
                let out = root().join("replays").join(format!("P09-seed{}-order.txt", seed));
                let _ = fs::create_dir_all(out.parent().unwrap());
                let e = End { class: "depends-on-history".into(), hash: "-".into(), msg: format!("run {} gives another result when the runs {}..{} are played in the opposite order", at, lo, hi) };
                fs::write(&out, header(9, seed, at, &e, "runs played forwards and backwards") + &format!("order {} {} {}\n", seed, lo, hi)).unwrap();
                violations.push((out, e.msg));
            }
            extra.push(("runs_repeated_in_reverse_order".into(), n.to_string()));
        }
        if violations.is_empty() && (prop == 9 || prop == 4) {
            let r = threads::search(&cx, prop, seed, thorough, &dir);
            extra.extend(r.extra);
            warnings.extend(r.warnings);
            if let Some(v) = r.violation {
                violations.push(v);
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    // Evidence.
    let wall = t0.elapsed().as_secs_f64();
    let list = |k: &str| sum.get(k).cloned().unwrap_or_default();
    let js = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ").chars().filter(|c| *c >= ' ').collect::<String>());
    let faults = FAULTS.iter().zip(list("faults").iter().zip(list("fault_runs"))).filter(|(_, (n, _))| **n > 0).map(|(k, (n, r))| format!("{}: {{\"events\": {}, \"runs\": {}}}", js(k), n, r)).collect::<Vec<_>>().join(", ");
    let encs = list("encs");
    let names = cx.encs.iter().enumerate().filter(|(i, _)| encs.get(2 * i).is_some()).map(|(i, e)| format!("{}: [{}, {}]", js(e.name), encs[2 * i], encs[2 * i + 1])).collect::<Vec<_>>().join(", ");
    let mut known_lines: Vec<String> = vec![];
    if prop == 3 && violations.is_empty() {
        for k in &cx.known {
            if probe_known(&cx, k) {
                println!("{}", k.line);
                known_lines.push(js(&k.line));
            } else {
                println!("note: no longer observed: {}", k.line.replace("KNOWN-FINDING: ", ""));
            }
        }
    }
    let mut cov = format!(
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"seeds\": {}, \"simulated_runs_per_hour\": {}, \"seeds_per_hour\": {}, \"nontrivial_runs\": {}, \"real_calls\": {}, \"scheduler_steps\": {}, \"stream_bytes\": {}, \"simulated_time\": {}, \"fault_kinds\": {{{}}}, \"distinct_states\": {}, \"state_measure\": {}, \"runs_per_encoding_decode_encode\": {{{}}}, \"real_components\": {}, \"stub_components\": {}",
        g("runs"),
        distinct,
        js("A run is one seeded execution: sources, nodes, windows, segmentation and faults are drawn from (VERIF_SEED, property, run number). Non-trivial: at least two real calls and at least one fault event fired; distinct: different hash over scheduled steps, every call's window, input length, result and the final outputs."),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        g("runs"),
        (g("runs") as f64 / search_s.max(0.001) * 3600.0) as u64,
        (g("runs") as f64 / search_s.max(0.001) * 3600.0) as u64,
        g("nontrivial"),
        g("calls"),
        g("steps"),
        g("bytes"),
        js(&format!("the library has no clock; simulated time is counted in scheduler steps: {}", g("steps"))),
        faults,
        states,
        js("distinct tuples (encoding, direction, kind and size of the next unit, result kind, progress, room left, kind and size of the unit left unconsumed, window, end flag, at start of stream)"),
        names,
        js("all encode_from_str/decode_to_str functions and tables of text_encoding, built from /repo's working tree"),
        js("byte streams between nodes, chunking, buffers, checkpoint store, crash/restart, damage, scheduler: simulated; expected results: reference model built from the published tables")
    );
    extra.push(("slowest_run_ms_and_number".into(), format!("{} run {}", slowest.0, slowest.1)));
    for (k, v) in &extra {
        cov += &format!(", {}: {}", js(k), if v.parse::<f64>().is_ok() { v.clone() } else { js(v) });
    }
    if prop == 3 {
        cov += &format!(", \"known_findings_observed\": [{}], \"known_finding_events\": {}", known_lines.join(", "), list("known").iter().sum::<u64>());
    }
    if !warnings.is_empty() {
        cov += &format!(", \"warnings\": [{}]", warnings.iter().map(|w| js(w)).collect::<Vec<_>>().join(", "));
        for w in &warnings {
            println!("warning: {}", w);
        }
    }
    let ev = format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        p,
        if thorough { "thorough" } else { "quick" },
        seed,
        cov,
        [
            "the caller follows the documented protocol: unconsumed input is put in front of the next chunk, is_end is given only with all remaining input",
            "the reference tables in sim/data equal the published ones (cross-checked with Python's codecs)",
            "sampling: runs not drawn are not covered"
        ]
        .iter()
        .map(|s| js(s))
        .collect::<Vec<_>>()
        .join(", "),
        wall,
        violations.len()
    );
    let _ = fs::create_dir_all(root().join("evidence"));
    fs::write(root().join("evidence").join(format!("{}.json", p)), ev).unwrap();
    println!("{}: {} runs, {} real calls, {} distinct non-trivial runs, {} states, {:.1} s", p, g("runs"), g("calls"), distinct, states, wall);
    if let Some((path, m)) = violations.first() {
        println!("{}", m);
        println!("VIOLATION property={} replay={}", p, path.display());
        return 1;
    }
    if !harness.is_empty() {
        for h in &harness {
            println!("HARNESS-ERROR {}", h);
        }
        return 2;
    }
    println!("{}: held on everything explored", p);
    0
}

fn probe_known(cx: &Ctx, k: &Known) -> bool {
    let e = match cx.encs.iter().find(|e| e.name == k.enc) {
        Some(e) => e,
        None => return false,
    };
    let mut a = crate::enc::Arena::default();
    let t = k.sent.to_string();
    if let crate::enc::Res::Ok { out, .. } = crate::enc::call(e, crate::enc::Dir::Enc, t.as_bytes(), 8, true, &mut a, 0) {
        if let crate::enc::Res::Ok { out: back, .. } = crate::enc::call(e, crate::enc::Dir::Dec, &out, 8, true, &mut a, 0) {
            return back == k.got.to_string().as_bytes();
        }
    }
    false
}
