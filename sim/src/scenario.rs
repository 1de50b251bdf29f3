//! Replay files: plain text, one line per node and per step.
use crate::enc::{Dir, Enc};
use crate::world::{Policy, Scenario, Spec, Step};
use std::fmt::Write;

fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhx(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
pub fn step_text(s: &Step) -> String {
    match s {
        Step::Deliver { st, n } => format!("deliver {} {}", st, n),
        Step::Fin { st } => format!("end {}", st),
        Step::Call { st, win, limit, claim, slot, align } => format!("call {} {} {} {} {} {}", st, win, limit, *claim as u8, slot, align),
        Step::Sync { st } => format!("sync {}", st),
        Step::Crash { st, ck } => format!("crash {} {}", st, ck),
        Step::Flip { st, off, mask } => format!("flip {} {} {}", st, off, mask),
        Step::Drop { st, off, n } => format!("drop {} {} {}", st, off, n),
        Step::Dup { st, off, n } => format!("dup {} {} {}", st, off, n),
        Step::Insert { st, off, bytes } => format!("insert {} {} {}", st, off, hx(bytes)),
        Step::Swap { st, off, a, b } => format!("swap {} {} {} {}", st, off, a, b),
        Step::Cut { st, keep } => format!("cut {} {}", st, keep),
        Step::Repeat { st, win, n } => format!("repeat {} {} {}", st, win, n),
        Step::Scribble { slot, seed } => format!("scribble {} {}", slot, seed),
    }
}
pub fn write(encs: &[Enc], s: &Scenario) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "scenario P{:02} drain={}", s.prop, s.drain_win);
    for (i, x) in s.specs.iter().enumerate() {
        let _ = writeln!(
            o,
            "node {} {} {} {} {} {} {}",
            i,
            if x.dir == Dir::Dec { "decode" } else { "encode" },
            encs[x.enc].name,
            match x.policy {
                Policy::Skip => "skip",
                Policy::Subst => "substitute",
                Policy::Stop => "stop",
            },
            x.from.map_or("source".to_string(), |u| format!("from={}", u)),
            if x.hang { "hang" } else { "ends" },
            hx(&x.src)
        );
    }
    for t in &s.steps {
        let _ = writeln!(o, "step {}", step_text(t));
    }
    let _ = writeln!(o, "drain");
    o
}
pub fn parse(encs: &[Enc], text: &str) -> Option<Vec<Scenario>> {
    let mut v: Vec<Scenario> = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let n = |i: usize| -> Option<usize> { w.get(i)?.parse().ok() };
        match w[0] {
            "scenario" => v.push(Scenario { prop: w.get(1)?.get(1..)?.parse().ok()?, specs: vec![], steps: vec![], drain_win: w.get(2)?.strip_prefix("drain=")?.parse().ok()? }),
            "node" => v.last_mut()?.specs.push(Spec {
                dir: if *w.get(2)? == "decode" { Dir::Dec } else { Dir::Enc },
                enc: encs.iter().position(|e| Some(&e.name) == w.get(3))?,
                policy: match *w.get(4)? {
                    "skip" => Policy::Skip,
                    "substitute" => Policy::Subst,
                    _ => Policy::Stop,
                },
                from: w.get(5)?.strip_prefix("from=").and_then(|x| x.parse().ok()),
                hang: *w.get(6)? == "hang",
                src: unhx(w.get(7)?)?,
            }),
            "step" => {
                let b = |i: usize| -> Option<bool> { Some(n(i)? != 0) };
                let st = n(2)?;
                let s = match *w.get(1)? {
                    "deliver" => Step::Deliver { st, n: n(3)? },
                    "end" => Step::Fin { st },
                    "call" => Step::Call { st, win: n(3)?, limit: n(4)?, claim: b(5)?, slot: n(6)?, align: n(7)? },
                    "sync" => Step::Sync { st },
                    "crash" => Step::Crash { st, ck: n(3)? },
                    "flip" => Step::Flip { st, off: n(3)?, mask: n(4)? as u8 },
                    "drop" => Step::Drop { st, off: n(3)?, n: n(4)? },
                    "dup" => Step::Dup { st, off: n(3)?, n: n(4)? },
                    "insert" => Step::Insert { st, off: n(3)?, bytes: unhx(w.get(4)?)? },
                    "swap" => Step::Swap { st, off: n(3)?, a: n(4)?, b: n(5)? },
                    "cut" => Step::Cut { st, keep: n(3)? },
                    "repeat" => Step::Repeat { st, win: n(3)?, n: n(4)? },
                    "scribble" => Step::Scribble { slot: st, seed: n(3)? as u8 },
                    _ => return None,
                };
                v.last_mut()?.steps.push(s);
            }
            _ => {}
        }
    }
    Some(v)
}
