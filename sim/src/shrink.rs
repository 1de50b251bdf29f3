//! Minimisation of a failing scenario: fewer nodes, fewer steps, shorter and plainer sources,
//! smaller numbers, as long as the same class of violation remains.
use crate::enc::Dir;
use crate::world::*;

pub struct Shrink<'a> {
    /// Does the scenario still fail in the same way?
    pub fails: &'a mut dyn FnMut(&Scenario) -> bool,
    pub budget: usize,
}

impl Shrink<'_> {
    fn test(&mut self, s: &Scenario) -> bool {
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        (self.fails)(s)
    }
    pub fn run(&mut self, mut s: Scenario) -> Scenario {
        for _ in 0..8 {
            let before = s.clone();
            s = self.nodes(s);
            s = self.steps(s);
            s = self.sources(s);
            s = self.numbers(s);
            if s == before || self.budget == 0 {
                break;
            }
        }
        s
    }
    /// Removes nodes nothing depends on (from the end of a chain backwards, or lone streams).
    fn nodes(&mut self, mut s: Scenario) -> Scenario {
        let mut i = s.specs.len();
        while i > 0 && s.specs.len() > 1 {
            i -= 1;
            if s.specs.iter().any(|x| x.from == Some(i)) {
                continue;
            }
            let mut t = s.clone();
            t.specs.remove(i);
            for x in t.specs.iter_mut() {
                if let Some(u) = x.from {
                    if u > i {
                        x.from = Some(u - 1);
                    }
                }
            }
            t.steps.retain(|p| node_of(p) != Some(i));
            for p in t.steps.iter_mut() {
                if let Some(n) = node_mut(p) {
                    if *n > i {
                        *n -= 1;
                    }
                }
            }
            if self.test(&t) {
                s = t;
            }
        }
        s
    }
    fn steps(&mut self, mut s: Scenario) -> Scenario {
        let mut size = s.steps.len().next_power_of_two();
        while size >= 1 {
            let mut at = s.steps.len();
            while at > 0 {
                let a = at.saturating_sub(size);
                let mut t = s.clone();
                t.steps.drain(a..at);
                if self.test(&t) {
                    s = t;
                }
                at = a;
            }
            size /= 2;
        }
        s
    }
    fn sources(&mut self, mut s: Scenario) -> Scenario {
        for i in 0..s.specs.len() {
            if s.specs[i].from.is_some() {
                continue;
            }
            let text = s.specs[i].dir == Dir::Enc;
            let ok = |v: &[u8]| !text || std::str::from_utf8(v).is_ok();
            let mut size = s.specs[i].src.len().next_power_of_two();
            while size >= 1 {
                let mut at = s.specs[i].src.len();
                while at > 0 {
                    let a = at.saturating_sub(size);
                    let mut t = s.clone();
                    t.specs[i].src.drain(a..at);
                    if ok(&t.specs[i].src) && self.test(&t) {
                        s = t;
                    }
                    at = a;
                }
                size /= 2;
            }
            // Whole characters of a text.
            if text {
                let mut k = s.specs[i].src.len();
                while k > 0 {
                    k -= 1;
                    let src = &s.specs[i].src;
                    if k >= src.len() || (src[k] & 0xC0) == 0x80 {
                        continue;
                    }
                    let n = crate::refmodel::first_char(&src[k..]).1;
                    let mut t = s.clone();
                    t.specs[i].src.drain(k..k + n);
                    if self.test(&t) {
                        s = t;
                    } else if n > 1 {
                        let mut t = s.clone();
                        t.specs[i].src.splice(k..k + n, [b'a']);
                        if self.test(&t) {
                            s = t;
                        }
                    }
                }
            }
            if s.specs[i].src.len() <= 64 {
                for k in 0..s.specs[i].src.len() {
                    let b = s.specs[i].src[k];
                    if b != b'a' && b != 0 {
                        let mut t = s.clone();
                        t.specs[i].src[k] = b'a';
                        if ok(&t.specs[i].src) && self.test(&t) {
                            s = t;
                        }
                    }
                }
            }
            if s.specs[i].policy != Policy::Skip {
                let mut t = s.clone();
                t.specs[i].policy = Policy::Skip;
                if self.test(&t) {
                    s = t;
                }
            }
        }
        s
    }
    fn numbers(&mut self, mut s: Scenario) -> Scenario {
        for k in 0..s.steps.len() {
            for f in 0..6 {
                let mut first = true;
                loop {
                    let mut t = s.clone();
                    let v = match field(&mut t.steps[k], f) {
                        Some(v) => v,
                        None => break,
                    };
                    let cur = *v;
                    let plain = plain(&s.steps[k], f);
                    if cur == plain {
                        break;
                    }
                    if first {
                        *v = plain;
                    } else if cur > 8 {
                        *v = if cur > usize::MAX / 4 { break } else { cur / 2 };
                    } else if cur > 0 {
                        *v = cur - 1;
                    } else {
                        break;
                    }
                    let ok = t != s && self.test(&t);
                    if ok {
                        s = t;
                        if first {
                            break;
                        }
                    } else if !first {
                        break;
                    }
                    first = false;
                }
            }
            // The usual call claims the end and takes all input.
            if let Step::Call { claim: false, .. } = s.steps[k] {
                let mut t = s.clone();
                if let Step::Call { claim, .. } = &mut t.steps[k] {
                    *claim = true;
                }
                if self.test(&t) {
                    s = t;
                }
            }
        }
        for d in [4, 8, 64] {
            if s.drain_win != d {
                let mut t = s.clone();
                t.drain_win = d;
                if self.test(&t) {
                    s = t;
                    break;
                }
            } else {
                break;
            }
        }
        s
    }
}

fn node_of(s: &Step) -> Option<usize> {
    let mut t = s.clone();
    node_mut(&mut t).map(|n| *n)
}
fn node_mut(s: &mut Step) -> Option<&mut usize> {
    match s {
        Step::Scribble { .. } => None,
        Step::Deliver { st, .. }
        | Step::Fin { st }
        | Step::Call { st, .. }
        | Step::Sync { st }
        | Step::Crash { st, .. }
        | Step::Flip { st, .. }
        | Step::Drop { st, .. }
        | Step::Dup { st, .. }
        | Step::Insert { st, .. }
        | Step::Swap { st, .. }
        | Step::Repeat { st, .. }
        | Step::Cut { st, .. } => Some(st),
    }
}
fn field(s: &mut Step, i: usize) -> Option<&mut usize> {
    let v: Vec<&mut usize> = match s {
        Step::Deliver { n, .. } => vec![n],
        Step::Call { win, limit, slot, align, .. } => vec![win, limit, slot, align],
        Step::Crash { ck, .. } => vec![ck],
        Step::Flip { off, .. } => vec![off],
        Step::Drop { off, n, .. } | Step::Dup { off, n, .. } => vec![off, n],
        Step::Insert { off, .. } => vec![off],
        Step::Swap { off, a, b, .. } => vec![off, a, b],
        Step::Cut { keep, .. } => vec![keep],
        Step::Repeat { win, n, .. } => vec![win, n],
        _ => vec![],
    };
    v.into_iter().nth(i)
}
/// The plainest value of a number: all input for a limit, nought for the others.
fn plain(s: &Step, i: usize) -> usize {
    match (s, i) {
        (Step::Call { .. }, 1) => usize::MAX / 2,
        _ => 0,
    }
}
