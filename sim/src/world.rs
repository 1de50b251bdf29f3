//! The simulated world: conversion nodes (real code) joined by simulated byte streams, with a
//! scheduler-driven step function. Nothing here draws random numbers or reads a clock.
use crate::enc::{self, Arena, Dir, Enc, Kind, Res};
use crate::oracle;
use crate::refmodel::{Ref, Tok, T};
use crate::rng::Fnv;
use crate::starve;
use std::collections::HashSet;

pub struct Ctx {
    pub encs: Vec<Enc>,
    pub rf: Ref,
    pub known: Vec<Known>,
}
#[derive(Clone, Debug)]
pub struct Known {
    pub enc: String,
    pub sent: char,
    pub got: char,
    pub line: String,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Policy {
    Skip,
    Subst,
    Stop,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub enc: usize,
    pub dir: Dir,
    pub policy: Policy,
    /// Upstream node, whose output is this node's input; otherwise `src` is.
    pub from: Option<usize>,
    pub src: Vec<u8>,
    /// The end of input is never signalled (a connection that hangs).
    pub hang: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Deliver { st: usize, n: usize },
    Fin { st: usize },
    Call { st: usize, win: usize, limit: usize, claim: bool, slot: usize, align: usize },
    Sync { st: usize },
    Crash { st: usize, ck: usize },
    Flip { st: usize, off: usize, mask: u8 },
    Drop { st: usize, off: usize, n: usize },
    Dup { st: usize, off: usize, n: usize },
    Insert { st: usize, off: usize, bytes: Vec<u8> },
    Swap { st: usize, off: usize, a: usize, b: usize },
    Cut { st: usize, keep: usize },
    Scribble { slot: usize, seed: u8 },
    /// The node's next call, made n times over without taking the result (a caller that retries).
    Repeat { st: usize, win: usize, n: usize },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: usize,
    pub specs: Vec<Spec>,
    pub steps: Vec<Step>,
    pub drain_win: usize,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<X>(class: &str, msg: String) -> Result<X, Viol> {
    Err(Viol { class: class.into(), msg })
}

#[derive(Clone, Debug)]
pub struct ErrRec {
    /// Absolute range in the delivered stream.
    pub a: usize,
    pub b: usize,
    pub ch: Option<char>,
    /// Offset in the output at which it was reported, and length of the substitute put there.
    pub at: usize,
    pub sub: usize,
}
#[derive(Copy, Clone, Debug)]
pub struct Ckpt {
    pub pos: usize,
    pub out: usize,
    pub errs: usize,
}
pub struct CallRec {
    /// Node number; in `novel`, the encoding.
    pub st: usize,
    pub dir: Dir,
    pub input: Vec<u8>,
    pub win: usize,
    pub end: bool,
    pub res: Res,
}
pub const ALTERED: u32 = u32::MAX;

pub struct Stage {
    pub spec: Spec,
    pub kind: Kind,
    /// In flight towards the node.
    pub net: Vec<u8>,
    pub nh: usize,
    pub nprov: Vec<u32>,
    /// Delivered to the node (absolute offsets).
    pub eff: Vec<u8>,
    pub eprov: Vec<u32>,
    pub fin: bool,
    pub stopped: bool,
    pub pos: usize,
    /// Output; bytes from out_len on were lost in a crash.
    pub log: Vec<u8>,
    pub out_len: usize,
    pub errs: Vec<ErrRec>,
    pub cks: Vec<Ckpt>,
    pub cut: Option<usize>,
    pub calls: usize,
}
impl Stage {
    pub fn pending(&self) -> usize {
        self.eff.len() - self.pos
    }
    pub fn flight(&self) -> usize {
        self.net.len() - self.nh
    }
    pub fn out(&self) -> &[u8] {
        &self.log[..self.out_len]
    }
}

pub const NFAULTS: usize = 18;
pub const FAULTS: [&str; NFAULTS] = [
    "partial_delivery", "zero_window", "output_limited_call", "short_read_call", "end_withheld_call", "empty_input_call",
    "crash_restart", "bit_flip", "byte_loss", "duplication", "insertion", "segment_swap", "stream_cut", "scratch_scribbled",
    "hang_no_end", "error_resume", "call_retried", "memory_exhausted",
];
pub const SLOTS: usize = 4;

pub struct World<'c> {
    pub cx: &'c Ctx,
    pub prop: usize,
    pub st: Vec<Stage>,
    arenas: Vec<Arena>,
    pub recs: Vec<CallRec>,
    /// Calls that reached a state not in `cover` before.
    pub novel: Vec<CallRec>,
    pub hash: Fnv,
    pub faults: [u64; NFAULTS],
    pub calls: u64,
    pub steps: u64,
    pub bytes: u64,
    pub cover: Option<&'c mut HashSet<u64>>,
    pub known_hits: Vec<usize>,
    pub trace: Option<Vec<String>>,
    pub track: bool,
    drain_win: usize,
    fence: Vec<u8>,
    fence_arena: Arena,
    inlet: Arena,
}

impl<'c> World<'c> {
    pub fn new(cx: &'c Ctx, prop: usize, specs: &[Spec], drain_win: usize) -> World<'c> {
        let track = prop == 7;
        let st = specs
            .iter()
            .map(|s| Stage {
                kind: cx.encs[s.enc].kind,
                net: if s.from.is_none() { s.src.clone() } else { vec![] },
                nh: 0,
                nprov: if track { (0..s.src.len() as u32).collect() } else { vec![] },
                eff: vec![],
                eprov: vec![],
                fin: false,
                stopped: false,
                pos: 0,
                log: vec![],
                out_len: 0,
                errs: vec![],
                cks: vec![Ckpt { pos: 0, out: 0, errs: 0 }],
                cut: None,
                calls: 0,
                spec: s.clone(),
            })
            .collect();
        World {
            cx,
            prop,
            st,
            arenas: (0..SLOTS).map(|i| Arena::new(64, 0xFF - i as u8)).collect(),
            recs: vec![],
            novel: vec![],
            hash: Fnv::new(),
            faults: [0; NFAULTS],
            calls: 0,
            steps: 0,
            bytes: 0,
            cover: None,
            known_hits: vec![],
            trace: None,
            track,
            drain_win,
            fence: vec![],
            fence_arena: Arena::default(),
            inlet: Arena::default(),
        }
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
    /// Will nothing more be put in flight towards this node?
    pub fn closed(&self, i: usize) -> bool {
        match self.st[i].spec.from {
            None => true,
            Some(u) => self.finished(u),
        }
    }
    pub fn finished(&self, i: usize) -> bool {
        let s = &self.st[i];
        s.stopped || (s.fin && s.pending() == 0 && s.flight() == 0)
    }

    pub fn apply(&mut self, step: &Step) -> Result<(), Viol> {
        self.steps += 1;
        if self.trace.is_some() {
            let t = crate::scenario::step_text(step);
            self.note(|| t);
        }
        match *step {
            Step::Deliver { st, n } => return self.deliver(st, n),
            Step::Fin { st } => {
                if self.closed(st) && self.st[st].flight() == 0 && !self.st[st].spec.hang {
                    self.st[st].fin = true;
                }
            }
            Step::Call { st, win, limit, claim, slot, align } => return self.call(st, win, limit, claim, slot, align),
            Step::Sync { st } => {
                let s = &mut self.st[st];
                let c = Ckpt { pos: s.pos, out: s.out_len, errs: s.errs.len() };
                s.cks.push(c);
            }
            Step::Crash { st, ck } => return self.crash(st, ck),
            Step::Scribble { slot, seed } => {
                self.faults[13] += 1;
                let mut x = seed;
                for b in self.arenas[slot].bytes().iter_mut() {
                    x = x.wrapping_mul(37).wrapping_add(seed | 1);
                    *b = x;
                }
            }
            Step::Repeat { st, win, n } => return self.repeat(st, win, n),
            Step::Cut { st, keep } => {
                let s = &mut self.st[st];
                if s.spec.from.is_none() && s.cut.is_none() && !s.fin {
                    let mut k = s.nh + keep.min(s.net.len() - s.nh);
                    if s.spec.dir == Dir::Enc {
                        while k < s.net.len() && (s.net[k] & 0xC0) == 0x80 {
                            k += 1;
                        }
                    }
                    if k < s.net.len() {
                        s.net.truncate(k);
                        if self.track {
                            s.nprov.truncate(k);
                        }
                        s.cut = Some(s.eff.len() + k - s.nh);
                        self.faults[12] += 1;
                    }
                }
            }
            ref damage => self.damage(damage),
        }
        Ok(())
    }

    fn deliver(&mut self, i: usize, n: usize) -> Result<(), Viol> {
        let track = self.track;
        let s = &mut self.st[i];
        let mut k = s.nh + n.min(s.net.len() - s.nh);
        if s.spec.dir == Dir::Enc {
            while k < s.net.len() && (s.net[k] & 0xC0) == 0x80 {
                k += 1;
            }
        }
        if k < s.net.len() {
            self.faults[0] += 1;
        }
        s.eff.extend_from_slice(&s.net[s.nh..k]);
        if track {
            s.eprov.extend_from_slice(&s.nprov[s.nh..k]);
        }
        if s.spec.dir == Dir::Enc && std::str::from_utf8(&s.net[s.nh..k]).is_err() {
            return viol("received-invalid", format!("node {}: the text received from upstream is not valid: {}", i, hex(&s.net[s.nh..k])));
        }
        s.nh = k;
        Ok(())
    }

    fn damage(&mut self, step: &Step) {
        let st = match *step {
            Step::Flip { st, .. } | Step::Drop { st, .. } | Step::Dup { st, .. } | Step::Insert { st, .. } | Step::Swap { st, .. } => st,
            _ => return,
        };
        let track = self.track;
        let s = &mut self.st[st];
        if s.spec.dir == Dir::Enc {
            return;
        }
        let (nh, len) = (s.nh, s.net.len());
        match step {
            &Step::Flip { off, mask, .. } => {
                let p = nh + off;
                if p < len && mask != 0 {
                    s.net[p] ^= mask;
                    if track {
                        s.nprov[p] = ALTERED;
                    }
                    self.faults[7] += 1;
                }
            }
            &Step::Drop { off, n, .. } => {
                let p = nh + off;
                let q = (p + n).min(len);
                if p < q {
                    s.net.drain(p..q);
                    if track {
                        s.nprov.drain(p..q);
                    }
                    self.faults[8] += 1;
                }
            }
            &Step::Dup { off, n, .. } => {
                let p = nh + off;
                let q = (p + n).min(len);
                if p < q {
                    let copy = s.net[p..q].to_vec();
                    s.net.splice(q..q, copy);
                    if track {
                        s.nprov.splice(q..q, std::iter::repeat(ALTERED).take(q - p));
                    }
                    self.faults[9] += 1;
                }
            }
            Step::Insert { off, bytes, .. } => {
                let p = (nh + off).min(len);
                s.net.splice(p..p, bytes.iter().cloned());
                if track {
                    s.nprov.splice(p..p, std::iter::repeat(ALTERED).take(bytes.len()));
                }
                self.faults[10] += 1;
            }
            &Step::Swap { off, a, b, .. } => {
                let p = nh + off;
                if a > 0 && b > 0 && p + a + b <= len {
                    s.net[p..p + a + b].rotate_left(a);
                    if track {
                        for x in &mut s.nprov[p..p + a + b] {
                            *x = ALTERED;
                        }
                    }
                    self.faults[11] += 1;
                }
            }
            _ => {}
        }
    }

    fn repeat(&mut self, i: usize, win: usize, n: usize) -> Result<(), Viol> {
        let s = &self.st[i];
        if s.stopped {
            return Ok(());
        }
        let cx = self.cx;
        let e = &cx.encs[s.spec.enc];
        let dir = s.spec.dir;
        let input = &s.eff[s.pos..(s.pos + 40).min(s.eff.len())];
        let mut lim = input.len();
        while dir == Dir::Enc && lim > 0 && s.eff.get(s.pos + lim).map_or(false, |b| (b & 0xC0) == 0x80) {
            lim -= 1;
        }
        let input = &input[..lim];
        let end = s.fin && s.pos + lim == s.eff.len();
        self.calls += n as u64;
        self.faults[16] += n as u64;
        let slot = i % SLOTS;
        let mut first: Option<Res> = None;
        for k in 0..n {
            let input = if lim <= 64 { self.inlet.place(input, (k >> 3) & 63) } else { input };
            let r = enc::call(e, dir, input, win, end, &mut self.arenas[slot], k & 7);
            match &first {
                None => {
                    self.hash.u(win as u64 + 31 * lim as u64);
                    first = Some(r);
                }
                Some(f) if *f != r => {
                    return viol("not-repeatable", format!("node {} {:?} {}: input={} win={} end={}: first {} and, at repetition {}, {}", i, dir, e.name, hex(input), win, end, res_text(f), k, res_text(&r)));
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn crash(&mut self, i: usize, ck: usize) -> Result<(), Viol> {
        let s = &mut self.st[i];
        let k = ck.min(s.cks.len() - 1);
        let c = s.cks[k];
        s.cks.truncate(k + 1);
        // The node's memory is gone; the source redelivers from the saved position.
        let mut back = s.eff.split_off(c.pos);
        back.extend_from_slice(&s.net[s.nh..]);
        s.net = back;
        s.nh = 0;
        if self.track {
            let mut bp = s.eprov.split_off(c.pos);
            bp.extend_from_slice(&s.nprov[s.nprov.len() - (s.net.len() - bp.len())..]);
            s.nprov = bp;
        }
        s.pos = c.pos;
        s.out_len = c.out;
        s.errs.truncate(c.errs);
        s.fin = false;
        s.stopped = false;
        self.faults[6] += 1;
        if self.prop == 8 {
            return oracle::p08_checkpoint(self, i);
        }
        Ok(())
    }

    fn append(&mut self, i: usize, b: &[u8]) -> Result<(), Viol> {
        let s = &mut self.st[i];
        let o = s.out_len;
        let overlap = b.len().min(s.log.len() - o);
        if overlap > 0 && s.log[o..o + overlap] != b[..overlap] {
            if matches!(self.prop, 3 | 8 | 16) {
                let m = format!("node {}: output produced again after a restart differs at output offset {}..{}: was {:02x?}, now {:02x?}", i, o, o + overlap, &s.log[o..o + overlap], &b[..overlap]);
                return viol("re-emitted-output-differs", m);
            }
            s.log[o..o + overlap].copy_from_slice(&b[..overlap]);
        }
        s.log.extend_from_slice(&b[overlap..]);
        s.out_len = o + b.len();
        for j in 0..self.st.len() {
            if self.st[j].spec.from == Some(i) {
                let d = &mut self.st[j];
                d.net.extend_from_slice(&b[overlap..]);
            }
        }
        Ok(())
    }

    fn call(&mut self, i: usize, win: usize, limit: usize, claim: bool, slot: usize, align: usize) -> Result<(), Viol> {
        if self.st[i].stopped {
            return Ok(());
        }
        let cx = self.cx;
        let s = &self.st[i];
        let e = &cx.encs[s.spec.enc];
        let dir = s.spec.dir;
        let pend = &s.eff[s.pos..];
        let mut lim = limit.min(pend.len());
        if dir == Dir::Enc {
            while lim < pend.len() && (pend[lim] & 0xC0) == 0x80 {
                lim -= 1;
            }
        }
        let input = &pend[..lim];
        let end = s.fin && claim && lim == pend.len();
        let (align, shift) = (align & 63, align >> 6 & 63);
        // (A long input for a small buffer stays where it is: moving it would be most of the work.)
        let input = if lim <= 4096 || lim / 16 <= win { self.inlet.place(input, shift) } else { input };
        let f = &mut self.faults;
        f[1] += (win == 0) as u64;
        f[3] += (lim < pend.len()) as u64;
        f[4] += (s.fin && !end) as u64;
        f[5] += (lim == 0) as u64;
        self.calls += 1;
        self.bytes += lim as u64;
        // The first time with no memory to be had, or none after a few allocations.
        let starved = if self.prop == 14 {
            self.faults[17] += 1;
            let grant = [0, 0, 0, 1, 0, 2, 0, 0][align & 7];
            let a = &mut self.fence_arena;
            Some(starve::with(grant, || enc::call(e, dir, input, win, end, a, 0)))
        } else {
            None
        };
        let res = enc::call(e, dir, input, win, end, &mut self.arenas[slot], align);
        let (kind, base, pidx) = (s.kind, s.pos, self.prop);
        // Abstract state for the coverage count.
        if let Some(cov) = self.cover.as_mut() {
            let (t, n, w) = if input.is_empty() {
                (9, 0, 0)
            } else {
                let k = cx.rf.tok(kind, dir, input, end);
                (k.t as u64, k.n as u64, k.olen as u64)
            };
            let (r, done, room) = match &res {
                Res::Ok { out, used } => (0u64, used.min(&4).clone() as u64 + 8 * ((*used == lim) as u64), (win - out.len()).min(5) as u64),
                Res::Err { range, written, .. } => (1, range.0.min(4) as u64 + 16 * (range.1 - range.0).min(5) as u64, (win - written).min(5) as u64),
                Res::Bad { .. } => (2, 0, 0),
            };
            let tail = match &res {
                Res::Ok { used, .. } if *used < lim => {
                    let k = cx.rf.tok(kind, dir, &input[*used..], end);
                    1 + k.t as u64 * 32 + k.n.min(4) as u64 * 4 + (k.olen.min(4)) as u64 * 128
                }
                _ => 0,
            };
            let mut h = Fnv::new();
            for x in [s.spec.enc as u64 * 2 + (dir == Dir::Enc) as u64, t, n, w, r, done, room, tail, win.min(9) as u64, end as u64, (base == 0) as u64] {
                h.u(x);
            }
            if cov.insert(h.0) && pidx == 4 {
                self.novel.push(CallRec { st: s.spec.enc, dir, input: input.to_vec(), win, end, res: res.clone() });
            }
        }
        // Per-call oracles.
        let check = oracle::per_call(self.cx, pidx, kind, dir, input, win, end, &res);
        let check = match check {
            // (Copying long inputs again and again is left to one call in 16.)
            Ok(()) if pidx == 4 && (lim + win <= 16384 || self.calls % 16 == 0) => {
                // The same call again with other bytes around the input and other stale bytes in the buffer.
                self.fence.clear();
                self.fence.extend_from_slice(&[0xC3, 0x98, 0xF0, 0xDC, 0x41, 0x88, 0xC3, 0x98, 0xF0, 0xDC, 0x41, 0x88][..6 + (shift & 3)]);
                self.fence.extend_from_slice(input);
                self.fence.extend_from_slice(&[0x41, 0xAF, 0xDC, 0x80, 0x62, 0xA5, 0xBF, 0x30]);
                self.fence_arena.bytes().iter_mut().take(64 + 64 + win + enc::GUARD).for_each(|b| *b = 0x3F ^ (win as u8));
                let r2 = enc::call(e, dir, &self.fence[6 + (shift & 3)..6 + (shift & 3) + lim], win, end, &mut self.fence_arena, 63 - align);
                // And between pages that cannot be touched.
                let r2 = if r2 == res && !matches!(res, Res::Bad { .. }) { enc::walled(e, dir, input, win, end, align & 1 == 1) } else { r2 };
                if r2 == res {
                    Ok(())
                } else {
                    viol("depends-on-surroundings", format!("same call, other bytes around it: {:?} then {:?}", res, r2))
                }
            }
            Ok(()) if starved.as_ref().map_or(false, |s| *s != res) => {
                let m = format!("node {} {:?} {}: input={} win={} end={}: with no memory {}, otherwise {}", i, dir, e.name, hex(input), win, end, res_text(starved.as_ref().unwrap()), res_text(&res));
                viol("needs-memory", m)
            }
            c => c,
        };
        if pidx == 9 {
            self.recs.push(CallRec { st: i, dir, input: input.to_vec(), win, end, res: res.clone() });
        }
        self.hash.u(i as u64 + 16 * win as u64);
        self.hash.u(lim as u64 * 2 + end as u64);
        if self.trace.is_some() {
            let t = format!("    node {} {} {} input[{}..{}]={} win={} end={} -> {}", i, if dir == Dir::Dec { "decode" } else { "encode" }, e.name, base, base + lim, hex(&self.st[i].eff[base..base + lim]), win, end, res_text(&res));
            self.note(|| t);
        }
        check?;
        let s = &mut self.st[i];
        s.calls += 1;
        if dir == Dir::Enc {
            // Positions inside a character would make the rest of the text no text at all.
            let inner = |k: usize| (s.eff.get(base + k).map_or(false, |b| (b & 0xC0) == 0x80)) as usize;
            let torn = match res {
                Res::Ok { used, .. } => inner(used),
                Res::Err { range, .. } => inner(range.0) + inner(range.1),
                _ => 0,
            };
            if torn > 0 {
                let m = format!("node {} encoding {}: input={} win={} -> {}", i, e.name, hex(&s.eff[base..base + lim]), win, res_text(&res));
                return viol("inside-character", m);
            }
        }
        match res {
            Res::Ok { out, used } => {
                self.hash.bytes(&out);
                self.hash.u(used as u64);
                if used < lim {
                    self.faults[2] += 1;
                }
                s.pos += used;
                self.append(i, &out)
            }
            Res::Err { ch, range, out, .. } => {
                self.hash.bytes(&out);
                self.hash.u(range.0 as u64 * 65537 + range.1 as u64);
                self.faults[15] += 1;
                self.append(i, &out)?;
                let s = &mut self.st[i];
                let mut rec = ErrRec { a: base + range.0, b: base + range.1, ch, at: s.out_len, sub: 0 };
                match s.spec.policy {
                    Policy::Stop => {
                        s.pos = base + range.0;
                        s.stopped = true;
                        s.errs.push(rec);
                        Ok(())
                    }
                    Policy::Skip => {
                        s.pos = base + range.1;
                        s.errs.push(rec);
                        Ok(())
                    }
                    Policy::Subst => {
                        s.pos = base + range.1;
                        let sub = substitute(self.cx, kind, dir);
                        rec.sub = sub.len();
                        s.errs.push(rec);
                        self.append(i, &sub)
                    }
                }
            }
            Res::Bad { class, msg } => viol(class, format!("node {} {} {}: {}", i, if dir == Dir::Dec { "decoding" } else { "encoding" }, e.name, msg)),
        }
    }

    /// Faults have stopped: everything in flight arrives, ends are signalled, and every node is
    /// called with ample room until it is done or stuck.
    pub fn drain(&mut self) -> Result<(), Viol> {
        for i in 0..self.st.len() {
            self.deliver(i, usize::MAX / 2)?;
            if self.st[i].spec.hang {
                self.faults[14] += 1;
            } else if self.closed(i) {
                self.st[i].fin = true;
            }
            let bound = self.st[i].pending() + 1;
            let mut n = 0;
            loop {
                let s = &self.st[i];
                if s.stopped || s.pending() == 0 {
                    break;
                }
                let before = s.pos;
                // Large enough for the largest character, and for long streams large enough to finish soon.
                let win = self.drain_win.max(self.cx.rf.largest(s.kind, s.spec.dir)).max(if s.pending() > 8192 { s.pending() / 32 } else { 0 });
                self.steps += 1;
                self.call(i, win, usize::MAX / 2, true, n % SLOTS, n & 7)?;
                n += 1;
                let s = &self.st[i];
                if s.stopped || (s.pos == before) {
                    break;
                }
                if n > bound {
                    if self.prop == 5 {
                        return viol("too-many-calls", format!("node {}: more than {} calls for {} pending bytes", i, bound, bound - 1));
                    }
                    break;
                }
            }
        }
        Ok(())
    }
    pub fn event_hash(&self) -> u64 {
        let mut h = Fnv::new();
        h.u(self.hash.0);
        for s in &self.st {
            h.bytes(s.out());
            h.u(s.pos as u64);
            h.u(s.errs.len() as u64);
        }
        h.0
    }
}

pub fn substitute(cx: &Ctx, kind: Kind, dir: Dir) -> Vec<u8> {
    match dir {
        Dir::Dec => "\u{FFFD}".as_bytes().to_vec(),
        Dir::Enc => {
            let t: Tok = cx.rf.tok(kind, Dir::Enc, b"?", true);
            assert!(t.t == T::Char);
            t.out[..t.olen].to_vec()
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 200 {
        return format!("{}..({} bytes)", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn res_text(r: &Res) -> String {
    match r {
        Res::Ok { out, used } => format!("Ok out={} used={}", hex(out), used),
        Res::Err { ch, invalid, range, written, out } => format!("Err char={:?} invalid_data={} range={:?} written={} out={}", ch, invalid, range, written, hex(out)),
        Res::Bad { class, msg } => format!("BAD {}: {}", class, msg),
    }
}
