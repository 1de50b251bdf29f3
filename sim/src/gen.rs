//! Seeded workload and scheduler: one run is a pure function of (seed, property, run number).
use crate::enc::{Dir, Kind};
use crate::refmodel::{Ref, T, BIG5_PAIRS};
use crate::rng::{mix, Rng};
use crate::world::*;

/// Per-encoding alphabets, built once.
pub struct Alpha {
    /// Non-ASCII characters the encoding can represent (empty: all of Unicode).
    pub chars: Vec<Vec<u32>>,
    /// Valid non-ASCII units in bytes (empty: encode a character).
    pub units: Vec<Vec<[u8; 2]>>,
    /// The characters of `chars` that text often has.
    pub common: Vec<Vec<u32>>,
}
impl Alpha {
    pub fn new(cx: &Ctx) -> Alpha {
        let rf = &cx.rf;
        let mut chars = vec![];
        let mut units = vec![];
        for e in &cx.encs {
            let mut c: Vec<u32> = vec![];
            let mut u: Vec<[u8; 2]> = vec![];
            match e.kind {
                Kind::Big5 => {
                    let mut s: Vec<u32> = rf.big5_dec.iter().cloned().filter(|&x| x != 0).collect();
                    s.sort();
                    s.dedup();
                    c = s;
                    u = pairs(rf, e.kind);
                }
                Kind::Sjis => {
                    let mut s: Vec<u32> = rf.jis_dec.iter().map(|&x| x as u32).filter(|&x| x != 0).collect();
                    s.extend(0xFF61..=0xFF9F);
                    s.extend(0xE000..=0xE757);
                    s.sort();
                    s.dedup();
                    c = s;
                    u = pairs(rf, e.kind);
                }
                Kind::Single(i) => c = rf.single_dec[i].iter().map(|&x| x as u32).filter(|&x| x != 0).collect(),
                _ => {}
            }
            chars.push(c);
            units.push(u);
        }
        let common = chars.iter().zip(&cx.encs).map(|(c, e)| if matches!(e.kind, Kind::Single(_)) { vec![] } else { COMMON.iter().cloned().filter(|x| c.contains(x)).collect() }).collect();
        Alpha { chars, units, common }
    }
}
fn pairs(rf: &Ref, k: Kind) -> Vec<[u8; 2]> {
    let mut v = vec![];
    for a in 0x81..=0xFEu8 {
        for b in 0x40..=0xFEu8 {
            let t = rf.tok(k, Dir::Dec, &[a, b], true);
            if t.t == T::Char && t.n == 2 {
                v.push([a, b]);
            }
        }
    }
    v
}

const EDGES: [u32; 40] = [
    0, 1, 0xA, 0x7E, 0x7F, 0x80, 0x81, 0x9F, 0xA0, 0xA5, 0xAC, 0xCA, 0xEA, 0xFF, 0x100, 0x304, 0x30C, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2015, 0x203E, 0x20AC, 0x2212,
    0x2603, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xE757, 0xE758, 0xFEFF, 0xFF0D, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F63A, 0x10FFFF,
];
/// Characters that text often has.
const COMMON: [u32; 48] = [
    0xAD, 0xB7, 0xC4, 0xD7, 0xDF, 0xE9, 0xF1, 0xFC, 0x131, 0x3A9, 0x3B1, 0x3C0, 0x416, 0x42F, 0x44F, 0x5D0, 0x627, 0xE01, 0x1EA1, 0x200B, 0x200D, 0x2013, 0x2014, 0x2019, 0x2022, 0x2026,
    0x2028, 0x2122, 0x3000, 0x3001, 0x3042, 0x30A2, 0x30FC, 0x4E00, 0x4E2D, 0x65E5, 0x6F22, 0x9FFF, 0xAC00, 0xFE0F, 0xFF01, 0x10437, 0x1D11E, 0x1F4A9, 0x1F600, 0x20000, 0x24B62, 0x100000,
];
fn any_char(r: &mut Rng) -> u32 {
    loop {
        let c = match r.below(10) {
            0 if r.pct(60) => *r.pick(&EDGES),
            0 => *r.pick(&COMMON),
            1 | 2 => r.range(0x20, 0x7E) as u32,
            3 => r.below(0x80) as u32,
            4 => r.range(0x80, 0x7FF) as u32,
            5 | 6 => r.range(0x800, 0xFFFF) as u32,
            7 => r.range(0xD700, 0xE0FF) as u32,
            8 => r.range(0x10000, 0x10FFFF) as u32,
            _ => {
                // Near a power of two.
                let b = 1u32 << r.range(6, 20);
                b.wrapping_add(r.below(5) as u32).wrapping_sub(2)
            }
        };
        if char::from_u32(c).is_some() {
            return c;
        }
    }
}

/// How a source is mixed; drawn once per run.
pub struct Mix {
    ascii: usize,
    coded: usize,
    special: usize,
    foreign: usize,
    bad: usize,
    run: usize,
    repeat: usize,
}
impl Mix {
    pub fn new(r: &mut Rng, foreign: bool, bad: bool) -> Mix {
        let mut w = |z: usize| if r.pct(25) { 0 } else { r.range(1, z) };
        let mut m = Mix { ascii: w(12), coded: w(20) + 1, special: w(5), foreign: 0, bad: 0, run: w(2), repeat: w(2) };
        if foreign {
            m.foreign = if r.pct(20) { 0 } else { r.range(1, 8) };
        }
        if bad {
            m.bad = if r.pct(20) { 0 } else { r.range(1, 10) };
        }
        m
    }
}
impl Mix {
    /// Mostly characters outside ASCII, nothing invalid.
    pub fn coded(r: &mut Rng) -> Mix {
        Mix { ascii: r.range(0, 2), coded: 8, special: r.range(0, 4), foreign: 0, bad: 0, run: 0, repeat: 0 }
    }
}
pub fn push_char(v: &mut Vec<u8>, c: u32) {
    let mut b = [0; 4];
    v.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut b).as_bytes());
}
fn special_text(k: Kind, r: &mut Rng, v: &mut Vec<u8>) {
    match k {
        Kind::Big5 => {
            for _ in 0..r.range(1, 3) {
                let c = *r.pick(&[0xCA, 0xEA, 0xCA, 0xEA, 0x304, 0x30C, 0x61, 0x2550, 0x5341, 0x5345]);
                push_char(v, c);
                if r.pct(40) {
                    push_char(v, if r.pct(50) { 0x304 } else { 0x30C });
                }
            }
        }
        Kind::Sjis => push_char(v, *r.pick(&[0x80, 0xA5, 0x203E, 0x2212, 0xFF61, 0xFF9F, 0xE000, 0xE757, 0xFF0D, 0x5C, 0x7E, 0xFFE2, 0x2252])),
        _ => push_char(v, *r.pick(&EDGES)),
    }
}
/// Text for encoders; if `pure`, only characters `ok` accepts.
pub fn text(cx: &Ctx, al: &Alpha, e: usize, r: &mut Rng, units: usize, m: &Mix, ok: &dyn Fn(u32) -> bool) -> Vec<u8> {
    let k = cx.encs[e].kind;
    let mut v = Vec::with_capacity(units * 3);
    let w = [m.ascii, m.coded, m.special, m.foreign, m.run, m.repeat];
    let mut last = 0x61;
    let mut n = 0;
    while n < units {
        n += 1;
        match r.weighted(&w) {
            0 => v.push(if r.pct(10) { r.below(0x20) as u8 } else { r.range(0x20, 0x7E) as u8 }),
            1 => {
                last = if al.chars[e].is_empty() {
                    any_char(r)
                } else if !al.common[e].is_empty() && r.pct(4) {
                    *r.pick(&al.common[e])
                } else {
                    *r.pick(&al.chars[e])
                };
                push_char(&mut v, last)
            }
            2 => special_text(k, r, &mut v),
            3 => push_char(&mut v, any_char(r)),
            4 => {
                let len = run_len(r).min(units);
                n += len / 2;
                let c = r.range(0x20, 0x7E) as u8;
                let varied = r.pct(50);
                for i in 0..len {
                    v.push(if varied { 0x20 + ((c as usize + i) % 0x5F) as u8 } else { c })
                }
            }
            _ => {
                let len = run_len(r).min(40).min(units);
                n += len / 2;
                for _ in 0..len {
                    push_char(&mut v, last)
                }
            }
        }
    }
    // Keep only what is allowed.
    let s = std::str::from_utf8(&v).unwrap();
    if s.chars().all(|c| ok(c as u32)) {
        return v;
    }
    let s: String = s.chars().filter(|&c| ok(c as u32)).collect();
    s.into_bytes()
}
fn run_len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(1, 9),
        1 => r.range(7, 40),
        2 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        _ => r.range(30, 140),
    }
}
/// Bytes for decoders.
pub fn bytes(cx: &Ctx, al: &Alpha, e: usize, r: &mut Rng, units: usize, m: &Mix) -> Vec<u8> {
    let k = cx.encs[e].kind;
    let mut v = Vec::with_capacity(units * 4);
    let w = [m.ascii, m.coded, m.special, m.bad, m.run, m.repeat];
    let put = |v: &mut Vec<u8>, c: u32| {
        let mut t = vec![];
        push_char(&mut t, c);
        let x = cx.rf.tok(k, Dir::Enc, &t, true);
        if x.t == T::Char {
            v.extend_from_slice(&x.out[..x.olen]);
        }
    };
    let mut last: Vec<u8> = vec![];
    put(&mut last, 0x61);
    let mut n = 0;
    while n < units {
        n += 1;
        match r.weighted(&w) {
            0 => put(&mut v, if r.pct(10) { r.below(0x20) as u32 } else { r.range(0x20, 0x7E) as u32 }),
            1 => {
                let at = v.len();
                if !al.units[e].is_empty() && r.pct(90) {
                    let x: [u8; 2] = *r.pick(&al.units[e]);
                    v.extend_from_slice(&x);
                } else if !al.common[e].is_empty() && r.pct(40) {
                    put(&mut v, *r.pick(&al.common[e]));
                } else if !al.chars[e].is_empty() {
                    put(&mut v, *r.pick(&al.chars[e]));
                } else {
                    put(&mut v, any_char(r));
                }
                last = v[at..].to_vec();
            }
            2 => match k {
                Kind::Big5 => {
                    let p = r.pick(&BIG5_PAIRS).2;
                    v.extend_from_slice(*r.pick(&[&p[..], &[0x88, 0x66], &[0x88, 0xA7], &[0x87, 0x40], &[0xFE, 0xFE]]))
                }
                Kind::Sjis => v.extend_from_slice(*r.pick(&[&[0x80][..], &[0xA1], &[0xDF], &[0xF0, 0x40], &[0xF9, 0xFC], &[0x81, 0x7C], &[0x5C], &[0x7E], &[0x9F, 0xFC], &[0xE0, 0x40], &[0xFC, 0x4B]])),
                _ => put(&mut v, *r.pick(&EDGES)),
            },
            3 => bad_unit(k, r, &mut v),
            4 => {
                let len = run_len(r).min(units);
                n += len / 2;
                let c = r.range(0x20, 0x7E);
                let varied = r.pct(50);
                for i in 0..len {
                    put(&mut v, if varied { 0x20 + ((c + i) % 0x5F) as u32 } else { c as u32 })
                }
            }
            _ => {
                let len = run_len(r).min(40).min(units);
                n += len / 2;
                for _ in 0..len {
                    v.extend_from_slice(&last)
                }
            }
        }
    }
    v
}
fn bad_unit(k: Kind, r: &mut Rng, v: &mut Vec<u8>) {
    if r.pct(15) {
        for _ in 0..r.range(1, 4) {
            v.push(r.below(256) as u8);
        }
        return;
    }
    match k {
        Kind::Utf8 => {
            let full: [&[u8]; 16] = [
                &[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xC3], &[0xE0, 0x80, 0x80], &[0xE0, 0xA0], &[0xE3], &[0xE3, 0x81], &[0xED, 0xA0, 0x80], &[0xF0, 0x8F, 0xBF, 0xBF],
                &[0xF0, 0x9F], &[0xF0, 0x9F, 0x98], &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80], &[0xFF],
            ];
            v.extend_from_slice(*r.pick(&full));
            if r.pct(30) {
                v.push(r.range(0x80, 0xFF) as u8);
            }
        }
        Kind::Utf16 { be } => {
            let u = match r.below(3) {
                0 => r.range(0xDC00, 0xDFFF),
                1 => r.range(0xD800, 0xDBFF),
                _ => *r.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDFFF]),
            } as u16;
            v.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
        }
        Kind::Utf32 { be } => {
            let u = match r.below(4) {
                0 => r.range(0xD800, 0xDFFF) as u32,
                1 => 0x110000 + r.below(0x10000) as u32,
                2 => *r.pick(&[0xD800, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x80000000, 0x01000041]),
                _ => r.next() as u32,
            };
            v.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
        }
        Kind::Big5 => match r.below(5) {
            0 => v.push(0x80),
            1 => v.push(0xFF),
            2 => v.extend_from_slice(&[r.range(0x81, 0xFE) as u8, r.below(0x40) as u8]),
            3 => v.extend_from_slice(&[r.range(0x81, 0xFE) as u8, r.range(0x7F, 0xA0) as u8]),
            _ => v.extend_from_slice(&[r.range(0x81, 0x87) as u8, r.range(0x40, 0xFF) as u8]),
        },
        Kind::Sjis => match r.below(5) {
            0 => v.push(0xA0),
            1 => v.push(r.range(0xFD, 0xFF) as u8),
            2 => v.extend_from_slice(&[r.range(0x81, 0x9F) as u8, r.below(0x40) as u8]),
            3 => v.extend_from_slice(&[r.range(0xE0, 0xFC) as u8, *r.pick(&[0x7F, 0xFD, 0xFE, 0xFF])]),
            _ => v.extend_from_slice(&[*r.pick(&[0x85, 0x86, 0x88, 0xEB, 0xEC, 0xEF]), r.range(0x40, 0xFF) as u8]),
        },
        Kind::Ascii | Kind::Single(_) => v.push(r.range(0x80, 0xFF) as u8),
    }
}

/// Consecutive characters of one encoding, so that a search meets every character of every
/// encoding. `k` counts the sweep runs; every other one takes the characters beyond U+FFFF, the
/// others go through the rest. Returns the encoding and the characters.
fn sweep(cx: &Ctx, al: &Alpha, k: u64, limited: bool) -> (usize, Vec<u32>) {
    let astral = k % 2 == 1 && !limited;
    let all = |e: usize| al.chars[e].is_empty() && cx.encs[e].kind != Kind::Ascii;
    let blocks = |e: usize| -> u64 {
        match cx.encs[e].kind {
            _ if astral => if all(e) { 1024 } else { 0 },
            Kind::Ascii => 1,
            _ if all(e) => if limited { 0 } else { 64 },
            _ => (al.chars[e].len() as u64 + 199) / 200,
        }
    };
    let total: u64 = (0..cx.encs.len()).map(blocks).sum();
    let mut j = (if limited { k } else { k / 2 }) % total;
    let mut e = 0;
    while j >= blocks(e) {
        j -= blocks(e);
        e += 1;
    }
    let a = j as u32 * 1024 + if astral { 0x10000 } else { 0 };
    let v = if all(e) {
        (a..a + 1024).filter(|&x| char::from_u32(x).is_some()).collect()
    } else if cx.encs[e].kind == Kind::Ascii {
        (0..128).collect()
    } else {
        let a = j as usize * 200;
        al.chars[e][a..al.chars[e].len().min(a + 200)].to_vec()
    };
    (e, v)
}
/// A sweep as a source for either direction, in one of several orders.
fn sweep_source(cx: &Ctx, al: &Alpha, k: u64, dir: Dir, limited: bool, r: &mut Rng) -> (usize, Vec<u8>) {
    let (e, mut c) = sweep(cx, al, k, limited);
    let kind = cx.encs[e].kind;
    match r.below(3) {
        0 => c.reverse(),
        1 => {
            for i in (1..c.len()).rev() {
                c.swap(i, r.below(i + 1));
            }
        }
        _ => {}
    }
    let sep = r.below(3);
    let mut v = vec![];
    for &x in &c {
        let mut t = vec![];
        push_char(&mut t, x);
        if sep == 1 {
            t.push(b'x');
        }
        match dir {
            Dir::Enc => v.extend_from_slice(&t),
            Dir::Dec => {
                let mut p = 0;
                while p < t.len() {
                    let u = cx.rf.tok(kind, Dir::Enc, &t[p..], true);
                    v.extend_from_slice(&u.out[..u.olen]);
                    p += u.n;
                }
            }
        }
    }
    // Codes that share a character with another code are met only by going through the codes.
    if dir == Dir::Dec && !al.units[e].is_empty() && r.pct(50) {
        v.clear();
        let n = al.units[e].len();
        let a = (mix(k) as usize) % n;
        for u in al.units[e].iter().cycle().skip(a).take(250.min(n)) {
            v.extend_from_slice(u);
        }
    }
    (e, v)
}

/// A source with one interesting unit at an exact distance from its beginning, in bytes of input
/// or of output, most of the time next to a power of two.
fn measured(cx: &Ctx, al: &Alpha, e: usize, dir: Dir, r: &mut Rng, bad: bool, big: bool) -> Vec<u8> {
    let kind = cx.encs[e].kind;
    let by_input = r.pct(40);
    let power = match r.below(1000) {
        0..=849 => r.range(4, 9),
        850..=979 => r.range(10, 12),
        980..=997 => r.range(13, 16),
        // Not through relays, where one unit in two may be reported and each report costs a call.
        _ if big => r.range(17, 20),
        _ => 16,
    };
    let goal = if r.pct(80) { (1usize << power) + r.below(7) - 3 } else { r.range(1, 300) };
    // A stretch of units to repeat until the goal is near, then ASCII.
    let m = if r.pct(40) { Mix { ascii: 1, coded: 0, special: 0, foreign: 0, bad: 0, run: 0, repeat: 0 } } else { Mix::coded(r) };
    let ok = |c: u32| {
        let mut b = vec![];
        push_char(&mut b, c);
        cx.rf.tok(kind, Dir::Enc, &b, true).t == T::Char
    };
    let n = r.range(1, 24);
    let stretch = match dir {
        Dir::Enc => text(cx, al, e, r, n, &m, &ok),
        Dir::Dec => bytes(cx, al, e, r, n, &m),
    };
    let mut units: Vec<(usize, usize, usize)> = vec![];
    let mut p = 0;
    while p < stretch.len() {
        let t = cx.rf.tok(kind, dir, &stretch[p..], true);
        if t.t == T::Char {
            units.push((p, t.n, t.olen));
        }
        p += t.n.max(1);
    }
    let mut plain = vec![b'm'];
    if dir == Dir::Dec {
        let t = cx.rf.tok(kind, Dir::Enc, b"m", true);
        plain = t.out[..t.olen].to_vec();
    }
    let pn = cx.rf.tok(kind, dir, &plain, true);
    let (mut v, mut len, mut k) = (Vec::with_capacity(goal + 64), 0, 0);
    while len < goal {
        let (u, n): (&[u8], usize) = match units.get(k) {
            Some(&(p, n, o)) => (&stretch[p..p + n], if by_input { n } else { o }),
            None => (&plain, if by_input { pn.n } else { pn.olen }),
        };
        if len + n > goal {
            if k < units.len() {
                units.clear();
                continue;
            }
            break;
        }
        v.extend_from_slice(u);
        len += n;
        k += 1;
        if k == units.len() {
            k = 0;
        }
    }
    let one = Mix::coded(r);
    match dir {
        Dir::Dec if bad && r.pct(50) => bad_unit(kind, r, &mut v),
        Dir::Dec => {
            let at = v.len();
            v.extend_from_slice(&bytes(cx, al, e, r, 1, &one));
            if bad && r.pct(40) && v.len() > at + 1 {
                // The end comes within it.
                v.truncate(r.range(at + 1, v.len() - 1));
                return v;
            }
        }
        Dir::Enc if bad && r.pct(50) => push_char(&mut v, any_char(r)),
        Dir::Enc => v.extend_from_slice(&text(cx, al, e, r, 1, &one, &ok)),
    }
    if r.pct(60) {
        let n = r.range(1, 12);
        v.extend_from_slice(&match dir {
            Dir::Dec => bytes(cx, al, e, r, n, &m),
            Dir::Enc => text(cx, al, e, r, n, &m, &ok),
        });
    }
    v
}

/// One run in every n, never twice running at the same place (each shard gets its share).
fn spread(run: u64, n: u64, k: u64) -> bool {
    (run + run / n) % n == k
}
/// One run in so many sweeps.
const SWEEP: u64 = 16;

/// Which actions this run's scheduler favours (swarm).
pub struct Swarm {
    deliver: usize,
    call: usize,
    sync: usize,
    crash: usize,
    damage: usize,
    cut: usize,
    scribble: usize,
    retry: usize,
    seg: usize,
    win: usize,
    fixed_win: usize,
    short: usize,
    withhold: usize,
    scale: usize,
    budget: usize,
    kinds: u32,
    /// Delivery and calls go by whole units, give or take a byte.
    unitwise: bool,
    /// The first call of each node sees everything.
    at_once: bool,
}

fn pick_enc(r: &mut Rng, n: usize, limited: bool) -> usize {
    // big5, shift_jis, ascii + single-byte; UTFs can represent everything.
    if limited {
        return match r.below(10) {
            0..=3 => 5,
            4..=6 => 6,
            _ => r.range(7, n - 1),
        };
    }
    match r.below(20) {
        0..=4 => 5,
        5..=8 => 6,
        9..=11 => 0,
        12 | 13 => r.range(1, 2),
        14 => r.range(3, 4),
        _ => r.range(7, n - 1),
    }
}

pub struct Plan {
    pub specs: Vec<Spec>,
    pub swarm: Swarm,
    pub drain_win: usize,
}

pub fn size(r: &mut Rng, small: bool) -> usize {
    match r.below(1000) {
        0..=699 => r.range(0, 24),
        700..=899 => r.range(10, 120),
        900..=989 => r.range(60, 700),
        990..=997 if !small => r.range(500, 6000),
        998 => r.range(500, 2500),
        999 if !small => match r.below(8) {
            0 | 1 => r.range(33000, 140000),
            2..=5 => r.range(6000, 30000),
            _ => r.range(2500, 6000),
        },
        _ => r.range(2, 40),
    }
}

pub fn plan(cx: &Ctx, al: &Alpha, prop: usize, r: &mut Rng, run: u64) -> Plan {
    let n = cx.encs.len();
    let any = |_: u32| true;
    let mut specs: Vec<Spec> = vec![];
    let spec = |enc, dir, policy, from, src: Vec<u8>| Spec { enc, dir, policy, from, src, hang: false };
    let tiny = cfg!(miri);
    let huge = prop == 14 && spread(run, 64, 9);
    let sz = if tiny {
        r.range(0, 12)
    } else if huge {
        r.range(10_000, 60_000)
    } else {
        size(r, matches!(prop, 8 | 9))
    };
    match prop {
        1 | 11 => {
            let e = pick_enc(r, n, false);
            let m = Mix::new(r, false, true);
            let src = bytes(cx, al, e, r, sz, &m);
            let pol = *r.pick(&[Policy::Skip, Policy::Skip, Policy::Skip, Policy::Subst, Policy::Stop]);
            specs.push(spec(e, Dir::Dec, pol, None, src));
        }
        2 | 10 => {
            let e = pick_enc(r, n, prop == 10);
            let m = Mix::new(r, true, false);
            let src = text(cx, al, e, r, sz, &m, &any);
            let pol = *r.pick(&[Policy::Skip, Policy::Skip, Policy::Subst, Policy::Subst, Policy::Stop]);
            specs.push(spec(e, Dir::Enc, pol, None, src));
        }
        3 => {
            let e = pick_enc(r, n, false);
            let two = r.pct(35);
            let f = if two { pick_enc(r, n, false) } else { e };
            let foreign = r.below(3) == 0;
            let m = Mix::new(r, foreign, false);
            let pure = r.pct(70);
            let ok = |c: u32| {
                if !pure {
                    return true;
                }
                let mut b = vec![];
                push_char(&mut b, c);
                let comb = c == 0x304 || c == 0x30C;
                [e, f].iter().all(|&x| (comb && cx.encs[x].kind == Kind::Big5) || cx.rf.tok(cx.encs[x].kind, Dir::Enc, &b, true).t == T::Char)
            };
            let src = text(cx, al, if r.pct(50) { e } else { f }, r, sz.min(8000), &m, &ok);
            let pol = if r.pct(70) { Policy::Skip } else { Policy::Subst };
            specs.push(spec(e, Dir::Enc, pol, None, src));
            specs.push(spec(e, Dir::Dec, Policy::Skip, Some(0), vec![]));
            if two {
                specs.push(spec(f, Dir::Enc, pol, Some(1), vec![]));
                specs.push(spec(f, Dir::Dec, Policy::Skip, Some(2), vec![]));
            }
        }
        16 => {
            // Decoding and re-encoding, once or twice, in the same encoding or another.
            let e = pick_enc(r, n, false);
            let f = if r.pct(30) { pick_enc(r, n, false) } else { e };
            let m = Mix::new(r, false, false);
            let src = bytes(cx, al, e, r, sz.min(8000), &m);
            let pol = if r.pct(70) { Policy::Skip } else { Policy::Subst };
            specs.push(spec(e, Dir::Dec, Policy::Skip, None, src));
            specs.push(spec(f, Dir::Enc, pol, Some(0), vec![]));
            if r.pct(50) {
                specs.push(spec(f, Dir::Dec, Policy::Skip, Some(1), vec![]));
                specs.push(spec(e, Dir::Enc, pol, Some(2), vec![]));
            }
        }
        6 => {
            let e = pick_enc(r, n, false);
            let m = Mix::new(r, false, false);
            if r.pct(85) {
                let src = bytes(cx, al, e, r, sz, &m);
                specs.push(spec(e, Dir::Dec, Policy::Skip, None, src));
            } else {
                let src = text(cx, al, e, r, sz, &m, &any);
                specs.push(spec(e, Dir::Enc, Policy::Skip, None, src));
            }
            specs[0].hang = r.pct(25);
        }
        7 => {
            let e = pick_enc(r, n, false);
            let m = Mix::new(r, false, false);
            let src = bytes(cx, al, e, r, sz.min(6000), &m);
            let pol = if r.pct(75) { Policy::Skip } else { Policy::Subst };
            specs.push(spec(e, Dir::Dec, pol, None, src));
        }
        9 => {
            let endurance = spread(run, 512, 7) && !tiny;
            let k = if tiny || endurance { 2 } else { r.range(2, 6) };
            // Often the same or a few encodings, so that any shared state would be shared.
            let mut pool: Vec<usize> = (0..r.range(1, 3)).map(|_| pick_enc(r, n, false)).collect();
            if endurance {
                pool = vec![(run / 512) as usize % n];
            }
            for i in 0..k {
                let e = *r.pick(&pool);
                let m = Mix::new(r, true, true);
                let sz = r.range(1, 30);
                let pol = *r.pick(&[Policy::Skip, Policy::Subst]);
                if if endurance { i == 0 } else { r.pct(50) } {
                    let src = bytes(cx, al, e, r, sz, &m);
                    specs.push(spec(e, Dir::Dec, pol, None, src));
                } else {
                    let src = text(cx, al, e, r, sz, &m, &any);
                    specs.push(spec(e, Dir::Enc, pol, None, src));
                }
            }
        }
        _ => {
            // 4, 5, 8, 12, 14: either direction, anything in the stream.
            let e = pick_enc(r, n, false);
            let pol = if prop == 8 || prop == 5 { Policy::Skip } else { *r.pick(&[Policy::Skip, Policy::Subst]) };
            if r.pct(55) {
                let m = Mix::new(r, false, true);
                let src = bytes(cx, al, e, r, sz, &m);
                specs.push(spec(e, Dir::Dec, pol, None, src));
            } else {
                let m = Mix::new(r, true, false);
                let src = text(cx, al, e, r, sz, &m, &any);
                specs.push(spec(e, Dir::Enc, pol, None, src));
            }
            if prop == 5 {
                specs[0].hang = r.pct(10);
            }
        }
    }
    // Every SWEEPth run sweeps through the characters of an encoding.
    let sweeping = spread(run, SWEEP, 5) && !tiny && prop != 9;
    let fine = sweeping && r.pct(75);
    let unitwise = fine && r.pct(80);
    if sweeping {
        let k = run / SWEEP;
        let dir = specs[0].dir;
        let (e, src) = sweep_source(cx, al, k, dir, prop == 10, r);
        match prop {
            3 => specs.iter_mut().take(2).for_each(|s| s.enc = e),
            16 => {
                let old = specs[0].enc;
                specs.iter_mut().filter(|s| s.enc == old).for_each(|s| s.enc = e)
            }
            _ => {}
        }
        specs[0].enc = e;
        specs[0].src = src;
    }
    let exact = !tiny && !sweeping && !huge && prop != 9 && spread(run, 8, 3);
    if exact {
        let (e, dir) = (specs[0].enc, specs[0].dir);
        let bad = match prop {
            3 => specs.len() == 2 && r.pct(30),
            6 | 7 | 16 => dir == Dir::Enc,
            _ => true,
        };
        specs[0].src = measured(cx, al, e, dir, r, bad, specs.len() == 1);
    }
    let total: usize = specs.iter().map(|s| s.src.len()).sum();
    let on = |r: &mut Rng, p: usize, a: usize, b: usize| if r.pct(p) { r.range(a, b) } else { 0 };
    let crashy = match prop {
        8 => 100,
        3 | 10 | 16 => 40,
        _ => 0,
    };
    let damaging = match prop {
        7 => 100,
        1 | 4 | 5 | 11 => 25,
        _ => 0,
    };
    let swarm = Swarm {
        deliver: r.range(2, 12),
        call: r.range(3, 14),
        sync: if crashy > 0 { r.range(1, 4) } else { 0 },
        crash: on(r, crashy, 1, 2),
        damage: on(r, damaging, 1, 3),
        cut: if prop == 6 {
            r.range(1, 3)
        } else if prop == 5 {
            on(r, 20, 1, 1)
        } else {
            0
        },
        scribble: if prop == 9 { 2 } else { on(r, 20, 1, 1) },
        retry: if prop != 9 {
            0
        } else if spread(run, 512, 7) {
            9
        } else {
            on(r, 30, 1, 2)
        },
        seg: r.below(6),
        win: r.below(6),
        fixed_win: match r.below(4) {
            0 => r.range(1, 8),
            1 => r.range(3, 40),
            2 => *r.pick(&[8, 16, 32, 64, 128, 256, 1024, 4096]),
            _ if !tiny && r.pct(4) => *r.pick(&[32768, 65535, 65536, 65537, 65538, 65540, 131073]),
            _ => r.range(40, 300),
        },
        short: *r.pick(&[0, 0, 5, 20]),
        withhold: *r.pick(&[0, 0, 10, 30]),
        scale: if fine { 1 } else { (total / 150).max(1) },
        budget: {
            let b = r.range(4, 40) + total.min(120) / 2;
            // A fine sweep is delivered and called for in small pieces to the end.
            if unitwise { 5000 } else if fine { 1500 } else { b * specs.len().min(3) }
        },
        kinds: r.next() as u32 | 1 << r.below(5),
        unitwise,
        at_once: exact && r.pct(70),
    };
    let drain_win = *r.pick(&[1, 1, 1, 4, 5, 6, 7, 8, 8, 12, 16, 33, 64, 256, 4096]);
    Plan { specs, swarm, drain_win: if huge && r.pct(50) || exact && total > 2000 { 4 * total + 8 } else { drain_win } }
}

fn segment(r: &mut Rng, s: &Swarm, flight: usize) -> usize {
    let mode = if r.pct(70) { s.seg } else { r.below(6) };
    let n = match mode {
        0 => 1,
        1 => r.range(1, 4),
        2 => r.range(1, 16),
        3 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256, 512, 1024, 4096]),
        4 => r.range(0, 3),
        _ => flight,
    };
    if s.scale > 1 && mode < 5 && r.pct(80) {
        n * r.range(1, 2 * s.scale)
    } else {
        n
    }
}
fn need(w: &World, st: usize, lim: usize, end: bool, partial: usize) -> usize {
    let s = &w.st[st];
    let b = &s.eff[s.pos..s.pos + lim];
    let (mut p, mut o, mut k) = (0, 0, 0);
    while p < b.len() && k < partial {
        let t = w.cx.rf.tok(s.kind, s.spec.dir, &b[p..], end);
        if t.t != T::Char {
            break;
        }
        p += t.n;
        o += t.olen;
        k += 1;
    }
    o
}
fn window(r: &mut Rng, s: &Swarm, w: &World, st: usize, lim: usize, end: bool) -> usize {
    let mode = if r.pct(60) { s.win } else { r.below(6) };
    let tiny = |r: &mut Rng| if r.pct(8) { 0 } else { r.range(1, 8) };
    let x = match mode {
        0 => return s.fixed_win,
        1 => tiny(r),
        2 => r.range(1, 4),
        3 | 4 if lim <= 5000 => {
            let k = if r.pct(50) { usize::MAX } else { r.range(1, 12) };
            let o = need(w, st, lim, end, k) as isize + r.range(0, 6) as isize - 3;
            return o.max(0) as usize;
        }
        4 => r.range(9, 64),
        _ => return lim * 4 + r.range(0, 9),
    };
    if s.scale > 1 && r.pct(80) {
        x * r.range(1, 2 * s.scale)
    } else {
        x
    }
}

/// Where buffer and input begin, relative to a multiple of 64 (64 * input + buffer).
fn align(r: &mut Rng) -> usize {
    let one = |r: &mut Rng| match r.below(4) {
        0 => r.below(64),
        1 => 8 * r.below(8),
        _ => r.below(8),
    };
    one(r) + 64 * one(r)
}
/// At most n pending bytes, for text not cut inside a character.
fn whole(x: &Stage, n: usize) -> usize {
    let mut k = n.min(x.pending());
    while x.spec.dir == Dir::Enc && k > 0 && x.eff.get(x.pos + k).map_or(false, |b| (b & 0xC0) == 0x80) {
        k -= 1;
    }
    k
}

/// The scheduler: which node or link acts next, and how.
pub fn next_step(w: &World, s: &Swarm, r: &mut Rng) -> Option<Step> {
    let live: Vec<usize> = (0..w.st.len()).filter(|&i| !w.finished(i)).collect();
    if live.is_empty() {
        // Crashes may still hit finished nodes.
        if s.crash > 0 && r.pct(50) {
            let st = r.below(w.st.len());
            return Some(Step::Crash { st, ck: r.below(w.st[st].cks.len()) });
        }
        return None;
    }
    let st = *r.pick(&live);
    let x = &w.st[st];
    let fl = x.flight();
    let can_end = !x.fin && fl == 0 && !x.spec.hang && w.closed(st);
    if s.unitwise && r.pct(96) {
        if fl > 0 && (x.pending() == 0 || r.pct(35)) {
            let b = &x.net[x.nh..];
            let mut n = 0;
            for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 3]) {
                if n < b.len() {
                    n += w.cx.rf.tok(x.kind, x.spec.dir, &b[n..], true).n;
                }
            }
            return Some(Step::Deliver { st, n: (n + *r.pick(&[1, 1, 1, 1, 1, 2, 3, 0])).saturating_sub(1) });
        }
        if x.pending() > 0 {
            let k = r.range(1, 3);
            let win = (need(w, st, x.pending(), x.fin, k) + *r.pick(&[1, 1, 1, 0, 2, 3, 4, 5])).saturating_sub(1);
            return Some(Step::Call { st, win, limit: usize::MAX / 2, claim: true, slot: r.below(SLOTS), align: align(r) });
        }
    }
    if s.at_once && x.calls == 0 && r.pct(94) {
        if fl > 0 {
            if s.cut > 0 && x.cut.is_none() && x.spec.from.is_none() && r.pct(70) {
                return Some(Step::Cut { st, keep: fl - r.range(1, fl.min(6)) });
            }
            return Some(Step::Deliver { st, n: fl });
        }
        if can_end && r.pct(60) {
            return Some(Step::Fin { st });
        }
        if x.pending() > 0 {
            let k = if r.pct(60) { usize::MAX } else { r.range(1, 400) };
            let o = need(w, st, x.pending(), x.fin, k) + r.below(9);
            let win = if r.pct(30) { 4 * x.pending() + 8 } else { o.saturating_sub(r.below(4)) };
            return Some(Step::Call { st, win, limit: usize::MAX / 2, claim: true, slot: r.below(SLOTS), align: align(r) });
        }
    }
    let dmg = s.damage > 0 && fl > 0 && x.spec.dir == Dir::Dec && x.spec.from.is_none();
    let cut = s.cut > 0 && fl > 0 && x.cut.is_none() && x.spec.from.is_none();
    let weights = [
        if fl > 0 { s.deliver } else { 0 },
        if can_end { s.deliver } else { 0 },
        if x.pending() > 0 { s.call } else { 1 },
        s.sync,
        s.crash,
        if dmg { s.damage } else { 0 },
        if cut { s.cut } else { 0 },
        s.scribble,
        s.retry,
    ];
    Some(match r.weighted(&weights) {
        0 => Step::Deliver { st, n: segment(r, s, fl) },
        1 => Step::Fin { st },
        2 => {
            let pend = x.pending();
            let limit = if pend > 0 && r.pct(s.short) { r.below(pend + 1) } else { usize::MAX / 2 };
            let claim = !r.pct(s.withhold);
            let lim = limit.min(pend);
            // For text, only whole characters.
            let mut l2 = lim;
            while x.spec.dir == Dir::Enc && l2 < pend && (x.eff[x.pos + l2] & 0xC0) == 0x80 {
                l2 -= 1;
            }
            let end = x.fin && claim && l2 == pend;
            Step::Call { st, win: window(r, s, w, st, l2, end), limit, claim, slot: r.below(SLOTS), align: align(r) }
        }
        3 => Step::Sync { st },
        4 => Step::Crash { st, ck: if r.pct(70) { x.cks.len() - 1 } else { r.below(x.cks.len()) } },
        5 => {
            // Mostly at what arrives next.
            let off = if r.pct(60) { r.below(fl.min(8)) } else { r.below(fl) };
            let mut k = r.below(5);
            while s.kinds >> k & 1 == 0 {
                k = (k + 1) % 5;
            }
            match k {
                0 => Step::Flip { st, off, mask: if r.pct(70) { 1 << r.below(8) } else { r.range(1, 255) as u8 } },
                // A receiver that joins late misses everything up to some byte.
                1 if x.eff.is_empty() && r.pct(30) => Step::Drop { st, off: 0, n: r.range(1, fl) },
                1 => Step::Drop { st, off, n: r.range(1, 4) },
                2 => Step::Dup { st, off, n: r.range(1, 5) },
                3 => {
                    let n = r.range(1, 3);
                    Step::Insert { st, off, bytes: (0..n).map(|_| r.below(256) as u8).collect() }
                }
                _ => Step::Swap { st, off, a: r.range(1, 4), b: r.range(1, 4) },
            }
        }
        6 => Step::Cut { st, keep: if r.pct(40) { r.below(fl.min(8)) } else { r.below(fl) } },
        8 => Step::Repeat { st, win: window(r, s, w, st, whole(x, 40), false), n: if s.retry == 9 && x.pending() > 0 && r.pct(15) { 70_000 } else { r.range(2, 9) } },
        _ => Step::Scribble { slot: r.below(SLOTS), seed: r.below(256) as u8 },
    })
}

pub fn run_seed(seed: u64, prop: usize, run: u64) -> u64 {
    mix(mix(seed ^ (prop as u64) << 56).wrapping_add(run))
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub hash: u64,
    pub sched: u64,
}

/// Plays one seeded run, recording the steps the scheduler chose.
pub fn search_run<'c>(cx: &'c Ctx, al: &Alpha, prop: usize, seed: u64, run: u64, cover: Option<&'c mut std::collections::HashSet<u64>>, live_log: bool) -> (Scenario, World<'c>, Outcome) {
    let mut r = Rng::new(run_seed(seed, prop, run));
    let p = plan(cx, al, prop, &mut r, run);
    let mut w = World::new(cx, prop, &p.specs, p.drain_win);
    w.cover = cover;
    let mut sc = Scenario { prop, specs: p.specs.clone(), steps: vec![], drain_win: p.drain_win };
    if live_log {
        print!("{}", crate::scenario::write(&cx.encs, &sc).replace("drain\n", ""));
    }
    let mut sched = crate::rng::Fnv::new();
    let mut v = None;
    for _ in 0..p.swarm.budget {
        let s = match next_step(&w, &p.swarm, &mut r) {
            Some(s) => s,
            None => break,
        };
        if live_log {
            use std::io::Write;
            println!("step {}", crate::scenario::step_text(&s));
            let _ = std::io::stdout().flush();
        }
        let x = w.apply(&s);
        sc.steps.push(s);
        if let Err(e) = x {
            v = Some(e);
            break;
        }
    }
    for s in &sc.steps {
        match s {
            Step::Call { st, win, .. } => sched.u(*st as u64 + 97 * *win as u64 + 7),
            Step::Deliver { st, n } => sched.u(*st as u64 + 89 * *n as u64 + 3),
            o => sched.bytes(crate::scenario::step_text(o).as_bytes()),
        }
    }
    if live_log {
        println!("drain");
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
    if v.is_none() {
        v = close(&mut w);
    }
    let hash = w.event_hash();
    (sc, w, Outcome { viol: v, hash, sched: sched.0 })
}
pub fn close(w: &mut World) -> Option<Viol> {
    match w.drain() {
        Err(e) => Some(e),
        Ok(()) => crate::oracle::finish(w).err(),
    }
}
/// Plays a recorded scenario.
pub fn replay<'c>(cx: &'c Ctx, sc: &Scenario, trace: bool) -> (World<'c>, Option<Viol>, u64) {
    let mut w = World::new(cx, sc.prop, &sc.specs, sc.drain_win);
    if trace {
        w.trace = Some(vec![]);
    }
    for s in &sc.steps {
        if let Err(e) = w.apply(s) {
            let h = w.event_hash();
            return (w, Some(e), h);
        }
    }
    let v = close(&mut w);
    let h = w.event_hash();
    (w, v, h)
}
