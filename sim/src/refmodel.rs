//! Executable reference model: one function that says what the next unit of a stream is.
//! Written from the published definitions and tables only; shares no code with the crate.
use crate::enc::{Dir, Kind};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum T {
    Char,
    Err,
    /// The unit is incomplete and the end has not been signalled.
    More,
}
#[derive(Copy, Clone, Debug)]
pub struct Tok {
    pub t: T,
    /// Input bytes of the unit (for More: all that is left).
    pub n: usize,
    pub out: [u8; 4],
    pub olen: usize,
    /// For an unrepresentable character in encoding.
    pub ch: char,
}
impl Tok {
    fn err(n: usize) -> Tok {
        Tok { t: T::Err, n, out: [0; 4], olen: 0, ch: '\0' }
    }
    fn more(n: usize) -> Tok {
        Tok { t: T::More, n, out: [0; 4], olen: 0, ch: '\0' }
    }
    fn bytes(n: usize, b: &[u8]) -> Tok {
        let mut out = [0; 4];
        out[..b.len()].copy_from_slice(b);
        Tok { t: T::Char, n, out, olen: b.len(), ch: '\0' }
    }
    fn text(n: usize, c: u32) -> Tok {
        let mut out = [0; 4];
        let olen = char::from_u32(c).expect("reference table holds a non-character").encode_utf8(&mut out).len();
        Tok { t: T::Char, n, out, olen, ch: '\0' }
    }
}

pub struct Ref {
    pub single_dec: Vec<[u16; 128]>,
    single_enc: Vec<Vec<u8>>, // by code point up to 0x2FFF, 0 = none
    pub big5_dec: Vec<u32>,
    big5_enc: Vec<u16>,
    pub jis_dec: Vec<u16>,
    jis_enc: Vec<u16>,
}
static SINGLE: &[u8] = include_bytes!("../data/single.bin");
static BIG5: &[u8] = include_bytes!("../data/big5.bin");
static JIS: &[u8] = include_bytes!("../data/jis.bin");
pub const BIG5_PAIRS: [(u32, u32, [u8; 2]); 4] = [
    (0xCA, 0x304, [0x88, 0x62]),
    (0xCA, 0x30C, [0x88, 0x64]),
    (0xEA, 0x304, [0x88, 0xA3]),
    (0xEA, 0x30C, [0x88, 0xA5]),
];

fn big5_bytes(p: usize) -> [u8; 2] {
    let (l, t) = (p / 157, p % 157);
    [(l + 0x81) as u8, if t < 63 { t + 0x40 } else { t + 0x62 } as u8]
}
fn jis_bytes(p: usize) -> [u8; 2] {
    let (l, t) = (p / 188, p % 188);
    [(if l < 31 { l + 0x81 } else { l + 0xC1 }) as u8, (if t < 63 { t + 0x40 } else { t + 0x41 }) as u8]
}

impl Ref {
    pub fn new() -> Ref {
        let mut single_dec = vec![];
        let mut single_enc = vec![];
        for tab in SINGLE.chunks(256) {
            let mut d = [0u16; 128];
            let mut e = vec![0u8; 0x3000];
            for i in 0..128 {
                d[i] = u16::from_le_bytes([tab[2 * i], tab[2 * i + 1]]);
                if d[i] != 0 && (d[i] as usize) < 0x3000 {
                    e[d[i] as usize] = 128 + i as u8;
                } else if d[i] >= 0x3000 {
                    // Only the Apple logo (private use) lies beyond; handled by search.
                }
            }
            single_dec.push(d);
            single_enc.push(e);
        }
        let big5_dec: Vec<u32> = BIG5.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        // First pointer for each character, last for six of them (WHATWG).
        let mut big5_enc = vec![0u16; 0x30000];
        for (p, &c) in big5_dec.iter().enumerate() {
            let c = c as usize;
            if c != 0 && (big5_enc[c] == 0 || [0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345].contains(&c)) {
                big5_enc[c] = u16::from_be_bytes(big5_bytes(p));
            }
        }
        let jis_dec: Vec<u16> = JIS.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        // First pointer for each character, leaving out 8272..=8835 (WHATWG).
        let mut jis_enc = vec![0u16; 0x10000];
        for (p, &c) in jis_dec.iter().enumerate() {
            if c != 0 && !(8272..=8835).contains(&p) && jis_enc[c as usize] == 0 {
                jis_enc[c as usize] = u16::from_be_bytes(jis_bytes(p));
            }
        }
        Ref { single_dec, single_enc, big5_dec, big5_enc, jis_dec, jis_enc }
    }

    /// Size in output of the largest character (the largest unit that converts as one).
    pub fn largest(&self, kind: Kind, dir: Dir) -> usize {
        match (kind, dir) {
            (Kind::Ascii, _) | (Kind::Single(_), Dir::Enc) => 1,
            (Kind::Big5, Dir::Enc) | (Kind::Sjis, Dir::Enc) => 2,
            (Kind::Sjis, Dir::Dec) => 3,
            (Kind::Single(i), Dir::Dec) => 2 + self.single_dec[i].iter().any(|&c| c >= 0x800) as usize,
            _ => 4,
        }
    }

    /// The next unit of a non-empty input.
    #[inline]
    pub fn tok(&self, kind: Kind, dir: Dir, b: &[u8], end: bool) -> Tok {
        match dir {
            Dir::Dec => self.dec(kind, b, end),
            Dir::Enc => self.enc(kind, b, end),
        }
    }

    fn dec(&self, kind: Kind, b: &[u8], end: bool) -> Tok {
        let cut = |n: usize| if end { Tok::err(n) } else { Tok::more(n) };
        match kind {
            Kind::Utf8 => {
                let b0 = b[0];
                // Unicode, table 3-7; an ill-formed sequence is a maximal subpart.
                let (len, lo, hi) = match b0 {
                    0..=0x7F => return Tok::bytes(1, &b[..1]),
                    0xC2..=0xDF => (2, 0x80, 0xBF),
                    0xE0 => (3, 0xA0, 0xBF),
                    0xED => (3, 0x80, 0x9F),
                    0xE1..=0xEF => (3, 0x80, 0xBF),
                    0xF0 => (4, 0x90, 0xBF),
                    0xF4 => (4, 0x80, 0x8F),
                    0xF1..=0xF3 => (4, 0x80, 0xBF),
                    _ => return Tok::err(1),
                };
                for i in 1..len {
                    if i >= b.len() {
                        return cut(i);
                    }
                    let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xBF) };
                    if b[i] < l || b[i] > h {
                        return Tok::err(i);
                    }
                }
                Tok::bytes(len, &b[..len])
            }
            Kind::Utf16 { be } => {
                let u = |i: usize| if be { (b[i] as u32) << 8 | b[i + 1] as u32 } else { (b[i + 1] as u32) << 8 | b[i] as u32 };
                if b.len() < 2 {
                    return cut(1);
                }
                let c = u(0);
                match c {
                    0xDC00..=0xDFFF => Tok::err(2),
                    0xD800..=0xDBFF => {
                        if b.len() < 4 {
                            return cut(b.len());
                        }
                        let d = u(2);
                        if !(0xDC00..=0xDFFF).contains(&d) {
                            return Tok::err(2);
                        }
                        Tok::text(4, 0x10000 + (c - 0xD800) * 0x400 + (d - 0xDC00))
                    }
                    _ => Tok::text(2, c),
                }
            }
            Kind::Utf32 { be } => {
                if b.len() < 4 {
                    return cut(b.len());
                }
                let mut q = [b[0], b[1], b[2], b[3]];
                if !be {
                    q.reverse();
                }
                let c = (q[0] as u32) << 24 | (q[1] as u32) << 16 | (q[2] as u32) << 8 | q[3] as u32;
                if c > 0x10FFFF || (0xD800..=0xDFFF).contains(&c) {
                    Tok::err(4)
                } else {
                    Tok::text(4, c)
                }
            }
            Kind::Big5 => {
                let l = b[0];
                if l < 0x80 {
                    return Tok::bytes(1, &b[..1]);
                }
                if l == 0x80 || l == 0xFF {
                    return Tok::err(1);
                }
                if b.len() < 2 {
                    return cut(1);
                }
                let t = b[1];
                let off = match t {
                    0x40..=0x7E => 0x40,
                    0xA1..=0xFE => 0x62,
                    _ => return Tok::err(if t < 0x80 { 1 } else { 2 }),
                };
                let p = (l as usize - 0x81) * 157 + t as usize - off;
                for &(x, y, bb) in BIG5_PAIRS.iter() {
                    if bb == [l, t] {
                        let mut s = String::new();
                        s.push(char::from_u32(x).unwrap());
                        s.push(char::from_u32(y).unwrap());
                        return Tok::bytes(2, s.as_bytes());
                    }
                }
                match self.big5_dec.get(p) {
                    Some(&c) if c != 0 => Tok::text(2, c),
                    _ => Tok::err(if t < 0x80 { 1 } else { 2 }),
                }
            }
            Kind::Sjis => {
                let l = b[0];
                match l {
                    0..=0x7F => return Tok::bytes(1, &b[..1]),
                    0x80 => return Tok::text(1, 0x80),
                    0xA1..=0xDF => return Tok::text(1, 0xFF61 + (l as u32 - 0xA1)),
                    0xA0 | 0xFD..=0xFF => return Tok::err(1),
                    _ => {}
                }
                if b.len() < 2 {
                    return cut(1);
                }
                let t = b[1];
                let bad = Tok::err(if t < 0x80 { 1 } else { 2 });
                let toff = match t {
                    0x40..=0x7E => 0x40,
                    0x80..=0xFC => 0x41,
                    _ => return bad,
                };
                let p = (l as usize - if l < 0xA0 { 0x81 } else { 0xC1 }) * 188 + t as usize - toff;
                if (8836..=10715).contains(&p) {
                    return Tok::text(2, 0xE000 + (p as u32 - 8836));
                }
                match self.jis_dec.get(p) {
                    Some(&c) if c != 0 => Tok::text(2, c as u32),
                    _ => bad,
                }
            }
            Kind::Ascii => {
                if b[0] < 0x80 {
                    Tok::bytes(1, &b[..1])
                } else {
                    Tok::err(1)
                }
            }
            Kind::Single(i) => {
                if b[0] < 0x80 {
                    return Tok::bytes(1, &b[..1]);
                }
                match self.single_dec[i][b[0] as usize - 128] {
                    0 => Tok::err(1),
                    c => Tok::text(1, c as u32),
                }
            }
        }
    }

    fn enc(&self, kind: Kind, b: &[u8], end: bool) -> Tok {
        let (c, n) = first_char(b);
        let x = c as u32;
        let bad = Tok { t: T::Err, n, out: [0; 4], olen: 0, ch: c };
        match kind {
            Kind::Utf8 => Tok::bytes(n, &b[..n]),
            Kind::Utf16 { be } => {
                let one = |v: u32| if be { [(v >> 8) as u8, v as u8] } else { [v as u8, (v >> 8) as u8] };
                if x < 0x10000 {
                    Tok::bytes(n, &one(x))
                } else {
                    let h = one(0xD800 + ((x - 0x10000) >> 10));
                    let l = one(0xDC00 + ((x - 0x10000) & 0x3FF));
                    Tok::bytes(n, &[h[0], h[1], l[0], l[1]])
                }
            }
            Kind::Utf32 { be } => {
                let mut q = [(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8];
                if !be {
                    q.reverse();
                }
                Tok::bytes(n, &q)
            }
            Kind::Big5 => {
                if x < 0x80 {
                    return Tok::bytes(n, &[x as u8]);
                }
                if x == 0xCA || x == 0xEA {
                    if b.len() > n {
                        let (d, m) = first_char(&b[n..]);
                        for &(p, q, bb) in BIG5_PAIRS.iter() {
                            if p == x && q == d as u32 {
                                return Tok::bytes(n + m, &bb);
                            }
                        }
                    } else if !end {
                        return Tok::more(n);
                    }
                }
                match self.big5_enc.get(x as usize) {
                    Some(&v) if v != 0 => Tok::bytes(n, &v.to_be_bytes()),
                    _ => bad,
                }
            }
            Kind::Sjis => match x {
                0..=0x80 => Tok::bytes(n, &[x as u8]),
                0xA5 => Tok::bytes(n, &[0x5C]),
                0x203E => Tok::bytes(n, &[0x7E]),
                0xFF61..=0xFF9F => Tok::bytes(n, &[(x - 0xFF61 + 0xA1) as u8]),
                0xE000..=0xE757 => Tok::bytes(n, &jis_bytes((x - 0xE000) as usize + 8836)),
                _ => {
                    let y = if x == 0x2212 { 0xFF0D } else { x };
                    match self.jis_enc.get(y as usize) {
                        Some(&v) if v != 0 => Tok::bytes(n, &v.to_be_bytes()),
                        _ => bad,
                    }
                }
            },
            Kind::Ascii => {
                if x < 0x80 {
                    Tok::bytes(n, &[x as u8])
                } else {
                    bad
                }
            }
            Kind::Single(i) => {
                if x < 0x80 {
                    return Tok::bytes(n, &[x as u8]);
                }
                if x < 0x3000 {
                    return match self.single_enc[i][x as usize] {
                        0 => bad,
                        v => Tok::bytes(n, &[v]),
                    };
                }
                match self.single_dec[i].iter().position(|&c| c as u32 == x) {
                    Some(p) => Tok::bytes(n, &[128 + p as u8]),
                    None => bad,
                }
            }
        }
    }
}

pub fn first_char(b: &[u8]) -> (char, usize) {
    let n = match b[0] {
        0..=0x7F => return (b[0] as char, 1),
        0xC0..=0xDF => 2,
        0xE0..=0xEF => 3,
        _ => 4,
    };
    let mut v = (b[0] & (0x7F >> n)) as u32;
    for &x in &b[1..n] {
        v = v << 6 | (x & 0x3F) as u32;
    }
    (char::from_u32(v).expect("harness: text input not UTF-8"), n)
}
