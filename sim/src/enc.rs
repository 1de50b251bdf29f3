//! The code under test: the real conversion functions of text_encoding behind one signature,
//! and a call wrapper that owns everything the call can touch.
use std::panic::{catch_unwind, AssertUnwindSafe};
use text_encoding as te;

pub type DecFn = for<'a> fn(&[u8], &'a mut [u8], bool) -> te::DecodeResult<'a>;
pub type EncFn = for<'a> fn(&str, &'a mut [u8], bool) -> te::EncodeResult<'a>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Utf8,
    Utf16 { be: bool },
    Utf32 { be: bool },
    Big5,
    Sjis,
    Ascii,
    /// Index into the single-byte reference tables.
    Single(usize),
}
#[derive(Copy, Clone)]
pub struct Enc {
    pub name: &'static str,
    pub kind: Kind,
    pub dec: DecFn,
    pub enc: EncFn,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Dir {
    Dec,
    Enc,
}

macro_rules! single {
    ($i:expr, $m:ident) => {{
        fn d<'a>(i: &[u8], o: &'a mut [u8], _: bool) -> te::DecodeResult<'a> {
            te::single_byte::$m::decode_to_str(i, o)
        }
        fn e<'a>(i: &str, o: &'a mut [u8], _: bool) -> te::EncodeResult<'a> {
            te::single_byte::$m::encode_from_str(i, o)
        }
        Enc { name: stringify!($m), kind: $i, dec: d, enc: e }
    }};
}
macro_rules! multi {
    ($k:expr, $m:ident) => {{
        fn e<'a>(i: &str, o: &'a mut [u8], _: bool) -> te::EncodeResult<'a> {
            te::$m::encode_from_str(i, o)
        }
        Enc { name: stringify!($m), kind: $k, dec: te::$m::decode_to_str, enc: e }
    }};
}

pub fn all() -> Vec<Enc> {
    use Kind::Single as S;
    vec![
        multi!(Kind::Utf8, utf8),
        multi!(Kind::Utf16 { be: true }, utf16_be),
        multi!(Kind::Utf16 { be: false }, utf16_le),
        multi!(Kind::Utf32 { be: true }, utf32_be),
        multi!(Kind::Utf32 { be: false }, utf32_le),
        Enc { name: "big5_whatwg", kind: Kind::Big5, dec: te::big5_whatwg::decode_to_str, enc: te::big5_whatwg::encode_from_str },
        multi!(Kind::Sjis, shiftjis_whatwg),
        single!(Kind::Ascii, ascii),
        single!(S(0), ibm_866),
        single!(S(1), iso_8859_1),
        single!(S(2), iso_8859_2),
        single!(S(3), iso_8859_3),
        single!(S(4), iso_8859_4),
        single!(S(5), iso_8859_5),
        single!(S(6), iso_8859_6),
        single!(S(7), iso_8859_7),
        single!(S(8), iso_8859_8),
        single!(S(9), iso_8859_9),
        single!(S(10), iso_8859_10),
        single!(S(11), iso_8859_11),
        single!(S(12), iso_8859_13),
        single!(S(13), iso_8859_14),
        single!(S(14), iso_8859_15),
        single!(S(15), iso_8859_16),
        single!(S(16), koi8_r),
        single!(S(17), koi8_u),
        single!(S(18), mac_roman),
        single!(S(19), mac_cyrillic),
        single!(S(20), windows_874),
        single!(S(21), windows_1250),
        single!(S(22), windows_1251),
        single!(S(23), windows_1252),
        single!(S(24), windows_1253),
        single!(S(25), windows_1254),
        single!(S(26), windows_1255),
        single!(S(27), windows_1256),
        single!(S(28), windows_1257),
        single!(S(29), windows_1258),
    ]
}

/// What one real call did.
#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok { out: Vec<u8>, used: usize },
    Err { ch: Option<char>, invalid: bool, range: (usize, usize), written: usize, out: Vec<u8> },
    /// The call panicked, or returned something that cannot even be recorded.
    Bad { class: &'static str, msg: String },
}

pub const GUARD: usize = 24;

/// Scratch memory at a known alignment, so that where a buffer begins is the scheduler's choice.
#[derive(Clone, Default)]
pub struct Arena(Vec<Line>);
#[derive(Copy, Clone)]
#[repr(align(64))]
struct Line(#[allow(dead_code)] [u8; 64]);
impl Arena {
    pub fn new(len: usize, fill: u8) -> Arena {
        Arena(vec![Line([fill; 64]); (len + 63) / 64])
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.0.len() * 64) }
    }
    /// A copy of the input, `align` behind a multiple of 64 as well.
    pub fn place(&mut self, input: &[u8], align: usize) -> &[u8] {
        let a = 64 + align;
        self.grow(a + input.len() + GUARD);
        let m = self.bytes();
        m[a..a + input.len()].copy_from_slice(input);
        &m[a..a + input.len()]
    }
    fn grow(&mut self, len: usize) {
        let n = self.0.len();
        if n * 64 < len {
            let mut x = n as u8;
            self.0.resize((len + 63) / 64, Line([0; 64]));
            for b in &mut self.bytes()[n * 64..] {
                x = x.wrapping_mul(29).wrapping_add(113);
                *b = x | 0x80;
            }
        }
    }
}

/// Runs one real call. `arena` is scratch memory with arbitrary stale contents; the window handed
/// to the call is `win` bytes, `align` behind a multiple of 64, and everything around it must stay
/// as it was.
pub fn call(e: &Enc, dir: Dir, input: &[u8], win: usize, end: bool, arena: &mut Arena, align: usize) -> Res {
    let a = 64 + align;
    arena.grow(a + win + GUARD);
    let arena = arena.bytes();
    let mut pre = [0u8; GUARD];
    let mut post = [0u8; GUARD];
    pre.copy_from_slice(&arena[a - GUARD..a]);
    post.copy_from_slice(&arena[a + win..a + win + GUARD]);
    let base = arena[a..].as_ptr() as usize;
    let r = {
        let w = &mut arena[a..a + win];
        catch_unwind(AssertUnwindSafe(move || raw(e, dir, input, w, end, base)))
    };
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            let msg = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            return Res::Bad { class: "panic", msg };
        }
    };
    if arena[a - GUARD..a] != pre || arena[a + win..a + win + GUARD] != post {
        return Res::Bad { class: "outside-write", msg: "bytes outside the caller's buffer were written".into() };
    }
    match r {
        Res::Err { ch, invalid, range, written, .. } => {
            if written > win {
                return Res::Bad { class: "bad-count", msg: format!("output_bytes_written {} with a buffer of {}", written, win) };
            }
            if range.0 >= range.1 || range.1 > input.len() {
                return Res::Bad { class: "bad-range", msg: format!("error_range {:?} with an input of {}", range, input.len()) };
            }
            Res::Err { ch, invalid, range, written, out: arena[a..a + written].to_vec() }
        }
        r => r,
    }
}

/// Memory between two pages that may not be touched.
#[cfg(not(miri))]
pub struct Wall {
    base: *mut u8,
    size: usize,
}
#[cfg(not(miri))]
mod sys {
    extern "C" {
        pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    }
}
#[cfg(not(miri))]
impl Wall {
    const PAGE: usize = 65536;
    fn new(size: usize) -> Option<Wall> {
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, then PROT_NONE on both ends.
            let p = sys::mmap(std::ptr::null_mut(), size + 2 * Wall::PAGE, 3, 0x22, -1, 0);
            if p as isize == -1 || sys::mprotect(p, Wall::PAGE, 0) != 0 || sys::mprotect(p.add(Wall::PAGE + size), Wall::PAGE, 0) != 0 {
                return None;
            }
            Some(Wall { base: p.add(Wall::PAGE), size })
        }
    }
    /// n bytes directly in front of the upper wall, or directly behind the lower one.
    fn block(&mut self, n: usize, high: bool) -> &mut [u8] {
        assert!(n <= self.size);
        unsafe { std::slice::from_raw_parts_mut(if high { self.base.add(self.size - n) } else { self.base }, n) }
    }
}
#[cfg(not(miri))]
thread_local! {
    static WALLS: std::cell::RefCell<Option<(Wall, Wall)>> = std::cell::RefCell::new(Wall::new(1 << 20).and_then(|a| Wall::new(1 << 20).map(|b| (a, b))));
}
/// The call with input and buffer each ending (or beginning) at a page that cannot be touched: an
/// access outside them ends the process.
#[cfg(not(miri))]
pub fn walled(e: &Enc, dir: Dir, input: &[u8], win: usize, end: bool, low: bool) -> Res {
    WALLS.with(|w| {
        let mut w = w.borrow_mut();
        match w.as_mut() {
            Some((a, b)) if input.len() <= a.size && win <= b.size => {
                let i = a.block(input.len(), !low);
                i.copy_from_slice(input);
                let o = b.block(win, !low);
                o.iter_mut().for_each(|x| *x = 0x80);
                bare(e, dir, i, o, end)
            }
            _ => {
                let mut o = vec![0x80; win];
                bare(e, dir, input, &mut o, end)
            }
        }
    })
}
#[cfg(miri)]
pub fn walled(e: &Enc, dir: Dir, input: &[u8], win: usize, end: bool, _: bool) -> Res {
    bare(e, dir, input, &mut vec![0x80; win], end)
}

/// The call alone, with exactly the caller's memory.
pub fn bare(e: &Enc, dir: Dir, input: &[u8], w: &mut [u8], end: bool) -> Res {
    let base = w.as_ptr() as usize;
    let win = w.len();
    let r = {
        let w = &mut *w;
        catch_unwind(AssertUnwindSafe(move || raw(e, dir, input, w, end, base)))
    };
    match r {
        Ok(Res::Err { ch, invalid, range, written, .. }) => Res::Err { ch, invalid, range, written, out: w[..written.min(win)].to_vec() },
        Ok(r) => r,
        Err(_) => Res::Bad { class: "panic", msg: String::new() },
    }
}

#[inline]
fn armed<R>(f: impl FnOnce() -> R) -> R {
    let _a = crate::starve::Armed::new();
    f()
}
fn raw(e: &Enc, dir: Dir, input: &[u8], w: &mut [u8], end: bool, base: usize) -> Res {
    let win = w.len();
    let (ptr, out, used) = match dir {
        Dir::Dec => match armed(|| (e.dec)(input, w, end)) {
            Ok((s, n)) => (s.as_ptr() as usize, s.as_bytes(), n),
            Err(x) => {
                return Res::Err {
                    ch: None,
                    invalid: x.cause == te::DecodeErrorCause::InvalidData,
                    range: x.error_range,
                    written: x.output_bytes_written,
                    out: vec![],
                }
            }
        },
        Dir::Enc => {
            // World::deliver checks all text once, and World::call that it is cut between characters.
            debug_assert!(cfg!(not(miri)) || std::str::from_utf8(input).is_ok());
            let t = unsafe { std::str::from_utf8_unchecked(input) };
            match armed(|| (e.enc)(t, w, end)) {
                Ok((s, n)) => (s.as_ptr() as usize, s, n),
                Err(x) => {
                    return Res::Err { ch: Some(x.character), invalid: true, range: x.error_range, written: x.output_bytes_written, out: vec![] }
                }
            }
        }
    };
    if out.len() > win || (ptr != base && !out.is_empty()) {
        return Res::Bad { class: "not-in-buffer", msg: "the returned slice is not the start of the caller's buffer".into() };
    }
    if used > input.len() {
        return Res::Bad { class: "bad-count", msg: format!("consumed {} of an input of {}", used, input.len()) };
    }
    Res::Ok { out: out.to_vec(), used }
}
