//! The oracles. `per_call` judges one call, `finish` judges the recorded history of a run.
use crate::enc::{self, Dir, Kind, Res};
use crate::refmodel::{first_char, Ref, T};
use crate::rng::Rng;
use crate::world::*;

/// What a whole stream converts to: text without substitutes, and reports with their place in it.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Canon {
    pub text: Vec<u8>,
    /// (offset in text, start, end, character)
    pub errs: Vec<(usize, usize, usize, Option<char>)>,
    /// Where conversion stands at the end.
    pub pos: usize,
}
impl Canon {
    fn push_err(&mut self, coalesce: bool, a: usize, b: usize, ch: Option<char>) {
        let at = self.text.len();
        if coalesce {
            if let Some(l) = self.errs.last_mut() {
                if l.2 == a && l.0 == at {
                    l.2 = b;
                    return;
                }
            }
        }
        self.errs.push((at, a, b, ch));
    }
}
fn coalesce(kind: Kind, dir: Dir) -> bool {
    kind == Kind::Utf8 && dir == Dir::Dec
}
pub fn ref_canon(rf: &Ref, kind: Kind, dir: Dir, b: &[u8], end: bool, stop: bool) -> Canon {
    let mut c = Canon::default();
    let co = coalesce(kind, dir);
    let mut p = 0;
    while p < b.len() {
        let t = rf.tok(kind, dir, &b[p..], end);
        match t.t {
            T::Char => c.text.extend_from_slice(&t.out[..t.olen]),
            T::Err => {
                let ch = if dir == Dir::Enc { Some(t.ch) } else { None };
                c.push_err(co, p, p + t.n, ch);
                if stop {
                    break;
                }
            }
            T::More => break,
        }
        p += t.n;
    }
    c.pos = p;
    c
}
pub fn stage_canon(s: &Stage) -> Canon {
    let mut c = Canon::default();
    let co = coalesce(s.kind, s.spec.dir);
    let mut p = 0;
    for e in &s.errs {
        c.text.extend_from_slice(&s.log[p..e.at]);
        p = e.at + e.sub;
        c.push_err(co, e.a, e.b, e.ch);
    }
    c.text.extend_from_slice(&s.log[p..s.out_len]);
    c.pos = s.pos;
    c
}
/// The same stream through the real code with nothing going wrong: one call with ample room,
/// resumed only at reports.
pub fn one_shot(cx: &Ctx, s: &Stage, b: &[u8], end: bool, stop: bool) -> Canon {
    let mut c = Canon::default();
    let co = coalesce(s.kind, s.spec.dir);
    let (mut arena, mut inlet) = (enc::Arena::default(), enc::Arena::default());
    let b = inlet.place(b, 0);
    let mut p = 0;
    while p < b.len() {
        let win = 4 * (b.len() - p) + 8;
        match enc::call(&cx.encs[s.spec.enc], s.spec.dir, &b[p..], win, end, &mut arena, 0) {
            Res::Ok { out, used } => {
                c.text.extend_from_slice(&out);
                p += used;
                break;
            }
            Res::Err { ch, range, out, .. } => {
                c.text.extend_from_slice(&out);
                c.push_err(co, p + range.0, p + range.1, ch);
                if stop {
                    p += range.0;
                    break;
                }
                p += range.1;
            }
            Res::Bad { .. } => break,
        }
    }
    c.pos = p;
    c
}
/// A receiver that stops at the first report learns where the invalid run begins; how much of an
/// unbroken run one UTF-8 report covers is left open.
fn stopped(kind: Kind, dir: Dir, stop: bool, mut c: Canon) -> Canon {
    if stop && coalesce(kind, dir) {
        if let Some(e) = c.errs.last_mut() {
            e.2 = e.1;
        }
    }
    c
}
fn diff(name: &str, a: &Canon, b: &Canon, got: &str, want: &str) -> Result<(), Viol> {
    if a == b {
        return Ok(());
    }
    if a.text != b.text {
        let k = a.text.iter().zip(&b.text).take_while(|(x, y)| x == y).count();
        let w = |v: &[u8]| hex(&v[k.saturating_sub(4)..v.len().min(k + 12)]);
        return viol("wrong-output", format!("{}: output differs from offset {}: {} ..{}.. (length {}), {} ..{}.. (length {})", name, k, got, w(&a.text), a.text.len(), want, w(&b.text), b.text.len()));
    }
    if a.errs != b.errs {
        let k = a.errs.iter().zip(&b.errs).take_while(|(x, y)| x == y).count();
        return viol("wrong-reports", format!("{}: report {} (output offset, start, end, char): {} {:?}, {} {:?}", name, k, got, a.errs.get(k), want, b.errs.get(k)));
    }
    viol("wrong-position", format!("{}: conversion stands at {} {}, {} {}", name, got, a.pos, want, b.pos))
}

/// The longest run of whole units that fits.
struct Exp {
    out: Vec<u8>,
    used: usize,
    stop: Stop,
}
#[derive(PartialEq, Debug)]
enum Stop {
    Done,
    Full,
    Err,
    More,
}
fn expect(rf: &Ref, kind: Kind, dir: Dir, input: &[u8], win: usize, end: bool) -> Exp {
    let mut x = Exp { out: Vec::new(), used: 0, stop: Stop::Done };
    while x.used < input.len() {
        let t = rf.tok(kind, dir, &input[x.used..], end);
        match t.t {
            T::Char => {
                if x.out.len() + t.olen > win {
                    x.stop = Stop::Full;
                    break;
                }
                x.out.extend_from_slice(&t.out[..t.olen]);
                x.used += t.n;
            }
            T::Err => {
                x.stop = Stop::Err;
                break;
            }
            T::More => {
                x.stop = Stop::More;
                break;
            }
        }
    }
    x
}
/// Is b converted whole, without reports, into exactly `out`?
fn converts_to(rf: &Ref, kind: Kind, dir: Dir, b: &[u8], out: &[u8]) -> bool {
    let mut p = 0;
    let mut o = 0;
    while p < b.len() {
        let t = rf.tok(kind, dir, &b[p..], true);
        if t.t != T::Char || o + t.olen > out.len() || out[o..o + t.olen] != t.out[..t.olen] {
            return false;
        }
        o += t.olen;
        p += t.n;
    }
    o == out.len()
}
fn range_is_invalid_only(rf: &Ref, kind: Kind, dir: Dir, input: &[u8], end: bool, r: (usize, usize)) -> bool {
    let mut p = r.0;
    while p < r.1 {
        let t = rf.tok(kind, dir, &input[p..], end);
        if t.t != T::Err {
            return false;
        }
        p += t.n;
    }
    p == r.1
}

#[allow(clippy::too_many_arguments)]
pub fn per_call(cx: &Ctx, prop: usize, kind: Kind, dir: Dir, input: &[u8], win: usize, end: bool, res: &Res) -> Result<(), Viol> {
    let rf = &cx.rf;
    let d = || format!("{:?} {:?} input={} win={} end={} -> {}", dir, kind, hex(input), win, end, res_text(res));
    if let Res::Bad { .. } = res {
        return Ok(()); // reported by the caller
    }
    match prop {
        4 => {
            let out = match res {
                Res::Ok { out, used } => {
                    if dir == Dir::Enc && std::str::from_utf8(&input[..*used]).is_err() {
                        return viol("inside-character", d());
                    }
                    out
                }
                Res::Err { out, range, .. } => {
                    if dir == Dir::Enc && (std::str::from_utf8(&input[..range.0]).is_err() || std::str::from_utf8(&input[..range.1]).is_err()) {
                        return viol("inside-character", d());
                    }
                    out
                }
                _ => unreachable!(),
            };
            match dir {
                Dir::Dec => {
                    if std::str::from_utf8(out).is_err() {
                        return viol("invalid-utf8-output", d());
                    }
                }
                Dir::Enc => {
                    let mut p = 0;
                    while p < out.len() {
                        let t = rf.tok(kind, Dir::Dec, &out[p..], true);
                        if t.t != T::Char {
                            return viol("invalid-encoded-output", d());
                        }
                        p += t.n;
                    }
                }
            }
        }
        5 => {
            if let Res::Ok { used: 0, .. } = res {
                if !input.is_empty() && win >= rf.largest(kind, dir) && (end || rf.tok(kind, dir, input, end).t != T::More) {
                    return viol("no-progress", d());
                }
            }
        }
        6 => {
            // The source is valid, so what is invalid at the end is the tail.
            if let (Res::Ok { out, used }, Dir::Dec, true) = (res, dir, end) {
                if win - out.len() >= rf.largest(kind, dir) && *used < input.len() && rf.tok(kind, dir, &input[*used..], true).t == T::Err && rf.tok(kind, dir, &input[*used..], false).t == T::More {
                    return viol("tail-not-reported", d());
                }
            }
        }
        7 => {
            if let Res::Err { invalid, range, .. } = res {
                if dir == Dir::Dec {
                    if !invalid {
                        return viol("wrong-cause", d());
                    }
                    if !range_is_invalid_only(rf, kind, dir, input, end, *range) {
                        return viol("range-takes-valid-bytes", d());
                    }
                }
            }
        }
        10 => match res {
            Res::Ok { out, used } => {
                // Nothing unrepresentable may pass without a report.
                if !converts_to(rf, kind, dir, &input[..*used], out) {
                    return viol("unreported-or-wrong", d());
                }
            }
            Res::Err { ch, range, out, .. } => {
                let ok = {
                    let in_text = std::str::from_utf8(&input[range.0..range.1]).ok();
                    let mut it = in_text.unwrap_or("").chars();
                    it.next() == *ch && ch.is_some() && it.next().is_none()
                };
                if !ok {
                    return viol("wrong-character-or-range", d());
                }
                if rf.tok(kind, dir, &input[range.0..], end).t != T::Err {
                    return viol("representable-reported", d());
                }
                if !converts_to(rf, kind, dir, &input[..range.0], out) {
                    return viol("written-prefix-wrong", d());
                }
            }
            _ => {}
        },
        11 => match res {
            Res::Ok { out, used } => {
                if !converts_to(rf, kind, dir, &input[..*used], out) {
                    return viol("text-is-not-of-consumed-bytes", d());
                }
            }
            Res::Err { range, out, .. } => {
                if !converts_to(rf, kind, dir, &input[..range.0], out) {
                    return viol("text-is-not-of-bytes-before-error", d());
                }
                if !range_is_invalid_only(rf, kind, dir, input, end, *range) {
                    return viol("range-is-not-invalid-bytes", d());
                }
            }
            _ => {}
        },
        12 => {
            let x = expect(rf, kind, dir, input, win, end);
            match res {
                Res::Ok { out, used } => {
                    if *out != x.out || *used != x.used {
                        return viol("not-the-longest-run", format!("{}; the longest run that fits is {} bytes in, {} out", d(), x.used, x.out.len()));
                    }
                    if x.stop == Stop::Err && win - x.out.len() >= rf.largest(kind, dir) {
                        return viol("error-held-back", d());
                    }
                }
                Res::Err { range, out, .. } => {
                    if x.stop != Stop::Err || range.0 != x.used || *out != x.out {
                        return viol("not-the-longest-run", format!("{}; the longest run that fits is {} bytes in, {} out, then {:?}", d(), x.used, x.out.len(), x.stop));
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn p08_checkpoint(w: &World, i: usize) -> Result<(), Viol> {
    // Input up to the saved position converts to exactly the output up to the saved length.
    let s = &w.st[i];
    if s.pos > 600 {
        return Ok(());
    }
    let got = stage_canon(s);
    let want = one_shot(w.cx, s, &s.eff[..s.pos], true, false);
    diff(&format!("node {} at the saved position {}", i, s.pos), &got, &want, "saved", "one uninterrupted conversion gives")
}

pub fn finish(w: &mut World) -> Result<(), Viol> {
    let cx = w.cx;
    let rf = &cx.rf;
    for i in 0..w.st.len() {
        let s = &w.st[i];
        let dir = s.spec.dir;
        let stop = s.spec.policy == Policy::Stop;
        let name = format!("node {} {:?} {}", i, dir, cx.encs[s.spec.enc].name);
        let by_ref = |s: &Stage| diff(&name, &stopped(s.kind, dir, stop, stage_canon(s)), &stopped(s.kind, dir, stop, ref_canon(rf, s.kind, dir, &s.eff, s.fin, stop)), "delivered", "the definition gives");
        match w.prop {
            1 | 2 | 10 => by_ref(s)?,
            5 => {
                if s.fin && !s.stopped && s.pending() != 0 {
                    return viol("not-finished", format!("{}: {} bytes are still pending after the end", name, s.pending()));
                }
                // Everything converted or reported: nothing skipped over.
                let c = ref_canon(rf, s.kind, dir, &s.eff, s.fin, stop);
                if c.pos != s.pos {
                    return viol("not-finished", format!("{}: conversion stands at {}, should stand at {}", name, s.pos, c.pos));
                }
            }
            6 => p06(w, i, &name)?,
            7 => {
                by_ref(s)?;
                p07(w, i, &name)?
            }
            8 => diff(&name, &stage_canon(s), &one_shot(cx, s, &s.eff, s.fin, stop), "ended with", "an uninterrupted run gives")?,
            11 => {
                // The ranges and the conversions tile the stream.
                let mut p = 0;
                for e in &s.errs {
                    if e.a < p {
                        return viol("ranges-overlap", format!("{}: report {}..{} begins before {}", name, e.a, e.b, p));
                    }
                    p = if stop { e.a } else { e.b };
                }
                let c = ref_canon(rf, s.kind, dir, &s.eff, s.fin, stop);
                if c.pos != s.pos || s.pos < p {
                    return viol("not-accounted", format!("{}: accounted up to {}, should be {}", name, s.pos, c.pos));
                }
            }
            _ => {}
        }
        if w.prop == 10 && s.spec.policy == Policy::Subst {
            // Full output including substitutes.
            let mut want = vec![];
            let sub = substitute(cx, s.kind, dir);
            let mut p = 0;
            while p < s.eff.len() {
                let t = rf.tok(s.kind, dir, &s.eff[p..], s.fin);
                match t.t {
                    T::Char => want.extend_from_slice(&t.out[..t.olen]),
                    T::Err => want.extend_from_slice(&sub),
                    T::More => break,
                }
                p += t.n;
            }
            if want != s.out() {
                return viol("substituted-output", format!("{}: output with substitutes is {}, should be {}", name, hex(s.out()), hex(&want)));
            }
        }
    }
    if w.prop == 3 {
        p03(w)?;
    }
    if w.prop == 16 {
        p16(w)?;
    }
    if w.prop == 9 {
        p09(w)?;
    }
    Ok(())
}

fn p03(w: &mut World) -> Result<(), Viol> {
    // Every encode/decode hop hands on exactly the text put in, less what the encoder reported.
    for i in 0..w.st.len() {
        let (d, e) = match w.st[i].spec.from {
            Some(u) if w.st[i].spec.dir == Dir::Dec => (&w.st[i], &w.st[u]),
            _ => continue,
        };
        let ename = w.cx.encs[e.spec.enc].name;
        if !d.errs.is_empty() {
            return viol("decode-error-in-relay", format!("{}: the decoder reported {:?} in bytes the encoder produced", ename, d.errs[0]));
        }
        let mut want = String::new();
        let mut p = 0;
        for r in &e.errs {
            want.push_str(std::str::from_utf8(&e.eff[p..r.a]).unwrap_or("<report inside a character>"));
            if r.sub > 0 {
                want.push('?');
            }
            p = r.b;
        }
        want.push_str(std::str::from_utf8(&e.eff[p..]).unwrap_or("<report inside a character>"));
        let got = match std::str::from_utf8(d.out()) {
            Ok(g) => g,
            Err(_) => return viol("received-invalid", format!("{}: received text is not valid", ename)),
        };
        if got == want {
            continue;
        }
        let (gc, wc) = (got.chars().count(), want.chars().count());
        for (k, (g, x)) in got.chars().zip(want.chars()).enumerate() {
            if g != x {
                match w.cx.known.iter().position(|n| n.enc == ename && n.sent == x && n.got == g) {
                    Some(n) => w.known_hits.push(n),
                    None => return viol("text-changed", format!("{}: character {} sent U+{:04X}, received U+{:04X}; {} sent, {} received", ename, k, x as u32, g as u32, wc, gc)),
                }
            }
        }
        if gc != wc {
            return viol("text-lost-or-added", format!("{}: {} characters sent, {} received", ename, wc, gc));
        }
    }
    Ok(())
}

/// The whole conversion of b, reports skipped or substituted; None if it ends inside a unit or
/// (for a decoder) anything is invalid.
fn ref_relay(cx: &Ctx, kind: Kind, dir: Dir, b: &[u8], pol: Policy) -> Option<Vec<u8>> {
    let sub = substitute(cx, kind, dir);
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let t = cx.rf.tok(kind, dir, &b[p..], true);
        match t.t {
            T::Char => v.extend_from_slice(&t.out[..t.olen]),
            T::Err if dir == Dir::Enc => {
                if pol == Policy::Subst {
                    v.extend_from_slice(&sub)
                }
            }
            _ => return None,
        }
        p += t.n;
    }
    Some(v)
}
fn p16(w: &World) -> Result<(), Viol> {
    let src = &w.st[0].spec.src;
    let cx = w.cx;
    let mut cur = src.clone();
    for i in 0..w.st.len() {
        let s = &w.st[i];
        if s.spec.from != i.checked_sub(1) {
            return Ok(());
        }
        let dir = s.spec.dir;
        cur = match ref_relay(cx, s.kind, dir, &cur, s.spec.policy) {
            Some(x) => x,
            None => return Ok(()), // not a valid source (shrunk scenario): nothing to judge
        };
        let name = format!("node {} {:?} {}", i, dir, cx.encs[s.spec.enc].name);
        let at = |a: &[u8], b: &[u8]| a.iter().zip(b).take_while(|(x, y)| x == y).count();
        if s.out() != &cur[..] {
            let k = at(s.out(), &cur);
            let near = |v: &[u8]| hex(&v[k.saturating_sub(4)..v.len().min(k + 12)]);
            return viol("relayed-differently", format!("{}: passed on ..{}.. at offset {} ({} bytes), should pass on ..{}.. ({} bytes)", name, near(s.out()), k, s.out_len, near(&cur), cur.len()));
        }
        let same = s.spec.enc == w.st[0].spec.enc && w.st.iter().all(|x| x.spec.enc == s.spec.enc);
        if dir == Dir::Dec || same {
            if let Some(e) = s.errs.first() {
                return viol("report-in-relay", format!("{}: reported {:?} in a valid stream", name, e));
            }
        } else {
            diff(&name, &stage_canon(s), &ref_canon(&cx.rf, s.kind, dir, &s.eff, true, false), "delivered", "the definition gives")?;
        }
        if same && dir == Dir::Enc && !matches!(s.kind, Kind::Big5 | Kind::Sjis) && s.out() != &src[..] {
            let k = at(s.out(), src);
            return viol("bytes-changed", format!("{}: the bytes passed on differ from the bytes received from offset {}", name, k));
        }
    }
    Ok(())
}

fn p06(w: &World, i: usize, name: &str) -> Result<(), Viol> {
    let s = &w.st[i];
    // Unit boundaries of the original, valid stream; units wholly received must be delivered.
    let src = &s.spec.src;
    let got = s.eff.len();
    let (mut p, mut want) = (0, Vec::new());
    let dir = s.spec.dir;
    while p < got {
        // A unit is judged on the stream as sent, so that a cut never makes it look complete.
        let t = w.cx.rf.tok(s.kind, dir, &src[p..], true);
        if t.t != T::Char {
            return Ok(()); // not a valid source (shrunk scenario): nothing to judge
        }
        if p + t.n > got {
            break;
        }
        want.extend_from_slice(&t.out[..t.olen]);
        p += t.n;
    }
    if dir == Dir::Enc {
        // Text is always cut between characters; a base letter left alone is judged as final or held back.
        return diff(name, &stage_canon(s), &ref_canon(&w.cx.rf, s.kind, dir, &s.eff, s.fin, false), "delivered", "should be");
    }
    let mut c = Canon { text: want, errs: vec![], pos: if s.fin { got } else { p } };
    if s.fin && p < got {
        c.errs.push((c.text.len(), p, got, None));
    }
    if s.errs.len() > c.errs.len() {
        return viol("tail-reported-in-pieces", format!("{}: {} reports for the left-over bytes {}..{}", name, s.errs.len(), p, got));
    }
    diff(name, &stage_canon(s), &c, "delivered", "the cut stream should give")
}

fn p07(w: &World, i: usize, name: &str) -> Result<(), Viol> {
    let s = &w.st[i];
    if s.spec.dir == Dir::Enc || !w.track {
        return Ok(());
    }
    let src = &s.spec.src;
    let toks = |mut p: usize, to: usize, v: &mut Vec<u8>| -> Option<usize> {
        while p < to {
            let t = w.cx.rf.tok(s.kind, Dir::Dec, &src[p..], true);
            if t.t != T::Char {
                return None;
            }
            if p + t.n > to {
                break;
            }
            v.extend_from_slice(&t.out[..t.olen]);
            p += t.n;
        }
        Some(p)
    };
    let out = stage_canon(s).text;
    // Before the damage.
    let intact = s.eprov.iter().enumerate().take_while(|&(k, &p)| p as usize == k).count();
    let mut want = vec![];
    if toks(0, intact, &mut want).is_none() {
        return Ok(()); // source not valid by itself
    }
    if !out.starts_with(&want) {
        return viol("damage-reached-back", format!("{}: text before the damage at byte {} was not delivered unchanged", name, intact));
    }
    // After the last damage.
    let n = s.eprov.len();
    if n == 0 || *s.eprov.last().unwrap() == ALTERED || intact == n {
        return Ok(());
    }
    let mut k = n;
    let mut o = *s.eprov.last().unwrap() as usize + 1;
    if o != src.len() {
        return Ok(());
    }
    while k > 0 && o > 0 && s.eprov[k - 1] as usize == o - 1 {
        k -= 1;
        o -= 1;
    }
    // First unit of the original that starts in the intact tail.
    let mut p = match toks(0, o, &mut vec![]) {
        Some(p) => p,
        None => return Ok(()),
    };
    while p < o {
        p += w.cx.rf.tok(s.kind, Dir::Dec, &src[p..], true).n;
    }
    match s.kind {
        Kind::Utf16 { .. } if (k + p - o) % 2 != 0 => return Ok(()),
        Kind::Utf32 { .. } if (k + p - o) % 4 != 0 => return Ok(()),
        Kind::Big5 | Kind::Sjis => {
            while p < src.len() && src[p] >= 0x40 {
                p += w.cx.rf.tok(s.kind, Dir::Dec, &src[p..], true).n;
            }
        }
        _ => {}
    }
    let mut tail = vec![];
    if p >= src.len() || toks(p, src.len(), &mut tail) != Some(src.len()) {
        return Ok(());
    }
    if !out.ends_with(&tail) {
        return viol("no-resynchronisation", format!("{}: the intact tail from byte {} of the original was not delivered", name, p));
    }
    let ea = k + p - o;
    if let Some(e) = s.errs.iter().find(|e| e.b > ea) {
        return viol("intact-bytes-reported", format!("{}: report {}..{} reaches into the intact tail at {}", name, e.a, e.b, ea));
    }
    Ok(())
}

fn p09(w: &mut World) -> Result<(), Viol> {
    // Every call of the run again, in another order, into buffers with other contents.
    let cx = w.cx;
    let mut order: Vec<usize> = (0..w.recs.len()).collect();
    let mut r = Rng::new(w.hash.0);
    for k in (1..order.len()).rev() {
        order.swap(k, r.below(k + 1));
    }
    let (mut arena, mut inlet) = (enc::Arena::default(), enc::Arena::default());
    for k in order {
        let c = &w.recs[k];
        let s = &w.st[c.st];
        for b in arena.bytes().iter_mut() {
            *b = 0x20 | (k as u8);
        }
        let input = if c.input.len() <= 4096 { inlet.place(&c.input, (k >> 3) & 63) } else { &c.input[..] };
        let again = enc::call(&cx.encs[s.spec.enc], s.spec.dir, input, c.win, c.end, &mut arena, k & 63);
        if again != c.res {
            return viol("not-repeatable", format!("node {} {:?} {}: input={} win={} end={}: first {} and, repeated later, {}", c.st, s.spec.dir, cx.encs[s.spec.enc].name, hex(&c.input), c.win, c.end, res_text(&c.res), res_text(&again)));
        }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn chars(b: &[u8]) -> usize {
    let mut p = 0;
    let mut n = 0;
    while p < b.len() {
        p += first_char(&b[p..]).1;
        n += 1;
    }
    n
}
