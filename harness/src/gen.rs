//! Random histories, weighted towards the edges: character widths, fullness, boundaries, index arithmetic.
use crate::op::{Code, Op};
use crate::rng::Rng;
use crate::run::Run;
use Code::*;

pub use crate::gen_text::{a_char, text, FOUR, ONE, THREE, TWO};

fn length(r: &mut Rng, n: usize, len: usize) -> usize {
    let room = n - len.min(n);
    let around = |r: &mut Rng, x: usize| (x + r.below(9)).saturating_sub(4);
    match r.below(16) {
        0 => 0,
        1 => 1,
        2..=4 => r.range(0, 4),
        5..=7 => around(r, room),
        8..=9 => around(r, n),
        10 => r.range(0, n),
        11 => r.range(0, room),
        12 => room / 2,
        13 => 256 + r.below(n + 2),
        14 => if r.chance(25) { 512 + r.below(room + 2) } else { around(r, 256) },
        _ => r.range(0, 8),
    }
}

fn boundaries(b: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..b.len()).filter(|i| b[*i] & 0xC0 != 0x80).collect();
    v.push(b.len());
    v
}

fn position(r: &mut Rng, b: &[u8], n: usize) -> usize {
    let len = b.len();
    match r.below(20) {
        0..=8 => *r.pick(&boundaries(b)),
        9..=11 => r.range(0, len),
        12 => len,
        13 => len + 1,
        14 => r.range(0, len + 4),
        15 => n + r.below(3),
        16 => 254 + r.below(5),
        17 => 256 + r.range(0, len),
        18 => match r.below(6) { 0 => 512 + r.range(0, len), 1 => 65536 + r.range(0, len), 2 => (1usize << 32) + r.range(0, len),
                                 3 => 128 + r.range(0, len), 4 => (1usize << 31) + r.range(0, len), _ => (1usize << 63) + r.range(0, len) },
        _ => match r.below(6) { 0 => usize::MAX, 1 => usize::MAX - 1, 2 => usize::MAX - r.below(260), 3 => isize::MAX as usize,
                                4 => isize::MAX as usize + 1, _ => u32::MAX as usize },
    }
}

fn range(r: &mut Rng, b: &[u8], n: usize) -> (u8, usize, u8, usize) {
    let sk = *r.pick(&[1u8, 1, 1, 1, 0, 2]);
    let ek = *r.pick(&[2u8, 2, 2, 1, 1, 0]);
    let (mut s, mut e) = if r.chance(70) {
        let bs = boundaries(b);
        let (x, y) = (*r.pick(&bs), *r.pick(&bs));
        let y = if r.chance(15) { x } else { y };
        if r.chance(95) { (x.min(y), x.max(y)) } else { (x, y) }
    } else { (position(r, b, n), position(r, b, n)) };
    if r.chance(2) { return (1, s, 3, s); }
    // the bound that denotes the position chosen, most of the time
    if sk == 2 && s > 0 && r.chance(80) { s -= 1; }
    if ek == 1 && e > 0 && r.chance(80) { e -= 1; }
    (sk, if sk == 0 { 0 } else { s }, ek, if ek == 0 { 0 } else { e })
}

fn index_range(r: &mut Rng, b: &[u8]) -> (u8, usize, u8, usize) {
    let sk = *r.pick(&[1u8, 1, 0]);
    let ek = *r.pick(&[2u8, 1, 0]);
    let bs = boundaries(b);
    let (mut s, mut e) = (*r.pick(&bs), *r.pick(&bs));
    if s > e && r.chance(90) { std::mem::swap(&mut s, &mut e); }
    if r.chance(12) { s = r.below(256); }
    if r.chance(12) { e = r.below(256); }
    if r.chance(5) { e = 255; }
    if r.chance(5) { e = b.len() + 1; }
    if r.chance(4) { return (1, s.min(255), 3, s.min(255)); }
    if ek == 1 && r.chance(85) { e = e.saturating_sub(1); }
    (sk, if sk == 0 { 0 } else { s.min(255) }, ek, if ek == 0 { 0 } else { e.min(255) })
}

fn units(r: &mut Rng, n: usize) -> Vec<u16> {
    let target = match r.below(6) { 0 => r.below(4), 1..=2 => (n + r.below(9)).saturating_sub(4), 3 => r.below(n + 1), 4 => 250 + r.below(12), _ => r.below(12) };
    let bad = r.chance(50);
    let mut out = vec![];
    let mut bytes = 0;
    let style = r.below(5);
    while bytes < target {
        let c = match style { 0 => *r.pick(ONE), 1 => *r.pick(TWO), 2 => *r.pick(THREE), 3 => *r.pick(FOUR), _ => a_char(r) };
        bytes += c.len();
        out.extend(c.encode_utf16());
    }
    if bad {
        for _ in 0..r.range(1, 3) {
            let at = if r.chance(30) { out.len() } else if r.chance(20) { 0 } else { r.range(0, out.len()) };
            let x = *r.pick(&[0xD800u16, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00]);
            if r.chance(50) && at < out.len() { out[at] = x } else { out.insert(at, x) }
        }
    }
    if r.chance(10) { let k = r.below(3); for _ in 0..k { out.push(r.next() as u16); } }
    out
}

fn items(r: &mut Rng, op: &mut Op, n: usize, len: usize, focus: &str) {
    let chars = op.code.char_items();
    let target = if r.chance(50) { length(r, n, len) } else { length(r, n, 0) };
    let target = target.min(700);
    let mut total = 0;
    while total < target && op.ws.len() < 400 {
        let w = if chars { a_char(r).to_string() } else if r.chance(8) { String::new() }
                else if r.chance(15) { let l = length(r, n, len).min(600); text(r, l) } else { let l = r.range(1, 9); text(r, l) };
        total += w.len();
        op.ws.push(w.into_bytes());
    }
    if chars && total >= target && r.chance(50) {
        // land exactly on the target
        while total > target { if let Some(w) = op.ws.pop() { total -= w.len(); } else { break } }
        while total < target { op.ws.push(b"k".to_vec()); total += 1; }
        for _ in 0..r.below(4) { op.ws.push(a_char(r).as_bytes().to_vec()); }
    }
    if focus == "C18" || r.chance(20) { op.hint = r.below(5) as u8; }
    if r.chance(if focus == "C18" { 35 } else { 6 }) && op.ws.iter().any(|w| !w.is_empty()) {
        op.ws.truncate(8);
        if op.ws.iter().all(|w| w.is_empty()) { op.ws.push(b"x".to_vec()); }
        op.endless = true;
    }
    let pct = if focus == "C19" { 60 } else { 2 };
    if r.chance(pct) { op.panic_at = if r.chance(60) { r.below(op.ws.len() + 1) } else { r.below(6) }; }
}

/// A text that relates to another one: equal, prefix, extension, one character changed, case changed.
fn relative(r: &mut Rng, b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).into_owned();
    let mut cs: Vec<char> = s.chars().collect();
    match r.below(7) {
        0 | 1 => {}
        2 => { let k = r.below(cs.len() + 1); cs.truncate(k); }
        3 => cs.extend(a_char(r).chars()),
        4 => if !cs.is_empty() { let k = r.below(cs.len()); cs[k] = a_char(r).chars().next().unwrap(); },
        5 => { cs.pop(); }
        _ => if !cs.is_empty() { let k = r.below(cs.len()); cs.insert(k, a_char(r).chars().next().unwrap()); },
    }
    cs.into_iter().collect()
}

pub fn next_op(r: &mut Rng, run: &Run, code: Code, focus: &str) -> Op {
    let n = run.n;
    let mut op = Op::new(code);
    let ns = run.s.len();
    let nd = run.d.len();
    op.i = if code.on_drain() { r.below(nd) } else { *r.pick(&[0, 0, 1, 2]) };
    op.j = match code.second() { Some(true) => r.below(nd), Some(false) => r.below(ns), None => 0 };
    if matches!(code, SplitOff | Swap | CloneFrom) && op.j == op.i { op.j = (op.i + 1) % ns; }
    let cur: Vec<u8> = run.seen(code.on_drain(), op.i).to_vec();
    let len = cur.len();
    match code {
        TryPush | WriteChar | TryInsert => op.w = a_char(r).as_bytes().to_vec(),
        EqStr | MGet | MRemove => {
            let k = r.below(ns);
            op.w = if r.chance(75) { relative(r, &run.s[k]).into_bytes() } else { let l = length(r, n, 0); text(r, l).into_bytes() };
        }
        TryFromStr | Parse | FromStrTruncate | FromRef => { let l = length(r, n, 0); op.w = text(r, l).into_bytes(); }
        TryPushStr | WriteStr | PushStrTruncate | Add | InsertStrTruncate | TryInsertStr | ReplaceRange | WeirdPush | WeirdInsert
        | WeirdReplace | WeirdFrom | WeirdRange => {
            let l = length(r, n, len);
            op.w = text(r, l).into_bytes();
        }
        _ => {}
    }
    match code {
        InsertStrTruncate | TryInsert | TryInsertStr | Remove | Truncate | SplitOff | WeirdInsert => op.ix = position(r, &cur, n),
        DNth | DNthBack | DFind | DRfind | DPosition | DAny | DAll => {
            let k = String::from_utf8_lossy(&cur).chars().count();
            op.ix = if r.chance(70) { r.below(k + 1) } else if r.chance(50) { r.below(4) } else { position(r, &cur, n) };
        }
        DisplaySpec => {
            let k = String::from_utf8_lossy(&cur).chars().count();
            let w = match r.below(3) { 0 => 0, 1 => k + r.below(4), _ => r.below(2 * k + 3) };
            let p = if r.chance(60) { Some(r.below(k + 2)) } else { None };
            op.r = (r.below(3) as u8, w, p.is_some() as u8, p.unwrap_or(0));
        }
        DisplaySink => op.ix = if r.chance(60) { len.saturating_sub(1) + r.below(3) } else { r.below(n + 2) },
        MInsert => op.ix = 1 + r.below(1000),
        _ => {}
    }
    match code {
        ReplaceRange | WeirdReplace => {
            op.r = range(r, &cur, n);
            op.fm = r.below(2) as u8;
            if r.chance(35) {
                // a replacement that just fits, or just does not, the room the range leaves
                let e = match op.r.2 { 0 => len, 1 => op.r.3.saturating_add(1), _ => op.r.3 };
                let s = match op.r.0 { 0 => 0, 1 => op.r.1, _ => op.r.1.saturating_add(1) };
                if s <= e && e <= len {
                    let room = n - (len - (e - s)).min(n);
                    let l = (room + r.below(5)).saturating_sub(2);
                    op.w = text(r, l).into_bytes();
                }
            } else if r.chance(15) { op.w.clear(); }
        }
        Drain => { op.r = range(r, &cur, n); op.fm = r.below(2) as u8; }
        Index | IndexMutUpper | IndexMutLower => op.r = index_range(r, &cur),
        TryFromUtf16 | FromUtf16Truncate | FromUtf16Lossy => op.u = units(r, n),
        Retain => {
            for _ in 0..r.range(1, 9) { op.bs.push(r.below(2) as u8); }
            if r.chance(10) { op.bs = vec![0]; }
            if r.chance(10) { op.bs = vec![1]; }
            if r.chance(if focus == "C19" { 70 } else { 3 }) { op.panic_at = r.below(String::from_utf8_lossy(&cur).chars().count() + 2); }
        }
        WriteFmt => {
            for _ in 0..r.below(4) {
                let l = if r.chance(40) { length(r, n, len) } else { r.range(0, 6) };
                op.ws.push(text(r, l).into_bytes());
            }
        }
        De => {
            let l = length(r, n, 0);
            op.w = text(r, l).into_bytes();
            #[cfg(feature = "serde")]
            {
                op.fm = r.below(crate::serdes::FORMS as usize) as u8;
                if op.fm == 11 && r.chance(70) { op.w = a_char(r).as_bytes().to_vec(); }
                if crate::serdes::BYTE_FORMS.contains(&op.fm) && r.chance(30) {
                    let at = r.below(op.w.len() + 1);
                    match r.below(3) {
                        0 => op.w.insert(at, *r.pick(&[0xFF, 0x80, 0xC0, 0xED, 0xF5])),
                        1 => { op.w.truncate(at); op.w.push(0xE2); }
                        _ => if at < op.w.len() { op.w[at] ^= 0x80; },
                    }
                    // a quote or control byte produced by accident would end the JSON text early
                    if op.fm >= 6 { op.w.retain(|b| *b >= 0x20 && *b != b'"' && *b != b'\\'); }
                }
            }
        }
        DeOther => op.fm = r.below(10) as u8,
        _ => {}
    }
    if matches!(code, WeirdReplace | WeirdPush | WeirdInsert | WeirdFrom) {
        let l = if r.chance(50) { length(r, n, len) } else { r.below(6) };
        op.w2 = text(r, l).into_bytes();
        if op.w2.is_empty() { op.w2.push(b'y'); }
        op.fm = r.below(4) as u8;
        op.hint = r.below(2) as u8;
        if code == WeirdReplace { op.r = range(r, &cur, n); }
    }
    if matches!(code, WeirdRange | WeirdDrain) {
        op.r = range(r, &cur, n);
        op.r2 = range(r, &cur, n);
        let small = |x: &mut usize| *x = (*x).min(70_000);
        small(&mut op.r2.1);
        small(&mut op.r2.3);
        op.fm = r.below(5) as u8;
    }
    if code.weird() && r.chance(if focus == "C19" { 50 } else { 4 }) { op.panic_at = r.below(4); }
    if (code.takes_text() || code.units()) && r.chance(1) {
        // lengths that would look small if they were cut to 16 or 32 bits
        let x = r.below(n + 2);
        let huge = !cfg!(debug_assertions) && !code.units() && r.chance(5);
        op.enlarge(if huge { (1usize << 32) + x } else { 65536 * (1 + r.below(2)) + x });
    }
    if op.code.is_iter() { items(r, &mut op, n, len, focus); }
    if op.code.on_drain() || matches!(code, Max | Min) { op.fm = r.below(2) as u8; }
    op
}

const BUILD: &[Code] = &[TryFromStr, Parse, TryFromIterator, TryFromChars, TryPush, TryPushStr, WriteStr, WriteChar, WriteFmt];
const TRUNC: &[Code] = &[FromStrTruncate, FromRef, FromIteratorTruncate, CollectStrs, FromCharsTruncate, CollectChars,
    PushStrTruncate, Add, ExtendChars, ExtendCharRefs, ExtendStrs, InsertStrTruncate];
const EDIT: &[Code] = &[TryInsert, TryInsertStr, InsertStrTruncate, ReplaceRange, ReplaceRange, Remove, Truncate, SplitOff, Drain];
const DRAIN: &[Code] = &[Drain, Drain, DNext, DNext, DNextBack, DNextBack, DNth, DNthBack, DCount, DLast, DCollect, DFold, DFor, DRev,
    DFind, DRfind, DPosition, DAny, DAll, DMax, DMin, DInto, DExtend, DRfold, DDrop, DDefault, DCopy, DClone, DCmp, DHash, DSizeHint];
const SHRINK: &[Code] = &[Pop, Trim, Clear, Retain, Pop, Trim, Retain];
const UTF16: &[Code] = &[TryFromUtf16, FromUtf16Truncate, FromUtf16Lossy];
const COMPARE: &[Code] = &[Cmp, Cmp, Max, Min, EqStr, Hash, DCmp, DHash, MInsert, MInsert, MGet, MRemove, MIter];
const VIEWS: &[Code] = &[UpAsMutStr, UpDerefMut, UpAsMut, UpBorrowMut, LoAsMutStr, LoDerefMut, LoAsMut, LoBorrowMut, Index, Index, Index,
    IndexMutUpper, IndexMutUpper, IndexMutLower, IndexMutLower];
const VALUE: &[Code] = &[Copy, Clone, CloneFrom, Swap, Noop, DCopy, DClone];
const SERDE: &[Code] = &[Ser, De, De, De, DeOther];
const PRINT: &[Code] = &[Display, DisplaySink, DisplaySpec, Debug, WriteStr, WriteChar, WriteFmt, WriteFmt];
const WEIRD: &[Code] = &[WeirdReplace, WeirdPush, WeirdInsert, WeirdFrom, WeirdRange, WeirdDrain];
const ITER: &[Code] = &[TryFromIterator, TryFromChars, FromIteratorTruncate, CollectStrs, FromCharsTruncate, CollectChars,
    ExtendChars, ExtendCharRefs, ExtendStrs];
/// What moves a history through interesting states
const MOVERS: &[Code] = &[FromStrTruncate, TryPushStr, PushStrTruncate, TryPush, ReplaceRange, ReplaceRange, TryInsertStr, Remove, Pop,
    Truncate, Truncate, Drain, DNext, DNextBack, Copy, SplitOff, Clear, Trim, Retain, InsertStrTruncate, ExtendChars, WriteFmt,
    UpAsMutStr, IndexMutLower, Noop, New, Dflt, FromUtf16Lossy, FromArray];

pub fn focus_ops(focus: &str) -> Vec<Code> {
    let parts: &[&[Code]] = match focus {
        "C03" => &[BUILD],
        "C04" => &[TRUNC],
        "C05" => &[EDIT, EDIT, &[WeirdRange]],
        "C06" => &[DRAIN, DRAIN, &[WeirdDrain; 3]],
        "C07" => &[SHRINK],
        "C08" => &[UTF16],
        "C09" => &[COMPARE],
        "C10" => &[BUILD, TRUNC, EDIT, DRAIN, SHRINK, UTF16, WEIRD],
        "C11" => &[VIEWS],
        "C12" => &[VALUE, EDIT, VIEWS, DRAIN, WEIRD],
        "C13" => &[SERDE],
        "C16" => &[BUILD, TRUNC, EDIT, SHRINK, UTF16, VIEWS, &[FromArray, FromArray, Cmp, Max, Min, EqStr, Hash, Display, DisplaySink, DisplaySpec, Debug, MInsert, MGet]],
        "C18" => &[ITER],
        "C19" => &[ITER, &[Retain; 6], WEIRD],
        "C21" => &[PRINT],
        "C01" => &[BUILD, TRUNC, EDIT, SHRINK, UTF16, DRAIN, WEIRD],
        _ => &[BUILD, TRUNC, EDIT, DRAIN, SHRINK, UTF16, COMPARE, VIEWS, VALUE, PRINT],
    };
    parts.iter().flat_map(|x| x.iter().copied()).collect()
}

/// The idx-th scalar value.
pub fn scalar(idx: u64) -> Option<char> { char::from_u32(if idx < 0xD800 { idx as u32 } else { idx as u32 + 0x800 }) }

/// A fixed history around one character, for a capacity of 16 bytes.
pub fn script(c: char) -> Vec<Op> {
    let t = c.to_string();
    let k = t.len();
    let w = |code, s: &str| { let mut o = Op::new(code); o.w = s.as_bytes().to_vec(); o };
    let ix = |code, ix| { let mut o = Op::new(code); o.ix = ix; o };
    let items = |code, n: usize| { let mut o = Op::new(code); o.ws = vec![t.as_bytes().to_vec(); n]; o };
    let units = |code, pre: &[u16], post: &[u16]| {
        let mut o = Op::new(code);
        o.u = pre.to_vec();
        let mut b = [0; 2];
        o.u.extend_from_slice(c.encode_utf16(&mut b));
        o.u.extend_from_slice(post);
        o
    };
    let twice: Vec<u16> = c.encode_utf16(&mut [0; 2]).to_vec();
    let range = |code, r| { let mut o = Op::new(code); o.r = r; o };
    let drained = |code| Op::new(code);
    let second = |mut o: Op| { o.j = 1; o };
    vec![
        w(FromStrTruncate, &format!("{t}a{t}")), drained(Trim),
        w(FromStrTruncate, &format!(" {t} ")), drained(Trim),
        w(TryFromStr, &t), w(TryPush, &t), { let mut o = w(TryInsert, &t); o.ix = k; o }, drained(Pop),
        { let mut o = Op::new(Retain); o.bs = vec![0, 1]; o }, ix(Truncate, k.saturating_sub(1)), ix(Remove, 0),
        w(WriteChar, &t), items(ExtendChars, 20), second(ix(SplitOff, 8 / k * k)),
        items(TryFromChars, 16 / k), items(CollectChars, 16 / k + 1), w(Add, &t),
        w(FromStrTruncate, &format!("{}{t}", "x".repeat(17 - k))), w(PushStrTruncate, &t),
        units(TryFromUtf16, &[], &[0x61]), units(FromUtf16Truncate, &[0x7A], &[]), units(FromUtf16Lossy, &[0xD801], &[0xDC01]),
        w(FromStrTruncate, &format!("{t}b{t}")), drained(Display), drained(UpAsMutStr), drained(LoDerefMut),
        w(FromStrTruncate, &format!("b{t}{t}b")), drained(Display), drained(Debug), drained(DisplaySink), w(WriteStr, &format!("{t}{t}")),
        units(TryFromUtf16, &twice, &[]), w(FromStrTruncate, &format!("{t}b{t}")),
        second(Op::new(Copy)), { let mut o = Op::new(TryPush); o.i = 1; o.w = t.as_bytes().to_vec(); o }, second(Op::new(Cmp)), second(Op::new(Hash)),
        w(EqStr, &format!("{t}b{t}")), range(Index, (1, k, 0, 0)), range(ReplaceRange, (1, k, 2, k + 1)),
        #[cfg(feature = "serde")]
        Op::new(Ser),
        range(Drain, (0, 0, 0, 0)), drained(DSizeHint), drained(DNext), drained(DNextBack), drained(DNext),
        #[cfg(feature = "serde")]
        { let mut o = w(De, &t); o.fm = 11; o },
        #[cfg(feature = "serde")]
        { let mut o = w(De, &t); o.fm = 10; o },
    ]
}

/// The next call of a history.
pub fn choose(r: &mut Rng, run: &Run, ops: &[Code], focus: &str) -> Op {
    let code = if r.chance(60) { *r.pick(ops) } else { *r.pick(MOVERS) };
    next_op(r, run, code, focus)
}
