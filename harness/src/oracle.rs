//! A fast filter that picks histories worth judging: the same semantics over std String.
//! It never decides anything: what it picks is judged by the specification.
use crate::exec::Reply;
use crate::op::{Code, Op};
use crate::run::{Run, Step};
use Code::*;

pub struct Out { p: Vec<u8>, q: Vec<u8>, k: &'static str, v: Vec<i64> }

fn fit(w: &str, room: usize) -> &str {
    let mut k = room.min(w.len());
    while !w.is_char_boundary(k) { k -= 1; }
    &w[..k]
}
fn ints(b: &[u8]) -> Vec<i64> { b.iter().map(|x| *x as i64).collect() }
fn cmp(a: &[u8], b: &[u8]) -> i64 { match a.cmp(b) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 } }

pub fn outcomes(n: usize, a: &[u8], b: &[u8], op: &Op, rep: &Reply) -> Vec<Out> {
    let s = match std::str::from_utf8(a) { Ok(s) => s, Err(_) => return vec![] };
    let w: &str = std::str::from_utf8(&op.w).unwrap_or("");
    let out = |p: &[u8], q: &[u8], k: &'static str, v: Vec<i64>| Out { p: p.to_vec(), q: q.to_vec(), k, v };
    let ok = |p: String| vec![out(p.as_bytes(), b, "ok", vec![])];
    let fail = |ks: &[&'static str]| -> Vec<Out> { ks.iter().map(|k| out(a, b, k, vec![])).collect() };
    let all_or = |base: &str, w: &str, k: &'static str| if base.len() + w.len() <= n { ok(format!("{base}{w}")) } else { fail(&[k]) };
    let start = match op.r.0 { 0 => 0u128, 1 => op.r.1 as u128, _ => op.r.1 as u128 + 1 };
    let end = match op.r.2 { 0 => a.len() as u128, 1 => op.r.3 as u128 + 1, _ => op.r.3 as u128 };
    let len = a.len() as u128;
    let bd = |i: u128| i >= len || s.is_char_boundary(i as usize);
    let errs = |st: u128, en: u128| {
        let mut e = vec![];
        if st > en || en > len { e.push("oob"); }
        if !bd(st) || !bd(en) { e.push("utf8"); }
        e
    };
    let replace = |st: u128, en: u128, w: &str| {
        let mut e = errs(st, en);
        if w.len() > n || (st <= en && en <= len && len - (en - st) + w.len() as u128 > n as u128) { e.push("oob"); }
        if !e.is_empty() { return fail(&e); }
        ok(format!("{}{}{}", &s[..st as usize], w, &s[en as usize..]))
    };
    let pulled = || -> String {
        (0..rep.pulled).filter_map(|i| op.ws.get(i % op.ws.len().max(1))).map(|w| std::str::from_utf8(w).unwrap_or("")).collect()
    };
    let opt = |p: String, c: Option<char>| match c {
        Some(c) => vec![out(p.as_bytes(), b, "some", ints(c.to_string().as_bytes()))],
        None => vec![out(p.as_bytes(), b, "none", vec![])],
    };
    match op.code {
        New | Dflt | Clear | DDefault | DDrop => ok(String::new()),
        TryFromStr | Parse => all_or("", w, "oob"),
        TryFromIterator | TryFromChars => all_or("", &pulled(), "oob"),
        TryPush | TryPushStr => all_or(s, w, "oob"),
        WriteStr | WriteChar => all_or(s, w, "fmt"),
        WriteFmt => {
            let mut t = s.to_string();
            for x in &op.ws {
                if t.len() + x.len() > n { return vec![out(t.as_bytes(), b, "fmt", vec![])]; }
                t.push_str(std::str::from_utf8(x).unwrap_or(""));
            }
            ok(t)
        }
        FromStrTruncate | FromRef => ok(fit(w, n).to_string()),
        FromIteratorTruncate | CollectStrs | FromCharsTruncate | CollectChars => ok(fit(&pulled(), n).to_string()),
        PushStrTruncate | Add => ok(format!("{s}{}", fit(w, n - a.len()))),
        ExtendChars | ExtendCharRefs | ExtendStrs => ok(format!("{s}{}", fit(&pulled(), n - a.len()))),
        InsertStrTruncate => {
            let e = errs(op.ix as u128, op.ix as u128);
            if !e.is_empty() { return fail(&e); }
            ok(format!("{}{}{}", &s[..op.ix], fit(w, n - a.len()), &s[op.ix..]))
        }
        TryFromUtf16 | FromUtf16Truncate | FromUtf16Lossy => {
            let ds: Vec<Option<char>> = char::decode_utf16(op.u.iter().copied()).map(|c| c.ok()).collect();
            let bad = ds.iter().position(|c| c.is_none());
            let all: String = ds.iter().filter_map(|c| *c).collect();
            match (op.code, bad) {
                (FromUtf16Lossy, _) => ok(fit(&ds.iter().map(|c| c.unwrap_or('\u{fffd}')).collect::<String>(), n).to_string()),
                (TryFromUtf16, None) => all_or("", &all, "oob"),
                (TryFromUtf16, _) => if all.len() > n { fail(&["utf16", "oob"]) } else { fail(&["utf16"]) },
                (_, None) => ok(fit(&all, n).to_string()),
                (_, Some(k)) => {
                    let before: String = ds[..k].iter().filter_map(|c| *c).collect();
                    let mut o = fail(&["utf16"]);
                    if before.len() > n { o.extend(ok(fit(&before, n).to_string())); }
                    o
                }
            }
        }
        TryInsert | TryInsertStr => replace(op.ix as u128, op.ix as u128, w),
        ReplaceRange => replace(start, end, w),
        Remove => {
            if op.ix >= a.len() { return fail(&["oob"]); }
            if !s.is_char_boundary(op.ix) { return fail(&["utf8"]); }
            let mut t = s.to_string();
            let c = t.remove(op.ix);
            vec![out(t.as_bytes(), b, "ok", ints(c.to_string().as_bytes()))]
        }
        Truncate => {
            if op.ix >= a.len() { return ok(s.to_string()); }
            if s.is_char_boundary(op.ix) { ok(s[..op.ix].to_string()) } else { fail(&["utf8"]) }
        }
        SplitOff => {
            let e = errs(op.ix as u128, op.ix as u128);
            if !e.is_empty() { return fail(&e); }
            vec![out(&a[..op.ix], &a[op.ix..], "ok", vec![])]
        }
        Drain => {
            let e = errs(start, end);
            if !e.is_empty() { return fail(&e); }
            let (st, en) = (start as usize, end as usize);
            vec![out(&[&a[..st], &a[en..]].concat(), &a[st..en], "ok", vec![])]
        }
        Pop | DNextBack => { let mut t = s.to_string(); let c = t.pop(); opt(t, c) }
        DNext => { let c = s.chars().next(); opt(s[c.map_or(0, |c| c.len_utf8())..].to_string(), c) }
        DFind => { let mut it = s.chars(); let c = it.nth(op.ix); opt(it.as_str().to_string(), c) }
        DRfind => { let mut it = s.chars(); let c = it.nth_back(op.ix); opt(it.as_str().to_string(), c) }
        DPosition | DAny | DAll => {
            let mut it = s.chars();
            let hit = it.nth(op.ix).is_some();
            let v = match op.code { DPosition => if hit { op.ix as i64 + 1 } else { 0 }, DAny => hit as i64, _ => !hit as i64 };
            vec![out(it.as_str().as_bytes(), b, "ok", vec![v])]
        }
        DMax => opt(String::new(), s.chars().max()),
        DMin => opt(String::new(), s.chars().min()),
        DInto => vec![out(&[], a, "ok", vec![])],
        DExtend => { let t = std::str::from_utf8(b).unwrap_or(""); vec![out(&[], format!("{t}{}", fit(s, n - b.len())).as_bytes(), "ok", vec![])] }
        DNth => { let mut it = s.chars(); let c = it.nth(op.ix); opt(it.as_str().to_string(), c) }
        DNthBack => { let mut it = s.chars(); let c = it.nth_back(op.ix); opt(it.as_str().to_string(), c) }
        DLast => opt(String::new(), s.chars().last()),
        DCount => vec![out(&[], b, "ok", vec![s.chars().count() as i64])],
        DCollect | DFold | DFor => vec![out(&[], b, "ok", ints(a))],
        DRev | DRfold => vec![out(&[], b, "ok", ints(s.chars().rev().collect::<String>().as_bytes()))],
        Trim => ok(s.trim().to_string()),
        Retain => {
            let mut k = 0;
            ok(s.chars().filter(|_| { k += 1; op.bs.get(k - 1) == Some(&1) }).collect())
        }
        UpAsMutStr | UpDerefMut | UpAsMut | UpBorrowMut => ok(s.to_ascii_uppercase()),
        LoAsMutStr | LoDerefMut | LoAsMut | LoBorrowMut => ok(s.to_ascii_lowercase()),
        Index | IndexMutUpper | IndexMutLower if op.r.2 == 3 => {
            let at = |i: u128| i <= len && bd(i);
            let (x, y) = (at(end), at(end + 1));
            let mut o = if x || y { vec![out(a, b, "ok", vec![])] } else { vec![] };
            if !x || !y { o.extend(fail(&["panic"])); }
            o
        }
        Index | IndexMutUpper | IndexMutLower => {
            if !errs(start, end).is_empty() { return fail(&["panic"]); }
            let (st, en) = (start as usize, end as usize);
            let mid = match op.code { Index => s[st..en].to_string(), IndexMutUpper => s[st..en].to_ascii_uppercase(), _ => s[st..en].to_ascii_lowercase() };
            vec![out(format!("{}{}{}", &s[..st], mid, &s[en..]).as_bytes(), b, "ok", ints(&a[st..en]))]
        }
        Copy | Clone | CloneFrom | DCopy | DClone => vec![out(a, a, "ok", vec![])],
        Swap => vec![out(b, a, "ok", vec![])],
        Cmp | DCmp => {
            let c = cmp(a, b);
            let i = |x: bool| x as i64;
            vec![out(a, b, "ok", vec![i(c == 1), i(c != 1), i(c == 0), i(c <= 1), i(c == 2), i(c >= 1), c, c])]
        }
        Max => vec![out(a, b, "ok", ints(a.max(b)))],
        Min => vec![out(a, b, "ok", ints(a.min(b)))],
        EqStr => { let e = (a == &op.w[..]) as i64; vec![out(a, b, "ok", vec![e, 1 - e, e, 1 - e])] }
        Display | DisplaySpec => vec![out(a, b, "ok", ints(a))],
        Debug => vec![out(a, b, "ok", vec![1, 1])],
        DisplaySink => if a.len() <= op.ix { vec![out(a, b, "ok", ints(a))] } else { fail(&["fmt"]) },
        Ser => vec![out(a, b, "str", ints(a))],
        De => match std::str::from_utf8(&op.w) { Ok(w) => ok(fit(w, n).to_string()), Err(_) => fail(&["err"]) },
        DeOther => fail(&["err"]),
        FromArray | Noop | Hash | DHash | DSizeHint | MInsert | MGet | MRemove | MIter | WeirdReplace | WeirdPush | WeirdInsert
        | WeirdFrom | WeirdRange | WeirdDrain => ok(s.to_string()),
    }
}

/// The maps of a history, by text.
#[derive(Default)]
pub struct Maps(std::collections::BTreeMap<Vec<u8>, i64>);
impl Maps {
    pub fn clear(&mut self) { self.0.clear(); }
    fn ok(&mut self, a: &[u8], op: &Op, rep: &Reply) -> bool {
        let want = match op.code {
            MInsert => self.0.insert(a.to_vec(), op.ix as i64).map_or(0, |x| x + 1),
            MGet => self.0.get(&op.w).map_or(0, |x| x + 1),
            MRemove => self.0.remove(&op.w).map_or(0, |x| x + 1),
            MIter => return rep.ks.iter().eq(self.0.keys()) && rep.v == [self.0.len() as i64; 2],
            _ => return true,
        };
        rep.v == [want; 2]
    }
}

/// Nothing about this step looks odd.
pub fn plain(run: &Run, a: &[u8], b: &[u8], op: &Op, st: &Step, maps: &mut Maps) -> bool {
    let n = run.n;
    let rep = &st.rep;
    if !run.sane || !st.viewed() || !st.guards || !rep.args_ok || !st.x.is_empty() || st.p.bytes.len() > n { return false; }
    let q: &[u8] = st.q.as_ref().map_or(&[], |q| &q.bytes);
    if q.len() > n { return false; }
    let index = matches!(op.code, Index | IndexMutUpper | IndexMutLower);
    if rep.k == "panic" && !index { return false; }
    if rep.k == "hang" { return false; }
    if rep.k == "cpanic" || rep.cp {
        if rep.k != "cpanic" { return false; }
        if op.code.weird() { return q == b; }
        return q == b && panic_leaves(n, a, op, rep, &st.p.bytes);
    }
    if rep.k != "panic" && rep.alloc != 0 { return false; }
    if !maps.ok(a, op, rep) { return false; }
    match op.code {
        WeirdReplace | WeirdPush | WeirdInsert | WeirdFrom | WeirdRange | WeirdDrain => return weird(a, b, op, rep, &st.p.bytes, q),
        MInsert | MGet | MRemove | MIter => return rep.k == "ok" && st.p.bytes == a,
        Hash | DHash => if !hashes_agree(op.code, &rep.h, a == b) { return false; },
        Retain => {
            let s = String::from_utf8_lossy(a);
            if !rep.calls.iter().map(|c| &c[..]).eq(s.chars().map(|c| c.to_string().into_bytes()).collect::<Vec<_>>().iter().map(|c| &c[..])) { return false; }
        }
        DSizeHint => {
            let k = String::from_utf8_lossy(a).chars().count() as i64;
            let h = &rep.h[0];
            if h[0] > k || (h[1] == 1 && h[2] < k) { return false; }
        }
        _ => {}
    }
    if op.code.is_iter() {
        let item = |i: usize| op.ws[i % op.ws.len()].len();
        let all: usize = (0..rep.pulled).map(item).sum();
        let front: usize = if rep.pulled == 0 { 0 } else { all - item(rep.pulled - 1) };
        if front > n { return false; }
        let fallible = matches!(op.code, TryFromIterator | TryFromChars);
        if fallible && rep.k == "ok" && !rep.ended { return false; }
        if fallible && rep.k == "oob" && all <= n { return false; }
        let base = if matches!(op.code, ExtendChars | ExtendCharRefs | ExtendStrs) { a.len() } else { 0 };
        if !fallible && !rep.ended && base + all < n { return false; }
    }
    outcomes(n, a, b, op, rep).iter().any(|o| o.p == st.p.bytes && o.q == q && o.k == rep.k && o.v == rep.v)
}

/// The same notion as PanicLeaves of ArrayString.tla.
fn panic_leaves(n: usize, a: &[u8], op: &Op, rep: &Reply, p: &[u8]) -> bool {
    match op.code {
        Retain => {
            let seen: usize = rep.calls.iter().map(|c| c.len()).sum();
            let s = String::from_utf8_lossy(a);
            let Some(front) = s.get(..seen) else { return false };
            if !rep.calls.iter().map(|c| &c[..]).eq(front.chars().map(|c| c.to_string().into_bytes()).collect::<Vec<_>>().iter().map(|c| &c[..])) { return false; }
            let Some(kept) = p.strip_suffix(&a[seen..]) else { return false };
            let Ok(kept) = std::str::from_utf8(kept) else { return false };
            let mut calls = rep.calls.iter();
            kept.chars().all(|c| calls.any(|x| x[..] == *c.to_string().as_bytes()))
        }
        ExtendChars | ExtendCharRefs | ExtendStrs => {
            let all: Vec<u8> = (0..rep.pulled).flat_map(|i| op.ws[i % op.ws.len()].iter().copied()).collect();
            p.len() <= n && p.starts_with(a) && all.starts_with(&p[a.len()..]) && std::str::from_utf8(p).is_ok()
        }
        _ => p == a,
    }
}

/// A string hashes like the str with its text, equal values hash equally.
pub fn hashes_agree(code: Code, h: &[Vec<i64>], same: bool) -> bool {
    h.len() == 6 && (code == Code::DHash || (h[0] == h[1] && h[2] == h[3] && h[4] == h[5])) && (!same || h[0] == h[2])
}

/// The range denoted one part of the text throughout (see WeirdOK).
fn weird(a: &[u8], b: &[u8], op: &Op, rep: &Reply, p: &[u8], q: &[u8]) -> bool {
    if rep.k != "ok" { return p == a && q == b; }
    match op.code {
        WeirdDrain => p.len() + q.len() == a.len()
            && (0..=p.len()).any(|i| p[..i] == a[..i] && q == &a[i..i + q.len()] && p[i..] == a[i + q.len()..]),
        WeirdRange => {
            let (w, k) = (&op.w, (a.len() + op.w.len()).wrapping_sub(p.len()));
            k <= a.len() && (0..=a.len() - k).any(|i| i + w.len() <= p.len() && p[..i] == a[..i] && p[i..i + w.len()] == **w && p[i + w.len()..] == a[i + k..])
        }
        _ => true,
    }
}
