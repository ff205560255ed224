// Included once per group of capacities, so that the groups are compiled in parallel.

/// A population of strings, draining iterators and maps, all of one type.
struct Pop<S: Api> {
    s: Vec<Box<Guarded<S>>>,
    d: Vec<Box<Guarded<S::D>>>,
    hm: HashMap<S, i64>,
    bm: BTreeMap<S, i64>,
}

impl<S: Api> Pop<S> {
    fn new() -> Self {
        Pop { s: (0..NS).map(|_| Guarded::new(S::x_new())).collect(),
              d: (0..ND).map(|_| Guarded::new(S::D::default())).collect(),
              hm: HashMap::new(), bm: BTreeMap::new() }
    }
}

impl<S: Api> World for Pop<S> {
    fn cap(&self) -> usize { S::n() }
    fn reset(&mut self) { *self = Self::new(); }

    fn bytes(&self, drain: bool, i: usize, out: &mut Vec<u8>) -> bool {
        out.clear();
        catch_unwind(AssertUnwindSafe(|| {
            if drain { out.extend_from_slice(self.d[i].v.x_as_str().as_bytes()) }
            else { out.extend_from_slice(AsRef::<[u8]>::as_ref(&self.s[i].v)) }
        })).is_ok()
    }

    fn guards_ok(&self) -> bool { self.s.iter().all(|g| g.ok() && g.v.x_intact()) && self.d.iter().all(|g| g.ok() && g.v.x_intact()) }

    fn observe(&self, drain: bool, i: usize, rt: &Rt) -> Obs {
        let mut bytes = Vec::new();
        let mut views = Vec::new();
        let mut st = None;
        if !self.bytes(drain, i, &mut bytes) { views.push(("bytes-panic", vec![])); }
        let wf = std::str::from_utf8(&bytes).is_ok();
        if wf && bytes.len() <= S::n() {
            let mut buf = rt.buf.borrow_mut();
            buf.clear();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut look = |name, b: &[u8]| if b != &bytes[..] { views.push((name, b.to_vec())); };
                if drain {
                    let d = &self.d[i].v;
                    look("clone", d.clone().x_as_str().as_bytes());
                    let _ = write!(buf, "{:?}", d);
                } else {
                    let s = &self.s[i].v;
                    look("as_str", s.x_as_str().as_bytes());
                    look("as_ref_str", AsRef::<str>::as_ref(s).as_bytes());
                    look("deref", s.x_deref_str().as_bytes());
                    look("borrow", Borrow::<str>::borrow(s).as_bytes());
                    let _ = write!(buf, "{}", s);
                    look("display", buf.as_bytes());
                    buf.clear();
                    buf.extend(s.x_deref_str().chars());
                    look("chars", buf.as_bytes());
                    buf.clear();
                    let _ = write!(buf, "{:?}", s);
                    let (l, e, c) = (s.x_len(), s.x_is_empty(), S::x_capacity());
                    if l != bytes.len() || e != bytes.is_empty() || c != S::n() { st = Some((l, e, c)); }
                }
            }));
            if r.is_err() { views.push(("view-panic", vec![])); }
        } else if !drain {
            // length and capacity can be asked even of a damaged string
            let s = &self.s[i].v;
            let (l, c) = (s.x_len(), S::x_capacity());
            if l != bytes.len() || c != S::n() { st = Some((l, l == 0, c)); }
        }
        Obs { bytes, wf, views, st }
    }

    fn exec(&mut self, op: &mut Op, rt: &Rt) -> Reply {
        rt.reset();
        rt.nest.set(Some(nested::<S>));
        let mut rep = Reply { k: "ok", args_ok: true, ..Default::default() };
        // the caller's arguments, laid out before the call
        let mut chars: Vec<char> = Vec::new();
        let mut strs: Vec<&str> = Vec::new();
        let ws_copy = op.ws.clone();
        let w_copy = op.w.clone();
        let u_copy = op.u.clone();
        if op.code.char_items() {
            chars = ws_copy.iter().filter_map(|w| std::str::from_utf8(w).ok().and_then(|s| s.chars().next())).collect();
        } else if op.code.is_iter() || op.code == Code::WriteFmt {
            strs = ws_copy.iter().map(|w| std::str::from_utf8(w).expect("harness: item")).collect();
        }
        // library code also runs outside of `lib!` (assigning, looking at results): damage may show there
        if catch_unwind(AssertUnwindSafe(|| self.run(op, rt, &mut rep, &w_copy, &chars, &strs, &u_copy))).is_err() {
            alloc::arm(false);
            rep.k = "panic";
        }
        rep.args_ok = w_copy == op.w && u_copy == op.u && ws_copy == op.ws && rt.nested_ok.get();
        rep.pulled = rt.pulled.get();
        rep.ended = rt.ended.get();
        rep.cp = rt.cp.get();
        rep.alloc = alloc::count();
        if matches!(op.code, Code::MInsert | Code::MGet | Code::MRemove | Code::MIter | Code::Ser | Code::De | Code::DeOther) {
            rep.alloc = 0; // the map's or the format's allocations, not the library's
        }
        if op.code == Code::Retain {
            let calls = rt.calls.borrow();
            rep.calls = calls.iter().map(|c| c.to_string().into_bytes()).collect();
            if rep.k != "cpanic" {
                let pat = op.bs.clone();
                op.bs = (0..calls.len()).map(|n| if pat.is_empty() { 1 } else { pat[n % pat.len()] }).collect();
            }
        }
        rep
    }
}

impl<S: Api> Pop<S> {
    #[allow(clippy::too_many_arguments)]
    fn run(&mut self, op: &Op, rt: &Rt, rep: &mut Reply, w: &[u8], chars: &[char], strs: &[&str], u: &[u16]) {
        use Code::*;
        let (i, j) = (op.i, op.j);
        let text = if op.code == De { "" } else if op.big > 0 && !op.code.units() { unsafe { std::str::from_utf8_unchecked(crate::op::zeros(op.big)) } }
                   else { std::str::from_utf8(w).expect("harness: text") };
        let u = if op.big > 0 && op.code.units() { crate::op::zero_units(op.big) } else { u };
        let ch = text.chars().next().unwrap_or('?');
        macro_rules! build { // constructor: assign the slot only on success
            ($e:expr) => { { let r = lib!(rt, rep, $e); self.s[i].v = r; } };
        }
        macro_rules! try_build {
            ($e:expr) => { match lib!(rt, rep, $e) { Ok(r) => self.s[i].v = r, Err(e) => rep.k = e.kind() } };
        }
        macro_rules! unit {
            ($e:expr) => { match lib!(rt, rep, $e) { Ok(()) => {}, Err(e) => rep.k = e.kind() } };
        }
        macro_rules! items {
            ($xs:expr) => { Items { items: $xs, rt, endless: op.endless, panic_at: op.panic_at, hint: op.hint } };
        }
        macro_rules! opt {
            ($e:expr) => { match lib!(rt, rep, $e) { Some(c) => { rep.k = "some"; rep.v = char_ints(c); }, None => rep.k = "none" } };
        }
        match op.code {
            New => build!(S::x_new()),
            Dflt => build!(S::default()),
            TryFromStr => try_build!(S::x_try_from_str(text)),
            Parse => try_build!(text.parse::<S>()),
            TryFromIterator => try_build!(S::x_try_from_iterator(items!(strs))),
            TryFromChars => try_build!(S::x_try_from_chars(items!(chars))),
            FromStrTruncate => build!(S::x_from_str_truncate(text)),
            FromRef => build!(S::from(text)),
            FromIteratorTruncate => build!(S::x_from_iterator_truncate(items!(strs))),
            CollectStrs => build!(items!(strs).collect::<S>()),
            FromCharsTruncate => build!(S::x_from_chars_truncate(items!(chars))),
            CollectChars => build!(items!(chars).collect::<S>()),
            TryFromUtf16 => try_build!(S::x_try_from_utf16(u)),
            FromUtf16Truncate => try_build!(S::x_from_utf16_truncate(u)),
            FromUtf16Lossy => build!(S::x_from_utf16_lossy(u)),
            TryPush => { let s = &mut self.s[i].v; unit!(s.x_try_push(ch)) }
            TryPushStr => { let s = &mut self.s[i].v; unit!(s.x_try_push_str(text)) }
            WriteStr => { let s = &mut self.s[i].v; unit!(Write::write_str(s, text)) }
            WriteChar => { let s = &mut self.s[i].v; unit!(Write::write_char(s, ch)) }
            WriteFmt => {
                let s = &mut self.s[i].v;
                match strs.len() {
                    // a format string that is its own result
                    1 if i != 1 && literal(strs[0]) => match strs[0] {
                        "" => unit!(write!(s, "")), "a" => unit!(write!(s, "a")), "aa" => unit!(write!(s, "aa")),
                        "aaa" => unit!(write!(s, "aaa")), "\u{e9}" => unit!(write!(s, "\u{e9}")), "\u{20ac}" => unit!(write!(s, "\u{20ac}")),
                        _ => unit!(write!(s, "\u{1f600}")),
                    },
                    0 => unit!(Write::write_fmt(s, format_args!(""))),
                    1 => unit!(write!(s, "{}", strs[0])),
                    2 => unit!(write!(s, "{}{}", strs[0], strs[1])),
                    _ => unit!(write!(s, "{}{}{}", strs[0], strs[1], strs[2])),
                }
            }
            PushStrTruncate => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_push_str_truncate(text)) }
            Add => { let s = self.s[i].v; build!(s + text) }
            ExtendChars => { let s = &mut self.s[i].v; lib!(rt, rep, s.extend(items!(chars))) }
            ExtendCharRefs => {
                let s = &mut self.s[i].v;
                let refs = RefItems { items: chars, rt, endless: op.endless, panic_at: op.panic_at, hint: op.hint };
                lib!(rt, rep, s.extend(refs))
            }
            ExtendStrs => { let s = &mut self.s[i].v; lib!(rt, rep, s.extend(items!(strs))) }
            InsertStrTruncate => { let s = &mut self.s[i].v; unit!(s.x_insert_str_truncate(op.ix, text)) }
            TryInsert => { let s = &mut self.s[i].v; unit!(s.x_try_insert(op.ix, ch)) }
            TryInsertStr => { let s = &mut self.s[i].v; unit!(s.x_try_insert_str(op.ix, text)) }
            ReplaceRange => {
                let s = &mut self.s[i].v;
                // the same range through the std range types as through a pair of bounds
                match (op.fm, op.r) {
                    (1, (0, _, 0, _)) => unit!(s.x_replace_range(.., text)),
                    (1, (1, a, 2, b)) => unit!(s.x_replace_range(a..b, text)),
                    (1, (1, a, 1, b)) => unit!(s.x_replace_range(a..=b, text)),
                    (1, (1, a, 3, _)) => unit!(s.x_replace_range(used_up(a), text)),
                    (1, (1, a, 0, _)) => unit!(s.x_replace_range(a.., text)),
                    (1, (0, _, 2, b)) => unit!(s.x_replace_range(..b, text)),
                    (1, (0, _, 1, b)) => unit!(s.x_replace_range(..=b, text)),
                    _ => unit!(s.x_replace_range(op.bounds(), text)),
                }
            }
            Remove => {
                let s = &mut self.s[i].v;
                match lib!(rt, rep, s.x_remove(op.ix)) { Ok(c) => rep.v = char_ints(c), Err(e) => rep.k = e.kind() }
            }
            Truncate => { let s = &mut self.s[i].v; unit!(s.x_truncate(op.ix)) }
            SplitOff => {
                let r = { let s = &mut self.s[i].v; lib!(rt, rep, s.x_split_off(op.ix)) };
                match r { Ok(t) => self.s[j].v = t, Err(e) => rep.k = e.kind() }
            }
            Drain => {
                let r = {
                    let s = &mut self.s[i].v;
                    match (op.fm, op.r) {
                        (1, (0, _, 0, _)) => lib!(rt, rep, s.x_drain(..)),
                        (1, (1, a, 2, b)) => lib!(rt, rep, s.x_drain(a..b)),
                        (1, (1, a, 1, b)) => lib!(rt, rep, s.x_drain(a..=b)),
                        (1, (1, a, 3, _)) => lib!(rt, rep, s.x_drain(used_up(a))),
                        (1, (1, a, 0, _)) => lib!(rt, rep, s.x_drain(a..)),
                        (1, (0, _, 2, b)) => lib!(rt, rep, s.x_drain(..b)),
                        (1, (0, _, 1, b)) => lib!(rt, rep, s.x_drain(..=b)),
                        _ => lib!(rt, rep, s.x_drain(op.bounds())),
                    }
                };
                match r { Ok(t) => self.d[j].v = t, Err(e) => rep.k = e.kind() }
            }
            Pop => { let s = &mut self.s[i].v; opt!(s.x_pop()) }
            Trim => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_trim()) }
            Clear => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_clear()) }
            Retain => {
                let s = &mut self.s[i].v;
                lib!(rt, rep, s.x_retain(|c| {
                    let mut calls = rt.calls.borrow_mut();
                    let n = calls.len();
                    if n < calls.capacity() { calls.push(c); }
                    drop(calls);
                    rt.inside(n);
                    if n == op.panic_at { rt.cp.set(true); panic_any(CallerPanic); }
                    op.bs.is_empty() || op.bs[n % op.bs.len()] == 1
                }))
            }
            UpAsMutStr => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_as_mut_str().make_ascii_uppercase()) }
            UpDerefMut => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_deref_mut_str().make_ascii_uppercase()) }
            UpAsMut => { let s = &mut self.s[i].v; lib!(rt, rep, AsMut::<str>::as_mut(s).make_ascii_uppercase()) }
            UpBorrowMut => { let s = &mut self.s[i].v; lib!(rt, rep, BorrowMut::<str>::borrow_mut(s).make_ascii_uppercase()) }
            LoAsMutStr => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_as_mut_str().make_ascii_lowercase()) }
            LoDerefMut => { let s = &mut self.s[i].v; lib!(rt, rep, s.x_deref_mut_str().make_ascii_lowercase()) }
            LoAsMut => { let s = &mut self.s[i].v; lib!(rt, rep, AsMut::<str>::as_mut(s).make_ascii_lowercase()) }
            LoBorrowMut => { let s = &mut self.s[i].v; lib!(rt, rep, BorrowMut::<str>::borrow_mut(s).make_ascii_lowercase()) }
            Index => {
                let s = &self.s[i].v;
                let (a, b) = (op.r.1 as u8, op.r.3 as u8);
                let x: &str = match (op.r.0, op.r.2) {
                    (0, 0) => lib!(rt, rep, &s[..]),
                    (1, 0) => lib!(rt, rep, &s[a..]),
                    (0, 2) => lib!(rt, rep, &s[..b]),
                    (0, _) => lib!(rt, rep, &s[..=b]),
                    (_, 2) => lib!(rt, rep, &s[a..b]),
                    (_, 3) => lib!(rt, rep, &s[used_up(a)]),
                    _ => lib!(rt, rep, &s[a..=b]),
                };
                rep.v = ints(x.as_bytes());
            }
            IndexMutUpper | IndexMutLower => {
                let s = &mut self.s[i].v;
                let (a, b) = (op.r.1 as u8, op.r.3 as u8);
                let x: &mut str = match (op.r.0, op.r.2) {
                    (0, 0) => lib!(rt, rep, &mut s[..]),
                    (1, 0) => lib!(rt, rep, &mut s[a..]),
                    (0, 2) => lib!(rt, rep, &mut s[..b]),
                    (0, _) => lib!(rt, rep, &mut s[..=b]),
                    (_, 2) => lib!(rt, rep, &mut s[a..b]),
                    (_, 3) => lib!(rt, rep, &mut s[used_up(a)]),
                    _ => lib!(rt, rep, &mut s[a..=b]),
                };
                rep.v = ints(x.as_bytes());
                if op.code == IndexMutUpper { x.make_ascii_uppercase() } else { x.make_ascii_lowercase() }
            }
            Copy => { let c = self.s[i].v; self.s[j].v = c; }
            Clone => { let c = { let s = &self.s[i].v; lib!(rt, rep, s.clone()) }; self.s[j].v = c; }
            CloneFrom => {
                let src = Guarded::new(self.s[i].v);
                let dst = &mut self.s[j].v;
                lib!(rt, rep, dst.clone_from(&src.v));
            }
            Swap => {
                let (a, b) = (i.min(j), i.max(j));
                if a != b { let (x, y) = self.s.split_at_mut(b); std::mem::swap(&mut x[a].v, &mut y[0].v); }
            }
            FromArray => { let s = self.s[i].v; build!(s.x_there_and_back()) }
            Noop => { self.s[i] = Guarded::new(self.s[i].v); } // moves the value to another address
            Cmp => { let (a, b) = (&self.s[i].v, &self.s[j].v); rep.v = lib!(rt, rep, cmp8(a, b)).to_vec(); }
            Max => { let (a, b) = (self.s[i].v, self.s[j].v); 
                let hi = if AsRef::<[u8]>::as_ref(&a) >= AsRef::<[u8]>::as_ref(&b) { a } else { b };
                let m = lib!(rt, rep, if op.fm == 0 { Ord::max(a, b) } else { Ord::clamp(a, b, hi) }); rep.v = ints(AsRef::<[u8]>::as_ref(&m)); }
            Min => { let (a, b) = (self.s[i].v, self.s[j].v); 
                let lo = if AsRef::<[u8]>::as_ref(&a) <= AsRef::<[u8]>::as_ref(&b) { a } else { b };
                let m = lib!(rt, rep, if op.fm == 0 { Ord::min(a, b) } else { Ord::clamp(a, lo, b) }); rep.v = ints(AsRef::<[u8]>::as_ref(&m)); }
            DCmp => {
                let (a, b) = (&self.d[i].v, &self.d[j].v);
                rep.v = if op.fm == 0 { lib!(rt, rep, cmp8(a, b)).to_vec() } else { let (a, b) = (*a, *b); lib!(rt, rep, yields8(a, b)).to_vec() };
            }
            EqStr => {
                let s = &self.s[i].v;
                let (a, b, c, d) = lib!(rt, rep, (*s == *text, *s != *text, *s == text, *s != text));
                rep.v = vec![a as i64, b as i64, c as i64, d as i64];
            }
            Hash => {
                let (a, b) = (self.s[i].v, self.s[j].v);
                rep.h = self.hash4(rt, rep, &a, &b, |x| AsRef::<[u8]>::as_ref(x));
            }
            DHash => {
                let (a, b) = (self.d[i].v, self.d[j].v);
                rep.h = self.hash4(rt, rep, &a, &b, |x| x.x_as_str().as_bytes());
            }
            Display => {
                let s = &self.s[i].v;
                let mut buf = rt.buf.borrow_mut();
                unit!(write!(buf, "{}", s));
                rep.v = ints(buf.as_bytes());
            }
            Debug => {
                let want = format!("{:?}", String::from_utf8_lossy(AsRef::<[u8]>::as_ref(&self.s[i].v)));
                let s = &self.s[i].v;
                let mut buf = rt.buf.borrow_mut();
                for alternate in [false, true] {
                    buf.clear();
                    if alternate { unit!(write!(buf, "{:#?}", s)) } else { unit!(write!(buf, "{:?}", s)) }
                    rep.v.push(buf.contains(&want) as i64);
                }
            }
            DisplaySpec => {
                let s = &self.s[i].v;
                let mut buf = rt.buf.borrow_mut();
                let (w, p) = (op.r.1, op.r.3);
                match (op.r.0, op.r.2) {
                    (0, 0) => unit!(write!(buf, "{:*<w$}", s)),
                    (1, 0) => unit!(write!(buf, "{:*>w$}", s)),
                    (_, 0) => unit!(write!(buf, "{:*^w$}", s)),
                    (0, _) => unit!(write!(buf, "{:*<w$.p$}", s)),
                    (1, _) => unit!(write!(buf, "{:*>w$.p$}", s)),
                    _ => unit!(write!(buf, "{:*^w$.p$}", s)),
                }
                rep.v = ints(buf.as_bytes());
            }
            DisplaySink => {
                let s = &self.s[i].v;
                let mut buf = rt.buf.borrow_mut();
                let mut sink = Sink { out: &mut buf, limit: op.ix, rt };
                match lib!(rt, rep, write!(sink, "{}", s)) {
                    Ok(()) => rep.v = ints(sink.out.as_bytes()),
                    Err(e) => rep.k = e.kind(),
                }
            }
            MInsert => {
                let s = self.s[i].v;
                let v = op.ix as i64;
                let (hm, bm) = (&mut self.hm, &mut self.bm);
                let (a, b) = lib!(rt, rep, (hm.insert(s, v), bm.insert(s, v)));
                rep.v = vec![a.map_or(0, |x| x + 1), b.map_or(0, |x| x + 1)];
            }
            MGet => {
                let (hm, bm) = (&self.hm, &self.bm);
                let (a, b) = lib!(rt, rep, (hm.get(text).copied(), bm.get(text).copied()));
                rep.v = vec![a.map_or(0, |x| x + 1), b.map_or(0, |x| x + 1)];
            }
            MRemove => {
                let (hm, bm) = (&mut self.hm, &mut self.bm);
                let (a, b) = lib!(rt, rep, (hm.remove(text), bm.remove(text)));
                rep.v = vec![a.map_or(0, |x| x + 1), b.map_or(0, |x| x + 1)];
            }
            MIter => {
                rep.ks = self.bm.keys().map(|k| AsRef::<[u8]>::as_ref(k).to_vec()).collect();
                rep.v = vec![self.hm.len() as i64, self.bm.len() as i64];
            }
            DNext => { let d = &mut self.d[i].v; opt!(d.next()) }
            DNextBack => { let d = &mut self.d[i].v; opt!(d.next_back()) }
            DNth => { let d = &mut self.d[i].v; opt!(d.nth(op.ix)) }
            DNthBack => { let d = &mut self.d[i].v; opt!(d.nth_back(op.ix)) }
            DFind => { let d = &mut self.d[i].v; let mut k = 0;
                opt!(if op.fm == 0 { d.find(|_| { k += 1; k - 1 == op.ix }) } else { d.find_map(|c| { k += 1; (k - 1 == op.ix).then_some(c) }) }) }
            DRfind => { let d = &mut self.d[i].v; let mut k = 0; opt!(d.rfind(|_| { k += 1; k - 1 == op.ix })) }
            DPosition => {
                let d = &mut self.d[i].v;
                let mut k = 0;
                rep.v = vec![lib!(rt, rep, d.position(|_| { k += 1; k - 1 == op.ix })).map_or(0, |x| x as i64 + 1)];
            }
            DAny => { let d = &mut self.d[i].v; let mut k = 0; rep.v = vec![lib!(rt, rep, d.any(|_| { k += 1; k - 1 == op.ix })) as i64]; }
            DAll => { let d = &mut self.d[i].v; let mut k = 0; rep.v = vec![lib!(rt, rep, d.all(|_| { k += 1; k - 1 != op.ix })) as i64]; }
            DMax => { let d = std::mem::take(&mut self.d[i].v); opt!(if op.fm == 0 { Iterator::max(d) } else { d.max_by(|a, b| a.cmp(b)) }) }
            DMin => { let d = std::mem::take(&mut self.d[i].v); opt!(if op.fm == 0 { Iterator::min(d) } else { d.min_by_key(|c| *c) }) }
            DInto => { let d = std::mem::take(&mut self.d[i].v); self.s[j].v = lib!(rt, rep, d.collect::<S>()); }
            DExtend => { let d = std::mem::take(&mut self.d[i].v); let s = &mut self.s[j].v; lib!(rt, rep, s.extend(d)) }
            DCount => { let d = std::mem::take(&mut self.d[i].v); rep.v = vec![lib!(rt, rep, d.count()) as i64]; }
            DLast => { let d = std::mem::take(&mut self.d[i].v); opt!(if op.fm == 0 { d.last() } else { d.reduce(|_, c| c) }) }
            DCollect | DFold | DFor | DRev | DRfold => {
                let d = std::mem::take(&mut self.d[i].v);
                let mut buf = rt.buf.borrow_mut();
                let b: &mut String = &mut buf;
                lib!(rt, rep, match op.code {
                    DCollect if op.fm == 0 => b.extend(d),
                    DCollect => d.for_each(|c| { if b.len() > 4000 { panic_any(Runaway); } b.push(c) }),
                    DFold => { let _ = d.fold(0usize, |n, c| { if n < 4000 { b.push(c); } n + 1 }); }
                    DFor => for (n, c) in d.enumerate() { if n >= ENDLESS_LIMIT { panic_any(Runaway); } b.push(c); },
                    DRev if op.fm == 1 => d.rev().for_each(|c| { if b.len() > 4000 { panic_any(Runaway); } b.push(c) }),
                    DRev => for (n, c) in d.rev().enumerate() { if n >= ENDLESS_LIMIT { panic_any(Runaway); } b.push(c); },
                    _ => { let _ = d.rfold(0usize, |n, c| { if n < 4000 { b.push(c); } n + 1 }); }
                });
                rep.v = ints(buf.as_bytes());
            }
            DDrop => { let d = std::mem::take(&mut self.d[i].v); lib!(rt, rep, { let _ = d; }) }
            DDefault => { let d = lib!(rt, rep, S::D::default()); self.d[i].v = d; }
            DCopy => { let c = self.d[i].v; self.d[j].v = c; }
            DClone => { let c = { let d = &self.d[i].v; lib!(rt, rep, d.clone()) }; self.d[j].v = c; }
            DSizeHint => {
                let d = &self.d[i].v;
                let (lo, hi) = lib!(rt, rep, d.size_hint());
                rep.h = vec![vec![crate::op::clamp(lo) as i64, hi.is_some() as i64, crate::op::clamp(hi.unwrap_or(0)) as i64]];
            }
            #[cfg(feature = "serde")]
            Ser => { let s = &self.s[i].v; let (k, v) = lib!(rt, rep, s.x_ser()); rep.k = k; rep.v = ints(&v); }
            #[cfg(feature = "serde")]
            De => match lib!(rt, rep, S::x_de(w, op.fm)) { Some(x) => self.s[i].v = x, None => rep.k = "err" },
            #[cfg(feature = "serde")]
            DeOther => if !lib!(rt, rep, S::x_de_other(op.fm)) { rep.k = "err" },
            #[cfg(not(feature = "serde"))]
            Ser | De | DeOther => panic!("harness: built without serde"),
            WeirdReplace | WeirdPush | WeirdInsert | WeirdFrom => {
                let two = String::from_utf8(op.w2.clone()).expect("harness: text");
                let s = &mut self.s[i].v;
                let arg = Weird { a: text, b: &two, n: Cell::new(0), first: op.fm as usize, rt, panic_at: op.panic_at };
                let r: Result<(), &'static str> = lib!(rt, rep, match op.code {
                    WeirdReplace => s.x_replace_range(op.bounds(), arg).map_err(Kind::kind),
                    WeirdPush => if op.hint == 0 { s.x_try_push_str(arg).map_err(Kind::kind) } else { s.x_push_str_truncate(arg); Ok(()) },
                    WeirdInsert => if op.hint == 0 { s.x_try_insert_str(op.ix, arg).map_err(Kind::kind) }
                                   else { s.x_insert_str_truncate(op.ix, arg).map_err(Kind::kind) },
                    _ => if op.hint == 0 { S::x_try_from_str(arg).map(|x| *s = x).map_err(Kind::kind) }
                         else { *s = S::x_from_str_truncate(arg); Ok(()) },
                });
                if let Err(k) = r { rep.k = k; }
            }
            WeirdRange | WeirdDrain => {
                let r = WeirdBounds { a: op.bounds(), b: crate::op::bounds(op.r2), n: Cell::new(0), first: op.fm as usize, rt, panic_at: op.panic_at };
                let s = &mut self.s[i].v;
                if op.code == WeirdRange { unit!(s.x_replace_range(r, text)) }
                else { match lib!(rt, rep, s.x_drain(r)) { Ok(t) => self.d[j].v = t, Err(e) => rep.k = e.kind() } }
            }
        }
    }

    fn hash4<T: std::hash::Hash + std::marker::Copy>(&self, rt: &Rt, rep: &mut Reply, a: &T, b: &T, text: impl Fn(&T) -> &[u8]) -> Vec<Vec<i64>> {
        let mut out = Vec::new();
        let told = |rep: &mut Reply, f: &dyn Fn(&mut Recorder)| {
            rt.stream.borrow_mut().clear();
            if let Err(k) = rt.call(|| f(&mut Recorder(&rt.stream))) { rep.k = k; }
            let heard = rt.stream.borrow().clone();
            heard
        };
        let (x, y) = (String::from_utf8_lossy(text(a)).into_owned(), String::from_utf8_lossy(text(b)).into_owned());
        out.push(told(rep, &|h| a.hash(h)));
        out.push(told(rep, &|h| x.hash(h)));
        out.push(told(rep, &|h| b.hash(h)));
        out.push(told(rep, &|h| y.hash(h)));
        out.push(told(rep, &|h| T::hash_slice(&[*a, *b], h)));
        out.push(told(rep, &|h| str_slice(&[&x, &y], h)));
        out
    }
}
