//! One call to the library, as data.
use crate::json::{put_ints, J};
use std::fmt::Write;
use std::ops::Bound;

macro_rules! codes {
    ($($id:ident = $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[allow(non_camel_case_types)]
        pub enum Code { $($id),* }
        impl Code {
            pub const ALL: &'static [Code] = &[$(Code::$id),*];
            pub fn name(self) -> &'static str { match self { $(Code::$id => $name),* } }
            pub fn from_name(s: &str) -> Option<Code> { match s { $($name => Some(Code::$id),)* _ => None } }
        }
    };
}
codes! {
    New = "new", Dflt = "default",
    TryFromStr = "try_from_str", Parse = "parse", TryFromIterator = "try_from_iterator", TryFromChars = "try_from_chars",
    TryPush = "try_push", TryPushStr = "try_push_str", WriteStr = "write_str", WriteChar = "write_char", WriteFmt = "write_fmt",
    FromStrTruncate = "from_str_truncate", FromRef = "from_ref", FromIteratorTruncate = "from_iterator_truncate",
    CollectStrs = "collect_strs", FromCharsTruncate = "from_chars_truncate", CollectChars = "collect_chars",
    PushStrTruncate = "push_str_truncate", Add = "add", ExtendChars = "extend_chars", ExtendCharRefs = "extend_char_refs",
    ExtendStrs = "extend_strs", InsertStrTruncate = "insert_str_truncate",
    TryFromUtf16 = "try_from_utf16", FromUtf16Truncate = "from_utf16_truncate", FromUtf16Lossy = "from_utf16_lossy",
    TryInsert = "try_insert", TryInsertStr = "try_insert_str", ReplaceRange = "replace_range", Remove = "remove",
    Truncate = "truncate", SplitOff = "split_off", Drain = "drain",
    Pop = "pop", Trim = "trim", Clear = "clear", Retain = "retain",
    UpAsMutStr = "upper_as_mut_str", UpDerefMut = "upper_deref_mut", UpAsMut = "upper_as_mut", UpBorrowMut = "upper_borrow_mut",
    LoAsMutStr = "lower_as_mut_str", LoDerefMut = "lower_deref_mut", LoAsMut = "lower_as_mut", LoBorrowMut = "lower_borrow_mut",
    Index = "index", IndexMutUpper = "index_mut_upper", IndexMutLower = "index_mut_lower",
    Copy = "copy", Clone = "clone", CloneFrom = "clone_from", Swap = "swap", FromArray = "from_array", Noop = "noop",
    Cmp = "cmp", Max = "max", Min = "min", EqStr = "eq_str", Hash = "hash", Display = "display", DisplaySink = "display_sink", DisplaySpec = "display_spec", Debug = "debug",
    MInsert = "m_insert", MGet = "m_get", MRemove = "m_remove", MIter = "m_iter",
    DNext = "d_next", DNextBack = "d_next_back", DNth = "d_nth", DNthBack = "d_nth_back", DCount = "d_count", DLast = "d_last",
    DCollect = "d_collect", DFold = "d_fold", DFor = "d_for", DRev = "d_rev", DRfold = "d_rfold", DDrop = "d_drop",
    DFind = "d_find", DRfind = "d_rfind", DPosition = "d_position", DAny = "d_any", DAll = "d_all", DMax = "d_max", DMin = "d_min",
    DInto = "d_into", DExtend = "d_extend", DDefault = "d_default", DCopy = "d_copy", DClone = "d_clone", DCmp = "d_cmp", DHash = "d_hash", DSizeHint = "d_size_hint",
    Ser = "ser", De = "de", DeOther = "de_other",
    WeirdReplace = "weird_replace", WeirdPush = "weird_push", WeirdInsert = "weird_insert", WeirdFrom = "weird_from",
    WeirdRange = "weird_range", WeirdDrain = "weird_drain",
}

impl Code {
    pub fn on_drain(self) -> bool { self.name().starts_with("d_") }
    pub fn is_iter(self) -> bool {
        use Code::*;
        matches!(self, TryFromIterator | TryFromChars | FromIteratorTruncate | CollectStrs | FromCharsTruncate
            | CollectChars | ExtendChars | ExtendCharRefs | ExtendStrs)
    }
    pub fn char_items(self) -> bool {
        use Code::*;
        matches!(self, TryFromChars | FromCharsTruncate | CollectChars | ExtendChars | ExtendCharRefs)
    }
    /// takes a text that may be far longer than any string
    pub fn takes_text(self) -> bool {
        use Code::*;
        matches!(self, TryFromStr | Parse | TryPushStr | WriteStr | FromStrTruncate | FromRef | PushStrTruncate | Add | InsertStrTruncate
            | TryInsertStr | ReplaceRange | EqStr)
    }
    pub fn units(self) -> bool { matches!(self, Code::TryFromUtf16 | Code::FromUtf16Truncate | Code::FromUtf16Lossy) }
    pub fn weird(self) -> bool { self.name().starts_with("weird_") }
    /// writes a second object: Some(is_drain)
    pub fn second(self) -> Option<bool> {
        use Code::*;
        match self {
            SplitOff | Copy | Clone | CloneFrom | Swap | Cmp | Max | Min | Hash | DInto | DExtend => Some(false),
            Drain | WeirdDrain | DCopy | DClone | DCmp | DHash => Some(true),
            _ => None,
        }
    }
}

/// `a..=a` after it has been iterated to its end.
pub fn used_up<T>(a: T) -> std::ops::RangeInclusive<T> where T: Clone, std::ops::RangeInclusive<T>: Iterator {
    let mut r = a.clone()..=a;
    r.by_ref().for_each(drop);
    r
}

pub fn bounds(r: (u8, usize, u8, usize)) -> (Bound<usize>, Bound<usize>) {
    let b = |k, v| match k { 0 => Bound::Unbounded, 1 => Bound::Included(v), _ => Bound::Excluded(v) };
    (b(r.0, r.1), b(r.2, r.3))
}

/// So many zero bytes (their memory is never touched by writing).
pub fn zeros(len: usize) -> &'static [u8] {
    static ALL: std::sync::OnceLock<(usize, usize)> = std::sync::OnceLock::new();
    let (at, size) = *ALL.get_or_init(|| {
        // (a build that logs its arguments would write all of them)
        let most = if cfg!(any(feature = "logs", debug_assertions)) { 1 << 18 } else { 1usize << 32 };
        for size in [most + 4096, (1 << 18) + 4096] {
            let p = unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(size, 16).unwrap()) };
            if !p.is_null() { return (p as usize, size); }
        }
        panic!("harness: no memory")
    });
    // a smaller text means the same to the specification
    let len = if len <= size { len } else { len % 65536 + 65536 };
    unsafe { std::slice::from_raw_parts(at as *const u8, len) }
}
pub fn zero_units(len: usize) -> &'static [u16] {
    let b = zeros(len.min(1 << 17) * 2);
    unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u16, b.len() / 2) }
}

pub const NOPANIC: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct Op {
    pub code: Code,
    pub i: usize,              // 0-based
    pub j: usize,
    pub w: Vec<u8>,            // text (for de: any bytes)
    pub w2: Vec<u8>,           // second answer of a weird argument
    pub ws: Vec<Vec<u8>>,      // items / pieces
    pub u: Vec<u16>,
    pub ix: usize,
    pub r: (u8, usize, u8, usize),
    pub bs: Vec<u8>,           // predicate answers
    pub hint: u8,              // size hint the caller's iterator reports: 0 exact, 1 none, 2 zero, 3 huge, 4 one too few
    pub endless: bool,         // the caller's iterator repeats its items for ever
    pub panic_at: usize,       // the caller's code panics at this call (NOPANIC: never)
    pub r2: (u8, usize, u8, usize), // second answer of a weird range
    pub big: usize,            // the text (or the units) is this many NULs; w (or u) stands for it
    pub fm: u8,                // form of delivery (serde), flavour of index range, of the text argument
}

impl Op {
    pub fn new(code: Code) -> Op {
        Op { code, i: 0, j: 0, w: vec![], w2: vec![], ws: vec![], u: vec![], ix: 0, r: (0, 0, 0, 0), bs: vec![],
             hint: 0, endless: false, panic_at: NOPANIC, r2: (0, 0, 0, 0), big: 0, fm: 0 }
    }
    pub fn bounds(&self) -> (Bound<usize>, Bound<usize>) { bounds(self.r) }
    /// Makes the text or the units an enormous number of NULs.
    pub fn enlarge(&mut self, len: usize) {
        self.big = len;
        if self.code.units() { self.u = vec![0; 600] } else { self.w = vec![0; 600] }
    }
    /// The call's own fields; a leading comma is written before each.
    pub fn put(&self, o: &mut String) {
        use Code::*;
        let _ = write!(o, "\"op\":\"{}\",\"t\":\"{}\",\"i\":{}", self.code.name(),
                       if self.code.on_drain() { "d" } else { "s" }, self.i + 1);
        match self.code.second() {
            Some(dr) => { let _ = write!(o, ",\"t2\":\"{}\",\"j\":{}", if dr { "d" } else { "s" }, self.j + 1); }
            None => o.push_str(",\"t2\":\"s\",\"j\":0"),
        }
        let wargs = matches!(self.code, TryFromStr | Parse | TryPush | TryPushStr | WriteStr | WriteChar | FromStrTruncate | FromRef
            | PushStrTruncate | Add | InsertStrTruncate | TryInsert | TryInsertStr | ReplaceRange | EqStr | MGet | MRemove | De
            | WeirdReplace | WeirdPush | WeirdInsert | WeirdFrom | WeirdRange);
        if wargs { o.push_str(",\"w\":"); put_ints(o, &self.w); }
        if !self.w2.is_empty() { o.push_str(",\"w2\":"); put_ints(o, &self.w2); }
        if self.code.is_iter() || self.code == WriteFmt {
            o.push_str(",\"ws\":[");
            for (n, w) in self.ws.iter().enumerate() { if n > 0 { o.push(','); } put_ints(o, w); }
            o.push(']');
            let _ = write!(o, ",\"hint\":{},\"endless\":{}", self.hint, self.endless as u8);
        }
        if self.code.units() { o.push_str(",\"u\":"); put_ints(o, &self.u); }
        if matches!(self.code, InsertStrTruncate | TryInsert | TryInsertStr | Remove | Truncate | SplitOff | DNth | DNthBack
            | DFind | DRfind | DPosition | DAny | DAll | DisplaySink | MInsert | WeirdInsert) {
            let _ = write!(o, ",\"ix\":{}", clamp(self.ix));
            if clamp(self.ix) != self.ix { let _ = write!(o, ",\"ixs\":\"{}\"", self.ix); }
        }
        if matches!(self.code, ReplaceRange | Drain | Index | IndexMutUpper | IndexMutLower | WeirdReplace | DisplaySpec | WeirdRange | WeirdDrain) {
            let _ = write!(o, ",\"r\":[{},{},{},{}]", self.r.0, clamp(self.r.1), self.r.2, clamp(self.r.3));
            if clamp(self.r.1) != self.r.1 || clamp(self.r.3) != self.r.3 {
                let _ = write!(o, ",\"rs\":[\"{}\",\"{}\"]", self.r.1, self.r.3);
            }
        }
        if matches!(self.code, WeirdRange | WeirdDrain) { let _ = write!(o, ",\"r2\":[{},{},{},{}]", self.r2.0, self.r2.1, self.r2.2, self.r2.3); }
        if self.big != 0 { let _ = write!(o, ",\"bg\":\"{}\"", self.big); }
        if self.code == Retain { o.push_str(",\"bs\":"); put_ints(o, &self.bs); }
        if self.panic_at != NOPANIC { let _ = write!(o, ",\"pa\":{}", self.panic_at); }
        if self.fm != 0 { let _ = write!(o, ",\"fm\":{}", self.fm); }
    }
    pub fn from_json(j: &J) -> Option<Op> {
        let mut op = Op::new(Code::from_name(j.s("op"))?);
        op.i = (j.n("i").max(1) - 1) as usize;
        op.j = (j.n("j").max(1) - 1) as usize;
        op.w = j.b("w");
        op.w2 = j.b("w2");
        let items = j.get("ws").or_else(|| j.get("ys")).map_or(&[][..], |x| x.arr());
        op.ws = items.iter().map(|x| x.bytes()).collect();
        op.u = j.get("u").map_or(vec![], |x| x.arr().iter().map(|y| y.num() as u16).collect());
        op.ix = j.n("ix") as usize;
        if let Some(J::Str(s)) = j.get("ixs") { op.ix = s.parse().ok()?; }
        if let Some(r) = j.get("r") {
            let r = r.arr();
            op.r = (r[0].num() as u8, r[1].num() as usize, r[2].num() as u8, r[3].num() as usize);
        }
        if let Some(r) = j.get("r2") {
            let r = r.arr();
            op.r2 = (r[0].num() as u8, r[1].num() as usize, r[2].num() as u8, r[3].num() as usize);
        }
        if let Some(J::Str(s)) = j.get("bg") { op.big = s.parse().ok()?; }
        if let Some(r) = j.get("rs") {
            op.r.1 = r.arr()[0].str().parse().ok()?;
            op.r.3 = r.arr()[1].str().parse().ok()?;
        }
        op.bs = j.b("bs");
        op.hint = j.n("hint") as u8;
        op.endless = j.n("endless") == 1;
        if j.get("pa").is_some() { op.panic_at = j.n("pa") as usize; }
        op.fm = j.n("fm") as u8;
        Some(op)
    }
}

/// TLC integers have 32 bits; every position beyond the largest capacity means the same to the specification.
pub fn clamp(x: usize) -> usize { x.min(2_000_000_000) }
