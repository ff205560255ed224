//! Executes calls on the real library and observes their results.
use crate::alloc;
use crate::op::{used_up, Code, Op};
use arraystring::error::{OutOfBounds, Utf16, Utf8};
use arraystring::{ArrayString, CacheString, Drain, Error};
use std::borrow::{Borrow, BorrowMut};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::iter::FusedIterator;
use std::ops::*;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::str::FromStr;

pub const NS: usize = 3;
pub const ND: usize = 2;
const ENDLESS_LIMIT: usize = 3000;

pub struct CallerPanic;
pub struct Runaway;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Reply {
    pub k: &'static str,
    pub v: Vec<i64>,
    pub h: Vec<Vec<i64>>,
    pub ks: Vec<Vec<u8>>,
    pub pulled: usize,       // items pulled from the caller's iterator
    pub ended: bool,         // the caller's iterator reported its end
    pub calls: Vec<Vec<u8>>, // characters the predicate was called on
    pub cp: bool,            // the caller's code panicked
    pub alloc: usize,
    pub args_ok: bool,       // arguments still hold what the caller put in
}

/// What the caller's side of a call can see.
#[derive(Default)]
pub struct Rt {
    pub pulled: Cell<usize>,
    pub ended: Cell<bool>,
    pub cp: Cell<bool>,
    pub calls: RefCell<Vec<char>>,
    pub buf: RefCell<String>,
    pub stream: RefCell<Vec<i64>>,
    pub nest: Cell<Option<fn() -> bool>>, // what the caller's code does with objects of its own
    pub nested_ok: Cell<bool>,
}

impl Rt {
    pub fn new() -> Self {
        let rt = Rt::default();
        rt.calls.borrow_mut().reserve(2048);
        rt.buf.borrow_mut().reserve(8192);
        rt.stream.borrow_mut().reserve(8192);
        rt
    }
    fn reset(&self) {
        self.pulled.set(0);
        self.ended.set(false);
        self.cp.set(false);
        self.calls.borrow_mut().clear();
        self.buf.borrow_mut().clear();
        self.stream.borrow_mut().clear();
        self.nested_ok.set(true);
        alloc::zero();
    }
    /// The caller's code uses the library itself, on objects of its own.
    fn inside(&self, n: usize) {
        if n < 2 { if let Some(f) = self.nest.get() { if !f() { self.nested_ok.set(false); } } }
    }
    /// Runs library code: allocations counted, panics caught and classified.
    fn call<T>(&self, f: impl FnOnce() -> T) -> Result<T, &'static str> {
        alloc::arm(true);
        let r = catch_unwind(AssertUnwindSafe(f));
        alloc::arm(false);
        r.map_err(|p| {
            if p.is::<CallerPanic>() { "cpanic" } else if p.is::<Runaway>() { "hang" } else { "panic" }
        })
    }
}

/// The caller's iterator: yields the items in order, counts, ends, repeats or panics as told.
struct Items<'a, T> { items: &'a [T], rt: &'a Rt, endless: bool, panic_at: usize, hint: u8 }
impl<'a, T: Clone> Iterator for Items<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let n = self.rt.pulled.get();
        self.rt.inside(n);
        if n == self.panic_at { self.rt.cp.set(true); panic_any(CallerPanic); }
        if n >= ENDLESS_LIMIT { panic_any(Runaway); }
        if n < self.items.len() || (self.endless && !self.items.is_empty()) {
            self.rt.pulled.set(n + 1);
            Some(self.items[n % self.items.len()].clone())
        } else {
            self.rt.ended.set(true);
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len().saturating_sub(self.rt.pulled.get());
        match self.hint {
            0 if !self.endless => (left, Some(left)),
            0 => (usize::MAX, None),
            2 => (0, Some(0)),
            3 => (usize::MAX, Some(usize::MAX)),
            4 => (left.saturating_sub(1), Some(left.saturating_sub(1))),
            _ => (0, None),
        }
    }
}

/// A text argument that answers differently when asked again.
struct Weird<'a> { a: &'a str, b: &'a str, n: Cell<usize>, first: usize, rt: &'a Rt, panic_at: usize }
impl<'a> AsRef<str> for Weird<'a> {
    fn as_ref(&self) -> &str {
        let n = self.n.get();
        self.n.set(n + 1);
        self.rt.inside(n);
        if n == self.panic_at { self.rt.cp.set(true); panic_any(CallerPanic); }
        if n < self.first || (n - self.first) % 2 == 1 { self.a } else { self.b }
    }
}

/// A range that answers differently when asked again.
struct WeirdBounds<'a> { a: (Bound<usize>, Bound<usize>), b: (Bound<usize>, Bound<usize>), n: Cell<usize>, first: usize, rt: &'a Rt, panic_at: usize }
impl WeirdBounds<'_> {
    fn turn(&self) -> &(Bound<usize>, Bound<usize>) {
        let n = self.n.get();
        self.n.set(n + 1);
        self.rt.inside(n);
        if n == self.panic_at { self.rt.cp.set(true); panic_any(CallerPanic); }
        if n < self.first || (n - self.first) % 2 == 1 { &self.a } else { &self.b }
    }
}
impl RangeBounds<usize> for WeirdBounds<'_> {
    fn start_bound(&self) -> Bound<&usize> { self.turn().0.as_ref() }
    fn end_bound(&self) -> Bound<&usize> { self.turn().1.as_ref() }
}

/// What a hasher is told, call by call (there are hashers that mind how it is cut).
struct Recorder<'a>(&'a RefCell<Vec<i64>>);
impl Hasher for Recorder<'_> {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { let mut s = self.0.borrow_mut(); s.push(1000 + b.len() as i64); s.extend(b.iter().map(|x| *x as i64)); }
    fn write_u8(&mut self, x: u8) { let mut s = self.0.borrow_mut(); s.push(2000); s.push(x as i64); }
}

struct Sink<'a> { out: &'a mut String, limit: usize, rt: &'a Rt }
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.rt.inside(self.out.len());
        if self.out.len() + s.len() > self.limit { return Err(std::fmt::Error); }
        self.out.push_str(s);
        Ok(())
    }
}

/// The inherent methods of the string types (their traits are used directly).
pub trait Api:
    Copy + Default + FromStr<Err = OutOfBounds> + for<'a> From<&'a str> + Debug + Display + Write + Hash + Ord
    + PartialEq<str> + for<'a> PartialEq<&'a str> + Borrow<str> + BorrowMut<str> + AsRef<str> + AsMut<str> + AsRef<[u8]>
    + for<'a> Add<&'a str, Output = Self> + FromIterator<char> + for<'a> FromIterator<&'a str> + Extend<char>
    + for<'a> Extend<&'a char> + for<'a> Extend<&'a str> + DerefMut
    + IndexMut<RangeFrom<u8>, Output = str> + IndexMut<RangeTo<u8>, Output = str> + IndexMut<RangeFull, Output = str>
    + IndexMut<Range<u8>, Output = str> + IndexMut<RangeToInclusive<u8>, Output = str>
    + IndexMut<RangeInclusive<u8>, Output = str> + 'static
{
    type D: DrainApi;
    fn n() -> usize;
    /// nothing was written next to its bytes (for those that have room there)
    fn x_intact(&self) -> bool { true }
    fn x_new() -> Self;
    fn x_capacity() -> usize;
    fn x_try_from_str(w: impl AsRef<str>) -> Result<Self, OutOfBounds>;
    fn x_from_str_truncate(w: impl AsRef<str>) -> Self;
    fn x_try_from_iterator<'a>(i: impl IntoIterator<Item = &'a str>) -> Result<Self, OutOfBounds>;
    fn x_from_iterator_truncate<'a>(i: impl IntoIterator<Item = &'a str>) -> Self;
    fn x_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds>;
    fn x_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self;
    fn x_try_from_utf16(u: &[u16]) -> Result<Self, Error>;
    fn x_from_utf16_truncate(u: &[u16]) -> Result<Self, Utf16>;
    fn x_from_utf16_lossy(u: &[u16]) -> Self;
    fn x_split_off(&mut self, at: usize) -> Result<Self, Error>;
    fn x_as_str(&self) -> &str;
    fn x_as_mut_str(&mut self) -> &mut str;
    fn x_try_push_str(&mut self, w: impl AsRef<str>) -> Result<(), OutOfBounds>;
    fn x_push_str_truncate(&mut self, w: impl AsRef<str>);
    fn x_try_push(&mut self, c: char) -> Result<(), OutOfBounds>;
    fn x_truncate(&mut self, k: usize) -> Result<(), Utf8>;
    fn x_pop(&mut self) -> Option<char>;
    fn x_trim(&mut self);
    fn x_remove(&mut self, i: usize) -> Result<char, Error>;
    fn x_retain(&mut self, f: impl FnMut(char) -> bool);
    fn x_try_insert(&mut self, i: usize, c: char) -> Result<(), Error>;
    fn x_try_insert_str(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error>;
    fn x_insert_str_truncate(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error>;
    fn x_len(&self) -> usize;
    fn x_is_empty(&self) -> bool;
    fn x_clear(&mut self);
    fn x_drain(&mut self, r: impl RangeBounds<usize>) -> Result<Self::D, Error>;
    fn x_replace_range(&mut self, r: impl RangeBounds<usize>, w: impl AsRef<str>) -> Result<(), Error>;
    fn x_deref_str(&self) -> &str;
    fn x_deref_mut_str(&mut self) -> &mut str;
    fn x_there_and_back(self) -> Self;
    #[cfg(feature = "serde")]
    fn x_ser(&self) -> (&'static str, Vec<u8>);
    #[cfg(feature = "serde")]
    fn x_de(w: &[u8], form: u8) -> Option<Self>;
    #[cfg(feature = "serde")]
    fn x_de_other(form: u8) -> bool;
}

pub trait DrainApi: Copy + Default + Debug + Ord + Hash + Iterator<Item = char> + DoubleEndedIterator + FusedIterator + 'static {
    fn x_as_str(&self) -> &str;
    fn x_intact(&self) -> bool { true }
}

macro_rules! api {
    ($T:ty, $N:literal, $deref:expr, $deref_mut:expr, $back:expr) => {
        impl Api for $T {
            type D = Drain<$N>;
            fn n() -> usize { $N }
            fn x_new() -> Self { <$T>::new() }
            fn x_capacity() -> usize { <$T>::capacity() }
            fn x_try_from_str(w: impl AsRef<str>) -> Result<Self, OutOfBounds> { <$T>::try_from_str(w) }
            fn x_from_str_truncate(w: impl AsRef<str>) -> Self { <$T>::from_str_truncate(w) }
            fn x_try_from_iterator<'a>(i: impl IntoIterator<Item = &'a str>) -> Result<Self, OutOfBounds> { <$T>::try_from_iterator(i) }
            fn x_from_iterator_truncate<'a>(i: impl IntoIterator<Item = &'a str>) -> Self { <$T>::from_iterator_truncate(i) }
            fn x_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds> { <$T>::try_from_chars(i) }
            fn x_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self { <$T>::from_chars_truncate(i) }
            fn x_try_from_utf16(u: &[u16]) -> Result<Self, Error> { <$T>::try_from_utf16(u) }
            fn x_from_utf16_truncate(u: &[u16]) -> Result<Self, Utf16> { <$T>::from_utf16_truncate(u) }
            fn x_from_utf16_lossy(u: &[u16]) -> Self { <$T>::from_utf16_lossy_truncate(u) }
            fn x_split_off(&mut self, at: usize) -> Result<Self, Error> { self.split_off(at) }
            fn x_as_str(&self) -> &str { self.as_str() }
            fn x_as_mut_str(&mut self) -> &mut str { self.as_mut_str() }
            fn x_try_push_str(&mut self, w: impl AsRef<str>) -> Result<(), OutOfBounds> { self.try_push_str(w) }
            fn x_push_str_truncate(&mut self, w: impl AsRef<str>) { self.push_str_truncate(w) }
            fn x_try_push(&mut self, c: char) -> Result<(), OutOfBounds> { self.try_push(c) }
            fn x_truncate(&mut self, k: usize) -> Result<(), Utf8> { self.truncate(k) }
            fn x_pop(&mut self) -> Option<char> { self.pop() }
            fn x_trim(&mut self) { self.trim() }
            fn x_remove(&mut self, i: usize) -> Result<char, Error> { self.remove(i) }
            fn x_retain(&mut self, f: impl FnMut(char) -> bool) { self.retain(f) }
            fn x_try_insert(&mut self, i: usize, c: char) -> Result<(), Error> { self.try_insert(i, c) }
            fn x_try_insert_str(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error> { self.try_insert_str(i, w) }
            fn x_insert_str_truncate(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error> { self.insert_str_truncate(i, w) }
            fn x_len(&self) -> usize { self.len() }
            fn x_is_empty(&self) -> bool { self.is_empty() }
            fn x_clear(&mut self) { self.clear() }
            fn x_drain(&mut self, r: impl RangeBounds<usize>) -> Result<Self::D, Error> { self.drain(r) }
            fn x_replace_range(&mut self, r: impl RangeBounds<usize>, w: impl AsRef<str>) -> Result<(), Error> { self.replace_range(r, w) }
            fn x_deref_str(&self) -> &str { $deref(self) }
            fn x_deref_mut_str(&mut self) -> &mut str { $deref_mut(self) }
            fn x_there_and_back(self) -> Self { $back(self) }
            #[cfg(feature = "serde")]
            fn x_ser(&self) -> (&'static str, Vec<u8>) { crate::serdes::ser(self) }
            #[cfg(feature = "serde")]
            fn x_de(w: &[u8], form: u8) -> Option<Self> { crate::serdes::de(w, form) }
            #[cfg(feature = "serde")]
            fn x_de_other(form: u8) -> bool { crate::serdes::de_other::<Self>(form) }
        }
    };
}
api!(CacheString, 63, |s: &'_ CacheString| -> &'_ str { let a: &ArrayString<63> = s; let p: *const str = &**a; unsafe { &*p } },
     |s: &'_ mut CacheString| -> &'_ mut str { let a: &mut ArrayString<63> = s; let p: *mut str = &mut **a; unsafe { &mut *p } },
     |s: CacheString| { let a: ArrayString<63> = *s; CacheString::from(a) });


/// Some calls on objects that nobody else knows.
fn nested<S: Api>() -> bool {
    if S::n() < 4 {
        let mut t = S::x_from_str_truncate("xyz");
        t.x_retain(|c| c == 'x');
        let a = t.x_as_str() == "x" && t.x_try_insert(2, 'y').is_err();
        let r = t.x_replace_range(0..1, "w").is_ok() && t.x_as_str() == "w";
        let d = t.x_drain(..).map_or('?', |mut d| d.next().unwrap_or('?'));
        t.extend(['v'].iter());
        return a && r && d == 'w' && t.x_pop() == Some('v') && t.x_is_empty();
    }
    let mut t = S::x_from_str_truncate("x\u{e9}y");
    t.x_retain(|c| c != 'x');
    let mut ok = t.x_as_str() == "\u{e9}y";
    ok &= t.x_try_insert_str(0, "z").is_ok() && t.x_as_str() == "z\u{e9}y";
    ok &= t.x_try_insert_str(2, "z").is_err() && t.x_replace_range(1..3, "w").is_ok() && t.x_as_str() == "zwy";
    ok &= t.x_drain(0..1).map_or('?', |mut d| d.next_back().unwrap_or('?')) == 'z' && t.x_as_str() == "wy";
    t.extend(["a", "b"].iter().copied());
    ok &= t == "wyab" && t.x_truncate(3).is_ok() && t.x_pop() == Some('a');
    let u = t.x_split_off(1);
    ok &= u.is_ok_and(|u| u == "y") && t == "w" && S::x_from_utf16_lossy(&[0xd83d, 98]).x_as_str() == "\u{fffd}b";
    t = S::x_from_chars_truncate("  v ".chars());
    t.x_trim();
    ok && t == "v" && write!(t, "{}", 7).is_ok() && t == "v7"
}

const GUARD: u8 = 0xA5;
#[repr(C)]
struct Guarded<T> { pre: [u8; 64], v: T, post: [u8; 384] }
impl<T> Guarded<T> {
    fn new(v: T) -> Box<Self> { Box::new(Guarded { pre: [GUARD; 64], v, post: [GUARD; 384] }) }
    fn ok(&self) -> bool {
        let (a, b) = (std::hint::black_box(&self.pre), std::hint::black_box(&self.post));
        a.iter().all(|x| *x == GUARD) && b.iter().all(|x| *x == GUARD)
    }
}

pub struct Obs {
    pub bytes: Vec<u8>,
    pub wf: bool,
    pub views: Vec<(&'static str, Vec<u8>)>, // views that differ from bytes
    pub st: Option<(usize, bool, usize)>,    // len, is_empty, capacity where they differ from bytes/N
}

pub trait World {
    fn cap(&self) -> usize;
    fn reset(&mut self);
    fn exec(&mut self, op: &mut Op, rt: &Rt) -> Reply;
    /// the bytes shown by the plain byte view (strings) or str view (drains); None: looking at it panicked
    fn bytes(&self, drain: bool, i: usize, out: &mut Vec<u8>) -> bool;
    fn observe(&self, drain: bool, i: usize, rt: &Rt) -> Obs;
    fn guards_ok(&self) -> bool;
}

fn err_kind(e: Error) -> &'static str {
    match e { Error::Utf8 => "utf8", Error::Utf16 => "utf16", Error::OutOfBounds => "oob" }
}
trait Kind { fn kind(self) -> &'static str; }
impl Kind for Error { fn kind(self) -> &'static str { err_kind(self) } }
impl Kind for OutOfBounds { fn kind(self) -> &'static str { "oob" } }
impl Kind for Utf8 { fn kind(self) -> &'static str { "utf8" } }
impl Kind for Utf16 { fn kind(self) -> &'static str { "utf16" } }
impl Kind for std::fmt::Error { fn kind(self) -> &'static str { "fmt" } }

fn ints(b: &[u8]) -> Vec<i64> { b.iter().map(|x| *x as i64).collect() }
fn char_ints(c: char) -> Vec<i64> { let mut b = [0; 4]; ints(c.encode_utf8(&mut b).as_bytes()) }

macro_rules! lib {
    ($rt:expr, $rep:expr, $e:expr) => {
        match $rt.call(|| $e) { Ok(v) => v, Err(k) => { $rep.k = k; return; } }
    };
}


/// Like Items, but yields references.
struct RefItems<'a, T> { items: &'a [T], rt: &'a Rt, endless: bool, panic_at: usize, hint: u8 }
impl<'a, T: Clone> Iterator for RefItems<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let n = self.rt.pulled.get();
        let mut it = Items { items: self.items, rt: self.rt, endless: self.endless, panic_at: self.panic_at, hint: self.hint };
        it.next().map(|_| &self.items[n % self.items.len()])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        Items { items: self.items, rt: self.rt, endless: self.endless, panic_at: self.panic_at, hint: self.hint }.size_hint()
    }
}

fn str_slice(xs: &[&str], h: &mut Recorder) { Hash::hash_slice(xs, h) }
fn literal(w: &str) -> bool { matches!(w, "" | "a" | "aa" | "aaa" | "\u{e9}" | "\u{20ac}" | "\u{1f600}") }

pub fn cmp8<T: Ord>(a: &T, b: &T) -> [i64; 8] {
    let c = |o: std::cmp::Ordering| match o { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 };
    [(a == b) as i64, (a != b) as i64, (a < b) as i64, (a <= b) as i64, (a > b) as i64, (a >= b) as i64,
     c(a.cmp(b)), a.partial_cmp(b).map_or(9, c)]
}
/// The same of what two iterators yield.
pub fn yields8<D: Iterator<Item = char> + Copy>(a: D, b: D) -> [i64; 8] {
    let c = |o: std::cmp::Ordering| match o { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 };
    [Iterator::eq(a, b) as i64, Iterator::ne(a, b) as i64, Iterator::lt(a, b) as i64, Iterator::le(a, b) as i64, Iterator::gt(a, b) as i64,
     Iterator::ge(a, b) as i64, c(Iterator::cmp(a, b)), Iterator::partial_cmp(a, b).map_or(9, c)]
}
#[cfg(not(feature = "allcaps"))]
macro_rules! groups {
    ($($m:ident: $($N:literal)*;)*) => {
        $($(
            api!(ArrayString<$N>, $N, |s: &'_ ArrayString<$N>| -> &'_ str { let p: *const str = &**s; unsafe { &*p } },
                 |s: &'_ mut ArrayString<$N>| -> &'_ mut str { let p: *mut str = &mut **s; unsafe { &mut *p } },
                 |s: ArrayString<$N>| s);
            impl DrainApi for Drain<$N> { fn x_as_str(&self) -> &str { self.as_str() } }
        )*)*
        $(mod $m {
            use super::*;
            include!("pop.rs");
            pub fn world(n: usize) -> Option<Box<dyn World>> {
                match n { $($N => Some(Box::new(Pop::<ArrayString<$N>>::new())),)* _ => None }
            }
        })*
        pub const CAPS: &[usize] = &[$($($N),*),*];
        pub fn array_world(n: usize) -> Option<Box<dyn World>> { None$(.or_else(|| $m::world(n)))* }
    };
}
#[cfg(not(feature = "allcaps"))]
groups! { g1: 1 2 3; g2: 4 5 7; g3: 8 16 23; g4: 32 63 64; g5: 65 127; g6: 128 200; g7: 253 254; g8: 255; }
#[cfg(feature = "allcaps")]
mod every {
    use super::*;
    use crate::any::{enter, Any, AnyWorld, Of, Ops};
    include!("pop.rs");
    macro_rules! every {
        ($($N:literal)*) => {
            $(
                api!(ArrayString<$N>, $N, |s: &'_ ArrayString<$N>| -> &'_ str { let p: *const str = &**s; unsafe { &*p } },
                     |s: &'_ mut ArrayString<$N>| -> &'_ mut str { let p: *mut str = &mut **s; unsafe { &mut *p } },
                     |s: ArrayString<$N>| s);
                impl DrainApi for Drain<$N> { fn x_as_str(&self) -> &str { self.as_str() } }
            )*
            pub const CAPS: &[usize] = &[$($N),*];
            fn ops(n: usize) -> Option<&'static dyn Ops> { match n { $($N => Some(&Of::<ArrayString<$N>>::IT),)* _ => None } }
        };
    }
    include!("allcaps.rs");
    pub fn array_world(n: usize) -> Option<Box<dyn World>> {
        let o = ops(n)?;
        enter(o);
        Some(Box::new(AnyWorld { o, w: Pop::<Any>::new() }))
    }
}
#[cfg(feature = "allcaps")]
pub use every::{array_world, CAPS};

mod cache {
    use super::*;
    include!("pop.rs");
    pub fn world() -> Box<dyn World> { Box::new(Pop::<CacheString>::new()) }
}
pub fn cache_world() -> Box<dyn World> { cache::world() }
