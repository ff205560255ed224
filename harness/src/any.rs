//! A string whose capacity is chosen at run time, so that every capacity is executed by one executor.
//! Its bytes are those of an `ArrayString<N>`; the bytes after them tell whether somebody wrote past the end.
use crate::exec::*;
use crate::op::used_up;
use arraystring::error::{OutOfBounds, Utf16, Utf8};
use arraystring::Error;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{Arguments, Debug, Display, Formatter, Result as Fmt, Write};
use std::hash::{Hash, Hasher};
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

type P = *mut u8;
type C = *const u8;
const ROOM: usize = 288;
const FILL: u8 = 0xA5;

pub trait Ends { fn s(&self) -> Bound<&usize>; fn e(&self) -> Bound<&usize>; }
impl<R: RangeBounds<usize>> Ends for R { fn s(&self) -> Bound<&usize> { self.start_bound() } fn e(&self) -> Bound<&usize> { self.end_bound() } }
struct Via<'a>(&'a dyn Ends);
impl RangeBounds<usize> for Via<'_> {
    fn start_bound(&self) -> Bound<&usize> { self.0.s() }
    fn end_bound(&self) -> Bound<&usize> { self.0.e() }
}

macro_rules! ops {
    ($($(#[$a:meta])* fn $f:ident($($x:ident: $X:ty),*) $(-> $R:ty)? = $e:expr;)*) => {
        /// The library's operations at one capacity, on bytes.
        pub trait Ops: Sync { $($(#[$a])* fn $f(&self, $($x: $X),*) $(-> $R)?;)* }
        impl<T: Api> Ops for Of<T> { $($(#[$a])* fn $f(&self, $($x: $X),*) $(-> $R)? { $e })* }
    };
}
pub struct Of<T>(PhantomData<fn() -> T>);
impl<T> Of<T> { pub const IT: Of<T> = Of(PhantomData); }

unsafe fn m<'a, T>(p: P) -> &'a mut T { const { assert!(align_of::<T>() == 1) } &mut *(p as *mut T) }
unsafe fn r<'a, T>(p: C) -> &'a T { &*(p as *const T) }
fn put<T>(p: P, t: T) { unsafe { (p as *mut T).write(t) } }
fn put_ok<T, E>(p: P, t: Result<T, E>) -> Result<(), E> { t.map(|t| put(p, t)) }

ops! {
    fn n() -> usize = T::n();
    fn size() -> usize = size_of::<T>();
    fn dsize() -> usize = size_of::<T::D>();
    fn new(p: P) = put(p, T::x_new());
    fn default(p: P) = put(p, T::default());
    fn capacity() -> usize = T::x_capacity();
    fn try_from_str(p: P, w: &dyn AsRef<str>) -> Result<(), OutOfBounds> = put_ok(p, T::x_try_from_str(w));
    fn from_str_truncate(p: P, w: &dyn AsRef<str>) = put(p, T::x_from_str_truncate(w));
    fn parse(p: P, w: &str) -> Result<(), OutOfBounds> = put_ok(p, w.parse::<T>());
    fn from(p: P, w: &str) = put(p, T::from(w));
    fn try_from_iterator(p: P, i: &mut dyn Iterator<Item = &str>) -> Result<(), OutOfBounds> = put_ok(p, T::x_try_from_iterator(unsafe { long(i) }));
    fn from_iterator_truncate(p: P, i: &mut dyn Iterator<Item = &str>) = put(p, T::x_from_iterator_truncate(unsafe { long(i) }));
    fn collect_strs(p: P, i: &mut dyn Iterator<Item = &str>) = put(p, unsafe { long(i) }.collect::<T>());
    fn try_from_chars(p: P, i: &mut dyn Iterator<Item = char>) -> Result<(), OutOfBounds> = put_ok(p, T::x_try_from_chars(i));
    fn from_chars_truncate(p: P, i: &mut dyn Iterator<Item = char>) = put(p, T::x_from_chars_truncate(i));
    fn collect_chars(p: P, i: &mut dyn Iterator<Item = char>) = put(p, i.collect::<T>());
    fn extend_chars(p: P, i: &mut dyn Iterator<Item = char>) = unsafe { m::<T>(p) }.extend(i);
    fn extend_char_refs(p: P, i: &mut dyn Iterator<Item = &char>) = unsafe { m::<T>(p) }.extend(unsafe { long_c(i) });
    fn extend_strs(p: P, i: &mut dyn Iterator<Item = &str>) = unsafe { m::<T>(p) }.extend(unsafe { long(i) });
    fn try_from_utf16(p: P, u: &[u16]) -> Result<(), Error> = put_ok(p, T::x_try_from_utf16(u));
    fn from_utf16_truncate(p: P, u: &[u16]) -> Result<(), Utf16> = put_ok(p, T::x_from_utf16_truncate(u));
    fn from_utf16_lossy(p: P, u: &[u16]) = put(p, T::x_from_utf16_lossy(u));
    fn split_off(p: P, at: usize, out: P) -> Result<(), Error> = put_ok(out, unsafe { m::<T>(p) }.x_split_off(at));
    fn drain(p: P, e: &dyn Ends, out: P) -> Result<(), Error> = put_ok(out, unsafe { m::<T>(p) }.x_drain(Via(e)));
    fn replace_range(p: P, e: &dyn Ends, w: &dyn AsRef<str>) -> Result<(), Error> = unsafe { m::<T>(p) }.x_replace_range(Via(e), w);
    fn try_push_str(p: P, w: &dyn AsRef<str>) -> Result<(), OutOfBounds> = unsafe { m::<T>(p) }.x_try_push_str(w);
    fn push_str_truncate(p: P, w: &dyn AsRef<str>) = unsafe { m::<T>(p) }.x_push_str_truncate(w);
    fn try_push(p: P, c: char) -> Result<(), OutOfBounds> = unsafe { m::<T>(p) }.x_try_push(c);
    fn truncate(p: P, k: usize) -> Result<(), Utf8> = unsafe { m::<T>(p) }.x_truncate(k);
    fn pop(p: P) -> Option<char> = unsafe { m::<T>(p) }.x_pop();
    fn trim(p: P) = unsafe { m::<T>(p) }.x_trim();
    fn clear(p: P) = unsafe { m::<T>(p) }.x_clear();
    fn remove(p: P, i: usize) -> Result<char, Error> = unsafe { m::<T>(p) }.x_remove(i);
    fn retain(p: P, f: &mut dyn FnMut(char) -> bool) = unsafe { m::<T>(p) }.x_retain(f);
    fn try_insert(p: P, i: usize, c: char) -> Result<(), Error> = unsafe { m::<T>(p) }.x_try_insert(i, c);
    fn try_insert_str(p: P, i: usize, w: &dyn AsRef<str>) -> Result<(), Error> = unsafe { m::<T>(p) }.x_try_insert_str(i, w);
    fn insert_str_truncate(p: P, i: usize, w: &dyn AsRef<str>) -> Result<(), Error> = unsafe { m::<T>(p) }.x_insert_str_truncate(i, w);
    fn add(p: P, w: &str) = { let t = *unsafe { r::<T>(p) }; put(p, t + w) };
    fn write_str(p: P, w: &str) -> Fmt = unsafe { m::<T>(p) }.write_str(w);
    fn write_char(p: P, c: char) -> Fmt = unsafe { m::<T>(p) }.write_char(c);
    fn write_fmt(p: P, a: Arguments) -> Fmt = Write::write_fmt(unsafe { m::<T>(p) }, a);
    fn len(p: C) -> usize = unsafe { r::<T>(p) }.x_len();
    fn is_empty(p: C) -> bool = unsafe { r::<T>(p) }.x_is_empty();
    fn as_str(p: C, which: u8) -> *const str = { let t = unsafe { r::<T>(p) }; match which { 0 => t.x_as_str(), 1 => AsRef::<str>::as_ref(t), 2 => t.x_deref_str(), _ => Borrow::<str>::borrow(t) } };
    fn as_bytes(p: C) -> *const [u8] = AsRef::<[u8]>::as_ref(unsafe { r::<T>(p) });
    fn as_mut(p: P, which: u8) -> *mut str = { let t = unsafe { m::<T>(p) }; match which { 0 => t.x_as_mut_str(), 1 => AsMut::<str>::as_mut(t), 2 => t.x_deref_mut_str(), _ => BorrowMut::<str>::borrow_mut(t) } };
    fn index(p: C, b: (u8, u8, u8, u8)) -> *const str = {
        let (t, x, y) = (unsafe { r::<T>(p) }, b.1, b.3);
        match (b.0, b.2) { (0, 0) => &t[..], (1, 0) => &t[x..], (0, 2) => &t[..y], (0, _) => &t[..=y], (_, 2) => &t[x..y], (_, 3) => &t[used_up(x)], _ => &t[x..=y] }
    };
    fn index_mut(p: P, b: (u8, u8, u8, u8)) -> *mut str = {
        let (t, x, y) = (unsafe { m::<T>(p) }, b.1, b.3);
        match (b.0, b.2) { (0, 0) => &mut t[..], (1, 0) => &mut t[x..], (0, 2) => &mut t[..y], (0, _) => &mut t[..=y], (_, 2) => &mut t[x..y], (_, 3) => &mut t[used_up(x)], _ => &mut t[x..=y] }
    };
    fn clone(p: C, out: P) = put(out, unsafe { r::<T>(p) }.clone());
    fn clone_from(p: P, q: C) = unsafe { m::<T>(p).clone_from(r::<T>(q)) };
    fn display(p: C, f: &mut Formatter) -> Fmt = Display::fmt(unsafe { r::<T>(p) }, f);
    fn debug(p: C, f: &mut Formatter) -> Fmt = Debug::fmt(unsafe { r::<T>(p) }, f);
    fn hash(p: C, h: &mut dyn Hasher) = unsafe { r::<T>(p) }.hash(&mut { h });
    fn hash_two(p: C, q: C, h: &mut dyn Hasher) = T::hash_slice(&unsafe { [*r::<T>(p), *r::<T>(q)] }, &mut { h });
    fn cmp(p: C, q: C) -> [i64; 8] = unsafe { cmp8(r::<T>(p), r::<T>(q)) };
    fn max(p: C, q: C, out: P) = put(out, unsafe { Ord::max(*r::<T>(p), *r::<T>(q)) });
    fn min(p: C, q: C, out: P) = put(out, unsafe { Ord::min(*r::<T>(p), *r::<T>(q)) });
    fn eq_str(p: C, w: &str) -> [bool; 4] = { let t = unsafe { r::<T>(p) }; [*t == *w, *t != *w, *t == w, *t != w] };
    fn there_and_back(p: C, out: P) = put(out, unsafe { r::<T>(p) }.x_there_and_back());
    fn d_default(p: P) = put(p, T::D::default());
    fn d_clone(p: C, out: P) = put(out, unsafe { r::<T::D>(p) }.clone());
    fn d_as_str(p: C) -> *const str = unsafe { r::<T::D>(p) }.x_as_str();
    fn d_debug(p: C, f: &mut Formatter) -> Fmt = Debug::fmt(unsafe { r::<T::D>(p) }, f);
    fn d_hash(p: C, h: &mut dyn Hasher) = unsafe { r::<T::D>(p) }.hash(&mut { h });
    fn d_cmp(p: C, q: C) -> [i64; 8] = unsafe { cmp8(r::<T::D>(p), r::<T::D>(q)) };
    fn d_next(p: P, back: bool, n: usize) -> Option<char> = { let d = unsafe { m::<T::D>(p) }; match (back, n) { (false, 0) => d.next(), (true, 0) => d.next_back(), (false, n) => d.nth(n), (_, n) => d.nth_back(n) } };
    fn d_size_hint(p: C) -> (usize, Option<usize>) = unsafe { r::<T::D>(p) }.size_hint();
}
unsafe fn long<'a>(i: &'a mut dyn Iterator<Item = &str>) -> &'a mut dyn Iterator<Item = &'a str> { std::mem::transmute(i) }
unsafe fn long_c<'a>(i: &'a mut dyn Iterator<Item = &char>) -> &'a mut dyn Iterator<Item = &'a char> { std::mem::transmute(i) }

thread_local! { static NOW: Cell<&'static dyn Ops> = const { Cell::new(&Of::<arraystring::ArrayString<1>>::IT) }; }
/// From here on, new strings have this capacity.
pub fn enter(o: &'static dyn Ops) { NOW.set(o); }

#[derive(Copy)]
#[repr(C)]
pub struct Any { at: [u8; ROOM], o: &'static dyn Ops }
#[derive(Copy)]
#[repr(C)]
pub struct AnyDrain { at: [u8; ROOM], o: &'static dyn Ops }

impl Any {
    fn blank() -> Any { Any { at: [FILL; ROOM], o: NOW.get() } }
    fn made(f: impl FnOnce(&'static dyn Ops, P)) -> Any { let mut a = Self::blank(); f(a.o, a.at.as_mut_ptr()); a }
    fn tried<E>(f: impl FnOnce(&'static dyn Ops, P) -> Result<(), E>) -> Result<Any, E> { let mut a = Self::blank(); f(a.o, a.at.as_mut_ptr()).map(|()| a) }
    fn p(&mut self) -> P { self.at.as_mut_ptr() }
    fn c(&self) -> C { self.at.as_ptr() }
}
impl AnyDrain {
    fn made(f: impl FnOnce(&'static dyn Ops, P)) -> AnyDrain { let mut a = AnyDrain { at: [FILL; ROOM], o: NOW.get() }; f(a.o, a.at.as_mut_ptr()); a }
    fn p(&mut self) -> P { self.at.as_mut_ptr() }
    fn c(&self) -> C { self.at.as_ptr() }
}
impl Clone for Any {
    fn clone(&self) -> Self { Any::made(|o, p| o.clone(self.c(), p)) }
    fn clone_from(&mut self, x: &Self) { self.o.clone_from(self.p(), x.c()) }
}
impl Clone for AnyDrain { fn clone(&self) -> Self { AnyDrain::made(|o, p| o.d_clone(self.c(), p)) } }
impl Default for Any { fn default() -> Self { Any::made(|o, p| o.default(p)) } }
impl Default for AnyDrain { fn default() -> Self { AnyDrain::made(|o, p| o.d_default(p)) } }
impl FromStr for Any { type Err = OutOfBounds; fn from_str(w: &str) -> Result<Self, OutOfBounds> { Any::tried(|o, p| o.parse(p, w)) } }
impl From<&str> for Any { fn from(w: &str) -> Self { Any::made(|o, p| o.from(p, w)) } }
impl Debug for Any { fn fmt(&self, f: &mut Formatter) -> Fmt { self.o.debug(self.c(), f) } }
impl Debug for AnyDrain { fn fmt(&self, f: &mut Formatter) -> Fmt { self.o.d_debug(self.c(), f) } }
impl Display for Any { fn fmt(&self, f: &mut Formatter) -> Fmt { self.o.display(self.c(), f) } }
impl Write for Any {
    fn write_str(&mut self, w: &str) -> Fmt { self.o.write_str(self.p(), w) }
    fn write_char(&mut self, c: char) -> Fmt { self.o.write_char(self.p(), c) }
    fn write_fmt(&mut self, a: Arguments) -> Fmt { self.o.write_fmt(self.p(), a) }
}
impl Hash for Any {
    fn hash<H: Hasher>(&self, h: &mut H) { self.o.hash(self.c(), h) }
    fn hash_slice<H: Hasher>(xs: &[Self], h: &mut H) {
        match xs { [a, b] => a.o.hash_two(a.c(), b.c(), h), _ => xs.iter().for_each(|x| x.hash(h)) }
    }
}
impl Hash for AnyDrain { fn hash<H: Hasher>(&self, h: &mut H) { self.o.d_hash(self.c(), h) } }
fn order(x: i64) -> Option<Ordering> { match x { 0 => Some(Ordering::Less), 1 => Some(Ordering::Equal), 2 => Some(Ordering::Greater), _ => None } }
macro_rules! compare {
    ($T:ident, $f:ident) => {
        impl PartialEq for $T { fn eq(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[0] == 1 } fn ne(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[1] == 1 } }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, x: &Self) -> Option<Ordering> { order(self.o.$f(self.c(), x.c())[7]) }
            fn lt(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[2] == 1 }
            fn le(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[3] == 1 }
            fn gt(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[4] == 1 }
            fn ge(&self, x: &Self) -> bool { self.o.$f(self.c(), x.c())[5] == 1 }
        }
    };
}
compare!(Any, cmp);
compare!(AnyDrain, d_cmp);
impl Ord for Any {
    fn cmp(&self, x: &Self) -> Ordering { order(self.o.cmp(self.c(), x.c())[6]).unwrap() }
    fn max(self, x: Self) -> Self { Any::made(|o, p| o.max(self.c(), x.c(), p)) }
    fn min(self, x: Self) -> Self { Any::made(|o, p| o.min(self.c(), x.c(), p)) }
}
impl Ord for AnyDrain { fn cmp(&self, x: &Self) -> Ordering { order(self.o.d_cmp(self.c(), x.c())[6]).unwrap() } }
impl PartialEq<str> for Any { fn eq(&self, w: &str) -> bool { self.o.eq_str(self.c(), w)[0] } fn ne(&self, w: &str) -> bool { self.o.eq_str(self.c(), w)[1] } }
impl PartialEq<&str> for Any { fn eq(&self, w: &&str) -> bool { self.o.eq_str(self.c(), w)[2] } fn ne(&self, w: &&str) -> bool { self.o.eq_str(self.c(), w)[3] } }
impl Borrow<str> for Any { fn borrow(&self) -> &str { unsafe { &*self.o.as_str(self.c(), 3) } } }
impl BorrowMut<str> for Any { fn borrow_mut(&mut self) -> &mut str { unsafe { &mut *self.o.as_mut(self.p(), 3) } } }
impl AsRef<str> for Any { fn as_ref(&self) -> &str { unsafe { &*self.o.as_str(self.c(), 1) } } }
impl AsMut<str> for Any { fn as_mut(&mut self) -> &mut str { unsafe { &mut *self.o.as_mut(self.p(), 1) } } }
impl AsRef<[u8]> for Any { fn as_ref(&self) -> &[u8] { unsafe { &*self.o.as_bytes(self.c()) } } }
impl Deref for Any { type Target = str; fn deref(&self) -> &str { unsafe { &*self.o.as_str(self.c(), 2) } } }
impl DerefMut for Any { fn deref_mut(&mut self) -> &mut str { unsafe { &mut *self.o.as_mut(self.p(), 2) } } }
impl Add<&str> for Any { type Output = Self; fn add(mut self, w: &str) -> Self { self.o.add(self.p(), w); self } }
impl FromIterator<char> for Any { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { Any::made(|o, p| o.collect_chars(p, &mut i.into_iter())) } }
impl<'a> FromIterator<&'a str> for Any { fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Self { Any::made(|o, p| o.collect_strs(p, &mut i.into_iter())) } }
impl Extend<char> for Any { fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) { self.o.extend_chars(self.p(), &mut i.into_iter()) } }
impl<'a> Extend<&'a char> for Any {
    fn extend<I: IntoIterator<Item = &'a char>>(&mut self, i: I) {
        let mut i = i.into_iter();
        let i: &mut dyn Iterator<Item = &'a char> = &mut i;
        self.o.extend_char_refs(self.p(), unsafe { std::mem::transmute::<&mut dyn Iterator<Item = &'a char>, &mut dyn Iterator<Item = &'static char>>(i) })
    }
}
impl<'a> Extend<&'a str> for Any { fn extend<I: IntoIterator<Item = &'a str>>(&mut self, i: I) { self.o.extend_strs(self.p(), &mut i.into_iter()) } }
macro_rules! indices {
    ($($R:ty, $x:ident => $b:expr;)*) => { $(
        impl Index<$R> for Any { type Output = str; fn index(&self, $x: $R) -> &str { unsafe { &*self.o.index(self.c(), $b) } } }
        impl IndexMut<$R> for Any { fn index_mut(&mut self, $x: $R) -> &mut str { unsafe { &mut *self.o.index_mut(self.p(), $b) } } }
    )* };
}
indices! {
    RangeFull, _x => (0, 0, 0, 0);
    RangeFrom<u8>, x => (1, x.start, 0, 0);
    RangeTo<u8>, x => (0, 0, 2, x.end);
    RangeToInclusive<u8>, x => (0, 0, 1, x.end);
    Range<u8>, x => (1, x.start, 2, x.end);
    RangeInclusive<u8>, x => (1, *x.start(), if x.is_empty() && x.start() == x.end() { 3 } else { 1 }, *x.end());
}

impl Api for Any {
    type D = AnyDrain;
    fn n() -> usize { NOW.get().n() }
    fn x_new() -> Self { Any::made(|o, p| o.new(p)) }
    fn x_capacity() -> usize { NOW.get().capacity() }
    fn x_try_from_str(w: impl AsRef<str>) -> Result<Self, OutOfBounds> { Any::tried(|o, p| o.try_from_str(p, &w)) }
    fn x_from_str_truncate(w: impl AsRef<str>) -> Self { Any::made(|o, p| o.from_str_truncate(p, &w)) }
    fn x_try_from_iterator<'a>(i: impl IntoIterator<Item = &'a str>) -> Result<Self, OutOfBounds> { Any::tried(|o, p| o.try_from_iterator(p, &mut i.into_iter())) }
    fn x_from_iterator_truncate<'a>(i: impl IntoIterator<Item = &'a str>) -> Self { Any::made(|o, p| o.from_iterator_truncate(p, &mut i.into_iter())) }
    fn x_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds> { Any::tried(|o, p| o.try_from_chars(p, &mut i.into_iter())) }
    fn x_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self { Any::made(|o, p| o.from_chars_truncate(p, &mut i.into_iter())) }
    fn x_try_from_utf16(u: &[u16]) -> Result<Self, Error> { Any::tried(|o, p| o.try_from_utf16(p, u)) }
    fn x_from_utf16_truncate(u: &[u16]) -> Result<Self, Utf16> { Any::tried(|o, p| o.from_utf16_truncate(p, u)) }
    fn x_from_utf16_lossy(u: &[u16]) -> Self { Any::made(|o, p| o.from_utf16_lossy(p, u)) }
    fn x_split_off(&mut self, at: usize) -> Result<Self, Error> { Any::tried(|o, p| o.split_off(self.p(), at, p)) }
    fn x_as_str(&self) -> &str { unsafe { &*self.o.as_str(self.c(), 0) } }
    fn x_as_mut_str(&mut self) -> &mut str { unsafe { &mut *self.o.as_mut(self.p(), 0) } }
    fn x_try_push_str(&mut self, w: impl AsRef<str>) -> Result<(), OutOfBounds> { self.o.try_push_str(self.p(), &w) }
    fn x_push_str_truncate(&mut self, w: impl AsRef<str>) { self.o.push_str_truncate(self.p(), &w) }
    fn x_try_push(&mut self, c: char) -> Result<(), OutOfBounds> { self.o.try_push(self.p(), c) }
    fn x_truncate(&mut self, k: usize) -> Result<(), Utf8> { self.o.truncate(self.p(), k) }
    fn x_pop(&mut self) -> Option<char> { self.o.pop(self.p()) }
    fn x_trim(&mut self) { self.o.trim(self.p()) }
    fn x_remove(&mut self, i: usize) -> Result<char, Error> { self.o.remove(self.p(), i) }
    fn x_retain(&mut self, mut f: impl FnMut(char) -> bool) { self.o.retain(self.p(), &mut f) }
    fn x_try_insert(&mut self, i: usize, c: char) -> Result<(), Error> { self.o.try_insert(self.p(), i, c) }
    fn x_try_insert_str(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error> { self.o.try_insert_str(self.p(), i, &w) }
    fn x_insert_str_truncate(&mut self, i: usize, w: impl AsRef<str>) -> Result<(), Error> { self.o.insert_str_truncate(self.p(), i, &w) }
    fn x_len(&self) -> usize { self.o.len(self.c()) }
    fn x_is_empty(&self) -> bool { self.o.is_empty(self.c()) }
    fn x_clear(&mut self) { self.o.clear(self.p()) }
    fn x_drain(&mut self, r: impl RangeBounds<usize>) -> Result<AnyDrain, Error> {
        let mut d = AnyDrain { at: [FILL; ROOM], o: self.o };
        self.o.drain(self.p(), &r, d.p()).map(|()| d)
    }
    fn x_replace_range(&mut self, r: impl RangeBounds<usize>, w: impl AsRef<str>) -> Result<(), Error> { self.o.replace_range(self.p(), &r, &w) }
    fn x_deref_str(&self) -> &str { unsafe { &*self.o.as_str(self.c(), 2) } }
    fn x_deref_mut_str(&mut self) -> &mut str { unsafe { &mut *self.o.as_mut(self.p(), 2) } }
    fn x_there_and_back(self) -> Self { Any::made(|o, p| o.there_and_back(self.c(), p)) }
    fn x_intact(&self) -> bool { self.at[self.o.size()..].iter().all(|b| *b == FILL) }
    #[cfg(feature = "serde")]
    fn x_ser(&self) -> (&'static str, Vec<u8>) { unimplemented!() }
    #[cfg(feature = "serde")]
    fn x_de(_: &[u8], _: u8) -> Option<Self> { unimplemented!() }
    #[cfg(feature = "serde")]
    fn x_de_other(_: u8) -> bool { unimplemented!() }
}
impl Iterator for AnyDrain {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.o.d_next(self.p(), false, 0) }
    fn nth(&mut self, n: usize) -> Option<char> { self.o.d_next(self.p(), false, n) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.o.d_size_hint(self.c()) }
}
impl DoubleEndedIterator for AnyDrain {
    fn next_back(&mut self) -> Option<char> { self.o.d_next(self.p(), true, 0) }
    fn nth_back(&mut self, n: usize) -> Option<char> { self.o.d_next(self.p(), true, n) }
}
impl FusedIterator for AnyDrain {}
impl DrainApi for AnyDrain {
    fn x_as_str(&self) -> &str { unsafe { &*self.o.d_as_str(self.c()) } }
    fn x_intact(&self) -> bool { self.at[self.o.dsize()..].iter().all(|b| *b == FILL) }
}

/// A world of strings of one of the capacities.
pub struct AnyWorld<W> { pub o: &'static dyn Ops, pub w: W }
impl<W: World> World for AnyWorld<W> {
    fn cap(&self) -> usize { self.o.n() }
    fn reset(&mut self) { enter(self.o); self.w.reset() }
    fn exec(&mut self, op: &mut crate::op::Op, rt: &Rt) -> Reply { enter(self.o); self.w.exec(op, rt) }
    fn bytes(&self, drain: bool, i: usize, out: &mut Vec<u8>) -> bool { enter(self.o); self.w.bytes(drain, i, out) }
    fn observe(&self, drain: bool, i: usize, rt: &Rt) -> Obs { enter(self.o); self.w.observe(drain, i, rt) }
    fn guards_ok(&self) -> bool { enter(self.o); self.w.guards_ok() }
}
