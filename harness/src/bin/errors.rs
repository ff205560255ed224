//! Every conversion between errors and every pair of them, as events for spec/Errors.tla.
#![allow(clippy::all)]
use arraystring::error::{Error, OutOfBounds, Utf16, Utf8};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write;

fn kind(e: &Error) -> &'static str { match e { Error::Utf8 => "utf8", Error::Utf16 => "utf16", Error::OutOfBounds => "oob" } }
struct Stream(Vec<u8>);
impl Hasher for Stream { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn stream(e: &Error) -> Vec<u8> { let mut s = Stream(vec![]); e.hash(&mut s); s.0 }
fn hash(e: &Error) -> u64 { let mut s = DefaultHasher::new(); e.hash(&mut s); s.finish() }
fn question<E>(r: Result<(), E>) -> Result<(), Error> where Error: From<E> { r?; Ok(()) }

/// Ways of asking for a message (none that asks for less than the whole)
macro_rules! ways { ($e:expr) => { vec![format!("{}", $e), format!("{:#}", $e), format!("{:30}", $e), format!("{:<3}", $e), format!("{:+}", $e),
    format!("{:012}", $e), format!("{:*^#25}", $e), $e.to_string()] } }
macro_rules! debug_ways { ($e:expr) => { vec![format!("{:?}", $e), format!("{:#?}", $e), format!("{:30?}", $e), format!("{:x?}", $e), format!("{:+?}", $e),
    format!("{:012?}", $e), format!("{:*^#25X?}", $e)] } }
/// All alike, or none?
fn alike(a: &[String], b: &[String]) -> u8 {
    let n = a.iter().zip(b).filter(|(x, y)| x == y).count();
    if n == a.len() { 1 } else if n == 0 { 0 } else { 2 }
}
fn slice(e: &[Error]) -> Vec<u8> { let mut s = Stream(vec![]); Hash::hash_slice(e, &mut s); s.0 }

fn main() {
    let path = std::env::args().nth(1).expect("out");
    let mut o = std::fs::File::create(path).expect("out");
    let mut conv = |what: &str, e: Error| {
        let (src, via) = what.split_once('/').unwrap_or((what, "from"));
        writeln!(o, "{{\"op\":\"conv\",\"src\":\"{src}\",\"via\":\"{via}\",\"got\":\"{}\"}}", kind(&e)).unwrap()
    };
    // from this crate's specific errors
    conv("Utf8", Error::from(Utf8));
    conv("Utf16", Error::from(Utf16));
    conv("OutOfBounds", Error::from(OutOfBounds));
    conv("Utf8/question", question(Err(Utf8)).unwrap_err());
    conv("Utf16/question", question(Err(Utf16)).unwrap_err());
    conv("OutOfBounds/question", question(Err(OutOfBounds)).unwrap_err());
    conv("Utf8/default", Utf8::default().into());
    conv("Utf16/default", Utf16::default().into());
    conv("OutOfBounds/default", OutOfBounds::default().into());
    // from the standard library's
    for b in [&b"\xff"[..], b"a\xc3", b"\xed\xa0\x80", b"ab\xe2\x82", b"\xf4\x90\x80\x80", b"\x80", b"\xc0\xaf"] {
        let e = std::str::from_utf8(b).unwrap_err();
        conv("Utf8Error", Error::from(e));
        conv("Utf8Error/Utf8", Error::from(Utf8::from(e)));
        conv("Utf8Error/question", question(Err(e)).unwrap_err());
    }
    for u in [&[0xD800u16][..], &[0xDC00], &[97, 0xDBFF], &[0xD83D, 97], &[0xDFFF, 0xD800]] {
        for e in char::decode_utf16(u.iter().copied()).filter_map(|c| c.err()) {
            conv("DecodeUtf16Error", Error::from(e.clone()));
            conv("DecodeUtf16Error/Utf16", Error::from(Utf16::from(e.clone())));
            conv("DecodeUtf16Error/question", question(Err(e)).unwrap_err());
        }
    }
    for s in ["", "a", "é😀"] {
        conv("EncodeUtf16", Error::from(s.encode_utf16()));
        conv("EncodeUtf16/Utf16", Error::from(Utf16::from(s.encode_utf16())));
    }
    // pairs of general errors, however they were made
    let all: Vec<(&str, Error)> = vec![
        ("utf8", Error::Utf8), ("utf16", Error::Utf16), ("oob", Error::OutOfBounds),
        ("utf8", Utf8.into()), ("utf16", Utf16.into()), ("oob", OutOfBounds.into()),
        ("utf8", std::str::from_utf8(b"\xff").unwrap_err().into()),
        ("utf16", char::decode_utf16([0xD800u16]).next().unwrap().unwrap_err().into()),
    ];
    for (xk, x) in &all {
        for (yk, y) in &all {
            let shown = alike(&ways!(x), &ways!(y));
            let debugged = alike(&debug_ways!(x), &debug_ways!(y));
            let boxed: [Box<dyn std::error::Error>; 2] = [Box::new(*x), Box::new(*y)];
            let shown = if (boxed[0].to_string() == boxed[1].to_string()) as u8 == shown { shown } else { 2 };
            let stream = (stream(x) == stream(y)) as u8;
            let stream = if (slice(&[*x, *y]) == slice(&[*y, *x])) as u8 == stream { stream } else { 2 };
            let copy = *y;
            writeln!(o, "{{\"op\":\"pair\",\"x\":\"{xk}\",\"y\":\"{yk}\",\"eq\":{},\"ne\":{},\"hash\":{},\"stream\":{},\"shown\":{},\"debug\":{},\"copy\":{}}}",
                (x == y) as u8, (x != y) as u8, (hash(x) == hash(y)) as u8, stream, shown, debugged,
                (copy == *y && kind(&copy) == kind(y)) as u8).unwrap();
        }
    }
    // the specific errors show like the general error of their kind, and only like that
    let specific = vec![
        ("utf8", ways!(Utf8), debug_ways!(Utf8)), ("utf16", ways!(Utf16), debug_ways!(Utf16)),
        ("oob", ways!(OutOfBounds), debug_ways!(OutOfBounds))];
    for (xk, shown, _) in &specific {
        for (yk, y) in &all {
            writeln!(o, "{{\"op\":\"show\",\"x\":\"{xk}\",\"y\":\"{yk}\",\"same\":{}}}", alike(shown, &ways!(y))).unwrap();
        }
    }
    for (xk, _, a) in &specific { for (yk, _, b) in &specific {
        writeln!(o, "{{\"op\":\"debug\",\"x\":\"{xk}\",\"y\":\"{yk}\",\"same\":{}}}", alike(a, b)).unwrap();
    } }
    writeln!(o, "{{\"op\":\"self\",\"ok\":{}}}", (Utf8 == Utf8 && Utf16 == Utf16 && OutOfBounds == OutOfBounds
        && !(Utf8 != Utf8) && !(Utf16 != Utf16) && !(OutOfBounds != OutOfBounds)) as u8).unwrap();
    // a failing sink is reported
    struct No;
    impl std::fmt::Write for No { fn write_str(&mut self, _: &str) -> std::fmt::Result { Err(std::fmt::Error) } }
    for (xk, x) in &all {
        writeln!(o, "{{\"op\":\"sink\",\"x\":\"{xk}\",\"failed\":{}}}", [write!(No, "{x}"), write!(No, "{x:?}"), write!(No, "{x:#}"), write!(No, "{x:#?}"), write!(No, "{x:20}"), write!(No, "{x:20?}")].iter().all(|r| r.is_err()) as u8).unwrap();
    }
}
