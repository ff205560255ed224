//! Layout and filling of every capacity, as events for spec/Capacity.tla.
#![allow(clippy::all)]
use arraystring::{ArrayString, CacheString};
use arraystring::prelude::{MaxString, SmallString};
use std::io::Write;
use std::mem::{align_of, size_of};

fn ints(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

/// A text of exactly len bytes; style says which characters it ends with.
fn text(len: usize, style: usize) -> String {
    let tail = ["", "é", "€", "😀", "é😀€"][style % 5];
    if tail.len() > len { return "z".repeat(len); }
    let mut s = "y".repeat(len - tail.len());
    s.push_str(tail);
    s
}
/// Made of one kind of character only, about len bytes.
fn dense(len: usize, style: usize) -> String { ["q", "ß", "語", "\u{10ffff}"][style % 4].repeat((len + 3) / [1, 2, 3, 4][style % 4]) }

macro_rules! fills {
    ($out:ident, $T:ty, $n:expr) => {
        let n: usize = $n;
        let mut ws: Vec<String> = Vec::new();
        for l in n.saturating_sub(4)..=n + 5 { for st in 0..5 { ws.push(text(l, st)); } }
        for st in 0..4 { ws.push(dense(n, st)); ws.push(dense(n + 1, st)); ws.push(dense(n.saturating_sub(1), st)); ws.push(dense(256 + n, st)); }
        ws.push(text(256, 0)); ws.push(text(256 + n, 1)); ws.push(String::new());
        ws.sort(); ws.dedup();
        for w in ws {
            let r = std::panic::catch_unwind(|| {
                let a = <$T>::try_from_str(&w);
                let (k, p) = match &a { Ok(s) => ("ok", s.as_bytes().to_vec()), Err(_) => ("oob", vec![]) };
                let t = <$T>::from_str_truncate(&w);
                let c = t;                                  // and survives being moved about
                let moved = vec![c, c, c];
                let same = moved.iter().all(|m| m.as_bytes() == t.as_bytes()) && moved[1] == t;
                // push up to the brim, one character at a time
                let mut full = <$T>::new();
                for ch in w.chars() { if full.try_push(ch).is_err() { break; } }
                (k, p, t.as_bytes().to_vec(), t.len() as i64, same, full.as_bytes().to_vec())
            });
            let (k, p, t, l, same, full) = r.unwrap_or(("panic", vec![], vec![], -1, false, vec![]));
            writeln!($out, "{{\"op\":\"fill\",\"n\":{},\"w\":{},\"k\":\"{}\",\"p\":{},\"tr\":{},\"len\":{},\"same\":{},\"full\":{}}}",
                     n, ints(w.as_bytes()), k, ints(&p), ints(&t), l, same as u8, ints(&full)).unwrap();
        }
    };
}
macro_rules! layout {
    ($out:ident, $name:expr, $T:ty, $n:expr) => {
        writeln!($out, "{{\"op\":\"layout\",\"name\":\"{}\",\"n\":{},\"size\":{},\"align\":{},\"cap\":{},\"string\":{},\"array4\":{}}}",
                 $name, $n, size_of::<$T>(), align_of::<$T>(), <$T>::capacity(), size_of::<String>(), size_of::<[$T; 4]>()).unwrap();
    };
}
macro_rules! all {
    ($out:ident $($n:literal)*) => {{ $( {
        fn one(out: &mut std::io::BufWriter<std::fs::File>) { layout!(out, "array", ArrayString<$n>, $n); fills!(out, ArrayString<$n>, $n); }
        one(&mut $out);
    } )*}};
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("out");
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).expect("out"));
    layout!(out, "cache", CacheString, 63);
    fills!(out, CacheString, 63);
    layout!(out, "max", MaxString, 255);
    fills!(out, MaxString, 255);
    layout!(out, "small", SmallString, size_of::<String>() - 1);
    fills!(out, SmallString, size_of::<String>() - 1);
    all!(out
        1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25
        26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50
        51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75
        76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100
        101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125
        126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150
        151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
        176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200
        201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225
        226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250
        251 252 253 254 255
    );
    out.flush().unwrap();
}
