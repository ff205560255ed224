//! Texts of characters of all widths.
use crate::rng::Rng;

pub const ONE: &[&str] = &["a", "b", "z", "A", "Q", " ", "\n", "\t", "0", "~", "\u{0}", "\u{7f}", "{", "@", "[", "`"];
pub const TWO: &[&str] = &["é", "ß", "\u{80}", "\u{7ff}", "\u{85}", "\u{a0}", "ø", "Ж", "\u{301}"];
pub const THREE: &[&str] = &["€", "\u{800}", "\u{ffff}", "\u{2028}", "\u{3000}", "\u{fffd}", "\u{d7ff}", "\u{e000}", "\u{200b}",
    "\u{feff}", "\u{1680}", "\u{180e}", "\u{2003}", "\u{202f}", "\u{205f}", "\u{fffe}", "語", "\u{200d}", "\u{fe0f}"];
pub const FOUR: &[&str] = &["😀", "\u{10000}", "\u{10ffff}", "\u{1f4a9}", "\u{3ffff}", "\u{40000}"];
pub const SPACES: &[&str] = &[" ", "\n", "\t", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}",
    "\u{202f}", "\u{205f}", "\u{3000}", "\u{200b}", "\u{1c}", "\u{1f}"];

/// Characters from all over Unicode.
pub fn anywhere() -> &'static [&'static str] {
    static TABLE: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| {
        let mut r = Rng::new(77);
        let mut v: Vec<&'static str> = vec![];
        while v.len() < 4000 {
            let bits = 7 + r.below(15) as u32;
            if let Some(c) = char::from_u32(r.next() as u32 & ((1 << bits) - 1)) { v.push(Box::leak(c.to_string().into_boxed_str())); }
        }
        v
    })
}

pub fn a_char(r: &mut Rng) -> &'static str {
    if r.chance(6) { return r.pick(anywhere()); }
    match r.below(10) {
        0..=3 => r.pick(ONE),
        4..=5 => r.pick(TWO),
        6..=7 => r.pick(THREE),
        8 => r.pick(FOUR),
        _ => r.pick(SPACES),
    }
}

/// A text of exactly `len` bytes when possible (style: widths used), otherwise a little longer.
pub fn text(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let style = r.below(9);
    // runs of one character at either end, behind each other or around something
    let (head, tail, from) = (a_char(r), a_char(r), if r.chance(30) { 0 } else { r.below(len + 1) });
    let to = if r.chance(50) { from } else { r.below(len + 1) };
    while s.len() < len {
        let last = s.chars().next_back();
        if let Some(c) = last { // the same again
            if style >= 7 && r.chance(12) && s.len() + c.len_utf8() <= len {
                s.push(c);
                continue;
            }
        }
        let c = match style {
            _ if last == Some('\r') && r.chance(40) => "\n",
            0 => *r.pick(ONE),
            1 => *r.pick(TWO),
            2 => *r.pick(THREE),
            3 => *r.pick(FOUR),
            4 => *r.pick(SPACES),
            5 if s.len() < from => head,
            5 if s.len() >= to => tail,
            6 if r.chance(50) => head,
            6 => tail,
            _ => a_char(r),
        };
        if s.len() + c.len() > len && r.chance(70) {
            let left = len - s.len();
            let c = match left { 1 => *r.pick(ONE), 2 => *r.pick(TWO), 3 => *r.pick(THREE), _ => c };
            s.push_str(c);
        } else {
            s.push_str(c);
        }
    }
    s
}
