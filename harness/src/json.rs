//! Minimal JSON reader (numbers, strings, arrays, objects) and writing helpers.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(i64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }

impl J {
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(m) = self { m.get(k) } else { None } }
    pub fn num(&self) -> i64 { if let J::Num(n) = self { *n } else { 0 } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|x| x.num() as u8).collect() }
    pub fn n(&self, k: &str) -> i64 { self.get(k).map_or(0, |j| j.num()) }
    pub fn s(&self, k: &str) -> &str { self.get(k).map_or("", |j| j.str()) }
    pub fn b(&self, k: &str) -> Vec<u8> { self.get(k).map_or(vec![], |j| j.bytes()) }
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    Some(v)
}
fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && b[*i].is_ascii_whitespace() { *i += 1; } }
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b'}' => { *i += 1; return Some(J::Obj(m)); }
                    b',' => { *i += 1; }
                    _ => {
                        let k = match val(b, i)? { J::Str(s) => s, _ => return None };
                        ws(b, i);
                        if *b.get(*i)? != b':' { return None; }
                        *i += 1;
                        let v = val(b, i)?;
                        m.insert(k, v);
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => { *i += 1; return Some(J::Arr(a)); }
                    b',' => { *i += 1; }
                    _ => a.push(val(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o = Vec::new();
            loop {
                match *b.get(*i)? {
                    b'"' => { *i += 1; return String::from_utf8(o).ok().map(J::Str); }
                    b'\\' => {
                        *i += 1;
                        let c = *b.get(*i)?;
                        o.push(match c { b'n' => b'\n', b't' => b'\t', c => c });
                        *i += 1;
                    }
                    c => { o.push(c); *i += 1; }
                }
            }
        }
        b't' => { *i += 4; Some(J::Bool(true)) }
        b'f' => { *i += 5; Some(J::Bool(false)) }
        b'n' => { *i += 4; Some(J::Null) }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1; }
            std::str::from_utf8(&b[st..*i]).ok()?.parse().ok().map(J::Num)
        }
    }
}

pub fn put_ints<T: Copy + Into<i64>>(o: &mut String, xs: &[T]) {
    use std::fmt::Write;
    o.push('[');
    for (n, x) in xs.iter().enumerate() {
        if n > 0 { o.push(','); }
        let _ = write!(o, "{}", (*x).into());
    }
    o.push(']');
}
