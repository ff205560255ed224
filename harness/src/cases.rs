//! Executes cases enumerated from the specification (call, state, allowed outcomes) on the library,
//! each from several histories that lead to the same text, and writes down those that come out differently.
use crate::json::{self, J};
use crate::op::{Code, Op};
use crate::run::{Run, Step};
#[cfg(feature = "serde")]
const FORMS: usize = crate::serdes::FORMS as usize;
#[cfg(not(feature = "serde"))]
const FORMS: usize = 1;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn with_w(code: Code, i: usize, w: &[u8]) -> Op { let mut o = Op::new(code); o.i = i; o.w = w.to_vec(); o }

/// Calls that leave string i with text t.
fn prepare(out: &mut Vec<Op>, how: usize, n: usize, i: usize, t: &[u8]) {
    match how {
        0 => out.push(with_w(Code::FromStrTruncate, i, t)),
        1 => {
            out.push(with_w(Code::FromStrTruncate, i, &vec![b'Z'; n]));
            out.push(Op { i, ..Op::new(Code::Clear) });
            out.push(with_w(Code::TryPushStr, i, t));
        }
        2 => {
            // leave bytes of a cut-off multi-byte tail behind the text
            let mut long = t.to_vec();
            while long.len() + 4 <= n { long.extend_from_slice("\u{10ffff}".as_bytes()); }
            while long.len() + 2 <= n { long.extend_from_slice("ÿ".as_bytes()); }
            while long.len() < n { long.push(b'q'); }
            out.push(with_w(Code::FromStrTruncate, i, &long));
            out.push(Op { i, ix: t.len(), ..Op::new(Code::Truncate) });
        }
        _ => {
            let fill: String = std::iter::repeat('é').take(n / 2).collect();
            out.push(with_w(Code::FromStrTruncate, i, fill.as_bytes()));
            out.push(Op { i, r: (0, 0, 0, 0), ..Op::new(Code::ReplaceRange) });
            for c in std::str::from_utf8(t).expect("harness: text").chars().rev() {
                out.push(with_w(Code::TryInsert, i, c.to_string().as_bytes()));
            }
        }
    }
}

fn prepare_drain(out: &mut Vec<Op>, how: usize, n: usize, i: usize, t: &[u8]) {
    let all = |j: usize| Op { i: 2, j, r: (0, 0, 0, 0), ..Op::new(Code::Drain) };
    if how == 2 && t.len() < n {
        let mut w = b"x".to_vec();
        w.extend_from_slice(t);
        prepare(out, 0, n, 2, &w);
        out.push(all(i));
        out.push(Op { i, ..Op::new(Code::DNext) });
    } else if how == 3 && t.len() + 2 <= n {
        let mut w = t.to_vec();
        w.extend_from_slice("é".as_bytes());
        prepare(out, 1, n, 2, &w);
        out.push(all(i));
        out.push(Op { i, ..Op::new(Code::DNextBack) });
    } else {
        prepare(out, how, n, 2, t);
        out.push(all(i));
    }
}

/// Histories enumerated by Buffer.tla: from an empty string to every reachable content of its memory.
/// Those of DrainRuns.tla lead to a draining iterator instead.
type Setups = BTreeMap<(bool, usize, Vec<u8>), Vec<Vec<Op>>>;
fn read_setups(path: Option<&String>) -> Setups {
    let mut m = Setups::new();
    let Some(p) = path else { return m };
    for line in BufReader::new(File::open(p).expect("setups")).lines() {
        let j = json::parse(&line.unwrap()).expect("setup");
        let drain = j.n("d") == 1;
        let mut h: Vec<Op> = j.get("h").expect("history").arr().iter().map(|c| Op::from_json(c).expect("op")).collect();
        for o in h.iter_mut().filter(|o| drain && !o.code.on_drain()) { o.i = 2; }
        m.entry((drain, j.n("n") as usize, j.b("a"))).or_default().push(h);
    }
    m
}

/// The same history after `pad` bytes that every text begins with.
fn lift(out: &mut Vec<Op>, h: &[Op], pad: usize) {
    if pad == 0 { out.extend(h.iter().cloned()); return; }
    let fill = vec![b'x'; pad];
    if h.first().map_or(true, |o| o.code != Code::FromStrTruncate) { out.push(with_w(Code::FromStrTruncate, 0, &fill)); }
    for o in h {
        let mut o = o.clone();
        match o.code {
            Code::FromStrTruncate => { let mut w = fill.clone(); w.extend_from_slice(&o.w); o.w = w; }
            Code::Truncate => o.ix += pad,
            Code::ReplaceRange => { o.r.1 += pad; o.r.3 += pad; }
            _ => panic!("harness: cannot lift {}", o.code.name()),
        }
        out.push(o);
    }
}

struct Want { p: Vec<u8>, q: Vec<u8>, k: String, v: Vec<i64> }

pub fn execute(files: &[String], out: &str, ty: &str, every: usize, max: usize, journal: Option<&String>, setups: Option<&String>) -> String {
    let setups = read_setups(setups);
    let mut from_setups = 0usize;
    let mut jf = journal.map(|p| File::create(p).expect("journal"));
    let mut o = BufWriter::new(File::create(out).expect("out"));
    let mut pool: BTreeMap<(char, usize), Run> = BTreeMap::new();
    let (mut cases, mut execs, mut odd, mut skipped) = (0usize, 0usize, 0usize, 0usize);
    let mut ops_seen: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut line_no = 0usize;
    for f in files {
        for line in BufReader::new(File::open(f).expect("cases")).lines() {
            let line = line.unwrap();
            if line.trim().is_empty() { continue; }
            line_no += 1;
            if every > 1 && line_no % every != 0 { continue; }
            let j = json::parse(&line).expect("case");
            let n = j.n("n") as usize;
            let c = j.get("c").expect("call");
            let (a, b) = (j.b("a"), j.b("b"));
            let base = Op::from_json(c).expect("op");
            let want: Vec<Want> = j.get("o").map_or(&[][..], |x| x.arr()).iter().map(|w| Want {
                p: w.b("p"), q: w.b("q"), k: w.s("k").to_string(),
                v: w.get("v").map_or(vec![], |v| v.arr().iter().map(J::num).collect()),
            }).collect();
            cases += 1;
            let key = if ty == "c" { ('c', 63) } else { ('a', n) };
            if key.0 == 'c' && n != 63 { skipped += 1; continue; }
            if key.0 == 'a' && !crate::exec::CAPS.contains(&n) { skipped += 1; continue; }
            *ops_seen.entry(base.code.name()).or_default() += 1;
            let run = pool.entry(key).or_insert_with(|| Run::new(key.0, key.1));
            let variants: usize = match base.code { Code::De => FORMS, Code::DeOther => 10, _ => 4 };
            // a lifted text: the histories of the text without its filler, lifted alike
            let pad = if a.iter().take_while(|b| **b == b'x').count() > 8 { a.iter().take_while(|b| **b == b'x').count() } else { 0 };
            let more = if base.code.on_drain() { setups.get(&(true, n, a.clone())) } else { setups.get(&(false, n - pad, a[pad..].to_vec())) };
            let chosen = |v: usize| more.and_then(|m| v.checked_sub(variants).map(|k| &m[k]));
            for v in 0..variants + more.map_or(0, |m| m.len()) {
                let mut hist = vec![];
                let mut op = base.clone();
                op.i = 0;
                op.j = if op.code == Code::Drain { 0 } else { 1 };
                op.fm = if variants > 4 { (v % variants) as u8 } else { (v % 2) as u8 };
                op.hint = if op.code.is_iter() { [0, 1, 3, 4][v % 4] } else { 0 };
                let how = v % 4;
                if op.code.on_drain() {
                    match chosen(v) {
                        Some(h) => { hist.extend(h.iter().cloned()); from_setups += 1; }
                        None => prepare_drain(&mut hist, how, n, 0, &a),
                    }
                    match op.code.second() {
                        Some(false) => prepare(&mut hist, (how + 1) % 4, n, 1, &b),
                        Some(true) => prepare_drain(&mut hist, (how + 1) % 4, n, 1, &b),
                        None => {}
                    }
                } else {
                    match chosen(v) {
                        Some(h) => { lift(&mut hist, h, pad); from_setups += 1; }
                        None => prepare(&mut hist, how, n, 0, &a),
                    }
                    match op.code.second() {
                        Some(false) => prepare(&mut hist, (how + 1) % 4, n, 1, &b),
                        Some(true) => prepare_drain(&mut hist, how, n, op.j, &b),
                        None => {}
                    }
                }
                execs += 1;
                if let Some(jf) = &mut jf { write_ahead(jf, run, &hist, &op); }
                run.reset();
                let mut good = true;
                for h in hist.iter_mut() { let _ = run.step(h); if !run.sane { good = false; break; } }
                if good {
                    let first = run.seen(op.code.on_drain(), 0) == &a[..];
                    let second = op.code.second().map_or(true, |dr| run.seen(dr, op.j) == &b[..]);
                    good = first && second;
                }
                if good {
                    let st = run.step(&mut op);
                    good = fine(run, &st) && matches(&want, &st, &op);
                }
                if !good {
                    odd += 1;
                    if odd <= max {
                        run.reset();
                        o.write_all(run.init_line(0).as_bytes()).unwrap();
                        let mut again = base.clone();
                        again.i = op.i; again.j = op.j; again.fm = op.fm; again.hint = op.hint;
                        hist.push(again);
                        for h in hist.iter_mut() {
                            let st = run.step(h);
                            o.write_all(run.event(h, &st).as_bytes()).unwrap();
                            if !run.sane { break; }
                        }
                    }
                }
            }
        }
    }
    o.flush().unwrap();
    let ops: Vec<String> = ops_seen.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    format!("{{\"cases\":{cases},\"executions\":{execs},\"from_buffers\":{from_setups},\"skipped\":{skipped},\"odd\":{odd},\"ops\":{{{}}}}}", ops.join(","))
}

/// Writes down what is about to happen, should it be the last thing to happen.
fn write_ahead(jf: &mut File, run: &mut Run, hist: &[Op], op: &Op) {
    run.reset();
    crate::restart(jf, &run.init_line(0));
    for h in hist.iter().chain(std::iter::once(op)) {
        let pending = run.pending(h, "crash");
        jf.write_all(pending.as_bytes()).unwrap();
        if std::ptr::eq(h, op) { break; }
        let st = run.step(&mut h.clone());
        let e = run.event(h, &st);
        crate::unput(jf, pending.len(), &e);
        if !run.sane { break; }
    }
}

fn fine(run: &Run, st: &Step) -> bool {
    run.sane && st.viewed() && st.guards && st.rep.args_ok && st.x.is_empty() && (st.rep.alloc == 0 || st.rep.k == "panic")
}

fn matches(want: &[Want], st: &Step, op: &Op) -> bool {
    let q: &[u8] = st.q.as_ref().map_or(&[], |q| &q.bytes);
    let hash = !matches!(op.code, Code::Hash | Code::DHash) || crate::oracle::hashes_agree(op.code, &st.rep.h, st.p.bytes == q);
    let calls = op.code != Code::Retain || st.rep.calls.len() == op.bs.len();
    hash && calls && want.iter().any(|w| w.p == st.p.bytes && w.q == q && w.k == st.rep.k && w.v == st.rep.v)
}
