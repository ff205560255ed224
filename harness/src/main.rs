//! Drives the library under test for the conformance checks.  See DESIGN.md.
#![allow(clippy::all)]
mod alloc;
#[cfg(feature = "allcaps")]
mod any;
mod cases;
mod exec;
mod gen;
mod gen_text;
mod json;
mod op;
mod oracle;
mod rng;
mod run;
#[cfg(feature = "serde")]
mod serdes;

use op::{Code, Op};
use rng::Rng;
use run::Run;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

struct Args(BTreeMap<String, String>);
impl Args {
    fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut m = BTreeMap::new();
        while let Some(k) = it.next() {
            let k = k.trim_start_matches("--").to_string();
            let v = it.next().unwrap_or_default();
            m.insert(k, v);
        }
        (cmd, Args(m))
    }
    fn s(&self, k: &str, d: &str) -> String { self.0.get(k).cloned().unwrap_or_else(|| d.to_string()) }
    fn n(&self, k: &str, d: usize) -> usize { self.0.get(k).map_or(d, |v| v.parse().expect("number")) }
}

/// Ends the process when one call does not return.
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = run::STEPS.load(Relaxed);
            if s != last.0 || s == 0 { last = (s, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(secs) { eprintln!("HANG"); std::process::exit(97); }
        }
    });
}

#[cfg(feature = "logs")]
struct Devour;
#[cfg(feature = "logs")]
impl log::Log for Devour {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        struct Void;
        impl std::fmt::Write for Void { fn write_str(&mut self, s: &str) -> std::fmt::Result { std::hint::black_box(s); Ok(()) } }
        let _ = std::fmt::write(&mut Void, *r.args());
    }
    fn flush(&self) {}
}

fn finish(runs: usize) { run::STEPS.store(0, Relaxed); let _ = runs; }

#[derive(Clone)]
struct Hist { seed: u64, idx: u64, steps: usize, focus: String, ops: Vec<Code>, caps: Vec<usize>, types: String, scalars: bool }

/// Which history is number idx: its type, its capacity and its random choices.
fn start(h: &Hist, pool: &mut BTreeMap<(char, usize), Run>) -> (Rng, (char, usize)) {
    let mut r = Rng::new(h.seed.wrapping_mul(1_000_003).wrapping_add(h.idx).wrapping_mul(0x2545_F491_4F6C_DD1D));
    if h.scalars { // one history for every character
        pool.entry(('a', 16)).or_insert_with(|| Run::new('a', 16)).reset();
        return (r, ('a', 16));
    }
    let ty = match h.types.as_str() { "a" => 'a', "c" => 'c', _ => if r.chance(12) { 'c' } else { 'a' } };
    let n = if ty == 'c' { 63 } else if r.chance(70) { *r.pick(&h.caps) } else {
        let small: Vec<usize> = h.caps.iter().copied().filter(|n| *n <= 33).collect();
        if small.is_empty() { *r.pick(&h.caps) } else { *r.pick(&small) }
    };
    pool.entry((ty, n)).or_insert_with(|| Run::new(ty, n)).reset();
    (r, (ty, n))
}

fn script(h: &Hist) -> Option<Vec<Op>> {
    if h.scalars { Some(gen::scalar(h.idx).map_or(vec![], gen::script)) } else { None }
}

fn hist_args(a: &Args) -> Hist {
    let focus = a.s("focus", "ALL");
    let caps = a.s("caps", "");
    let caps: Vec<usize> = if caps.is_empty() { exec::CAPS.to_vec() } else { caps.split(',').map(|x| x.parse().expect("cap")).collect() };
    let ops = match a.0.get("ops") {
        Some(o) => o.split(',').map(|x| Code::from_name(x).expect("op")).collect(),
        None => gen::focus_ops(&focus),
    };
    Hist { seed: a.n("seed", 1) as u64, idx: 0, steps: a.n("steps", 40), ops, focus, caps, types: a.s("types", "ac"), scalars: a.n("scalars", 0) == 1 }
}

type Pool = BTreeMap<(char, usize), Run>;

/// Makes one history.
fn one(h: &Hist, pool: &mut Pool, j: &mut Option<File>, o: &mut String, ops: &mut BTreeMap<&'static str, usize>) -> usize {
    let (mut r, key) = start(h, pool);
    let run = pool.get_mut(&key).unwrap();
    let init = run.init_line(h.idx);
    o.push_str(&init);
    let mut events = 1;
    if let Some(j) = j { restart(j, &init); }
    let script = script(h);
    for k in 0..h.steps {
        let mut op = match &script {
            Some(ops) => match ops.get(k) { Some(op) => op.clone(), None => break },
            None => gen::choose(&mut r, run, &h.ops, &h.focus),
        };
        let pending = if j.is_some() { run.pending(&op, "crash") } else { String::new() };
        if let Some(j) = j { j.write_all(pending.as_bytes()).unwrap(); }
        let st = run.step(&mut op);
        let e = run.event(&op, &st);
        if let Some(j) = j { unput(j, pending.len(), &e); }
        o.push_str(&e);
        events += 1;
        *ops.entry(op.code.name()).or_default() += 1;
        if !run.sane { break; }
    }
    events
}

/// Records histories as events; with --threads, that many threads at once, each with objects of its own.
fn record(a: &Args) {
    let h = hist_args(a);
    let mut o = BufWriter::new(File::create(a.s("out", "/dev/stdout")).expect("out"));
    let (from, count) = (a.n("from", 0) as u64, a.n("count", 100) as u64);
    let threads = a.n("threads", 1);
    let mut ops: BTreeMap<&str, usize> = BTreeMap::new();
    let mut events = 0usize;
    if threads < 2 {
        let mut j = a.0.get("journal").map(|p| File::create(p).expect("journal"));
        let mut pool = BTreeMap::new();
        for idx in from..from + count {
            let mut text = String::new();
            events += one(&Hist { idx, ..h.clone() }, &mut pool, &mut j, &mut text, &mut ops);
            o.write_all(text.as_bytes()).unwrap();
        }
    } else {
        let gate = std::sync::Barrier::new(threads);
        let out = std::sync::Mutex::new((&mut o, &mut ops, &mut events));
        std::thread::scope(|s| for t in 0..threads as u64 {
            let (h, gate, out) = (h.clone(), &gate, &out);
            s.spawn(move || {
                let (mut pool, mut mine, mut text, mut n) = (BTreeMap::new(), BTreeMap::new(), String::new(), 0);
                gate.wait();
                for idx in (from + t..from + count).step_by(threads) {
                    n += one(&Hist { idx, ..h.clone() }, &mut pool, &mut None, &mut text, &mut mine);
                }
                let mut out = out.lock().unwrap();
                out.0.write_all(text.as_bytes()).unwrap();
                for (k, v) in mine { *out.1.entry(k).or_default() += v; }
                *out.2 += n;
            });
        });
    }
    o.flush().unwrap();
    finish(0);
    report(events, count as usize, &ops, &[]);
}

/// Replaces the pending line at the end of the journal.
pub fn unput(j: &mut File, len: usize, e: &str) {
    use std::io::Seek;
    j.seek(std::io::SeekFrom::Current(-(len as i64))).unwrap();
    let at = j.stream_position().unwrap();
    j.set_len(at).unwrap();
    j.write_all(e.as_bytes()).unwrap();
}

fn report(events: usize, hist: usize, ops: &BTreeMap<&str, usize>, odd: &[u64]) {
    print!("{{\"events\":{events},\"histories\":{hist},\"ops\":{{");
    for (n, (k, v)) in ops.iter().enumerate() { print!("{}\"{k}\":{v}", if n > 0 { "," } else { "" }); }
    println!("}},\"odd\":{odd:?}}}");
}

/// Runs many histories and names those that look odd to the filter.
fn hunt(a: &Args) {
    let mut h = hist_args(a);
    let from = a.n("from", 0) as u64;
    let count = a.n("count", 100_000) as u64;
    let limit = Duration::from_millis(a.n("ms", 5000) as u64);
    let t0 = Instant::now();
    let mut pool = BTreeMap::new();
    let mut maps = oracle::Maps::default();
    let mut odd = vec![];
    let mut events = 0;
    let mut ops: BTreeMap<&str, usize> = BTreeMap::new();
    let mut done = 0;
    let mut j = a.0.get("journal").map(|p| File::create(p).expect("journal"));
    let stride = a.n("stride", 1);
    for idx in (from..from + count).step_by(stride) {
        if h.scalars && gen::scalar(idx).is_none() { break; }
        h.idx = idx;
        if let Some(j) = &mut j { // where we are, should the process die
            use std::io::Seek;
            j.seek(std::io::SeekFrom::Start(0)).unwrap();
            j.write_all(format!("{idx:020}").as_bytes()).unwrap();
        }
        let (mut r, key) = start(&h, &mut pool);
        let run = pool.get_mut(&key).unwrap();
        maps.clear();
        let script = script(&h);
        for k in 0..h.steps {
            let mut op = match &script {
                Some(ops) => match ops.get(k) { Some(op) => op.clone(), None => break },
                None => gen::choose(&mut r, run, &h.ops, &h.focus),
            };
            let before = run.seen(op.code.on_drain(), op.i).to_vec();
            let second = op.code.second().map_or(vec![], |dr| run.seen(dr, op.j).to_vec());
            let st = run.step(&mut op);
            events += 1;
            *ops.entry(op.code.name()).or_default() += 1;
            if !oracle::plain(run, &before, &second, &op, &st, &mut maps) { odd.push(idx); break; }
        }
        done += 1;
        if odd.len() >= a.n("max", 200) || t0.elapsed() > limit { break; }
    }
    finish(0);
    report(events, done, &ops, &odd);
}

/// Re-executes the calls of a trace and records it anew.  With --cmp, only the histories whose events come
/// out differently are written: as they were (--was) and as they are now (--out).
fn replay(a: &Args) {
    let f = BufReader::new(File::open(a.s("in", "")).expect("in"));
    let mut o = BufWriter::new(File::create(a.s("out", "/dev/stdout")).expect("out"));
    let cmp = a.0.get("was").map(|p| BufWriter::new(File::create(p).expect("was")));
    let comparing = cmp.is_some();
    let mut was = cmp;
    let force = a.s("as", "");
    let mut j = a.0.get("journal").map(|p| File::create(p).expect("journal"));
    let max = a.n("max", 100);
    let mut pool: BTreeMap<(char, usize), Run> = BTreeMap::new();
    let mut key = ('a', 0);
    let mut events = 0;
    let mut hist = 0u64;
    let mut odd: Vec<u64> = vec![];
    let mut ops: BTreeMap<&str, usize> = BTreeMap::new();
    let (mut old, mut new, mut differs) = (String::new(), String::new(), false);
    let mut end = |old: &mut String, new: &mut String, differs: &mut bool, hist: u64, o: &mut BufWriter<File>| {
        if !comparing { o.write_all(new.as_bytes()).unwrap(); }
        else if *differs && odd.len() < max {
            odd.push(hist);
            was.as_mut().unwrap().write_all(old.as_bytes()).unwrap();
            o.write_all(new.as_bytes()).unwrap();
        }
        old.clear();
        new.clear();
        *differs = false;
    };
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let js = json::parse(&line).expect("json");
        if js.s("op") == "init" {
            end(&mut old, &mut new, &mut differs, hist, &mut o);
            let ty = if force.is_empty() { js.s("ty").chars().next().unwrap_or('a') } else { force.chars().next().unwrap() };
            key = (ty, js.n("n") as usize);
            let run = pool.entry(key).or_insert_with(|| Run::new(key.0, key.1));
            run.reset();
            hist = js.n("idx") as u64;
            let init = run.init_line(hist);
            new.push_str(&init);
            if let Some(j) = &mut j { restart(j, &init); }
        } else {
            let run = pool.get_mut(&key).expect("init first");
            let mut op = Op::from_json(&js).expect("op");
            let pending = if j.is_some() { run.pending(&op, "crash") } else { String::new() };
            if let Some(j) = &mut j { j.write_all(pending.as_bytes()).unwrap(); }
            let st = run.step(&mut op);
            let e = run.event(&op, &st);
            if let Some(j) = &mut j { unput(j, pending.len(), &e); }
            if comparing && plain_event(&e) != plain_event(&line) { differs = true; }
            new.push_str(&e);
            *ops.entry(op.code.name()).or_default() += 1;
        }
        old.push_str(&line);
        old.push('\n');
        events += 1;
    }
    end(&mut old, &mut new, &mut differs, hist, &mut o);
    drop(end);
    if let Some(mut w) = was { w.flush().unwrap(); }
    o.flush().unwrap();
    finish(0);
    report(events, hist as usize, &ops, &odd);
}

/// An event without its allocation count (which may depend on the build where a call panics).
fn plain_event(e: &str) -> String {
    match e.find(",\"al\":") {
        Some(i) => { let k = e[i + 6..].find(',').map_or(e.len(), |k| i + 6 + k); format!("{}{}", &e[..i], e[k..].trim_end()) }
        None => e.trim_end().to_string(),
    }
}

/// Begins the journal anew.
pub fn restart(j: &mut File, init: &str) {
    use std::io::Seek;
    j.seek(std::io::SeekFrom::Start(0)).unwrap();
    j.set_len(0).unwrap();
    j.write_all(init.as_bytes()).unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (cmd, a) = Args::parse();
    #[cfg(feature = "logs")]
    if a.s("log", "on") == "on" {
        let _ = log::set_logger(&Devour);
        log::set_max_level(log::LevelFilter::Trace);
    }
    watchdog(a.n("watch", 20) as u64);
    let r = std::panic::catch_unwind(|| match cmd.as_str() {
        "record" => record(&a),
        "hunt" => hunt(&a),
        "replay" => replay(&a),
        "cases" => {
            // all files <in>.1, <in>.2, ...; --part p/q takes every q-th of them
            let prefix = a.s("in", "");
            let (part, parts) = (a.n("part", 0), a.n("parts", 1));
            let files: Vec<String> = (1..).map(|i| format!("{prefix}.{i}")).take_while(|f| std::path::Path::new(f).exists()).collect();
            let files: Vec<String> = files.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, f)| f).collect();
            println!("{}", cases::execute(&files, &a.s("out", "/dev/null"), &a.s("as", "a"), a.n("every", 1), a.n("max", 200), a.0.get("journal"), a.0.get("setups")));
            finish(0);
        }
        _ => { eprintln!("unknown command {cmd}"); std::process::exit(64) }
    });
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness failed: {m}");
        std::process::exit(70);
    }
}
