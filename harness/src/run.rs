//! Runs histories against the library, keeping what was last seen of every object, and writes events.
use crate::exec::{Obs, Reply, Rt, World, ND, NS};
use crate::json::put_ints;
use crate::op::{Code, Op};
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static STEPS: AtomicU64 = AtomicU64::new(0);

pub struct Run {
    pub world: Box<dyn World>,
    pub ty: char,
    pub n: usize,
    pub rt: Rt,
    pub s: Vec<Vec<u8>>,
    pub d: Vec<Vec<u8>>,
    pub sane: bool,
    tmp: Vec<u8>,
}

pub struct Step {
    pub rep: Reply,
    pub p: Obs,
    pub q: Option<Obs>,
    pub x: Vec<(bool, usize, Vec<u8>)>,
    pub guards: bool,
}

impl Step {
    /// Every view showed the text.
    pub fn viewed(&self) -> bool { self.p.views.is_empty() && self.q.as_ref().map_or(true, |q| q.views.is_empty()) }
}

impl Run {
    pub fn new(ty: char, n: usize) -> Run {
        let world = if ty == 'c' { crate::exec::cache_world() } else { crate::exec::array_world(n).expect("capacity") };
        let n = world.cap();
        Run { world, ty, n, rt: Rt::new(), s: vec![vec![]; NS], d: vec![vec![]; ND], sane: true, tmp: vec![] }
    }
    pub fn reset(&mut self) {
        self.world.reset();
        for x in self.s.iter_mut().chain(self.d.iter_mut()) { x.clear(); }
        self.sane = true;
    }
    pub fn init_line(&self, idx: u64) -> String {
        format!("{{\"op\":\"init\",\"n\":{},\"ty\":\"{}\",\"idx\":{}}}\n", self.n, self.ty, idx)
    }
    pub fn seen(&self, drain: bool, i: usize) -> &[u8] { if drain { &self.d[i] } else { &self.s[i] } }

    /// Executes one call and updates what was seen.
    pub fn step(&mut self, op: &mut Op) -> Step {
        STEPS.fetch_add(1, Relaxed);
        let rep = self.world.exec(op, &self.rt);
        let first = (op.code.on_drain(), op.i);
        let second = op.code.second().map(|dr| (dr, op.j));
        let p = self.world.observe(first.0, first.1, &self.rt);
        let q = second.map(|(dr, j)| self.world.observe(dr, j, &self.rt));
        let mut x = vec![];
        for (drain, count) in [(false, NS), (true, ND)] {
            for i in 0..count {
                if (drain, i) == first || Some((drain, i)) == second { continue; }
                let mut tmp = std::mem::take(&mut self.tmp);
                let ok = self.world.bytes(drain, i, &mut tmp);
                if !ok || tmp != self.seen(drain, i) {
                    x.push((drain, i, tmp.clone()));
                    self.set(drain, i, &tmp);
                }
                self.tmp = tmp;
            }
        }
        self.set(first.0, first.1, &p.bytes);
        if let (Some((dr, j)), Some(o)) = (second, &q) { self.set(dr, j, &o.bytes); }
        let fine = |o: &Obs| o.wf && o.views.iter().all(|v| matches!(v.0, "display" | "clone")) && o.st.is_none();
        self.sane = fine(&p) && q.as_ref().map_or(true, fine) && x.iter().all(|o| std::str::from_utf8(&o.2).is_ok() && o.2.len() <= self.n);
        let guards = self.world.guards_ok();
        Step { rep, p, q, x, guards }
    }
    fn set(&mut self, drain: bool, i: usize, b: &[u8]) {
        let t = if drain { &mut self.d[i] } else { &mut self.s[i] };
        t.clear();
        t.extend_from_slice(b);
    }

    /// The event of a finished call.
    pub fn event(&self, op: &Op, st: &Step) -> String {
        let mut o = String::with_capacity(256);
        o.push('{');
        op.put(&mut o);
        let rep = &st.rep;
        let _ = write!(o, ",\"k\":\"{}\",\"v\":", rep.k);
        put_ints(&mut o, &rep.v);
        o.push_str(",\"p\":");
        put_ints(&mut o, &st.p.bytes);
        o.push_str(",\"q\":");
        put_ints(&mut o, st.q.as_ref().map_or(&[][..], |q| &q.bytes));
        o.push_str(",\"x\":[");
        for (n, (drain, i, b)) in st.x.iter().enumerate() {
            if n > 0 { o.push(','); }
            let _ = write!(o, "[\"{}\",{},", if *drain { "d" } else { "s" }, i + 1);
            put_ints(&mut o, b);
            o.push(']');
        }
        o.push_str("],\"vw\":[");
        let mut first = true;
        for ob in std::iter::once(&st.p).chain(st.q.iter()) {
            for (name, b) in &ob.views {
                if !first { o.push(','); }
                first = false;
                let _ = write!(o, "[\"{}\",", name);
                put_ints(&mut o, b);
                o.push(']');
            }
        }
        o.push_str("],\"st\":[");
        let mut first = true;
        for ob in std::iter::once(&st.p).chain(st.q.iter()) {
            if let Some((l, e, c)) = ob.st {
                if !first { o.push(','); }
                first = false;
                let _ = write!(o, "[{},{},{},", l, e as u8, c);
                put_ints(&mut o, &ob.bytes);
                o.push(']');
            }
        }
        let _ = write!(o, "],\"al\":{},\"cn\":{},\"cp\":{},\"ys\":[", rep.alloc, (rep.args_ok && st.guards) as u8, rep.cp as u8);
        if op.code == Code::Retain {
            for (n, c) in rep.calls.iter().enumerate() { if n > 0 { o.push(','); } put_ints(&mut o, c); }
        } else if op.code.is_iter() && !op.ws.is_empty() {
            for n in 0..rep.pulled.min(3000) { if n > 0 { o.push(','); } put_ints(&mut o, &op.ws[n % op.ws.len()]); }
        }
        let _ = write!(o, "],\"en\":{}", rep.ended as u8);
        if !rep.h.is_empty() {
            o.push_str(",\"h\":[");
            for (n, h) in rep.h.iter().enumerate() { if n > 0 { o.push(','); } put_ints(&mut o, h); }
            o.push(']');
        }
        if op.code == Code::MIter {
            o.push_str(",\"ks\":[");
            for (n, h) in rep.ks.iter().enumerate() { if n > 0 { o.push(','); } put_ints(&mut o, h); }
            o.push(']');
        }
        o.push_str("}\n");
        o
    }

    /// The event of a call that is about to be made, should it never return.
    pub fn pending(&self, op: &Op, k: &str) -> String {
        let mut o = String::from("{");
        op.put(&mut o);
        let _ = write!(o, ",\"k\":\"{}\",\"v\":[],\"p\":", k);
        put_ints(&mut o, self.seen(op.code.on_drain(), op.i));
        o.push_str(",\"q\":");
        put_ints(&mut o, op.code.second().map_or(&[][..], |dr| self.seen(dr, op.j)));
        o.push_str(",\"x\":[],\"vw\":[],\"st\":[],\"al\":0,\"cn\":1,\"cp\":0,\"ys\":[],\"en\":0,\"h\":[[],[],[],[],[],[]],\"ks\":[]}\n");
        o
    }
}
