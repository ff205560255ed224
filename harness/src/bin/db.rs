//! A table of texts written and read through the Diesel integration (SQLite, in memory); every call is an event for spec/DbJudge.tla.
#![allow(clippy::all)]
#[path = "../gen_text.rs"]
mod gen_text;
#[path = "../json.rs"]
#[allow(dead_code)]
mod json;
#[path = "../rng.rs"]
#[allow(dead_code)]
mod rng;

use arraystring::{ArrayString, CacheString};
use diesel::prelude::*;
use diesel::sql_types::{Binary, Integer, Nullable, Text};
use rng::Rng;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

diesel::table! { t (id) { id -> Integer, name -> Nullable<Text>, } }
diesel::table! { #[sql_name = "t"] u (id) { id -> Integer, name -> Text, } }

pub const ROWS: i32 = 6;
pub const CAPS: &[usize] = &[1, 2, 3, 4, 8, 63, 64, 128, 255];

fn ints(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn nums<T: ToString>(b: &[T]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

#[derive(Clone, Default, Debug)]
pub struct Call { op: String, id: i32, w: Vec<u8>, w2: Vec<u8>, n: usize, ty: char, cmp: String, ws: Vec<Vec<u8>>, how: usize }

/// Kind and value (as JSON) of an answer.
type Answer = (&'static str, String);
fn fetched<T>(r: QueryResult<T>, f: impl Fn(&T) -> Answer) -> Answer {
    match r {
        Ok(x) => f(&x),
        Err(diesel::result::Error::NotFound) => ("none", "[]".into()),
        Err(_) => ("err", "[]".into()),
    }
}

mod typed {
    macro_rules! typed {
        ($m:ident, $T:ty) => {
            pub mod $m {
                use super::super::*;
                pub type S = $T;
                #[derive(Insertable, AsChangeset, Identifiable, Queryable, QueryableByName, Clone, Debug)]
                #[diesel(table_name = t)]
                struct Row { id: i32, name: Option<S> }
                #[derive(Insertable, AsChangeset, Identifiable, Queryable, QueryableByName, Clone, Debug)]
                #[diesel(table_name = u)]
                struct Strict { id: i32, name: S }
                #[derive(QueryableByName)]
                struct Named { #[diesel(sql_type = Text)] name: S }
                fn val(w: &[u8]) -> S { S::from_str_truncate(std::str::from_utf8(w).expect("harness: text")) }
                /// The text the value really has (what the table is expected to hold afterwards).
                pub fn real(w: &[u8]) -> Vec<u8> { val(w).as_bytes().to_vec() }
                fn shown(s: &S) -> String { ints(s.as_bytes()) }
                macro_rules! ids { ($c:expr, $e:expr) => { { let q: QueryResult<Vec<i32>> = u_or_t!($c, $e); fetched(q, |v| ("ok", nums(v))) } } }
                macro_rules! u_or_t { ($c:expr, $e:expr) => { t::table.filter($e).order(t::id.asc()).select(t::id).load::<i32>($c) } }
                pub fn exec(c: &mut SqliteConnection, x: &Call) -> Answer {
                    let v = val(&x.w);
                    match x.op.as_str() {
                        "put" => fetched(match x.how % 5 {
                            0 => diesel::replace_into(t::table).values((t::id.eq(x.id), t::name.eq(&v))).execute(c),
                            1 => diesel::replace_into(t::table).values((t::id.eq(x.id), t::name.eq(v))).execute(c),
                            2 => diesel::replace_into(t::table).values(&Row { id: x.id, name: Some(v) }).execute(c),
                            3 => diesel::replace_into(u::table).values(&Strict { id: x.id, name: v }).execute(c),
                            _ => diesel::sql_query("INSERT OR REPLACE INTO t (id, name) VALUES (?, ?)").bind::<Integer, _>(x.id).bind::<Text, _>(&v).execute(c),
                        }, |n| ("ok", nums(&[*n]))),
                        "upd" => fetched(match x.how % 4 {
                            0 => diesel::update(t::table.find(x.id)).set(t::name.eq(&v)).execute(c),
                            1 => diesel::update(t::table.find(x.id)).set(t::name.eq(Some(v))).execute(c),
                            2 => diesel::update(u::table.find(x.id)).set(&Strict { id: x.id, name: v }).execute(c),
                            _ => diesel::update(t::table.find(x.id)).set(&Row { id: x.id, name: Some(v) }).execute(c),
                        }, |n| ("ok", nums(&[*n]))),
                        "upd_where" => {
                            let v2 = val(&x.w2);
                            fetched(match x.cmp.as_str() {
                                "eq" => diesel::update(t::table.filter(t::name.eq(v))).set(t::name.eq(v2)).execute(c),
                                "ne" => diesel::update(t::table.filter(t::name.ne(v))).set(t::name.eq(v2)).execute(c),
                                "lt" => diesel::update(t::table.filter(t::name.lt(v))).set(t::name.eq(v2)).execute(c),
                                "le" => diesel::update(t::table.filter(t::name.le(&v))).set(t::name.eq(&v2)).execute(c),
                                "gt" => diesel::update(t::table.filter(t::name.gt(&v))).set(t::name.eq(v2)).execute(c),
                                _ => diesel::update(t::table.filter(t::name.ge(v))).set(t::name.eq(&v2)).execute(c),
                            }, |n| ("ok", nums(&[*n])))
                        }
                        "del_where" => fetched(match x.cmp.as_str() {
                            "eq" => diesel::delete(t::table.filter(t::name.eq(v))).execute(c),
                            "ne" => diesel::delete(t::table.filter(t::name.ne(v))).execute(c),
                            "lt" => diesel::delete(t::table.filter(t::name.lt(v))).execute(c),
                            "le" => diesel::delete(t::table.filter(t::name.le(v))).execute(c),
                            "gt" => diesel::delete(t::table.filter(t::name.gt(&v))).execute(c),
                            _ => diesel::delete(t::table.filter(t::name.ge(&v))).execute(c),
                        }, |n| ("ok", nums(&[*n]))),
                        "where" => match x.cmp.as_str() {
                            "eq" => if x.how % 2 == 0 { ids!(c, t::name.eq(v)) } else { ids!(c, t::name.eq(&v)) },
                            "ne" => ids!(c, t::name.ne(&v)),
                            "lt" => ids!(c, t::name.lt(v)),
                            "le" => ids!(c, t::name.le(&v)),
                            "gt" => ids!(c, t::name.gt(v)),
                            _ => ids!(c, t::name.ge(&v)),
                        },
                        "batch" => fetched(if x.how % 2 == 0 {
                            let rows: Vec<_> = x.ws.iter().enumerate().map(|(i, w)| (t::id.eq(x.id + i as i32), t::name.eq(val(w)))).collect();
                            diesel::replace_into(t::table).values(&rows).execute(c)
                        } else {
                            let rows: Vec<_> = x.ws.iter().enumerate().map(|(i, w)| Strict { id: x.id + i as i32, name: val(w) }).collect();
                            diesel::replace_into(u::table).values(&rows).execute(c)
                        }, |n| ("ok", nums(&[*n]))),
                        "undo" => fetched(c.transaction::<(), diesel::result::Error, _>(|c| {
                            diesel::replace_into(t::table).values((t::id.eq(x.id), t::name.eq(&v))).execute(c)?;
                            let _ = t::table.find(x.id).select(t::name).first::<Option<S>>(c)?;
                            Err(diesel::result::Error::RollbackTransaction)
                        }), |_| ("ok", "[]".into())),
                        "between" => { let v2 = val(&x.w2); if x.how % 2 == 0 { ids!(c, t::name.between(v, v2)) } else { ids!(c, t::name.between(&v, &v2)) } }
                        "where_out" => { let vs: Vec<S> = x.ws.iter().map(|w| val(w)).collect(); ids!(c, t::name.ne_all(&vs)) }
                        "extreme" => {
                            use diesel::dsl::{max, min};
                            let f = |s: &Option<S>| match s { Some(s) => ("ok", shown(s)), None => ("null", "[]".into()) };
                            if x.cmp == "ge" { fetched(t::table.select(max(t::name)).first::<Option<S>>(c), f) } else { fetched(t::table.select(min(t::name)).first::<Option<S>>(c), f) }
                        }
                        "concat" => { let v2 = val(&x.w2); match x.how % 2 {
                            0 => fetched(diesel::select(v.into_sql::<Text>().concat(&v2)).get_result::<S>(c), |s| ("ok", shown(s))),
                            _ => fetched(diesel::select((&v).into_sql::<Text>().concat(v2)).get_result::<S>(c), |s| ("ok", shown(s))),
                        } }
                        "pair" => { let v2 = val(&x.w2); fetched(match x.how % 2 {
                            0 => diesel::select(((&v).into_sql::<Text>(), (&v2).into_sql::<Text>())).get_result::<(S, S)>(c),
                            _ => diesel::select((v.into_sql::<Nullable<Text>>(), Some(v2).into_sql::<Nullable<Text>>())).get_result::<(Option<S>, Option<S>)>(c)
                                .map(|(a, b)| (a.expect("harness: NULL"), b.expect("harness: NULL"))),
                        }, |(a, b)| ("ok", format!("[{},{}]", shown(a), shown(b)))) }
                        "where_in" => { let vs: Vec<S> = x.ws.iter().map(|w| val(w)).collect(); ids!(c, t::name.eq_any(vs)) }
                        "load" => match x.how % 3 {
                            0 => fetched(u::table.find(x.id).select(u::name).first::<S>(c), |s| ("ok", shown(s))),
                            1 => fetched(u::table.find(x.id).first::<Strict>(c), |s| ("ok", shown(&s.name))),
                            _ => fetched(u::table.find(x.id).get_result::<(i32, S)>(c), |s| ("ok", shown(&s.1))),
                        },
                        "load_sql" => match x.how % 2 {
                            0 => fetched(diesel::sql_query("SELECT name FROM t WHERE id = ?").bind::<Integer, _>(x.id).get_result::<Named>(c), |s| ("ok", shown(&s.name))),
                            _ => fetched(diesel::sql_query("SELECT id, name FROM t WHERE id = ?").bind::<Integer, _>(x.id).get_result::<Strict>(c), |s| ("ok", shown(&s.name))),
                        },
                        "load_opt" => {
                            let f = |s: &Option<S>| match s { Some(s) => ("ok", shown(s)), None => ("null", "[]".into()) };
                            match x.how % 3 {
                                0 => fetched(t::table.find(x.id).select(t::name).first::<Option<S>>(c), f),
                                1 => fetched(t::table.find(x.id).first::<Row>(c), |r| f(&r.name)),
                                _ => fetched(diesel::sql_query("SELECT id, name FROM t WHERE id = ?").bind::<Integer, _>(x.id).get_result::<Row>(c), |r| f(&r.name)),
                            }
                        }
                        "all" => fetched(t::table.order(t::id.asc()).load::<Row>(c), |rs| {
                            let mut o = String::from("[");
                            for (i, r) in rs.iter().enumerate() {
                                let _ = match &r.name {
                                    Some(s) => write!(o, "{}[{},1,{}]", if i > 0 { "," } else { "" }, r.id, shown(s)),
                                    None => write!(o, "{}[{},0,[]]", if i > 0 { "," } else { "" }, r.id),
                                };
                            }
                            o.push(']');
                            ("ok", o)
                        }),
                        "echo" => match x.how % 3 {
                            0 => fetched(diesel::select(v.into_sql::<Text>()).get_result::<S>(c), |s| ("ok", shown(s))),
                            1 => fetched(diesel::select((&v).into_sql::<Text>()).get_result::<S>(c), |s| ("ok", shown(s))),
                            _ => fetched(diesel::sql_query("SELECT ? AS name").bind::<Text, _>(v).get_result::<Named>(c), |s| ("ok", shown(&s.name))),
                        },
                        // written with one type, loaded with this one
                        "echo_str" => fetched(diesel::select(std::str::from_utf8(&x.w).expect("harness: text").into_sql::<Text>()).get_result::<S>(c), |s| ("ok", shown(s))),
                        o => panic!("harness: {o}"),
                    }
                }
            }
        };
    }
    typed!(t1, ArrayString<1>);
    typed!(t2, ArrayString<2>);
    typed!(t3, ArrayString<3>);
    typed!(t4, ArrayString<4>);
    typed!(t8, ArrayString<8>);
    typed!(t63, ArrayString<63>);
    typed!(t64, ArrayString<64>);
    typed!(t128, ArrayString<128>);
    typed!(t255, ArrayString<255>);
    typed!(cache, CacheString);
}

macro_rules! by { ($x:expr, $f:ident $(, $a:expr)*) => { match ($x.ty, $x.n) {
    ('c', _) => typed::cache::$f($($a),*),
    (_, 1) => typed::t1::$f($($a),*), (_, 2) => typed::t2::$f($($a),*), (_, 3) => typed::t3::$f($($a),*),
    (_, 4) => typed::t4::$f($($a),*), (_, 8) => typed::t8::$f($($a),*), (_, 63) => typed::t63::$f($($a),*),
    (_, 64) => typed::t64::$f($($a),*), (_, 128) => typed::t128::$f($($a),*), (_, 255) => typed::t255::$f($($a),*),
    (_, n) => panic!("harness: capacity {n}"),
} } }

fn exec(c: &mut SqliteConnection, x: &Call) -> Answer {
    #[derive(QueryableByName)]
    struct Raw { #[diesel(sql_type = Nullable<Binary>)] b: Option<Vec<u8>>, #[diesel(sql_type = Text)] k: String }
    #[derive(QueryableByName)]
    struct Id { #[diesel(sql_type = Integer)] id: i32 }
    match x.op.as_str() {
        "raw" => fetched(diesel::sql_query("INSERT OR REPLACE INTO t (id, name) VALUES (?, ?)").bind::<Integer, _>(x.id)
            .bind::<Text, _>(std::str::from_utf8(&x.w).expect("harness: text")).execute(c), |n| ("ok", nums(&[*n]))),
        "null" => fetched(diesel::sql_query("INSERT OR REPLACE INTO t (id, name) VALUES (?, NULL)").bind::<Integer, _>(x.id).execute(c), |n| ("ok", nums(&[*n]))),
        "del" => fetched(diesel::delete(t::table.find(x.id)).execute(c), |n| ("ok", nums(&[*n]))),
        "bytes" => fetched(diesel::sql_query("SELECT CAST(name AS BLOB) AS b, typeof(name) AS k FROM t WHERE id = ?").bind::<Integer, _>(x.id).get_result::<Raw>(c),
            |r| match (&r.b, r.k.as_str()) {
                (None, "null") => ("null", "[]".into()),
                (Some(b), "text") => ("text", ints(b)),
                (b, _) => ("other", ints(b.as_deref().unwrap_or(&[]))),
            }),
        "order" => fetched(diesel::sql_query("SELECT id FROM t ORDER BY name, id").load::<Id>(c), |v| ("ok", nums(&v.iter().map(|x| x.id).collect::<Vec<_>>()))),
        _ => by!(x, exec, c, x),
    }
}

struct Out { f: File, pending: bool }
impl Out {
    fn line(&mut self, s: &str) { let _ = self.f.write_all(s.as_bytes()); }
}
/// Runs one call and writes its event.
fn step(c: &mut SqliteConnection, o: &mut Out, mut x: Call) {
    if !["raw", "null", "del", "bytes", "order", "echo_str"].contains(&x.op.as_str()) {
        // what the values used really hold; that they are what they should be is not this property's business
        x.w = by!(x, real, &x.w);
        x.w2 = by!(x, real, &x.w2);
        x.ws = x.ws.iter().map(|w| by!(x, real, w)).collect();
    }
    let head = format!("{{\"op\":\"{}\",\"id\":{},\"n\":{},\"ty\":\"{}\",\"w\":{},\"w2\":{},\"cmp\":\"{}\",\"ws\":[{}],\"how\":{}",
        x.op, x.id, x.n, x.ty, ints(&x.w), ints(&x.w2), x.cmp,
        x.ws.iter().map(|w| ints(w)).collect::<Vec<_>>().join(","), x.how);
    if o.pending { o.line(&format!("{head},\"k\":\"")); }
    let (k, v) = catch_unwind(AssertUnwindSafe(|| exec(c, &x))).unwrap_or(("panic", "[]".into()));
    if o.pending { o.line(&format!("{k}\",\"v\":{v}}}\n")); } else { o.line(&format!("{head},\"k\":\"{k}\",\"v\":{v}}}\n")); }
}
fn fresh() -> SqliteConnection {
    let mut c = SqliteConnection::establish(":memory:").expect("harness: sqlite");
    wipe(&mut c);
    c
}
fn wipe(c: &mut SqliteConnection) {
    use diesel::connection::SimpleConnection;
    c.batch_execute("DROP TABLE IF EXISTS t;
        CREATE TABLE t (id INTEGER PRIMARY KEY, name VARCHAR(32));").expect("harness: schema");
}
fn call(op: &str) -> Call { Call { op: op.into(), id: 1, n: 8, ty: 'a', cmp: "eq".into(), ..Call::default() } }

fn some_type(r: &mut Rng) -> (usize, char) { if r.chance(25) { (63, 'c') } else { (*r.pick(CAPS), 'a') } }
fn some_text(r: &mut Rng, n: usize) -> Vec<u8> {
    let len = match r.below(8) { 0 => 0, 1 => r.below(5), 2 => (n + r.below(9)).saturating_sub(2), 3 => n, 4 => 253 + r.below(6), 5 => 60 + r.below(8), _ => r.below(n + 1) };
    let mut s = gen_text::text(r, len).into_bytes();
    if r.chance(5) { s = b"'; DROP TABLE t; --".to_vec(); }
    s
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone());
    let num = |k: &str, d: &str| get(k, d).parse::<usize>().expect("number");
    let mut o = Out { f: File::create(get("--out", "/dev/null")).expect("out"), pending: true };
    let mut c = fresh();
    let again = get("--replay", "");
    if again != "" {
        for line in BufReader::new(File::open(again).expect("in")).lines() {
            let m = json::parse(&line.expect("in")).expect("json");
            if m.s("op") == "init" { wipe(&mut c); o.line("{\"op\":\"init\"}\n"); continue; }
            let ty = m.s("ty").chars().next().unwrap_or('a');
            step(&mut c, &mut o, Call { op: m.s("op").into(), id: m.n("id") as i32, w: m.b("w"), w2: m.b("w2"), n: m.n("n") as usize, ty,
                cmp: m.s("cmp").into(), how: m.n("how") as usize, ws: m.get("ws").map_or(vec![], |x| x.arr().iter().map(|y| y.bytes()).collect()) });
        }
        return;
    }
    let cases = get("--in", "");
    if cases != "" {
        let (every, off) = (num("--every", "1"), num("--offset", "0"));
        for (i, line) in BufReader::new(File::open(cases).expect("in")).lines().enumerate() {
            if i % every != off % every { continue; }
            let j = json::parse(&line.expect("in")).expect("json");
            wipe(&mut c);
            o.line("{\"op\":\"init\"}\n");
            for (at, m) in j.get("h").expect("h").arr().iter().enumerate() {
                let n = m.n("n") as usize;
                let x = Call { op: m.s("op").into(), id: m.n("id") as i32, w: m.b("w"), w2: m.b("w2"), n, ty: 'a', cmp: m.s("cmp").into(), how: i + at,
                    ws: m.get("ws").map_or(vec![], |x| x.arr().iter().map(|y| y.bytes()).collect()) };
                // the cache-line type stands in at times
                let x = if i % 7 == 3 && n == 8 { Call { ty: 'c', n: 63, ..x } } else { x };
                step(&mut c, &mut o, x);
            }
            for (q, n) in [1usize, 2, 3, 4, 8].iter().enumerate() {
                let op = ["load", "load_sql", "load_opt"][(i + q) % 3];
                step(&mut c, &mut o, Call { id: 1 + ((i + q) % 2) as i32, n: *n, how: i / 2, ..call(op) });
            }
            step(&mut c, &mut o, Call { how: i, ..call("bytes") });
            step(&mut c, &mut o, Call { how: i, n: [1, 2, 3, 4, 8][i % 5], ..call("all") });
            step(&mut c, &mut o, call("order"));
            step(&mut c, &mut o, Call { ty: 'c', n: 63, how: i, ..call("load") });
        }
        return;
    }
    let (seed, from, count, steps) = (num("--seed", "1"), num("--from", "0"), num("--count", "10"), num("--steps", "40"));
    for h in from..from + count {
        let mut r = Rng::new((seed as u64) << 32 | h as u64);
        wipe(&mut c);
        o.line("{\"op\":\"init\"}\n");
        let mut used: Vec<Vec<u8>> = vec![];
        for _ in 0..steps {
            let (n, ty) = some_type(&mut r);
            let mut text = |r: &mut Rng| { let w = if r.chance(40) && !used.is_empty() { r.pick(&used).clone() } else { some_text(r, n) }; used.push(w.clone()); w };
            let (w, w2) = (text(&mut r), text(&mut r));
            let op = *r.pick(&["put", "put", "put", "upd", "upd", "raw", "null", "upd_where", "del", "del_where", "where", "where_in", "where_out", "between", "extreme", "extreme", "concat", "pair", "batch", "batch", "undo",
                               "load", "load", "load", "load", "load_sql",
                               "load_opt", "load_opt", "bytes", "bytes", "all", "order", "echo", "echo_str", "echo_str"]);
            let ws: Vec<_> = (0..r.below(4).max((op == "batch") as usize)).map(|_| text(&mut r)).collect();
            let op = if op == "del_where" && r.chance(60) { "where" } else { op };
            let cmp = *r.pick(&["eq", "eq", "ne", "lt", "le", "gt", "ge"]);
            let cmp = if op == "extreme" { *r.pick(&["le", "ge"]) } else { cmp };
            let id = 1 + r.below(ROWS as usize + 1 - if op == "batch" { ws.len().max(1) } else { 1 }) as i32;
            let x = Call { op: op.into(), id, w, w2, n, ty, cmp: cmp.into(), ws, how: r.below(60) };
            let wrote = ["put", "upd"].contains(&op);
            step(&mut c, &mut o, x.clone());
            if wrote {
                step(&mut c, &mut o, Call { op: "bytes".into(), ..x.clone() });
                step(&mut c, &mut o, Call { op: "load".into(), ..x });
            }
        }
    }
}
