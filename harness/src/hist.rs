//! Recorded events and histories.
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ev {
    pub k: &'static str,
    pub i: i64,
    pub o: String,
    pub v: i64,
    pub r: String,
    pub n: i64,
    pub e: i64,
    pub b: Vec<i64>,
    pub s: String,
}

/// The history in the form the specification reads: times become elapsed
/// times, calls know their result, and neighbouring events which commute are
/// put into a fixed order.
pub fn canon(log: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::with_capacity(log.len());
    let mut fin: HashMap<i64, (String, i64)> = HashMap::new();
    let mut start: HashMap<i64, (i64, i64)> = HashMap::new();
    for e in log {
        if e.k == "r" {
            fin.insert(e.i, (e.r.clone(), e.v));
        }
        if e.k == "y" {
            fin.entry(e.i).or_insert(("cancel".into(), 0));
        }
    }
    for e in log {
        let mut e = e.clone();
        match e.k {
            "c" | "a" => {
                if e.k == "c" {
                    start.insert(e.i, (e.e, if matches!(e.o.as_str(), "sendt" | "sendrt" | "recvt" | "recvrt") { e.n } else { -1 }));
                }
                e.e = 0;
                let (r, v) = fin.get(&e.i).cloned().unwrap_or(("?".into(), 0));
                e.r = r;
                e.s = format!("{v}");
            }
            "r" => {
                let (t0, d) = start.get(&e.i).copied().unwrap_or((0, -1));
                // elapsed time; delays for which the operation is not to blame do
                // not count against its deadline
                let mut it = e.o.split(' ').map(|x| x.parse::<i64>().unwrap_or(0));
                let (t1, late) = (it.next().unwrap_or(t0), it.next().unwrap_or(0));
                let el = t1 - t0;
                e.o = if d >= 0 { format!("{}", el.min(d).max(el - late)) } else { String::new() };
            }
            _ => {}
        }
        out.push(e);
    }
    // commuting neighbours
    let class = |e: &Ev| match e.k {
        "c" | "a" => 1,
        "r" | "p" | "y" => 2,
        _ => 0,
    };
    let mut i = 0;
    while i < out.len() {
        let k = class(&out[i]);
        let mut j = i + 1;
        if k > 0 {
            while j < out.len() && class(&out[j]) == k {
                j += 1;
            }
            out[i..j].sort_by_key(|e| e.i);
        }
        i = j;
    }
    out
}

pub fn show(e: &Ev) -> Value {
    let mut m = serde_json::Map::new();
    m.insert("k".into(), json!(e.k));
    m.insert("i".into(), json!(e.i));
    if !e.o.is_empty() {
        m.insert("o".into(), json!(e.o));
    }
    if e.v != 0 {
        m.insert("v".into(), json!(e.v));
    }
    if !e.r.is_empty() {
        m.insert("r".into(), json!(e.r));
    }
    if e.n != 0 {
        m.insert("n".into(), json!(e.n));
    }
    if e.e != 0 {
        m.insert("e".into(), json!(e.e));
    }
    if !e.b.is_empty() {
        m.insert("b".into(), json!(e.b));
    }
    if !e.s.is_empty() {
        m.insert("s".into(), json!(e.s));
    }
    Value::Object(m)
}

pub fn key(h: &[Ev]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(h.len() * 16);
    for e in h {
        let _ = write!(s, "{}{}{},{},{},{},{:?}{};", e.k, e.i, e.o, e.v, e.r, e.n, e.b, e.s);
        if e.e != 0 {
            let _ = write!(s, "{};", e.e);
        }
    }
    s
}

pub fn hash2(s: &str) -> u128 {
    use std::hash::{Hash, Hasher};
    let mut a = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    0x9e37u32.hash(&mut b);
    s.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}
