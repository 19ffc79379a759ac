//! Triage: a transcription of `Channel.tla`'s acceptance rules, used only to
//! decide which of the (very many) recorded histories are handed to TLC: all
//! those this filter does not accept, and a sample of the others. TLC, with
//! the specification, has the last word on each of them.
use crate::hist::Ev;
use std::collections::{HashMap, HashSet};

#[derive(Clone, PartialEq, Eq, Hash)]
struct Slot {
    ph: u8, // f w r h
    v: i64,
    el: i64,
    by: i64,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Nm {
    Try,
    Tryr,
    Send,
    Sendr,
    Sendt,
    Sendrt,
    Pushw,
    Get,
    Getr,
    Recv,
    Recvr,
    Recvt,
    Recvrt,
    Popw,
    Relp,
    Relc,
    Isc,
    Len,
    Isempty,
    Remaining,
    Capacity,
    Clone,
    Dtx,
    Drx,
    Split,
    Dbg,
}
use Nm::*;
fn nm(s: &str) -> Nm {
    match s {
        "try" => Try,
        "tryr" => Tryr,
        "send" => Send,
        "sendr" => Sendr,
        "sendt" => Sendt,
        "sendrt" => Sendrt,
        "pushw" | "pushwp" => Pushw,
        "get" => Get,
        "getr" => Getr,
        "recv" => Recv,
        "recvr" => Recvr,
        "recvt" => Recvt,
        "recvrt" => Recvrt,
        "popw" | "popwp" => Popw,
        "relp" => Relp,
        "relc" => Relc,
        "isc" => Isc,
        "len" => Len,
        "isempty" => Isempty,
        "remaining" => Remaining,
        "capacity" => Capacity,
        "clone" => Clone,
        "dtx" => Dtx,
        "drx" => Drx,
        "split" => Split,
        _ => Dbg,
    }
}
impl Nm {
    fn send(self) -> bool {
        matches!(self, Try | Tryr | Send | Sendr | Sendt | Sendrt | Pushw)
    }
    fn recv(self) -> bool {
        matches!(self, Get | Getr | Recv | Recvr | Recvt | Recvrt | Popw)
    }
    fn sref(self) -> bool {
        matches!(self, Tryr | Sendr | Sendrt)
    }
    fn rref(self) -> bool {
        matches!(self, Getr | Recvr | Recvrt)
    }
    fn take(self) -> bool {
        matches!(self, Get | Recv | Recvt)
    }
    fn nonblk(self) -> bool {
        matches!(self, Try | Tryr | Pushw | Get | Getr | Popw)
    }
    fn timed(self) -> bool {
        matches!(self, Sendt | Sendrt | Recvt | Recvrt)
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct O {
    id: i64,
    ph: u8, // a act, c clm, d done, i idle
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct S {
    sl: Vec<Slot>,
    hd: u16,
    tl: u16,
    snd: i64,
    txc: bool,
    rxc: bool,
    sp: bool,
    op: Vec<O>, // sorted by id
}
/// what is known about an operation from the history (the same in all states)
struct Inf {
    nm: Nm,
    a: i64,
    m: i64,
    res: String,
    rv: i64,
    pb: Vec<i64>,
    pe: i64,
}
struct Cx {
    trk: bool,
    inf: HashMap<i64, Inf>,
}

impl S {
    fn get(&mut self, i: i64) -> Option<&mut O> {
        self.op.iter_mut().find(|o| o.id == i)
    }
    fn ph(&self, i: i64) -> u8 {
        self.op.iter().find(|o| o.id == i).map(|o| o.ph).unwrap_or(0)
    }
    fn set(mut self, i: i64, ph: u8) -> S {
        self.get(i).unwrap().ph = ph;
        self
    }
    fn del(mut self, i: i64) -> S {
        self.op.retain(|o| o.id != i);
        self
    }
    fn queued(&self) -> usize {
        self.sl.iter().filter(|s| s.ph == b'w' || s.ph == b'r').count()
    }
    fn nx(&self, i: u16) -> u16 {
        (i + 1) % self.sl.len() as u16
    }
    fn hdp(&self) -> u8 {
        self.sl[self.hd as usize].ph
    }
    fn can_recv(&self) -> bool {
        self.hdp() == b'r'
    }
    fn recv_over(&self) -> bool {
        self.txc && !matches!(self.hdp(), b'w' | b'r')
    }
}

impl Cx {
    fn steps(&self, s: &S, k: usize, out: &mut Vec<S>) {
        let o = &s.op[k];
        let i = o.id;
        let f = &self.inf[&i];
        let unk = f.res == "?";
        let wants = |r: &str| unk || f.res == r;
        let valok = |v: i64| unk || f.rv == v;
        let ok = wants("ok") || f.res == "upanic";
        let fin = |s: &S| s.clone().set(i, b'd');
        match o.ph {
            b'a' if f.nm.send() => {
                let t = s.tl as usize;
                let el = s.sl[t].el;
                let free = s.sl[t].ph == b'f';
                if ok && !s.rxc && free {
                    let polok = !self.trk || if el == 0 { f.pb.len() == 1 && f.pb[0] > 0 } else { f.pb == [-el] };
                    if polok {
                        let pel = if !self.trk { 0 } else if el == 0 { f.pb[0] } else { el };
                        if !f.nm.sref() || (valok(0) && (!self.trk || f.pe == pel)) {
                            let mut n = s.clone();
                            n.sl[t] = Slot { ph: b'w', v: 0, el: pel, by: i };
                            n.tl = s.nx(s.tl);
                            out.push(n.set(i, if f.nm.sref() { b'd' } else { b'c' }));
                        }
                    }
                }
                if !s.rxc && !free && ((f.nm.nonblk() && wants("full")) || (f.nm.timed() && wants("timeout"))) {
                    out.push(fin(s));
                }
                if s.rxc && wants("closed") {
                    out.push(fin(s));
                }
            }
            b'a' if f.nm.recv() => {
                let t = s.hd as usize;
                if ok && s.can_recv() && (f.res == "upanic" || valok(s.sl[t].v)) {
                    let polok = !self.trk
                        || ((if f.nm.take() { f.pb.len() == 1 && f.pb[0] > 0 } else { f.pb.is_empty() })
                            && (f.nm == Popw || f.pe == s.sl[t].el));
                    if polok {
                        let mut n = s.clone();
                        n.sl[t].ph = b'h';
                        n.sl[t].by = i;
                        n.hd = s.nx(s.hd);
                        out.push(n.set(i, if f.nm.rref() { b'd' } else { b'c' }));
                    }
                }
                let empty = !s.can_recv() && !s.recv_over();
                if empty && ((f.nm.nonblk() && wants("empty")) || (f.nm.timed() && wants("timeout"))) {
                    out.push(fin(s));
                }
                if s.recv_over() && wants("closed") {
                    out.push(fin(s));
                }
            }
            b'c' if f.nm.send() => {
                if let Some(k) = s.sl.iter().position(|x| x.ph == b'w' && x.by == i) {
                    if f.nm != Pushw || valok(0) || f.res == "upanic" {
                        let mut n = s.clone();
                        n.sl[k].ph = b'r';
                        n.sl[k].v = f.a;
                        if self.trk && f.nm != Pushw {
                            n.sl[k].el = f.pe;
                        }
                        out.push(n.set(i, b'd'));
                    }
                }
            }
            b'c' if f.nm.recv() => {
                if let Some(k) = s.sl.iter().position(|x| x.ph == b'h' && x.by == i) {
                    let mut n = s.clone();
                    let el = if self.trk && f.nm.take() { f.pb.first().copied().unwrap_or(0) } else { n.sl[k].el };
                    n.sl[k] = Slot { ph: b'f', v: 0, by: 0, el };
                    out.push(n.set(i, b'd'));
                }
            }
            b'a' => match f.nm {
                Relp => {
                    if let Some(k) = s.sl.iter().position(|x| x.ph == b'w' && x.by == f.m) {
                        if valok(f.a) {
                            let mut n = s.clone();
                            n.sl[k].ph = b'r';
                            n.sl[k].v = f.a;
                            out.push(n.set(i, b'd'));
                        }
                    }
                }
                Relc => {
                    if let Some(k) = s.sl.iter().position(|x| x.ph == b'h' && x.by == f.m) {
                        if valok(s.sl[k].v) {
                            let mut n = s.clone();
                            n.sl[k] = Slot { ph: b'f', v: 0, by: 0, el: s.sl[k].el };
                            out.push(n.set(i, b'd'));
                        }
                    }
                }
                Isc | Len | Isempty | Remaining | Capacity => {
                    let q = s.queued() as i64;
                    let c = s.sl.len() as i64;
                    let v = match f.nm {
                        Isc => (s.snd == 0) as i64,
                        Len => q,
                        Isempty => (q == 0) as i64,
                        Remaining => c - q,
                        _ => c,
                    };
                    if valok(v) {
                        out.push(fin(s));
                    }
                }
                Clone => {
                    let mut n = fin(s);
                    n.snd += 1;
                    out.push(n);
                }
                Dtx => {
                    let mut n = s.clone();
                    n.snd -= 1;
                    out.push(n.set(i, if s.snd == 1 { b'c' } else { b'd' }));
                }
                Drx => {
                    let mut n = fin(s);
                    n.rxc = true;
                    out.push(n);
                }
                Split => {
                    if s.sp {
                        if wants("none") {
                            out.push(fin(s));
                        }
                    } else if wants("ok") {
                        let mut n = fin(s);
                        n.sp = true;
                        n.snd = 1;
                        out.push(n);
                    }
                }
                Dbg => out.push(fin(s)),
                _ => {}
            },
            b'c' if f.nm == Dtx => {
                let mut n = fin(s);
                n.txc = true;
                out.push(n);
            }
            _ => {}
        }
    }
    fn succ(&self, s: &S, skip: &[i64]) -> Vec<S> {
        let mut out = Vec::new();
        for k in 0..s.op.len() {
            if !skip.contains(&s.op[k].id) {
                self.steps(s, k, &mut out);
            }
        }
        out
    }
    fn finish(&self, t: Vec<S>, i: i64) -> HashSet<S> {
        let mut done = HashSet::new();
        let mut seen: HashSet<S> = t.iter().cloned().collect();
        let mut todo = t;
        while let Some(s) = todo.pop() {
            if s.ph(i) == b'd' {
                done.insert(s);
                continue;
            }
            for n in self.succ(&s, &[]) {
                if seen.insert(n.clone()) {
                    todo.push(n);
                }
            }
        }
        done
    }
    fn settle(&self, t: Vec<S>, skip: &[i64]) -> HashSet<S> {
        let mut seen: HashSet<S> = t.iter().cloned().collect();
        let mut todo = t;
        while let Some(s) = todo.pop() {
            for n in self.succ(&s, skip) {
                if seen.insert(n.clone()) {
                    todo.push(n);
                }
            }
        }
        seen
    }
}

fn class(n: Nm, r: &str) -> i64 {
    let back = if matches!(n, Try | Send | Sendt) { 8 } else { 0 };
    match r {
        "full" => 1 + back,
        "closed" => 2 + back,
        "timeout" => 4 + back,
        "empty" => 0,
        _ => 16,
    }
}

/// Is the (canonical) history accepted?
pub fn accepts(cap: usize, trk: bool, sender: bool, memonly: bool, h: &[Ev]) -> bool {
    let bad = |e: &Ev| {
        matches!(e.k, "race" | "uaf" | "stuck" | "panic" | "doubledrop" | "baddrop" | "hang" | "badval" | "crash")
            || (e.k == "end" && (e.n != 0 || e.v != 0))
            || (e.k == "r" && (e.r == "panic" || e.v == -1 || e.v == -3))
    };
    if h.iter().any(bad) {
        return false;
    }
    if memonly {
        return true;
    }
    let mut pol: HashMap<i64, (Vec<i64>, i64)> = HashMap::new();
    for e in h.iter().filter(|e| e.k == "r") {
        pol.insert(e.i, (e.b.clone(), e.e));
    }
    let mut cx = Cx { trk, inf: HashMap::new() };
    let mut t: Vec<S> = vec![S {
        sl: vec![Slot { ph: b'f', v: 0, el: 0, by: 0 }; cap],
        hd: 0,
        tl: 0,
        snd: sender as i64,
        txc: false,
        rxc: false,
        sp: false,
        op: Vec::new(),
    }];
    // sends which are asleep: those called since, and how many of them completed
    let mut ov: HashMap<i64, (HashSet<i64>, u32)> = HashMap::new();
    for e in h {
        let i = e.i;
        match e.k {
            "p" if cx.inf[&i].nm.send() => {
                ov.insert(i, Default::default());
            }
            "a" | "x" | "y" => {
                ov.remove(&i);
            }
            "c" if nm(&e.o).send() => ov.values_mut().for_each(|x| {
                x.0.insert(i);
            }),
            "r" => {
                ov.remove(&i);
                ov.values_mut().for_each(|x| x.1 += (e.r == "ok" && x.0.contains(&i)) as u32);
            }
            "q" if e.b.iter().any(|i| ov.get(i).map_or(false, |x| x.1 > 8)) => return false,
            _ => {}
        }
        t = match e.k {
            "made" => if cap > 0 { t } else { return false },
            "rejected" => if cap == 0 { t } else { return false },
            "init" => t
                .into_iter()
                .map(|mut s| {
                    s.snd = e.n;
                    s
                })
                .collect(),
            "c" => {
                let (pb, pe) = pol.get(&i).cloned().unwrap_or_default();
                cx.inf.insert(i, Inf { nm: nm(&e.o), a: e.v, m: e.n, res: e.r.clone(), rv: e.s.parse().unwrap_or(0), pb, pe });
                t.into_iter()
                    .map(|mut s| {
                        s.op.push(O { id: i, ph: b'a' });
                        s.op.sort_by_key(|o| o.id);
                        s
                    })
                    .collect()
            }
            "a" => t.into_iter().filter(|s| s.ph(i) != 0).map(|s| s.set(i, b'a')).collect(),
            "p" => t.into_iter().filter(|s| s.ph(i) == b'a').map(|s| s.set(i, b'i')).collect(),
            "r" if e.r == "upanic" => cx.settle(t, &[]).into_iter().filter(|s| s.ph(i) != b'c').map(|s| s.del(i)).collect::<HashSet<_>>().into_iter().collect(),
            "r" => {
                let Some(f) = cx.inf.get(&i) else { return false };
                let mut ok = e.r == f.res && e.n == class(f.nm, &e.r);
                if matches!(f.nm, Try | Send | Sendt) && matches!(e.r.as_str(), "full" | "closed" | "timeout") {
                    ok &= e.v == f.a;
                }
                if let Ok(tm) = e.o.parse::<i64>() {
                    ok &= e.r != "timeout" || tm >= f.m;
                    ok &= tm <= f.m + 2000;
                }
                if !ok {
                    return false;
                }
                cx.finish(t, i).into_iter().map(|s| s.del(i)).collect::<HashSet<_>>().into_iter().collect()
            }
            "x" => t.into_iter().filter(|s| matches!(s.ph(i), b'a' | b'i')).map(|s| s.del(i)).collect(),
            "y" => t,
            "q" => cx
                .settle(t, &e.b.iter().copied().filter(|i| cx.inf[i].res != "timeout").collect::<Vec<_>>())
                .into_iter()
                .filter(|s| {
                    e.b.iter().all(|i| {
                        let f = &cx.inf[i];
                        (matches!(s.ph(*i), b'a' | b'i') || f.res == "timeout") && {
                            let sleep_ok = (f.nm.recv() && !s.can_recv() && !s.recv_over())
                                || (f.nm.send() && !s.rxc && s.sl.iter().any(|x| x.ph != b'f'));
                            sleep_ok
                                || s.op.iter().any(|o| {
                                    !e.b.contains(&o.id) && (o.ph != b'i' || (f.nm.send() && cx.inf[&o.id].nm.send()))
                                })
                        }
                    })
                })
                .collect(),
            "end" => t,
            _ => return false,
        };
        if t.is_empty() {
            return false;
        }
    }
    true
}
