//! Scenario interpreter: runs one execution of a scenario and records its history.
use crate::api::*;
use crate::elem::{waker, Elem, UserPanic};
use crate::rt::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub a: Vec<Value>,
}
impl Op {
    fn s(&self, i: usize) -> &str {
        self.a.get(i).and_then(|v| v.as_str()).unwrap_or("")
    }
    fn n(&self, i: usize) -> i64 {
        self.a.get(i).and_then(|v| v.as_i64()).unwrap_or(0)
    }
}

#[derive(Clone)]
pub struct Scenario {
    pub id: String,
    pub fl: String,
    pub cap: usize,
    pub pre: Vec<Op>,
    pub th: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    pub td_rx: bool,
    pub mk: bool,
    pub fresh: bool,
    pub seqq: bool,
    pub pol: bool,
    pub faults: Vec<(String, i64)>,
    pub mode: Mode,
    pub budget: u8,
    pub execs: u64,
    pub rand: u64,
    pub limit: u64,
    pub rawsplit: bool,
    /// receive what is left before the receiver goes away
    pub drain: bool,
    /// futures and references made by `pre` which belong to a thread
    pub own: Vec<(String, usize)>,
    /// the receiver is shared by all threads
    pub shrx: bool,
}

/// A receiver used by reference from another thread
struct Shared(*const dyn Rx);
impl Shared {
    fn r(&self) -> &dyn Rx {
        unsafe { &*self.0 }
    }
}
impl Rx for Shared {
    fn try_recv(&self) -> Out {
        self.r().try_recv()
    }
    fn try_recv_ref(&self) -> Out {
        self.r().try_recv_ref()
    }
    fn recv(&self) -> Out {
        self.r().recv()
    }
    fn recv_ref(&self) -> Out {
        self.r().recv_ref()
    }
    fn f_recv(&self) -> Fut {
        self.r().f_recv()
    }
    fn f_recv_ref(&self) -> Fut {
        self.r().f_recv_ref()
    }
    fn is_closed(&self) -> bool {
        self.r().is_closed()
    }
    fn dbg(&self) -> String {
        self.r().dbg()
    }
}

fn ops(v: &Value) -> Vec<Op> {
    let mut out = Vec::new();
    if let Some(a) = v.as_array() {
        for o in a {
            let o = o.as_array().expect("op");
            out.push(Op { name: o[0].as_str().unwrap().to_string(), a: o[1..].to_vec() });
        }
    }
    out
}
impl Scenario {
    pub fn parse(v: &Value) -> Scenario {
        let g = |k: &str| v.get(k).cloned().unwrap_or(Value::Null);
        let th: Vec<Vec<Op>> = g("th").as_array().map(|a| a.iter().map(ops).collect()).unwrap_or_default();
        let nops: usize = th.iter().map(|t| t.len()).sum::<usize>() + ops(&g("pre")).len();
        Scenario {
            id: g("id").as_str().unwrap_or("?").into(),
            fl: g("fl").as_str().unwrap().into(),
            cap: g("cap").as_u64().unwrap() as usize,
            pre: ops(&g("pre")),
            th,
            post: ops(&g("post")),
            td_rx: g("td").as_str() == Some("rx"),
            mk: g("mk").as_bool().unwrap_or(false),
            fresh: g("wk").as_str() != Some("same"),
            seqq: g("seqq").as_bool().unwrap_or(false),
            pol: g("pol").as_bool().unwrap_or(false),
            faults: g("faults").as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect()).unwrap_or_default(),
            mode: Mode {
                weak: g("weak").as_u64().unwrap_or(0) as u8,
                weakcas: g("weakcas").as_bool().unwrap_or(false),
                spurious: g("spurious").as_bool().unwrap_or(false),
                timers: g("timers").as_bool().unwrap_or(true),
                freeze: g("freeze").as_u64().map(|x| x as usize),
            },
            budget: g("budget").as_u64().unwrap_or(2) as u8,
            execs: g("execs").as_u64().unwrap_or(2000),
            rand: g("rand").as_u64().unwrap_or(0),
            limit: 20_000 + 400 * nops as u64,
            rawsplit: g("rawsplit").as_bool().unwrap_or(false),
            drain: g("drain").as_bool().unwrap_or(false),
            own: g("own").as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap() as usize)).collect()).unwrap_or_default(),
            shrx: g("shrx").as_bool().unwrap_or(false),
        }
    }
}

struct FutSt {
    f: Option<Fut>,
    op: i64,
    name: String,
    v: i64,
    uid: u64,
    href: String,
    started: bool,
    waker: usize,
    wset: bool,
    bor: usize,
    /// a sender or receiver the task owns
    own: (Option<Box<dyn Tx>>, Option<Box<dyn Rx>>),
}

#[derive(Default)]
struct Env {
    tx: Vec<Box<dyn Tx>>,
    rx: Option<Box<dyn Rx>>,
    refs: BTreeMap<String, (Box<dyn ERef>, bool, i64, usize)>, // (ref, is_send, id of the op that made it, handle it borrows)
    futs: BTreeMap<String, FutSt>,
    wk: BTreeMap<String, usize>,
    prx: Option<(i64, usize, bool)>, // pending poll_recv pseudo-operation
    seq: i64,
}

struct World {
    sc: *const Scenario,
    env: Vec<Env>,
    owner: Option<Owner>,
    split: Option<&'static dyn Split>,
    torn: Vec<bool>,
    /// futures kept alive by their wakers
    tasks: BTreeMap<usize, FutSt>,
}
static mut W: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *W }
}

fn is_tx(o: &str) -> bool {
    matches!(o, "try" | "tryr" | "send" | "sendr" | "sendt" | "sendrt" | "fsend" | "fsendr" | "clone" | "dtx" | "pdtx" | "pushw" | "pushwp" | "pushwn" | "dbgtx")
}
fn is_rx(o: &str) -> bool {
    matches!(
        o,
        "get" | "getr" | "recv" | "recvr" | "iter" | "recvt" | "recvrt" | "frecv" | "frecvr" | "prx" | "prxr" | "drx" | "pdrx" | "isc" | "len"
            | "isempty" | "remaining" | "capacity" | "popw" | "popwp" | "popwn" | "recvall" | "getall" | "dbgrx" | "recvrall"
    )
}

/// Runs an operation, and notes where the part of the stack begins which the
/// operation uses and leaves behind.
#[inline(never)]
fn tramp(f: &mut dyn FnMut() -> Out) -> Out {
    let mark = 0u8;
    {
        let _o = off();
        let r = rt();
        let c = r.cur;
        r.th[c].base = std::hint::black_box(&mark as *const u8 as usize);
    }
    let o = f();
    std::hint::black_box(&mark);
    o
}

fn newop(t: usize) -> i64 {
    let e = &mut w().env[t];
    e.seq += 1;
    (t as i64) * 1000 + e.seq
}

fn finish(out: Result<Out, Box<dyn std::any::Any + Send>>, t: usize, id: i64, name: &str, sent: u64, href: &str, v0: i64, send: bool) -> (&'static str, i64) {
    // runs with the arena on
    let mut ev = Ev { k: "r", i: id, ..Default::default() };
    let mut res: &'static str = "panic";
    match out {
        Ok(mut o) => {
            res = o.r;
            ev.n = o.n;
            if !send && (o.r == "closed" || name == "isc" && o.num == 1) {
                for t in 0..w().env.len() {
                    user(t, false);
                }
            }
            if let Some(e) = &o.v {
                ev.v = e.get();
                ev.e = e.id as i64;
                if o.r != "ok" && e.id != sent {
                    ev.v = -2;
                }
            } else {
                ev.v = o.num;
            }
            if let Some(mut h) = o.held.take() {
                // look at what is in the slot
                ev.e = h.el().id as i64;
                ev.v = h.el().get();
                let s = h.show();
                if s != format!("E{}|{}", ev.v, ev.v) {
                    ev.v = -3;
                }
                let mut key = href.to_string();
                while w().env[t].refs.contains_key(&key) {
                    key.push('+');
                }
                let bor = handle(t, send);
                w().env[t].refs.insert(key, (h, send, id, bor));
            } else if o.r == "ok" && sent != 0 {
                ev.e = sent as i64;
            }
            drop(o);
        }
        Err(p) => {
            if p.is::<UserPanic>() {
                res = "upanic";
            } else {
                let _o = off();
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ev.s = m.lines().next().unwrap_or("").chars().take(160).collect();
            }
            drop(p);
        }
    }
    let _o = off();
    let r = rt();
    let base = r.th[t].base;
    r.retire_stack(base);
    ev.r = res.to_string();
    if unsafe { (*w().sc).pol } {
        ev.b = std::mem::take(&mut r.th[t].pol);
    } else {
        r.th[t].pol.clear();
        ev.e = 0;
    }
    let v = ev.v;
    r.bret();
    if r.trace {
        eprintln!("t{t} ret  #{id} {res} v={v} n={} {}", ev.n, ev.s);
    }
    (res, { r.log.push(ev); v })
}

fn begin(t: usize, id: i64, name: &str, v: i64, d: Option<i64>, k: &'static str) {
    let _o = off();
    let r = rt();
    r.th[t].op = id;
    r.bcall();
    r.th[t].pol.clear();
    r.th[t].op_deadline = d.map(|x| r.now.saturating_add(x as u64 * US));
    r.th[t].delay = 0;
    if r.trace {
        eprintln!("t{t} {k}    #{id} {name} {v}");
    }
    r.log.push(Ev { k, i: id, o: name.to_string(), v, n: d.unwrap_or(0), e: (r.now / US) as i64, ..Default::default() });
}
fn end(t: usize) {
    let _o = off();
    let r = rt();
    // stamp the return with the time, and how long the thread was kept from running
    let (now, late) = ((r.now / US) as i64, (r.th[t].delay / US) as i64);
    if let Some(e) = r.log.iter_mut().rev().find(|e| e.k == "r" && e.i == r.th[t].op) {
        e.o = format!("{now} {late}");
    }
    r.th[t].op = -1;
    r.th[t].op_deadline = None;
}

fn simple(t: usize, name: &str, v: i64, sent: u64, href: &str, send: bool, d: Option<i64>, f: &mut dyn FnMut() -> Out) -> (&'static str, i64) {
    let id = newop(t);
    begin(t, id, name, v, d, "c");
    let out = catch_unwind(AssertUnwindSafe(|| tramp(f)));
    let r = finish(out, t, id, name, sent, href, v, send);
    end(t);
    r
}

/// drives a future to completion, waiting for its most recent waker
fn block_on(t: usize, name: &str, v: i64, sent: u64, href: &str, send: bool, fut: Fut) -> (&'static str, i64) {
    let id = newop(t);
    let fresh = unsafe { (*w().sc).fresh };
    begin(t, id, name, v, None, "c");
    let mut fut = Some(fut);
    let mut wid = usize::MAX;
    loop {
        if wid == usize::MAX || fresh {
            let _o = off();
            wid = rt().new_waker();
        }
        if name.starts_with("recv") {
            // a newer receive poll supersedes older registrations
            let _o = off();
            rt().aslp.retain(|op, _| w_is_send(*op));
        }
        let wk = waker(wid);
        let mut cx = Context::from_waker(&wk);
        let mut pend = false;
        let out = catch_unwind(AssertUnwindSafe(|| {
            tramp(&mut || match fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(o) => o,
                Poll::Pending => {
                    pend = true;
                    Out::new("pend")
                }
            })
        }));
        if fresh {
            drop(wk);
        } else {
            std::mem::forget(wk);
        }
        if !pend {
            // the future is done: drop it (its memory goes away) before returning
            let out = match catch_unwind(AssertUnwindSafe(|| drop(fut.take()))) {
                Ok(()) => out,
                Err(e) => Err(e),
            };
            let r = finish(out, t, id, name, sent, href, v, send);
            if !fresh {
                let _o = off();
                rt().waker_drop(wid);
            }
            end(t);
            return r;
        }
        let _o = off();
        let r = rt();
        if r.trace {
            eprintln!("t{t} pend #{id}");
        }
        r.bret();
        r.log.push(Ev { k: "p", i: id, ..Default::default() });
        r.wait_wake(wid);
        r.bcall();
        if r.trace {
            eprintln!("t{t} poll #{id}");
        }
        r.log.push(Ev { k: "a", i: id, ..Default::default() });
    }
}

fn relref(t: usize, h: &str, v: i64, wr: bool, panicking: bool) {
    let Some((r, send, maker, _)) = w().env[t].refs.remove(h) else { return };
    let mut r = Some(r);
    // v = 0: publish/release without writing
    let id = newop(t);
    let name = if send { "relp" } else { "relc" };
    begin(t, id, name, v, None, "c");
    {
        let _o = off();
        let rr = rt();
        rr.log.last_mut().unwrap().n = maker;
    }
    let out = catch_unwind(AssertUnwindSafe(|| {
        tramp(&mut || {
            let mut x = r.take().unwrap();
            if send {
                if wr {
                    x.wr(v);
                } else if v != 0 {
                    x.el().set(v);
                }
            }
            let got = x.el().get();
            if panicking {
                unwinding(move || drop(x));
            } else {
                drop(x);
            }
            let mut o = Out::new("ok");
            o.num = got;
            o
        })
    }));
    finish(out, t, id, name, 0, "", v, send);
    end(t);
}
fn dropfut(t: usize, f: &str, panicking: bool) {
    let Some(mut fs) = w().env[t].futs.remove(f) else { return };
    {
        let _o = off();
        let r = rt();
        r.th[t].op = fs.op;
        r.bcall();
        if fs.started && fs.f.is_some() {
            r.log.push(Ev { k: "x", i: fs.op, ..Default::default() });
        }
        if r.trace {
            eprintln!("t{t} dropfut {f} #{}", fs.op);
        }
        r.aslp.remove(&fs.op);
    }
    let fut = fs.f.take();
    let out = catch_unwind(AssertUnwindSafe(|| {
        tramp(&mut || Out::new("ok"));
        if panicking {
            unwinding(move || drop(fut));
        } else {
            drop(fut);
        }
    }));
    if let Err(p) = out {
        let _o = off();
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        rt().log_bad("panic", format!("dropping a future: {}", m.lines().next().unwrap_or("")));
    }
    let _o = off();
    let r = rt();
    if fs.wset {
        r.waker_drop(fs.waker);
    }
    r.bret();
    r.log.push(Ev { k: "y", i: fs.op, ..Default::default() });
    r.th[t].op = -1;
    drop(_o);
    if fs.own.0.is_some() || fs.own.1.is_some() {
        dropown(t, std::mem::take(&mut fs.own));
    }
}

fn pollfut(t: usize, f: &str, wname: &str) {
    let Some(mut fs) = w().env[t].futs.remove(f) else { return };
    if fs.f.is_none() {
        return;
    }
    // waker: named ones are shared between polls, otherwise a fresh one
    let wid = {
        let _o = off();
        let e = &mut w().env[t];
        if wname.is_empty() {
            rt().new_waker()
        } else if let Some(id) = wname.strip_prefix('@') {
            id.parse().unwrap()
        } else {
            *e.wk.entry(wname.to_string()).or_insert_with(|| rt().new_waker())
        }
    };
    begin(t, fs.op, &fs.name, fs.v, None, if fs.started { "a" } else { "c" });
    fs.started = true;
    {
        let _o = off();
        rt().rearm(wid);
        rt().aslp.remove(&fs.op);
        if fs.name.starts_with("recv") {
            // a newer receive poll supersedes older registrations
            rt().aslp.retain(|op, _| w_is_send(*op));
        }
    }
    let wk = waker(wid);
    let mut cx = Context::from_waker(&wk);
    let mut pend = false;
    let out = catch_unwind(AssertUnwindSafe(|| {
        tramp(&mut || match fs.f.as_mut().unwrap().as_mut().poll(&mut cx) {
            Poll::Ready(o) => o,
            Poll::Pending => {
                pend = true;
                Out::new("pend")
            }
        })
    }));
    if wname.is_empty() || wname.starts_with('@') {
        drop(wk);
    } else {
        std::mem::forget(wk);
    }
    if pend {
        let _o = off();
        let r = rt();
        if r.trace {
            eprintln!("t{t} pend #{}", fs.op);
        }
        r.bret();
        r.log.push(Ev { k: "p", i: fs.op, ..Default::default() });
        r.aslp.insert(fs.op, wid);
        set_is_send(fs.op, fs.name.starts_with("send"));
        r.th[t].op = -1;
        drop(_o);
        w().env[t].futs.insert(f.to_string(), fs);
        return;
    }
    let up = matches!(&out, Err(p) if p.is::<UserPanic>());
    let out = match catch_unwind(AssertUnwindSafe(|| {
        if !up {
            drop(fs.f.take())
        }
    })) {
        Ok(()) => out,
        Err(e) => Err(e),
    };
    finish(out, t, fs.op, &fs.name, fs.uid, &fs.href, fs.v, fs.name.starts_with("send"));
    for r in w().env[t].refs.values_mut().filter(|r| r.2 == fs.op) {
        r.3 = fs.bor;
    }
    end(t);
    if up {
        drop(fs.f.take());
    }
}
/// Runs operations in the middle of another one (from a callback).
fn nested(f: impl FnOnce(usize)) {
    let (t, keep) = {
        let _o = off();
        let r = rt();
        let t = r.cur;
        let h = &mut r.th[t];
        (t, (h.op, std::mem::take(&mut h.pol), h.base, h.op_deadline, h.delay))
    };
    f(t);
    let _o = off();
    let h = &mut rt().th[t];
    h.op = keep.0;
    h.pol = keep.1;
    h.base = keep.2;
    h.op_deadline = keep.3;
    h.delay = keep.4;
}
fn task(id: usize) -> u8 {
    let _o = off();
    rt().wakers[id].task
}
pub fn on_wake(id: usize) {
    if task(id) == 2 {
        nested(|t| polltask(t, id));
    }
}
pub fn on_drop(id: usize) {
    let gone = task(id) > 0 && {
        let _o = off();
        rt().waker_clones(id) == 0
    };
    if gone {
        nested(|t| droptask(t, id));
    }
}
fn droptask(t: usize, id: usize) {
    let Some(fs) = w().tasks.remove(&id) else { return };
    {
        let _o = off();
        rt().task_sync(id);
    }
    w().env[t].futs.insert("_task".into(), fs);
    dropfut(t, "_task", false);
}
/// drops the handles of a task which is finished
fn dropown(t: usize, own: (Option<Box<dyn Tx>>, Option<Box<dyn Rx>>)) {
    if let Some(h) = own.0 {
        drop_h(t, "dtx", false, move || drop(h));
    }
    if let Some(h) = own.1 {
        drop_h(t, "drx", false, move || drop(h));
    }
}
fn polltask(t: usize, id: usize) {
    let Some(mut fs) = w().tasks.remove(&id) else {
        return; // finished, or running: then it will see that it was woken
    };
    loop {
        {
            let _o = off();
            rt().task_sync(id);
        }
        begin(t, fs.op, &fs.name, fs.v, None, if fs.started { "a" } else { "c" });
        fs.started = true;
        {
            let _o = off();
            rt().rearm(id);
            rt().aslp.remove(&fs.op);
            if fs.name.starts_with("recv") {
                rt().aslp.retain(|op, _| w_is_send(*op));
            }
        }
        let wk = waker(id);
        let mut cx = Context::from_waker(&wk);
        let mut pend = false;
        let out = catch_unwind(AssertUnwindSafe(|| {
            tramp(&mut || match fs.f.as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(o) => o,
                Poll::Pending => {
                    pend = true;
                    Out::new("pend")
                }
            })
        }));
        std::mem::forget(wk);
        if pend {
            let _o = off();
            let r = rt();
            if r.trace {
                eprintln!("t{t} pend #{} (task w{id})", fs.op);
            }
            r.bret();
            r.log.push(Ev { k: "p", i: fs.op, ..Default::default() });
            r.aslp.insert(fs.op, id);
            set_is_send(fs.op, fs.name.starts_with("send"));
            r.th[t].op = -1;
            r.task_sync(id);
            if r.wakers[id].task == 2 && r.wakers[id].woken {
                continue;
            }
            drop(_o);
            w().tasks.insert(id, fs);
            return;
        }
        let out = match catch_unwind(AssertUnwindSafe(|| drop(fs.f.take()))) {
            Ok(()) => out,
            Err(e) => Err(e),
        };
        finish(out, t, fs.op, &fs.name, fs.uid, &fs.href, fs.v, fs.name.starts_with("send"));
        for r in w().env[t].refs.values_mut().filter(|r| r.2 == fs.op) {
            r.3 = fs.bor;
        }
        end(t);
        if fs.own.0.is_some() || fs.own.1.is_some() {
            unborrow(t, fs.bor);
            dropown(t, std::mem::take(&mut fs.own));
        }
        return;
    }
}
static mut SENDS: Vec<i64> = Vec::new();
#[allow(static_mut_refs)]
fn w_is_send(op: i64) -> bool {
    unsafe { SENDS.contains(&op) }
}
#[allow(static_mut_refs)]
fn set_is_send(op: i64, b: bool) {
    unsafe {
        if b && !SENDS.contains(&op) {
            SENDS.push(op)
        }
    }
}

fn asyncfl(sc: &Scenario) -> bool {
    sc.fl.starts_with('a')
}

pub fn exec(t: usize, op: &Op) {
    let sc = unsafe { &*w().sc };
    let asy = asyncfl(sc);
    let n = op.name.as_str();
    macro_rules! tx {
        () => {
            match w().env[t].tx.last() {
                Some(x) => unsafe { &*(&**x as *const dyn Tx) },
                None => return,
            }
        };
    }
    macro_rules! rx {
        () => {
            match w().env[t].rx.as_ref() {
                Some(x) => unsafe { &*(&**x as *const dyn Rx) },
                None => return,
            }
        };
    }
    let us = |x: i64| if x >= FOREVER { Duration::MAX } else { Duration::from_micros(x as u64) };
    match n {
        "try" => {
            let x = tx!();
            let e = Elem::user(op.n(0));
            let id = e.id;
            let mut e = Some(e);
            simple(t, "try", op.n(0), id, "", true, None, &mut || x.try_send(e.take().unwrap()));
        }
        "tryr" => {
            let x = tx!();
            simple(t, "tryr", 0, 0, op.s(0), true, None, &mut || x.try_send_ref());
        }
        "pushw" => {
            let x = tx!();
            let v = op.n(0);
            simple(t, "pushw", v, 0, "", true, None, &mut || {
                let mut seen = 0;
                let mut o = x.push_with(&mut |e| {
                    seen = e.get();
                    e.set(v)
                });
                o.num = seen;
                o
            });
        }
        "pushwn" | "popwn" => {
            // the closure uses the queue as well
            let inner: Vec<Op> = op.a[if n == "pushwn" { 1 } else { 0 }..].iter().flat_map(|o| ops(&Value::Array(vec![o.clone()]))).collect();
            if n == "pushwn" {
                let x = tx!();
                let v = op.n(0);
                simple(t, "pushw", v, 0, "", true, None, &mut || {
                    let mut seen = 0;
                    let mut o = x.push_with(&mut |e| {
                        seen = e.get();
                        e.set(v);
                        nested(|t| inner.iter().for_each(|o| exec(t, o)));
                    });
                    o.num = seen;
                    o
                });
            } else {
                let x = rx!();
                simple(t, "popw", 0, 0, "", false, None, &mut || {
                    let mut seen = 0;
                    let mut o = x.pop_with(&mut |e| {
                        seen = e.get();
                        nested(|t| inner.iter().for_each(|o| exec(t, o)));
                    });
                    o.num = seen;
                    o
                });
            }
        }
        "pushwp" => {
            let x = tx!();
            let v = op.n(0);
            simple(t, "pushwp", v, 0, "", true, None, &mut || {
                x.push_with(&mut |e| {
                    e.set(v);
                    std::panic::panic_any(UserPanic)
                })
            });
        }
        "popw" => {
            let x = rx!();
            simple(t, "popw", 0, 0, "", false, None, &mut || {
                let mut seen = 0;
                let mut o = x.pop_with(&mut |e| seen = e.get());
                o.num = seen;
                o
            });
        }
        "popwp" => {
            let x = rx!();
            simple(t, "popwp", 0, 0, "", false, None, &mut || x.pop_with(&mut |_| std::panic::panic_any(UserPanic)));
        }
        "get" => {
            let x = rx!();
            simple(t, "get", 0, 0, "", false, None, &mut || x.try_recv());
        }
        "getall" => {
            for _ in 0..64 {
                let x = rx!();
                let (r, _) = simple(t, "get", 0, 0, "", false, None, &mut || x.try_recv());
                if r != "ok" {
                    break;
                }
            }
        }
        "warp" => {
            // Many laps at full speed, as pairs of operations whose results are
            // checked here; a pair which goes as it has to leaves the state as it was
            // and is taken out of the history, any other one stays in it.
            // warp N: try, get; warp N v..: get, try of the messages v.. in the queue
            let x = tx!();
            let y = rx!();
            let vs: Vec<i64> = (1..op.a.len()).map(|i| op.n(i)).collect();
            rt().warp = true;
            let mut bad = false;
            'o: for lap in 0..op.n(0) {
                let one = [1 + lap % 50];
                for v in if vs.is_empty() { &one[..] } else { &vs[..] } {
                    let (len, seq) = (rt().log.len(), w().env[t].seq);
                    for k in 0..2 {
                        let ok = if (k == 0) == vs.is_empty() {
                            let e = Elem::user(*v);
                            let id = e.id;
                            let mut e = Some(e);
                            simple(t, "try", *v, id, "", true, None, &mut || x.try_send(e.take().unwrap())).0 == "ok"
                        } else {
                            let (r, g) = simple(t, "get", 0, 0, "", false, None, &mut || y.try_recv());
                            r == "ok" && g == *v
                        };
                        bad = !ok || rt().log.len() != len + 2 * (k + 1);
                        if bad {
                            break 'o;
                        }
                    }
                    let _o = off();
                    rt().log.truncate(len);
                    w().env[t].seq = seq;
                }
            }
            rt().warp = false;
            let _ = bad;
        }
        "getr" => {
            let x = rx!();
            simple(t, "getr", 0, 0, op.s(0), false, None, &mut || x.try_recv_ref());
        }
        "send" | "sendr" => {
            let x = tx!();
            let val = n == "send";
            let (id, mut e) = if val {
                let e = Elem::user(op.n(0));
                (e.id, Some(e))
            } else {
                (0, None)
            };
            let href = if val { "" } else { op.s(0) };
            let v = if val { op.n(0) } else { 0 };
            if asy {
                let f = if val { x.f_send(e.take().unwrap()) } else { x.f_send_ref() };
                block_on(t, n, v, id, href, true, f);
            } else {
                simple(t, n, v, id, href, true, None, &mut || if val { x.send(e.take().unwrap()) } else { x.send_ref() });
            }
        }
        "sendt" => {
            let x = tx!();
            let e = Elem::user(op.n(0));
            let id = e.id;
            let mut e = Some(e);
            simple(t, n, op.n(0), id, "", true, Some(op.n(1)), &mut || x.send_t(e.take().unwrap(), us(op.n(1))));
        }
        "sendrt" => {
            let x = tx!();
            simple(t, n, 0, 0, op.s(0), true, Some(op.n(1)), &mut || x.send_ref_t(us(op.n(1))));
        }
        "recv" | "recvall" | "recvrall" => {
            for k in 0..64 {
                let x = rx!();
                let byref = n == "recvrall";
                let nm = if byref { "recvr" } else { "recv" };
                let (r, _) = if asy {
                    block_on(t, nm, 0, 0, "_ra", false, if byref { x.f_recv_ref() } else { x.f_recv() })
                } else {
                    simple(t, nm, 0, 0, "_ra", false, None, &mut || if byref { x.recv_ref() } else { x.recv() })
                };
                if byref && r == "ok" {
                    relref(t, "_ra", 0, false, false);
                }
                if n == "recv" || r != "ok" || (op.n(0) > 0 && k + 1 >= op.n(0)) {
                    break;
                }
            }
        }
        "recvr" | "iter" => {
            let x = rx!();
            if asy {
                block_on(t, "recvr", 0, 0, op.s(0), false, x.f_recv_ref());
            } else {
                simple(t, "recvr", 0, 0, op.s(0), false, None, &mut || if n == "iter" { x.iter_next() } else { x.recv_ref() });
            }
        }
        "recvt" => {
            let x = rx!();
            simple(t, n, 0, 0, "", false, Some(op.n(0)), &mut || x.recv_t(us(op.n(0))));
        }
        "recvrt" => {
            let x = rx!();
            simple(t, n, 0, 0, op.s(0), false, Some(op.n(1)), &mut || x.recv_ref_t(us(op.n(1))));
        }
        "relp" | "relc" | "relw" | "prelp" | "prelc" | "prelw" => {
            let h = op.s(0);
            relref(t, h, op.n(1), n.ends_with("relw"), n.starts_with("prel"));
        }
        "touch" => {
            // look at (and rewrite) the element while holding the reference
            if let Some((r, _, _, _)) = w().env[t].refs.get_mut(op.s(0)) {
                let _ = r.el().get();
                let _o = off();
                rt().bcall();
            }
        }
        "fsend" | "fsendr" | "frecv" | "frecvr" => {
            dropfut(t, op.s(0), false);
            let id = newop(t);
            let (f, name, v, uid, href) = match n {
                "fsend" => {
                    let e = Elem::user(op.n(1));
                    let uid = e.id;
                    (tx!().f_send(e), "send", op.n(1), uid, "")
                }
                "fsendr" => (tx!().f_send_ref(), "sendr", 0, 0, op.s(1)),
                "frecv" => (rx!().f_recv(), "recv", 0, 0, ""),
                _ => (rx!().f_recv_ref(), "recvr", 0, 0, op.s(1)),
            };
            w().env[t].futs.insert(
                op.s(0).to_string(),
                FutSt { f: Some(f), op: id, name: name.to_string(), v, uid, href: href.to_string(), started: false, waker: 0, wset: false, bor: handle(t, n.starts_with("fsend")), own: (None, None) },
            );
        }
        "poll" => pollfut(t, op.s(0), op.s(1)),
        "drop" | "pdrop" => dropfut(t, op.s(0), n == "pdrop"),
        "spawn" | "pollo" => {
            // from now on the future and the handle it uses belong to its wakers
            let g = if n == "spawn" { op.s(0) } else { op.s(1) };
            if n == "pollo" && !w().env[t].futs.contains_key(op.s(0)) {
                return;
            }
            let Some(mut fs) = w().env[t].futs.remove(g) else { return };
            let sp = if n == "pollo" { w().env[t].futs.remove(op.s(0)) } else { None };
            if matches!(&sp, Some(f) if f.bor == fs.bor) {
                fatal("pollo: the futures use the same handle");
            }
            unborrow(t, fs.bor);
            if fs.name.starts_with("send") {
                let at = w().env[t].tx.iter().position(|x| &**x as *const dyn Tx as *const u8 as usize == fs.bor);
                let Some(at) = at else { fatal("spawn: whose handle?") };
                fs.own.0 = Some(w().env[t].tx.remove(at));
            } else {
                endprx(t);
                fs.own.1 = w().env[t].rx.take();
            }
            let id = {
                let _o = off();
                let id = rt().new_waker();
                rt().wakers[id].task = if op.s(1) == "inl" { 2 } else { 1 };
                id
            };
            w().tasks.insert(id, fs);
            if let Some(sp) = sp {
                // the task is only kept alive by the waker another future is polled with
                w().env[t].futs.insert(op.s(0).to_string(), sp);
                let nm = {
                    let _o = off();
                    format!("@{id}")
                };
                pollfut(t, op.s(0), &nm);
            } else {
                polltask(t, id);
                drop(waker(id));
            }
        }
        "prx" | "prxr" => {
            let x = rx!();
            // an operation which is polled in the other form is another operation
            if matches!(w().env[t].prx, Some((_, _, f)) if f != (n == "prx")) {
                endprx(t);
            }
            let (id, k) = match w().env[t].prx {
                Some((id, _, _)) => (id, "a"),
                None => (newop(t), "c"),
            };
            let nm = if n == "prx" { "recv" } else { "recvr" };
            let wname = if n == "prx" { op.s(0) } else { op.s(1) };
            let wid = {
                let _o = off();
                if wname.is_empty() {
                    rt().new_waker()
                } else {
                    *w().env[t].wk.entry(wname.to_string()).or_insert_with(|| rt().new_waker())
                }
            };
            begin(t, id, nm, 0, None, k);
            {
                let _o = off();
                rt().rearm(wid);
                rt().aslp.retain(|op, _| w_is_send(*op));
            }
            let wk = waker(wid);
            let mut cx = Context::from_waker(&wk);
            let mut pend = false;
            let out = catch_unwind(AssertUnwindSafe(|| {
                tramp(&mut || match if n == "prx" { x.poll_recv(&mut cx) } else { x.poll_recv_ref(&mut cx) } {
                    Poll::Ready(o) => o,
                    Poll::Pending => {
                        pend = true;
                        Out::new("pend")
                    }
                })
            }));
            if wname.is_empty() {
                drop(wk);
            } else {
                std::mem::forget(wk);
            }
            if pend {
                let _o = off();
                let r = rt();
                if r.trace {
                    eprintln!("t{t} pend #{id}");
                }
                r.bret();
                r.log.push(Ev { k: "p", i: id, ..Default::default() });
                r.aslp.insert(id, wid);
                r.th[t].op = -1;
                w().env[t].prx = Some((id, wid, n == "prx"));
            } else {
                w().env[t].prx = None;
                finish(out, t, id, nm, 0, if n == "prx" { "" } else { op.s(0) }, 0, false);
                end(t);
            }
        }
        "clone" => {
            let x = tx!();
            let mut got = None;
            simple(t, "clone", 0, 0, "", true, None, &mut || {
                got = x.dup();
                Out::new("ok")
            });
            if let Some(g) = got {
                w().env[t].tx.push(g);
            }
        }
        "dtx" | "pdtx" => {
            unborrow(t, handle(t, true));
            if let Some(h) = w().env[t].tx.pop() {
                drop_h(t, "dtx", n == "pdtx", move || drop(h));
            }
        }
        "drx" | "pdrx" => {
            unborrow(t, handle(t, false));
            endprx(t);
            if let Some(h) = w().env[t].rx.take() {
                drop_h(t, "drx", n == "pdrx", move || drop(h));
            }
        }
        "isc" => {
            let x = rx!();
            simple(t, n, 0, 0, "", false, None, &mut || {
                let mut o = Out::new("ok");
                o.num = x.is_closed() as i64;
                o
            });
        }
        "len" | "isempty" | "remaining" | "capacity" => {
            let x = rx!();
            simple(t, n, 0, 0, "", false, None, &mut || {
                let mut o = Out::new("ok");
                o.num = x.len(n);
                o
            });
        }
        "dbgtx" => {
            let x = tx!();
            simple(t, "dbg", 0, 0, "", true, None, &mut || {
                let _ = x.dbg();
                Out::new("ok")
            });
        }
        "dbgrx" => {
            let x = rx!();
            simple(t, "dbg", 0, 0, "", true, None, &mut || {
                let _ = x.dbg();
                Out::new("ok")
            });
        }
        "split" => {
            let Some(s) = w().split else { return };
            let mut got = None;
            simple(t, "split", 0, 0, "", true, None, &mut || {
                got = s.try_split();
                Out::new(if got.is_some() { "ok" } else { "none" })
            });
            if let Some((a, b)) = got {
                w().env[t].tx.push(a);
                w().env[t].rx = Some(b);
            }
        }
        "sync" => {
            let _o = off();
            rt().wait(St::Sync);
        }
        "yield" => {
            let _o = off();
            rt().bcall();
        }
        _ => fatal(&format!("unknown op {n}")),
    }
    if sc.seqq && t == 0 {
        let _o = off();
        rt().log_q();
    }
}

/// Runs `f` in a destructor, while the thread unwinds from a panic of the user's.
fn unwinding(f: impl FnOnce()) {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f));
        std::panic::panic_any(UserPanic);
    }));
    match r {
        Err(p) if p.is::<UserPanic>() => {}
        Err(p) => std::panic::resume_unwind(p),
        Ok(_) => {}
    }
}

/// One variable of the user per thread: written before a sender of the thread
/// is dropped, and read by whoever was told that there are no senders any more.
static USER: [u64; 32] = [0; 32];
extern "Rust" {
    fn tbv_access(addr: usize, size: usize, write: bool);
}
fn user(t: usize, write: bool) {
    unsafe { tbv_access(&USER[t] as *const u64 as usize, 8, write) }
}

fn drop_h(t: usize, name: &str, panicking: bool, f: impl FnOnce()) {
    let mut f = Some(f);
    if name.ends_with("dtx") {
        user(t, true);
    }
    simple(t, name, if panicking { 1 } else { 0 }, 0, "", true, None, &mut || {
        let f = f.take().unwrap();
        if panicking {
            unwinding(f);
        } else {
            f();
        }
        Out::new("ok")
    });
}

/// the handle an operation of thread `t` uses (and what it returns borrows)
fn handle(t: usize, send: bool) -> usize {
    let e = &w().env[t];
    if send {
        e.tx.last().map(|x| &**x as *const dyn Tx as *const u8 as usize).unwrap_or(0)
    } else {
        e.rx.as_ref().map(|x| &**x as *const dyn Rx as *const u8 as usize).unwrap_or(0)
    }
}
/// Futures and references which borrow a handle cannot outlive it.
fn unborrow(me: usize, h: usize) {
    if h == 0 {
        return;
    }
    for t in 0..w().env.len() {
        let fs: Vec<String> = w().env[t].futs.iter().filter(|(_, f)| f.bor == h).map(|(k, _)| k.clone()).collect();
        for f in fs {
            let x = w().env[t].futs.remove(&f).unwrap();
            w().env[me].futs.insert("_ub".into(), x);
            dropfut(me, "_ub", false);
        }
        let ts: Vec<usize> = w().tasks.iter().filter(|(_, f)| f.bor == h).map(|(k, _)| *k).collect();
        for k in ts {
            droptask(me, k);
        }
        let rs: Vec<String> = w().env[t].refs.iter().filter(|(_, r)| r.3 == h).map(|(k, _)| k.clone()).collect();
        for k in rs {
            let x = w().env[t].refs.remove(&k).unwrap();
            let send = x.1;
            w().env[me].refs.insert("_ub".into(), x);
            relref(me, "_ub", if send { 900 + t as i64 } else { 0 }, false, false);
        }
    }
}

/// forgets a pending poll_recv
fn endprx(t: usize) {
    if let Some((id, _, _)) = w().env[t].prx.take() {
        let _o = off();
        let r = rt();
        r.aslp.remove(&id);
        r.log.push(Ev { k: "x", i: id, ..Default::default() });
        r.log.push(Ev { k: "y", i: id, ..Default::default() });
    }
}

/// drop everything thread `t` still has
fn teardown(me: usize, t: usize, what: u8) {
    // move t's things to my environment one by one, so that the operations are mine
    match what {
        0 => {
            let fs: Vec<String> = w().env[t].futs.keys().cloned().collect();
            for f in fs {
                let x = w().env[t].futs.remove(&f).unwrap();
                let nm = format!("{t}{f}");
                w().env[me].futs.insert(nm.clone(), x);
                dropfut(me, &nm, false);
            }
            if t == 0 {
                let ts: Vec<usize> = w().tasks.keys().copied().collect();
                for k in ts {
                    droptask(me, k);
                }
            }
            endprx(t);
            let rs: Vec<String> = w().env[t].refs.keys().cloned().collect();
            for h in rs {
                let x = w().env[t].refs.remove(&h).unwrap();
                let nm = format!("{t}{h}");
                let send = x.1;
                w().env[me].refs.insert(nm.clone(), x);
                relref(me, &nm, if send { 900 + t as i64 } else { 0 }, false, false);
            }
        }
        1 => {
            while let Some(h) = w().env[t].tx.pop() {
                drop_h(me, "dtx", false, move || drop(h));
            }
        }
        _ => {
            if let Some(h) = w().env[t].rx.take() {
                drop_h(me, "drx", false, move || drop(h));
            }
        }
    }
}

fn main_script() {
    let sc = unsafe { &*w().sc };
    let nt = sc.th.len();
    let isbuf;
    let made = catch_unwind(AssertUnwindSafe(|| make(&sc.fl, sc.cap)));
    let made = match made {
        Ok(m) => m,
        Err(_) => {
            let _o = off();
            rt().log.push(Ev { k: "rejected", i: -1, ..Default::default() });
            return;
        }
    };
    {
        let _o = off();
        rt().log.push(Ev { k: "made", i: -1, ..Default::default() });
    }
    let mut buf_rx = Vec::new();
    let (mut tx0, mut rx0) = (None, None);
    match made {
        Made::Chan(a, b) => {
            isbuf = false;
            tx0 = Some(a);
            rx0 = Some(b);
        }
        Made::Buf(a, b, o) => {
            isbuf = true;
            tx0 = Some(a);
            buf_rx = b;
            w().owner = Some(o);
        }
        Made::Unsplit(s, o) => {
            isbuf = false;
            if sc.rawsplit {
                w().split = Some(s);
                w().owner = Some(o);
            } else {
                std::mem::forget(o);
                let (a, b) = s.split();
                tx0 = Some(a);
                rx0 = Some(b);
            }
        }
    }
    // hand out the handles; thread 0 (this one) uses them during `pre`
    let uses = |ops: &Vec<Op>, f: fn(&str) -> bool| ops.iter().any(|o| f(&o.name));
    w().env[0].tx.extend(tx0);
    w().env[0].rx = if isbuf { buf_rx.pop() } else { rx0 };
    for o in &sc.pre {
        exec(0, o);
    }
    // distribute
    let mut need: Vec<usize> = (1..=nt).filter(|i| uses(&sc.th[*i - 1], is_tx)).collect();
    let keep = sc.mk || need.is_empty() || uses(&sc.post, is_tx);
    if let Some(h) = w().env[0].tx.pop() {
        // the last user gets the original unless main keeps it
        let lastn = if keep { None } else { need.pop() };
        for i in need {
            let d = h.dup().expect("dup");
            w().env[i].tx.push(d);
        }
        match lastn {
            Some(i) => w().env[i].tx.push(h),
            None => w().env[0].tx.push(h),
        }
    }
    if isbuf {
        for i in 1..=nt {
            if uses(&sc.th[i - 1], is_rx) {
                w().env[i].rx = buf_rx.pop();
            }
        }
    } else if sc.shrx {
        let p: *const dyn Rx = &**w().env[0].rx.as_ref().unwrap();
        for i in 1..=nt {
            w().env[i].rx = Some(Box::new(Shared(p)));
        }
    } else if let Some(i) = (1..=nt).find(|i| uses(&sc.th[*i - 1], is_rx)) {
        w().env[i].rx = w().env[0].rx.take();
    }
    for (n, i) in &sc.own {
        if let Some(f) = w().env[0].futs.remove(n) {
            w().env[*i].futs.insert(n.clone(), f);
        }
        if let Some(f) = w().env[0].refs.remove(n) {
            w().env[*i].refs.insert(n.clone(), f);
        }
    }
    {
        let _o = off();
        let r = rt();
        let snd: i64 = w().env.iter().map(|e| e.tx.len() as i64).sum();
        // handles made for the threads so far (operations of `pre` included)
        r.log.push(Ev { k: "init", i: -1, n: snd, ..Default::default() });
        for i in 1..=nt {
            r.start_thread(i);
        }
        r.wait(St::Phase);
        r.join_finished();
    }
    if sc.shrx {
        for i in 1..=nt {
            std::mem::forget(w().env[i].rx.take());
        }
    }
    // the handles of finished threads go back to the main thread
    if !sc.post.is_empty() {
        for i in 1..=nt {
            let done = {
                let _o = off();
                rt().th[i].st == St::Done
            };
            if done {
                if w().env[0].rx.is_none() {
                    w().env[0].rx = w().env[i].rx.take();
                }
                if w().env[0].tx.is_empty() {
                    if let Some(h) = w().env[i].tx.pop() {
                        w().env[0].tx.push(h);
                    }
                }
            }
        }
    }
    for o in &sc.post {
        exec(0, o);
    }
    let finished = |k: usize| {
        let _o = off();
        rt().th[k].st == St::Done
    };
    // teardown
    for _round in 0..(nt + 3) {
        let mut todo = Vec::new();
        for i in 0..=nt {
            let done = i == 0 || {
                let _o = off();
                rt().th[i].st == St::Done
            };
            if done && !w().torn[i] {
                w().torn[i] = true;
                todo.push(i);
            }
        }
        if todo.is_empty() {
            break;
        }
        {
            let _o = off();
            rt().join_finished();
        }
        for i in &todo {
            teardown(0, *i, 0);
        }
        if !isbuf {
            for ph in if sc.td_rx { [2u8, 1] } else { [1, 2] } {
                for i in &todo {
                    // the threads which borrow a shared receiver keep it alive
                    let busy = ph == 2 && sc.shrx && (1..=nt).any(|k| uses(&sc.th[k - 1], is_rx) && !finished(k));
                    if ph == 2 && sc.shrx && (_round == 0 || busy) {
                        w().torn[0] = false;
                        continue;
                    }
                    if ph == 2 && sc.drain && w().env[*i].rx.is_some() {
                        w().env[0].rx = w().env[*i].rx.take();
                        exec(0, &Op { name: "getall".into(), a: Vec::new() });
                        teardown(0, 0, ph);
                    }
                    teardown(0, *i, ph);
                }
            }
        }
        let _o = off();
        rt().wait(St::Phase);
        rt().join_finished();
    }
    let alldone = {
        let _o = off();
        let r = rt();
        (1..=nt).all(|i| r.th[i].st == St::Done)
    };
    if !alldone {
        return;
    }
    let own = w().owner.take();
    let unsplit_used = w().split.is_some() && rt().log.iter().any(|e| e.k == "r" && e.r == "ok");
    let out = if unsplit_used {
        std::mem::forget(own);
        Ok(())
    } else {
        catch_unwind(AssertUnwindSafe(|| drop(own)))
    };
    if let Err(p) = out {
        let _o = off();
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        rt().log_bad("panic", format!("teardown: {}", m.lines().next().unwrap_or("")));
    }
    // named wakers held by the harness
    for e in w().env.iter_mut() {
        let _o = off();
        for (_, id) in std::mem::take(&mut e.wk) {
            rt().waker_drop(id);
        }
    }
    let _o = off();
    let r = rt();
    let stat = matches!(sc.fl.as_str(), "as" | "bs");
    let leaked = if stat { 0 } else { r.live.len() as i64 };
    let wl = if stat { 0 } else { r.wakers_leaked() };
    r.log.push(Ev { k: "end", i: -1, n: leaked, v: wl, ..Default::default() });
}

/// Runs one execution; the history is in `rt.log`.
pub fn run_one(rt: &mut Rt, sc: &Scenario) {
    rt.reset();
    arena_reset();
    rt.mode = sc.mode;
    rt.limit = sc.limit;
    rt.faults.clear();
    for (k, v) in &sc.faults {
        let k: &'static str = match k.as_str() {
            "new" => "new",
            "rec" => "rec",
            _ => "wclone",
        };
        rt.faults.insert(k, *v);
    }
    let nt = sc.th.len();
    unsafe {
        #[allow(static_mut_refs)]
        SENDS.clear();
        let _g = on();
        let wd = Box::new(World {
            sc: sc as *const _,
            env: (0..=nt).map(|_| Env::default()).collect(),
            owner: None,
            split: None,
            torn: vec![false; nt + 1],
            tasks: BTreeMap::new(),
        });
        W = Box::into_raw(wd);
    }
    rt.spawn(St::Ready, main_script);
    for i in 1..=nt {
        let ops: *const Vec<Op> = &sc.th[i - 1];
        rt.spawn(St::Phase, move || {
            for o in unsafe { &*ops } {
                exec(i, o);
            }
        });
    }
    rt.run();
    // (a thread which sleeps while it holds a reference, or owns a future that was
    // woken up, which only it can drop or poll, has brought that on itself)
    let own_fault = w().env.iter().enumerate().any(|(i, e)| i > 0 && rt.th[i].st != St::Done && (!e.refs.is_empty() || e.futs.values().any(|f| f.started)));
    if !rt.aborted && !rt.all_done() && !rt.was_frozen() && !own_fault && rt.mode.weak == 2 {
        // some operation is blocked for good after everything was torn down
        let b: Vec<i64> = rt.th.iter().filter(|t| t.st != St::Done && t.op >= 0).map(|t| t.op).collect();
        rt.log.push(Ev { k: "hang", i: b.first().copied().unwrap_or(-1), b, ..Default::default() });
    }
    rt.maxpts = rt.maxpts.max(rt.steps);
}
