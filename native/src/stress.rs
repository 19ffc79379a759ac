//! Small programs run by real threads, over and over, as fast as they go.
//! Calls and returns are ordered by a global counter, so that each operation
//! takes effect between its two events; the histories are judged like those
//! of the instrumented build.
//!
//! {"id","fl","cap","th":[[["send",1],..],..],"ms":500,"seed":1} on stdin, one
//! per line. Flavours: tb ts (shared queue), bd bs ad as (channels: every
//! thread which sends owns a sender, the one which receives the receiver).
use crate::filter;
use crate::hist::{canon, hash2, key, show, Ev};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::future::Future;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use thingbuf::mpsc::{self, blocking};
use thingbuf::{StaticThingBuf, ThingBuf};

// ---------------------------------------------------------------- elements
const GOOD: u64 = 0x5bd1_e995_1234_4321;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BADDROP: AtomicBool = AtomicBool::new(false);
/// Wide enough that a copy which is not protected can be seen half done.
pub struct El {
    a: i64,
    mid: [i64; 6],
    good: u64,
    b: i64,
}
impl El {
    fn new(a: i64) -> El {
        LIVE.fetch_add(1, Relaxed);
        El { a, mid: [a; 6], good: GOOD, b: !a }
    }
    fn set(&mut self, a: i64) {
        self.a = a;
        self.mid = [a; 6];
        self.b = !a;
    }
    fn get(&self) -> i64 {
        let a = unsafe { std::ptr::read_volatile(&self.a) };
        let m = unsafe { std::ptr::read_volatile(&self.mid) };
        let b = unsafe { std::ptr::read_volatile(&self.b) };
        if self.good != GOOD || b != !a || m != [a; 6] {
            return -1;
        }
        a
    }
}
impl Default for El {
    fn default() -> El {
        El::new(0)
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        El::new(self.get())
    }
}
impl Drop for El {
    fn drop(&mut self) {
        if self.good != GOOD {
            BADDROP.store(true, Relaxed);
        }
        unsafe { std::ptr::write_volatile(&mut self.good, 0) };
        LIVE.fetch_sub(1, Relaxed);
    }
}

// ---------------------------------------------------------------- recording
static TICKET: AtomicU64 = AtomicU64::new(0);
static T0: Mutex<Option<Instant>> = Mutex::new(None);
const NT: usize = 5;
#[allow(clippy::declare_interior_mutable_const)]
const NOLOG: Mutex<Vec<(u64, Ev)>> = Mutex::new(Vec::new());
static LOGS: [Mutex<Vec<(u64, Ev)>>; NT] = [NOLOG; NT];

struct Me {
    t: usize,
    next: i64,
    t0: Instant,
}
impl Me {
    fn push(&self, ev: Ev) {
        let mut l = LOGS[self.t].lock().unwrap();
        let n = TICKET.fetch_add(1, SeqCst);
        l.push((n, ev));
    }
    fn us(&self) -> i64 {
        self.t0.elapsed().as_micros() as i64
    }
    fn ret(&self, i: i64, res: &str, n: i64, v: i64, timed: bool) {
        // a time limit is checked from below only: the machine may be busy
        let o = if timed { format!("{} 1000000000", self.us() + 1) } else { String::new() };
        self.push(Ev { k: "r", i, r: res.into(), n, v, o, ..Default::default() });
    }
    fn op(&mut self, name: &str, v: i64, n: i64, f: impl FnOnce(&Me, i64) -> Out) -> Out {
        let i = self.t as i64 * 1000 + self.next;
        self.next += 1;
        let timed = matches!(name, "sendt" | "sendrt" | "recvt" | "recvrt");
        let e = if timed { self.us() } else { 0 };
        self.push(Ev { k: "c", i, o: name.into(), v, n, e, ..Default::default() });
        match catch_unwind(AssertUnwindSafe(|| f(self, i))) {
            Ok(o) => {
                if o.res == "cancel" {
                    self.push(Ev { k: "y", i, ..Default::default() });
                } else {
                    self.ret(i, o.res, o.class, o.v, timed);
                }
                Out { id: i, ..o }
            }
            Err(p) => {
                std::mem::forget(p);
                self.ret(i, "panic", 0, 0, false);
                Out { id: i, ..Out::new("panic", 0, 0) }
            }
        }
    }
}
struct Out {
    id: i64,
    res: &'static str,
    class: i64,
    v: i64,
}
impl Out {
    fn new(res: &'static str, class: i64, v: i64) -> Out {
        Out { id: 0, res, class, v }
    }
    fn ok(v: i64) -> Out {
        Out::new("ok", 16, v)
    }
    fn none() -> Out {
        Out::new("none", 16, 0)
    }
}

fn tse<T>(e: mpsc::errors::TrySendError<T>, back: impl FnOnce(T) -> Option<i64>) -> Out {
    use mpsc::errors::TrySendError::*;
    let (r, c, x) = match e {
        Full(x) => ("full", 1, x),
        Closed(x) => ("closed", 2, x),
        _ => ("?", 0, return Out::new("?", 0, 0)),
    };
    match back(x) {
        Some(v) => Out::new(r, c + 8, v),
        None => Out::new(r, c, 0),
    }
}
fn ste<T>(e: mpsc::errors::SendTimeoutError<T>, back: impl FnOnce(T) -> Option<i64>) -> Out {
    use mpsc::errors::SendTimeoutError::*;
    let (r, c, x) = match e {
        Timeout(x) => ("timeout", 4, x),
        Closed(x) => ("closed", 2, x),
        _ => ("?", 0, return Out::new("?", 0, 0)),
    };
    match back(x) {
        Some(v) => Out::new(r, c + 8, v),
        None => Out::new(r, c, 0),
    }
}
fn tre(e: mpsc::errors::TryRecvError) -> Out {
    use mpsc::errors::TryRecvError::*;
    match e {
        Empty => Out::new("empty", 0, 0),
        Closed => Out::new("closed", 2, 0),
        _ => Out::new("?", 0, 0),
    }
}
fn rte(e: mpsc::errors::RecvTimeoutError) -> Out {
    use mpsc::errors::RecvTimeoutError::*;
    match e {
        Timeout => Out::new("timeout", 4, 0),
        Closed => Out::new("closed", 2, 0),
        _ => Out::new("?", 0, 0),
    }
}
fn el(e: El) -> Option<i64> {
    Some(e.get())
}
fn linger(n: i64) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

// ---------------------------------------------------------------- async
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let w: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut f = std::pin::pin!(f);
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park(),
        }
    }
}
/// Polled `k` times at most, with a new waker each time, then dropped.
fn poll_some<F: Future>(me: &Me, id: i64, k: i64, f: F, fin: impl FnOnce(F::Output) -> Out) -> Out {
    let mut f = Box::pin(f);
    for j in 0..k {
        if j > 0 {
            me.push(Ev { k: "a", i: id, ..Default::default() });
        }
        let w: Waker = Arc::new(Unpark(std::thread::current())).into();
        if let Poll::Ready(x) = Pin::as_mut(&mut f).poll(&mut Context::from_waker(&w)) {
            return fin(x);
        }
        me.push(Ev { k: "p", i: id, ..Default::default() });
        std::thread::park_timeout(Duration::from_micros(20));
    }
    me.push(Ev { k: "x", i: id, ..Default::default() });
    drop(f);
    Out::new("cancel", 0, 0)
}

// ---------------------------------------------------------------- threads
struct Op {
    name: String,
    v: i64,
    n: i64,
}
/// What a thread has of the channel.
trait Side: Send {
    fn run(&mut self, me: &mut Me, op: &Op);
    fn done(&mut self, me: &mut Me);
}

macro_rules! rel {
    ($me:expr, $o:expr, $slot:expr, $op:expr, send) => {
        if let Some(mut r) = $slot {
            linger($op.n);
            let v = $op.v;
            $me.op("relp", v, $o.id, move |_, _| {
                r.set(v);
                let g = r.get();
                drop(r);
                Out::ok(g)
            });
        }
    };
    ($me:expr, $o:expr, $slot:expr, $op:expr, recv) => {
        if let Some(r) = $slot {
            linger($op.n);
            $me.op("relc", 0, $o.id, move |_, _| {
                let g = r.get();
                drop(r);
                Out::ok(g)
            });
        }
    };
}

/// A queue used directly.
struct Buf<Q: 'static>(&'static Q);
macro_rules! buf {
    ({$($g:tt)*} $ty:ty) => {
        impl<$($g)*> Side for Buf<$ty> {
            fn run(&mut self, me: &mut Me, op: &Op) {
                let q = self.0;
                let v = op.v;
                match op.name.as_str() {
                    "try" => {
                        me.op("try", v, 0, |_, _| match q.push(El::new(v)) {
                            Ok(()) => Out::ok(0),
                            Err(e) => Out::new("full", 9, e.into_inner().get()),
                        });
                    }
                    "pushw" => {
                        me.op("pushw", v, 0, |_, _| match q.push_with(|e| e.set(v)) {
                            Ok(()) => Out::ok(0),
                            Err(_) => Out::new("full", 1, 0),
                        });
                    }
                    "tryr" => {
                        let mut s = None;
                        let o = me.op("tryr", 0, 0, |_, _| match q.push_ref() {
                            Ok(r) => {
                                s = Some(r);
                                Out::ok(0)
                            }
                            Err(_) => Out::new("full", 1, 0),
                        });
                        rel!(me, o, s, op, send);
                    }
                    "get" => {
                        me.op("get", 0, 0, |_, _| match q.pop() {
                            Some(e) => Out::ok(e.get()),
                            None => Out::new("empty", 0, 0),
                        });
                    }
                    "popw" => {
                        me.op("popw", 0, 0, |_, _| match q.pop_with(|e| e.get()) {
                            Some(g) => Out::ok(g),
                            None => Out::new("empty", 0, 0),
                        });
                    }
                    "getr" => {
                        let mut s = None;
                        let o = me.op("getr", 0, 0, |_, _| match q.pop_ref() {
                            Some(r) => {
                                let g = r.get();
                                s = Some(r);
                                Out::ok(g)
                            }
                            None => Out::new("empty", 0, 0),
                        });
                        rel!(me, o, s, op, recv);
                    }
                    "len" => {
                        me.op("len", 0, 0, |_, _| Out::ok(q.len() as i64));
                    }
                    "isempty" => {
                        me.op("isempty", 0, 0, |_, _| Out::ok(q.is_empty() as i64));
                    }
                    "capacity" => {
                        me.op("capacity", 0, 0, |_, _| Out::ok(q.capacity() as i64));
                    }
                    x => panic!("unknown operation {x}"),
                }
            }
            fn done(&mut self, _: &mut Me) {}
        }
    };
}
buf!({} ThingBuf<El>);
buf!({const N: usize} StaticThingBuf<El, N>);

struct Ends<T, R> {
    tx: Option<T>,
    rx: Option<R>,
}
macro_rules! nonblocking {
    ($self:ident, $me:ident, $op:ident) => {
        match $op.name.as_str() {
            "try" => {
                let (tx, v) = ($self.tx.as_ref().unwrap(), $op.v);
                $me.op("try", v, 0, |_, _| match tx.try_send(El::new(v)) {
                    Ok(()) => Out::ok(0),
                    Err(e) => tse(e, el),
                });
                return;
            }
            "tryr" => {
                let tx = $self.tx.as_ref().unwrap();
                let mut s = None;
                let o = $me.op("tryr", 0, 0, |_, _| match tx.try_send_ref() {
                    Ok(r) => {
                        s = Some(r);
                        Out::ok(0)
                    }
                    Err(e) => tse(e, |_| None),
                });
                rel!($me, o, s, $op, send);
                return;
            }
            "get" => {
                let rx = $self.rx.as_ref().unwrap();
                $me.op("get", 0, 0, |_, _| match rx.try_recv() {
                    Ok(e) => Out::ok(e.get()),
                    Err(e) => tre(e),
                });
                return;
            }
            "getr" => {
                let rx = $self.rx.as_ref().unwrap();
                let mut s = None;
                let o = $me.op("getr", 0, 0, |_, _| match rx.try_recv_ref() {
                    Ok(r) => {
                        let g = r.get();
                        s = Some(r);
                        Out::ok(g)
                    }
                    Err(e) => tre(e),
                });
                rel!($me, o, s, $op, recv);
                return;
            }
            "isc" => {
                let rx = $self.rx.as_ref().unwrap();
                $me.op("isc", 0, 0, |_, _| Out::ok(rx.is_closed() as i64));
                return;
            }
            "clone" => {
                // the old handle goes, the new one stays
                let tx = $self.tx.take().unwrap();
                let mut c = None;
                $me.op("clone", 0, 0, |_, _| {
                    c = Some(tx.clone());
                    Out::none()
                });
                $me.op("dtx", 0, 0, |_, _| {
                    drop(tx);
                    Out::none()
                });
                $self.tx = c;
                return;
            }
            "dtx" => {
                if let Some(tx) = $self.tx.take() {
                    $me.op("dtx", 0, 0, |_, _| {
                        drop(tx);
                        Out::none()
                    });
                }
                return;
            }
            "drx" => {
                if let Some(rx) = $self.rx.take() {
                    $me.op("drx", 0, 0, |_, _| {
                        drop(rx);
                        Out::none()
                    });
                }
                return;
            }
            _ => {}
        }
    };
}
macro_rules! done {
    () => {
        fn done(&mut self, me: &mut Me) {
            for n in ["dtx", "drx"] {
                self.run(me, &Op { name: n.into(), v: 0, n: 0 });
            }
        }
    };
}
macro_rules! side_blocking {
    ($tx:ty, $rx:ty) => {
        impl Side for Ends<$tx, $rx> {
            fn run(&mut self, me: &mut Me, op: &Op) {
                let d = Duration::from_micros(op.n.max(0) as u64);
                nonblocking!(self, me, op);
                let v = op.v;
                match op.name.as_str() {
                    "send" => {
                        let tx = self.tx.as_ref().unwrap();
                        me.op("send", v, 0, |_, _| match tx.send(El::new(v)) {
                            Ok(()) => Out::ok(0),
                            Err(e) => Out::new("closed", 10, e.into_inner().get()),
                        });
                    }
                    "sendt" => {
                        let tx = self.tx.as_ref().unwrap();
                        me.op("sendt", v, op.n, |_, _| match tx.send_timeout(El::new(v), d) {
                            Ok(()) => Out::ok(0),
                            Err(e) => ste(e, el),
                        });
                    }
                    "sendr" => {
                        let tx = self.tx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("sendr", 0, 0, |_, _| match tx.send_ref() {
                            Ok(r) => {
                                s = Some(r);
                                Out::ok(0)
                            }
                            Err(_) => Out::new("closed", 2, 0),
                        });
                        rel!(me, o, s, op, send);
                    }
                    "sendrt" => {
                        let tx = self.tx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("sendrt", 0, op.n, |_, _| match tx.send_ref_timeout(d) {
                            Ok(r) => {
                                s = Some(r);
                                Out::ok(0)
                            }
                            Err(e) => ste(e, |_| None),
                        });
                        rel!(me, o, s, op, send);
                    }
                    "recv" => {
                        let rx = self.rx.as_ref().unwrap();
                        me.op("recv", 0, 0, |_, _| match rx.recv() {
                            Some(e) => Out::ok(e.get()),
                            None => Out::new("closed", 2, 0),
                        });
                    }
                    "recvt" => {
                        let rx = self.rx.as_ref().unwrap();
                        me.op("recvt", 0, op.n, |_, _| match rx.recv_timeout(d) {
                            Ok(e) => Out::ok(e.get()),
                            Err(e) => rte(e),
                        });
                    }
                    "recvr" => {
                        let rx = self.rx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("recvr", 0, 0, |_, _| match rx.recv_ref() {
                            Some(r) => {
                                let g = r.get();
                                s = Some(r);
                                Out::ok(g)
                            }
                            None => Out::new("closed", 2, 0),
                        });
                        rel!(me, o, s, op, recv);
                    }
                    "recvrt" => {
                        let rx = self.rx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("recvrt", 0, op.n, |_, _| match rx.recv_ref_timeout(d) {
                            Ok(r) => {
                                let g = r.get();
                                s = Some(r);
                                Out::ok(g)
                            }
                            Err(e) => rte(e),
                        });
                        rel!(me, o, s, op, recv);
                    }
                    x => panic!("unknown operation {x}"),
                }
            }
            done!();
        }
    };
}
side_blocking!(blocking::Sender<El>, blocking::Receiver<El>);
side_blocking!(blocking::StaticSender<El>, blocking::StaticReceiver<El>);

macro_rules! side_async {
    ($tx:ty, $rx:ty) => {
        impl Side for Ends<$tx, $rx> {
            fn run(&mut self, me: &mut Me, op: &Op) {
                nonblocking!(self, me, op);
                let (v, k) = (op.v, op.n);
                let sent = |r: Result<(), mpsc::errors::Closed<El>>| match r {
                    Ok(()) => Out::ok(0),
                    Err(e) => Out::new("closed", 10, e.into_inner().get()),
                };
                let got = |r: Option<El>| match r {
                    Some(e) => Out::ok(e.get()),
                    None => Out::new("closed", 2, 0),
                };
                match op.name.as_str() {
                    "send" => {
                        let tx = self.tx.as_ref().unwrap();
                        me.op("send", v, 0, |_, _| sent(block_on(tx.send(El::new(v)))));
                    }
                    "sendx" => {
                        let tx = self.tx.as_ref().unwrap();
                        me.op("send", v, 0, |me, i| poll_some(me, i, k, tx.send(El::new(v)), sent));
                    }
                    "sendr" => {
                        let tx = self.tx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("sendr", 0, 0, |_, _| match block_on(tx.send_ref()) {
                            Ok(r) => {
                                s = Some(r);
                                Out::ok(0)
                            }
                            Err(_) => Out::new("closed", 2, 0),
                        });
                        rel!(me, o, s, op, send);
                    }
                    "recv" => {
                        let rx = self.rx.as_ref().unwrap();
                        me.op("recv", 0, 0, |_, _| got(block_on(rx.recv())));
                    }
                    "recvx" => {
                        let rx = self.rx.as_ref().unwrap();
                        me.op("recv", 0, 0, |me, i| poll_some(me, i, k, rx.recv(), got));
                    }
                    "recvr" => {
                        let rx = self.rx.as_ref().unwrap();
                        let mut s = None;
                        let o = me.op("recvr", 0, 0, |_, _| match block_on(rx.recv_ref()) {
                            Some(r) => {
                                let g = r.get();
                                s = Some(r);
                                Out::ok(g)
                            }
                            None => Out::new("closed", 2, 0),
                        });
                        rel!(me, o, s, op, recv);
                    }
                    x => panic!("unknown operation {x}"),
                }
            }
            done!();
        }
    };
}
side_async!(mpsc::Sender<El>, mpsc::Receiver<El>);
side_async!(mpsc::StaticSender<El>, mpsc::StaticReceiver<El>);

// ---------------------------------------------------------------- rounds
struct Prog {
    fl: String,
    cap: usize,
    th: Vec<Vec<Op>>,
}
impl Prog {
    fn uses(&self, t: usize, send: bool) -> bool {
        self.th[t].iter().any(|o| {
            let n = o.name.as_str();
            send == (n.starts_with("try") || n.starts_with("send") || n == "clone" || n == "dtx")
        })
    }
}
/// Something the round keeps alive until all the threads are done with it.
type Keep = Box<dyn std::any::Any>;

/// The parties of one round, and the number of senders (0: there are none).
fn setup(p: &Prog) -> (Vec<Box<dyn Side>>, i64, Vec<Keep>) {
    macro_rules! chan {
        ($tx:expr, $rx:expr) => {{
            let (tx, mut rx) = ($tx, Some($rx));
            let mut v: Vec<Box<dyn Side>> = Vec::new();
            let mut n = 0;
            for t in 0..p.th.len() {
                let tx = if p.uses(t, true) { Some(tx.clone()) } else { None };
                n += tx.is_some() as i64;
                let rx = if p.uses(t, false) { rx.take() } else { None };
                v.push(Box::new(Ends { tx, rx }));
            }
            drop(tx);
            (v, n)
        }};
    }
    // a queue which lives until the threads of the round have finished
    fn lend<Q: 'static>(q: Q) -> (&'static Q, Keep) {
        let b = Box::new(q);
        let r: &'static Q = unsafe { &*(&*b as *const Q) };
        (r, b)
    }
    macro_rules! st {
        ($f:ident) => {
            match p.cap {
                1 => $f!(1),
                2 => $f!(2),
                3 => $f!(3),
                4 => $f!(4),
                n => panic!("static capacity {n}"),
            }
        };
    }
    macro_rules! ts {
        ($n:literal) => {{
            let (q, k) = lend(StaticThingBuf::<El, $n>::new());
            ((0..p.th.len()).map(|_| Box::new(Buf(q)) as Box<dyn Side>).collect(), 1, vec![k])
        }};
    }
    macro_rules! bs {
        ($n:literal) => {{
            let (q, k) = lend(blocking::StaticChannel::<El, $n>::new());
            let (tx, rx) = q.split();
            let (v, n) = chan!(tx, rx);
            (v, n, vec![k])
        }};
    }
    macro_rules! astat {
        ($n:literal) => {{
            let (q, k) = lend(mpsc::StaticChannel::<El, $n>::new());
            let (tx, rx) = q.split();
            let (v, n) = chan!(tx, rx);
            (v, n, vec![k])
        }};
    }
    match p.fl.as_str() {
        "tb" => {
            let (q, k) = lend(ThingBuf::<El>::new(p.cap));
            ((0..p.th.len()).map(|_| Box::new(Buf(q)) as Box<dyn Side>).collect(), 1, vec![k])
        }
        "ts" => st!(ts),
        "bd" => {
            let (tx, rx) = blocking::channel::<El>(p.cap);
            let (v, n) = chan!(tx, rx);
            (v, n, vec![])
        }
        "bs" => st!(bs),
        "ad" => {
            let (tx, rx) = mpsc::channel::<El>(p.cap);
            let (v, n) = chan!(tx, rx);
            (v, n, vec![])
        }
        "as" => st!(astat),
        x => panic!("flavour {x}"),
    }
}

static ROUND: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static BUSY: AtomicBool = AtomicBool::new(false);
static START: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
static DONE: AtomicUsize = AtomicUsize::new(0);
static PROGS: Mutex<Option<Arc<Prog>>> = Mutex::new(None);
static WORK: [Mutex<Option<(Box<dyn Side>, u64)>>; NT] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const N: Mutex<Option<(Box<dyn Side>, u64)>> = Mutex::new(None);
    [N; NT]
};

fn wait_until(mut f: impl FnMut() -> bool) {
    let mut n = 0u32;
    while !f() {
        n += 1;
        if n < 500 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
        }
    }
}
fn job(t: usize, t0: Instant) {
    let job = WORK[t].lock().unwrap().take();
    let (mut side, skew) = job.unwrap();
    let p = PROGS.lock().unwrap().clone().unwrap();
    let mut me = Me { t, next: 1, t0 };
    linger((skew & 255) as i64);
    for (k, op) in p.th[t].iter().enumerate() {
        side.run(&mut me, op);
        linger((skew >> (8 + 5 * (k % 10)) & 31) as i64);
    }
    side.done(&mut me);
    drop(side);
    DONE.fetch_add(1, Release);
}
fn worker(t: usize, mut r: usize) {
    let t0 = T0.lock().unwrap().unwrap();
    loop {
        r += 1;
        wait_until(|| ROUND.load(Acquire) >= r);
        if STOP.load(Acquire) {
            return;
        }
        job(t, t0);
    }
}

/// Nothing has happened for long: what is still under way never ends.
fn watch(idle_ms: u64) {
    let (mut last, mut since) = ((0, 0), Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = (TICKET.load(SeqCst), ROUND.load(SeqCst));
        if now != last || !BUSY.load(SeqCst) {
            last = now;
            since = Instant::now();
        } else if since.elapsed() > Duration::from_millis(idle_ms) {
            break;
        }
    }
    let mut log = START.lock().unwrap().clone();
    log.extend(collect());
    let fin: HashSet<i64> = log.iter().filter(|e| matches!(e.k, "r" | "y")).map(|e| e.i).collect();
    let pend: Vec<&Ev> = log.iter().filter(|e| e.k == "c" && !fin.contains(&e.i)).collect();
    let waits = |e: &&Ev| matches!(e.o.as_str(), "send" | "sendr" | "recv" | "recvr");
    let ev = if !pend.is_empty() && pend.iter().all(waits) {
        Ev { k: "q", i: -1, b: pend.iter().map(|e| e.i).collect(), ..Default::default() }
    } else {
        Ev { k: "stuck", i: -1, s: "an operation which does not wait has not returned".into(), ..Default::default() }
    };
    log.push(ev);
    let l: Vec<Value> = canon(&log).iter().map(show).collect();
    println!("{}", json!({"h": l, "trail": [], "bud": 0, "f": false}));
    println!("{}", json!({"done": "dead", "execs": 1, "rand": 0, "uniq": 1, "budget": 0, "complete": false, "restart": true}));
    unsafe { libc::_exit(0) };
}

fn collect() -> Vec<Ev> {
    let mut all: Vec<(u64, Ev)> = Vec::new();
    for l in &LOGS {
        all.append(&mut l.lock().unwrap());
    }
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect()
}

pub fn main() {
    let out = std::io::stdout();
    std::panic::set_hook(Box::new(|_| {}));
    let mut started = false;
    let mut round = 0;
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).unwrap();
        let p = Arc::new(Prog {
            fl: v["fl"].as_str().unwrap().into(),
            cap: v["cap"].as_u64().unwrap() as usize,
            th: v["th"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| {
                    t.as_array()
                        .unwrap()
                        .iter()
                        .map(|o| Op {
                            name: o[0].as_str().unwrap().into(),
                            v: o.get(1).and_then(|x| x.as_i64()).unwrap_or(0),
                            n: o.get(2).and_then(|x| x.as_i64()).unwrap_or(0),
                        })
                        .collect()
                })
                .collect(),
        });
        let t0 = *T0.lock().unwrap().get_or_insert_with(Instant::now);
        if !started {
            let idle_ms = v["idle_ms"].as_u64().unwrap_or(20_000);
            std::thread::spawn(move || watch(idle_ms));
            started = true;
        }
        let nt = p.th.len();
        STOP.store(false, SeqCst);
        let ws: Vec<_> = (1..nt).map(|t| std::thread::spawn(move || worker(t, round))).collect();
        let (ms, cap) = (v["ms"].as_u64().unwrap_or(300), v["cap_uniq"].as_u64().unwrap_or(20) as usize);
        let mut rng = v["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let (mut seen, mut good, mut bad): (HashSet<u128>, Vec<String>, Vec<String>) = Default::default();
        let (mut execs, mut uniq) = (0u64, 0u64);
        let start = Instant::now();
        *PROGS.lock().unwrap() = Some(p.clone());
        while start.elapsed() < Duration::from_millis(ms) {
            execs += 1;
            LIVE.store(0, SeqCst);
            BADDROP.store(false, SeqCst);
            let (sides, n, keep) = setup(&p);
            for (t, s) in sides.into_iter().enumerate() {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                *WORK[t].lock().unwrap() = Some((s, rng));
            }
            let mut log = vec![Ev { k: "made", i: -1, ..Default::default() }];
            if !matches!(p.fl.as_str(), "tb" | "ts") {
                log.push(Ev { k: "init", i: -1, n, ..Default::default() });
            }
            *START.lock().unwrap() = log.clone();
            DONE.store(0, SeqCst);
            round += 1;
            BUSY.store(true, SeqCst);
            ROUND.store(round, SeqCst);
            job(0, t0);
            wait_until(|| DONE.load(Acquire) == nt);
            drop(keep);
            BUSY.store(false, SeqCst);
            log.extend(collect());
            if BADDROP.load(SeqCst) {
                log.push(Ev { k: "doubledrop", i: -1, ..Default::default() });
            }
            log.push(Ev { k: "end", i: -1, n: LIVE.load(SeqCst), ..Default::default() });
            let h = canon(&log);
            if !seen.insert(hash2(&key(&h))) {
                continue;
            }
            uniq += 1;
            let ok = filter::accepts(p.cap, false, true, false, &h);
            let json = || json!({"h": h.iter().map(show).collect::<Vec<_>>(), "trail": [], "bud": 0, "f": ok}).to_string();
            if !ok {
                if bad.len() < 20 {
                    bad.push(json());
                }
            } else if good.len() < cap {
                good.push(json());
            } else {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                let at = (rng >> 11) as usize % uniq as usize;
                if at < cap {
                    good[at] = json();
                }
            }
        }
        STOP.store(true, SeqCst);
        round += 1;
        ROUND.store(round, SeqCst);
        for w in ws {
            let _ = w.join();
        }
        let mut o = out.lock();
        for l in bad.iter().chain(&good) {
            let _ = writeln!(o, "{l}");
        }
        let _ = writeln!(o, "{}", json!({"done": v["id"], "execs": execs, "rand": 0, "uniq": uniq, "budget": 0, "complete": false, "restart": false}));
        let _ = o.flush();
    }
}
