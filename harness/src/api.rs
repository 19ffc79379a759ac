//! One object-safe interface over all flavours.
use crate::elem::{Elem, Policy};
use std::fmt::Write as _;
use std::future::Future;
use std::ops::DerefMut;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use thingbuf::mpsc;
use thingbuf::mpsc::errors::*;
#[cfg(feature = "std")]
use thingbuf::mpsc::blocking;
use thingbuf::{recycling::DefaultRecycle, StaticThingBuf, ThingBuf};

/// Outcome of an operation.
pub struct Out {
    pub r: &'static str,
    pub v: Option<Elem>,
    /// answers of the error's predicates and accessors, encoded:
    /// 1 is_full, 2 is_closed, 4 is_timeout, 8 handed back a value, 16 (not an error)
    pub n: i64,
    pub held: Option<Box<dyn ERef>>,
    pub num: i64,
}
impl Out {
    pub fn new(r: &'static str) -> Out {
        Out { r, v: None, n: 16, held: None, num: 0 }
    }
    fn num(n: i64) -> Out {
        Out { num: n, ..Out::new("ok") }
    }
    fn val(e: Elem) -> Out {
        Out { v: Some(e), ..Out::new("ok") }
    }
    fn held(r: impl ERef + 'static) -> Out {
        Out { held: Some(Box::new(r)), ..Out::new("ok") }
    }
    fn err(r: &'static str, n: i64, v: Option<Elem>) -> Out {
        Out { n, v, ..Out::new(r) }
    }
}

pub trait ERef {
    fn el(&mut self) -> &mut Elem;
    fn show(&mut self) -> String;
    fn wr(&mut self, v: i64);
}
impl<R: DerefMut<Target = Elem> + std::fmt::Write + std::fmt::Debug + std::fmt::Display> ERef for R {
    fn el(&mut self) -> &mut Elem {
        &mut *self
    }
    fn show(&mut self) -> String {
        format!("{:?}|{}", self, self)
    }
    fn wr(&mut self, v: i64) {
        // (the element starts at 0)
        let s = format!("{v}");
        let (a, b) = s.split_at(s.len() - 1);
        self.write_str(a).unwrap();
        self.write_char(b.chars().next().unwrap()).unwrap();
        write!(self, "").unwrap();
    }
}

pub type Fut = Pin<Box<dyn Future<Output = Out>>>;

/// does the error text speak of a closed channel?
fn says(d: &dyn std::fmt::Display, g: &dyn std::fmt::Debug) -> bool {
    let (a, b) = (format!("{d}").to_lowercase().contains("closed"), format!("{g:?}").to_lowercase().contains("closed"));
    a && b
}
fn class_ts<T>(e: &TrySendError<T>) -> i64 {
    let text = says(e, e) == matches!(e, TrySendError::Closed(_));
    e.is_full() as i64 | (e.is_closed() as i64) << 1 | if text { 0 } else { 32 }
}
fn ts<T>(e: TrySendError<T>) -> (&'static str, i64, T) {
    let n = class_ts(&e);
    let r = match e {
        TrySendError::Full(_) => "full",
        TrySendError::Closed(_) => "closed",
        _ => "?",
    };
    (r, n, e.into_inner())
}
#[cfg(feature = "std")]
fn st<T>(e: SendTimeoutError<T>) -> (&'static str, i64, T) {
    let d = says(&e, &e);
    let r = match e {
        SendTimeoutError::Timeout(_) => "timeout",
        SendTimeoutError::Closed(_) => "closed",
        _ => "?",
    };
    let text = d == (r == "closed");
    let n = (e.is_closed() as i64) << 1 | (e.is_timeout() as i64) << 2 | if text { 0 } else { 32 };
    (r, n, e.into_inner())
}
fn out_ts(e: TrySendError<Elem>) -> Out {
    let (r, n, v) = ts(e);
    Out::err(r, n | 8, Some(v))
}
fn out_ts0(e: TrySendError<()>) -> Out {
    let (r, n, ()) = ts(e);
    Out::err(r, n, None)
}
fn out_tr(e: TryRecvError) -> Out {
    let d = says(&e, &e);
    match e {
        TryRecvError::Empty => Out::err("empty", if !d { 0 } else { 32 }, None),
        TryRecvError::Closed => Out::err("closed", if d { 2 } else { 32 }, None),
        _ => Out::err("?", 0, None),
    }
}
fn closed(e: Closed<Elem>) -> Out {
    let t = says(&e, &e);
    Out::err("closed", 2 | 8 | if t { 0 } else { 32 }, Some(e.into_inner()))
}
fn closed0(_e: Closed<()>) -> Out {
    Out::err("closed", 2, None)
}

pub trait Tx {
    fn dup(&self) -> Option<Box<dyn Tx>>;
    fn try_send(&self, e: Elem) -> Out;
    fn try_send_ref(&self) -> Out;
    fn send(&self, _: Elem) -> Out {
        unimplemented!()
    }
    fn send_ref(&self) -> Out {
        unimplemented!()
    }
    fn send_t(&self, _: Elem, _: Duration) -> Out {
        unimplemented!()
    }
    fn send_ref_t(&self, _: Duration) -> Out {
        unimplemented!()
    }
    fn f_send(&self, _: Elem) -> Fut {
        unimplemented!()
    }
    fn f_send_ref(&self) -> Fut {
        unimplemented!()
    }
    /// thingbuf only
    fn push_with(&self, _: &mut dyn FnMut(&mut Elem)) -> Out {
        unimplemented!()
    }
    fn dbg(&self) -> String;
}
pub trait Rx {
    fn try_recv(&self) -> Out;
    fn try_recv_ref(&self) -> Out;
    fn recv(&self) -> Out {
        unimplemented!()
    }
    fn recv_ref(&self) -> Out {
        unimplemented!()
    }
    fn iter_next(&self) -> Out {
        unimplemented!()
    }
    fn recv_t(&self, _: Duration) -> Out {
        unimplemented!()
    }
    fn recv_ref_t(&self, _: Duration) -> Out {
        unimplemented!()
    }
    fn f_recv(&self) -> Fut {
        unimplemented!()
    }
    fn f_recv_ref(&self) -> Fut {
        unimplemented!()
    }
    fn poll_recv(&self, _: &mut Context<'_>) -> Poll<Out> {
        unimplemented!()
    }
    fn poll_recv_ref(&self, _: &mut Context<'_>) -> Poll<Out> {
        unimplemented!()
    }
    fn pop_with(&self, _: &mut dyn FnMut(&mut Elem)) -> Out {
        unimplemented!()
    }
    fn is_closed(&self) -> bool {
        unimplemented!()
    }
    fn len(&self, _what: &str) -> i64 {
        unimplemented!()
    }
    fn dbg(&self) -> String;
}

/// extends the lifetime of a borrow of a handle which the harness keeps alive
/// (boxed, and dropped only after everything borrowed from it)
unsafe fn ext<T: ?Sized>(x: &T) -> &'static T {
    &*(x as *const T)
}

macro_rules! dup {
    () => {
        fn dup(&self) -> Option<Box<dyn Tx>> {
            Some(Box::new(self.clone()))
        }
    };
}
macro_rules! try_common {
    () => {
        fn try_send(&self, e: Elem) -> Out {
            match self.try_send(e) {
                Ok(()) => Out::new("ok"),
                Err(e) => out_ts(e),
            }
        }
        fn try_send_ref(&self) -> Out {
            match unsafe { ext(self) }.try_send_ref() {
                Ok(r) => Out::held(r),
                Err(e) => out_ts0(e),
            }
        }
        fn dbg(&self) -> String {
            format!("{:?}", self)
        }
    };
}
macro_rules! rx_common {
    () => {
        fn try_recv(&self) -> Out {
            match self.try_recv() {
                Ok(e) => Out::val(e),
                Err(e) => out_tr(e),
            }
        }
        fn try_recv_ref(&self) -> Out {
            match unsafe { ext(self) }.try_recv_ref() {
                Ok(r) => Out::held(r),
                Err(e) => out_tr(e),
            }
        }
        fn is_closed(&self) -> bool {
            self.is_closed()
        }
        fn dbg(&self) -> String {
            format!("{:?}", self)
        }
    };
}
fn opt(o: Option<Elem>) -> Out {
    match o {
        Some(e) => Out::val(e),
        None => Out::err("closed", 2, None),
    }
}

macro_rules! async_flavour {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            dup!();
            try_common!();
            fn f_send(&self, e: Elem) -> Fut {
                let s = unsafe { ext(self) };
                Box::pin(async move {
                    match s.send(e).await {
                        Ok(()) => Out::new("ok"),
                        Err(e) => closed(e),
                    }
                })
            }
            fn f_send_ref(&self) -> Fut {
                let s = unsafe { ext(self) };
                Box::pin(async move {
                    match s.send_ref().await {
                        Ok(r) => Out::held(r),
                        Err(e) => closed0(e),
                    }
                })
            }
        }
        impl Rx for $rx {
            rx_common!();
            fn f_recv(&self) -> Fut {
                let s = unsafe { ext(self) };
                let f = s.recv();
                Box::pin(async move { opt(f.await) })
            }
            fn f_recv_ref(&self) -> Fut {
                let s = unsafe { ext(self) };
                let f = s.recv_ref();
                Box::pin(async move {
                    match f.await {
                        Some(r) => Out::held(r),
                        None => Out::err("closed", 2, None),
                    }
                })
            }
            fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Out> {
                self.poll_recv(cx).map(opt)
            }
            fn poll_recv_ref(&self, cx: &mut Context<'_>) -> Poll<Out> {
                unsafe { ext(self) }.poll_recv_ref(cx).map(|o| match o {
                    Some(r) => Out::held(r),
                    None => Out::err("closed", 2, None),
                })
            }
        }
    };
}
async_flavour!(mpsc::Sender<Elem, Policy>, mpsc::Receiver<Elem, Policy>);
async_flavour!(mpsc::Sender<Elem>, mpsc::Receiver<Elem>);
async_flavour!(mpsc::StaticSender<Elem>, mpsc::StaticReceiver<Elem>);

#[cfg(feature = "std")]
macro_rules! blocking_flavour {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            dup!();
            try_common!();
            fn send(&self, e: Elem) -> Out {
                match self.send(e) {
                    Ok(()) => Out::new("ok"),
                    Err(e) => closed(e),
                }
            }
            fn send_ref(&self) -> Out {
                match unsafe { ext(self) }.send_ref() {
                    Ok(r) => Out::held(r),
                    Err(e) => closed0(e),
                }
            }
            fn send_t(&self, e: Elem, d: Duration) -> Out {
                match self.send_timeout(e, d) {
                    Ok(()) => Out::new("ok"),
                    Err(e) => {
                        let (r, n, v) = st(e);
                        Out::err(r, n | 8, Some(v))
                    }
                }
            }
            fn send_ref_t(&self, d: Duration) -> Out {
                match unsafe { ext(self) }.send_ref_timeout(d) {
                    Ok(r) => Out::held(r),
                    Err(e) => {
                        let (r, n, ()) = st(e);
                        Out::err(r, n, None)
                    }
                }
            }
        }
        impl Rx for $rx {
            rx_common!();
            fn recv(&self) -> Out {
                opt(self.recv())
            }
            fn recv_ref(&self) -> Out {
                match unsafe { ext(self) }.recv_ref() {
                    Some(r) => Out::held(r),
                    None => Out::err("closed", 2, None),
                }
            }
            fn iter_next(&self) -> Out {
                let mut it = unsafe { ext(self) };
                match Iterator::next(&mut it) {
                    Some(r) => Out::held(r),
                    None => Out::err("closed", 2, None),
                }
            }
            fn recv_t(&self, d: Duration) -> Out {
                match self.recv_timeout(d) {
                    Ok(e) => Out::val(e),
                    Err(e) => rt_err(e),
                }
            }
            fn recv_ref_t(&self, d: Duration) -> Out {
                match unsafe { ext(self) }.recv_ref_timeout(d) {
                    Ok(r) => Out::held(r),
                    Err(e) => rt_err(e),
                }
            }
        }
    };
}
#[cfg(feature = "std")]
fn rt_err(e: RecvTimeoutError) -> Out {
    let d = says(&e, &e);
    match e {
        RecvTimeoutError::Timeout => Out::err("timeout", if !d { 4 } else { 32 }, None),
        RecvTimeoutError::Closed => Out::err("closed", if d { 2 } else { 32 }, None),
        _ => Out::err("?", 0, None),
    }
}
#[cfg(feature = "std")]
blocking_flavour!(blocking::Sender<Elem, Policy>, blocking::Receiver<Elem, Policy>);
#[cfg(feature = "std")]
blocking_flavour!(blocking::Sender<Elem>, blocking::Receiver<Elem>);
#[cfg(feature = "std")]
blocking_flavour!(blocking::StaticSender<Elem>, blocking::StaticReceiver<Elem>);

// ---- ThingBuf: both ends are shared references ----
pub struct TbH<B: 'static>(pub &'static B);
macro_rules! tb_flavour {
    ([$($g:tt)*], $b:ty) => {
        impl<$($g)*> Tx for TbH<$b> {
            fn dup(&self) -> Option<Box<dyn Tx>> {
                Some(Box::new(TbH(self.0)))
            }
            fn try_send(&self, e: Elem) -> Out {
                match self.0.push(e) {
                    Ok(()) => Out::new("ok"),
                    Err(e) => {
                        let t = !says(&e, &e);
                        Out::err("full", 1 | 8 | if t { 0 } else { 32 }, Some(e.into_inner()))
                    }
                }
            }
            fn try_send_ref(&self) -> Out {
                match self.0.push_ref() {
                    Ok(r) => Out::held(r),
                    Err(_) => Out::err("full", 1, None),
                }
            }
            fn push_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Out {
                match self.0.push_with(|e| f(e)) {
                    Ok(()) => Out::new("ok"),
                    Err(_) => Out::err("full", 1, None),
                }
            }
            fn dbg(&self) -> String {
                format!("{:?}", self.0)
            }
        }
        impl<$($g)*> Rx for TbH<$b> {
            fn try_recv(&self) -> Out {
                match self.0.pop() {
                    Some(e) => Out::val(e),
                    None => Out::err("empty", 0, None),
                }
            }
            fn try_recv_ref(&self) -> Out {
                match self.0.pop_ref() {
                    Some(r) => Out::held(r),
                    None => Out::err("empty", 0, None),
                }
            }
            fn pop_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Out {
                match self.0.pop_with(|e| f(e)) {
                    Some(()) => Out::new("ok"),
                    None => Out::err("empty", 0, None),
                }
            }
            fn len(&self, what: &str) -> i64 {
                match what {
                    "len" => self.0.len() as i64,
                    "isempty" => self.0.is_empty() as i64,
                    "remaining" => self.0.remaining() as i64,
                    _ => self.0.capacity() as i64,
                }
            }
            fn dbg(&self) -> String {
                format!("{:?}", self.0)
            }
        }
    };
}
tb_flavour!([], ThingBuf<Elem, Policy>);
tb_flavour!([], ThingBuf<Elem>);
tb_flavour!([const C: usize], StaticThingBuf<Elem, C, Policy>);
tb_flavour!([const C: usize], StaticThingBuf<Elem, C>);

/// Something that must be dropped at the very end (a ThingBuf).
pub struct Owner(Option<(usize, unsafe fn(usize))>);
impl Owner {
    fn of<B>(b: *mut B) -> Owner {
        unsafe fn d<B>(p: usize) {
            drop(Box::from_raw(p as *mut B))
        }
        Owner(Some((b as usize, d::<B>)))
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        if let Some((p, f)) = self.0.take() {
            unsafe { f(p) }
        }
    }
}

pub trait Split {
    fn try_split(&'static self) -> Option<(Box<dyn Tx>, Box<dyn Rx>)>;
    fn split(&'static self) -> (Box<dyn Tx>, Box<dyn Rx>);
}
impl<const C: usize> Split for mpsc::StaticChannel<Elem, C> {
    fn try_split(&'static self) -> Option<(Box<dyn Tx>, Box<dyn Rx>)> {
        mpsc::StaticChannel::try_split(self).map(|(a, b)| (Box::new(a) as Box<dyn Tx>, Box::new(b) as Box<dyn Rx>))
    }
    fn split(&'static self) -> (Box<dyn Tx>, Box<dyn Rx>) {
        let (a, b) = mpsc::StaticChannel::split(self);
        (Box::new(a) as Box<dyn Tx>, Box::new(b) as Box<dyn Rx>)
    }
}
#[cfg(feature = "std")]
impl<const C: usize> Split for blocking::StaticChannel<Elem, C> {
    fn try_split(&'static self) -> Option<(Box<dyn Tx>, Box<dyn Rx>)> {
        blocking::StaticChannel::try_split(self).map(|(a, b)| (Box::new(a) as Box<dyn Tx>, Box::new(b) as Box<dyn Rx>))
    }
    fn split(&'static self) -> (Box<dyn Tx>, Box<dyn Rx>) {
        let (a, b) = blocking::StaticChannel::split(self);
        (Box::new(a) as Box<dyn Tx>, Box::new(b) as Box<dyn Rx>)
    }
}

pub enum Made {
    Chan(Box<dyn Tx>, Box<dyn Rx>),
    Buf(Box<dyn Tx>, Vec<Box<dyn Rx>>, Owner),
    Unsplit(&'static dyn Split, Owner),
}

fn buf<B: 'static>(b: B) -> Made
where
    TbH<B>: Tx + Rx,
{
    let p = Box::into_raw(Box::new(b));
    let r: &'static B = unsafe { &*p };
    let rx = (0..4).map(|_| Box::new(TbH(r)) as Box<dyn Rx>).collect();
    Made::Buf(Box::new(TbH(r)), rx, Owner::of(p))
}
fn unsplit<B: Split + 'static>(b: B) -> Made {
    let p = Box::into_raw(Box::new(b));
    let r: &'static B = unsafe { &*p };
    Made::Unsplit(r, Owner::of(p))
}

macro_rules! caps {
    ($cap:expr, $f:ident, $($n:literal)*) => {
        match $cap {
            $($n => $f!($n),)*
            c => crate::rt::fatal(&format!("static capacity {c} not instantiated")),
        }
    };
}
macro_rules! mk_ts { ($n:literal) => { buf(StaticThingBuf::<Elem, $n, Policy>::with_recycle(Policy)) } }
macro_rules! mk_tsd { ($n:literal) => { buf(StaticThingBuf::<Elem, $n>::new()) } }
macro_rules! mk_as { ($n:literal) => { unsplit(mpsc::StaticChannel::<Elem, $n>::new()) } }
#[cfg(feature = "std")]
macro_rules! mk_bs { ($n:literal) => { unsplit(blocking::StaticChannel::<Elem, $n>::new()) } }

pub fn make(fl: &str, cap: usize) -> Made {
    fn ch<T: Tx + 'static, R: Rx + 'static>((t, r): (T, R)) -> Made {
        Made::Chan(Box::new(t), Box::new(r))
    }
    match fl {
        "tb" => buf(ThingBuf::with_recycle(cap, Policy)),
        "tbd" => buf(ThingBuf::<Elem, DefaultRecycle>::new(cap)),
        "ts" => caps!(cap, mk_ts, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 24 31 32 33),
        "tsd" => caps!(cap, mk_tsd, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 24 31 32 33),
        "ad" => ch(mpsc::with_recycle(cap, Policy)),
        "add" => ch(mpsc::channel::<Elem>(cap)),
        "as" => caps!(cap, mk_as, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 24 31 32 33),
        #[cfg(feature = "std")]
        "bd" => ch(blocking::with_recycle(cap, Policy)),
        #[cfg(feature = "std")]
        "bdd" => ch(blocking::channel::<Elem>(cap)),
        #[cfg(feature = "std")]
        "bs" => caps!(cap, mk_bs, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 24 31 32 33),
        f => crate::rt::fatal(&format!("unknown flavour {f}")),
    }
}
