//! Performs the scripts of RecyclePolicyGen on the real collections, with the
//! policy called directly, through an `Arc`, and by queues which use it.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BinaryHeap, HashMap, HashSet, VecDeque};
use std::io::{BufRead, Write};
use std::sync::Arc;
use thingbuf::mpsc::{self, blocking};
use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};
use thingbuf::ThingBuf;

struct Count;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static CLONEFROM: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

/// counts how often values are dropped
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug)]
struct D(u32);
impl Drop for D {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1))
    }
}

const UNLIMITED: u64 = 1_000_000_000;
fn sat(n: usize) -> u64 {
    (n as u64).min(UNLIMITED)
}

trait Coll: Sized {
    fn with_cap(n: usize) -> Self;
    fn add(&mut self, k: u32);
    fn len_(&self) -> usize;
    fn cap_(&self) -> usize;
    const DROPS: bool = true;
}
macro_rules! coll {
    ($t:ty, $w:expr, $a:expr) => {
        impl Coll for $t {
            fn with_cap(n: usize) -> Self {
                $w(n)
            }
            fn add(&mut self, k: u32) {
                let f: fn(&mut $t, u32) = $a;
                f(self, k)
            }
            fn len_(&self) -> usize {
                self.len()
            }
            fn cap_(&self) -> usize {
                self.capacity()
            }
        }
    };
}
coll!(Vec<D>, Vec::with_capacity, |c, k| c.push(D(k)));
coll!(VecDeque<D>, VecDeque::with_capacity, |c, k| if k % 3 == 0 { c.push_front(D(k)) } else { c.push_back(D(k)) });
coll!(BinaryHeap<D>, BinaryHeap::with_capacity, |c, k| c.push(D(k)));
coll!(HashMap<u32, D>, HashMap::with_capacity, |c, k| {
    c.insert(k, D(k));
});
coll!(HashSet<D>, HashSet::with_capacity, |c, k| {
    c.insert(D(k));
});
impl Coll for String {
    fn with_cap(n: usize) -> Self {
        String::with_capacity(n)
    }
    fn add(&mut self, _: u32) {
        self.push('x')
    }
    fn len_(&self) -> usize {
        self.len()
    }
    fn cap_(&self) -> usize {
        self.capacity()
    }
    const DROPS: bool = false;
}

/// measures what `f` allocates and drops
fn meas<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (a, d) = (ALLOCS.with(|c| c.get()), DROPS.with(|c| c.get()));
    let r = f();
    (r, ALLOCS.with(|c| c.get()) - a, DROPS.with(|c| c.get()) - d)
}

struct Rec {
    st: Vec<Value>,
}
impl Rec {
    fn obs<C: Coll>(&mut self, op: &str, k: u64, c: &C, al: u64, dr: u64) {
        self.st.push(json!({"op": op, "k": k, "len": c.len_(), "cap": sat(c.cap_()), "al": al, "dr": dr}));
    }
    fn fill<C: Coll>(&mut self, c: &mut C, k: u64) {
        let n = c.len_() as u32;
        for x in 0..k as u32 {
            c.add(n + x);
        }
        self.obs("fill", k, c, 0, 0);
    }
    fn dr<C: Coll>(&self, dr: u64, n: usize) -> u64 {
        if C::DROPS {
            dr
        } else {
            n as u64
        }
    }
}

fn ops(s: &Value) -> Vec<(bool, u64)> {
    s["ops"].as_array().unwrap().iter().map(|o| (o["op"] == "fill", o["k"].as_u64().unwrap())).collect()
}

fn direct<C: Coll, R: Recycle<C>>(r: &mut Rec, s: &Value, p: R) {
    let (mut c, al, dr) = meas(|| p.new_element());
    r.obs("new", 0, &c, al, dr);
    for (fill, k) in ops(s) {
        if fill {
            r.fill(&mut c, k);
        } else {
            let n = c.len_();
            let ((), al, dr) = meas(|| p.recycle(&mut c));
            let dr = r.dr::<C>(dr, n);
            r.obs("recycle", 0, &c, al, dr);
        }
    }
}

/// through a queue with one slot: `$push` gives a reference to the slot (or None),
/// `$pop` takes the message out again
macro_rules! through {
    ($r:expr, $s:expr, $C:ty, $push:expr, $pop:expr) => {{
        let r: &mut Rec = $r;
        let (mut c, al, dr) = meas(|| $push);
        r.obs("new", 0, &*c, al, dr);
        for (fill, k) in ops($s) {
            if fill {
                r.fill(&mut *c, k);
            } else {
                let n = c.len_();
                drop(c);
                drop($pop);
                let (c2, al, dr) = meas(|| $push);
                c = c2;
                let dr = r.dr::<$C>(dr, n);
                r.obs("recycle", 0, &*c, al, dr);
            }
        }
        drop(c);
    }};
}

fn policy(s: &Value, order: usize) -> WithCapacity {
    let (min, max) = (s["min"].as_u64().unwrap() as usize, s["max"].as_u64().unwrap());
    let max = if max >= UNLIMITED { None } else { Some(max as usize) };
    let mut p = if order == 1 { WithCapacity::default() } else { WithCapacity::new() };
    for k in 0..2 {
        if (k == 0) == (order == 0) {
            if min > 0 || order == 2 {
                p = p.with_min_capacity(min);
            }
        } else if let Some(m) = max {
            p = p.with_max_capacity(m);
        }
    }
    if order == 2 {
        p = p.clone();
    }
    p
}

fn kind<C: Coll>(name: &str, s: &Value, out: &mut Vec<String>)
where
    WithCapacity: Recycle<C>,
{
    let max = s["max"].as_u64().unwrap();
    let amax = if max >= UNLIMITED { UNLIMITED } else { sat(C::with_cap(max as usize).cap_()) };
    for way in 0..6 {
        let p = policy(s, way % 3);
        let mut r = Rec { st: Vec::new() };
        r.st.push(json!({"op": "cfg", "k": 0, "len": sat(p.min_capacity()), "cap": sat(p.max_capacity()), "al": 0, "dr": 0}));
        match way {
            0 => direct::<C, _>(&mut r, s, p),
            1 => direct::<C, _>(&mut r, s, Arc::new(p)),
            2 => {
                let q = ThingBuf::<C, _>::with_recycle(1, p);
                through!(&mut r, s, C, q.push_ref().unwrap(), q.pop_ref().unwrap());
            }
            3 => {
                let (tx, rx) = mpsc::with_recycle::<C, _>(1, p);
                through!(&mut r, s, C, tx.try_send_ref().unwrap(), rx.try_recv_ref().unwrap());
            }
            4 => {
                let (tx, rx) = blocking::with_recycle::<C, _>(1, p);
                through!(&mut r, s, C, tx.send_ref().unwrap(), rx.recv_ref().unwrap());
            }
            _ => {
                // received by value: a new element is left behind
                let q = ThingBuf::<C, _>::with_recycle(1, p);
                for (fill, k) in ops(s) {
                    if fill {
                        let mut c = C::with_cap(0);
                        for x in 0..k as u32 {
                            c.add(x);
                        }
                        q.push(c).ok().unwrap();
                        drop(q.pop().unwrap());
                    }
                }
                let c = q.push_ref().unwrap();
                // (what is found was new, and recycled when it was claimed)
                r.st.push(json!({"op": "new", "k": 0, "len": c.len_(), "cap": sat(c.cap_()), "al": if s["min"] == 0 { 0 } else { 1 }, "dr": 0}));
                if s["min"].as_u64().unwrap() > max {
                    continue;
                }
            }
        }
        out.push(json!({"pol": "cap", "kind": name, "min": s["min"], "max": s["max"], "amax": amax, "keeps": false, "st": r.st}).to_string());
    }
}

// ---- DefaultRecycle ----
/// a type whose default is not all zeroes, and which counts clone_from
#[derive(PartialEq, Debug)]
struct U {
    a: u32,
    b: String,
}
impl Default for U {
    fn default() -> U {
        U { a: 77, b: "seventy".into() }
    }
}
impl Clone for U {
    fn clone(&self) -> U {
        U { a: self.a, b: self.b.clone() }
    }
    fn clone_from(&mut self, o: &U) {
        CLONEFROM.with(|c| c.set(c.get() + 1));
        self.a = o.a;
        self.b.clone_from(&o.b);
    }
}

fn deflt<T: Default + Clone + PartialEq2>(name: &str, keeps: bool, counts: bool, s: &Value, cap: fn(&T) -> u64, fill: fn(&mut T, u64), out: &mut Vec<String>) {
    for way in 0..3 {
        let p = DefaultRecycle::new();
        let mut st = Vec::new();
        let v = |t: &T| if t.same(&T::default()) { 0 } else { 1 };
        let q = ThingBuf::<T>::new(1);
        let arc = Arc::new(p.clone());
        let mut c = None;
        let mut r = None;
        macro_rules! cur {
            () => {
                if way == 2 {
                    let x: &mut thingbuf::Ref<'_, T> = r.as_mut().unwrap();
                    &mut **x
                } else {
                    c.as_mut().unwrap()
                }
            };
        }
        match way {
            0 => c = Some(p.new_element()),
            1 => c = Some(arc.new_element()),
            _ => r = Some(q.push_ref().unwrap()),
        }
        let t: &mut T = cur!();
        st.push(json!({"op": "new", "k": 0, "len": v(t), "cap": cap(t), "al": 0, "dr": 0}));
        for (f, k) in ops(s) {
            if f {
                let t: &mut T = cur!();
                fill(t, k);
                st.push(json!({"op": "fill", "k": k, "len": v(t), "cap": cap(t), "al": 0, "dr": 0}));
            } else {
                let c0 = CLONEFROM.with(|c| c.get());
                let al = match way {
                    0 => meas(|| p.recycle(c.as_mut().unwrap())).1,
                    1 => meas(|| arc.recycle(c.as_mut().unwrap())).1,
                    _ => {
                        r = None;
                        drop(q.pop_ref().unwrap());
                        let (x, al, _) = meas(|| q.push_ref().unwrap());
                        r = Some(x);
                        al
                    }
                };
                let n = CLONEFROM.with(|c| c.get()) - c0;
                let t: &mut T = cur!();
                st.push(json!({"op": "recycle", "k": 0, "len": v(t), "cap": cap(t), "al": al, "dr": if counts { n } else { 1 }}));
            }
        }
        out.push(json!({"pol": "default", "kind": name, "min": 0, "max": 0, "amax": 0, "keeps": keeps, "st": st}).to_string());
    }
}
trait PartialEq2 {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same {
    ($($t:ty),*) => { $(impl PartialEq2 for $t { fn same(&self, o: &Self) -> bool { self == o } })* };
}
same!(u32, String, Vec<u8>, VecDeque<u8>, Option<Box<u32>>, U, HashMap<u32, u32>);
impl PartialEq2 for BinaryHeap<u8> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len()
    }
}

pub fn main() {
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    let mut seen = HashSet::new();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let s: Value = serde_json::from_str(&l).unwrap();
        let mut out = Vec::new();
        kind::<Vec<D>>("Vec", &s, &mut out);
        kind::<String>("String", &s, &mut out);
        kind::<VecDeque<D>>("VecDeque", &s, &mut out);
        kind::<BinaryHeap<D>>("BinaryHeap", &s, &mut out);
        kind::<HashMap<u32, D>>("HashMap", &s, &mut out);
        kind::<HashSet<D>>("HashSet", &s, &mut out);
        deflt::<u32>("u32", false, false, &s, |_| 0, |t, k| *t = k as u32, &mut out);
        deflt::<String>("String", true, false, &s, |t| t.capacity() as u64, |t, k| (0..k).for_each(|_| t.push('y')), &mut out);
        deflt::<Vec<u8>>("Vec", true, false, &s, |t| t.capacity() as u64, |t, k| (0..k).for_each(|_| t.push(1)), &mut out);
        deflt::<VecDeque<u8>>("VecDeque", true, false, &s, |t| t.capacity() as u64, |t, k| (0..k).for_each(|_| t.push_front(1)), &mut out);
        deflt::<BinaryHeap<u8>>("BinaryHeap", true, false, &s, |t| t.capacity() as u64, |t, k| (0..k).for_each(|_| t.push(1)), &mut out);
        deflt::<Option<Box<u32>>>("Option<Box>", false, false, &s, |_| 0, |t, k| *t = Some(Box::new(k as u32)), &mut out);
        deflt::<HashMap<u32, u32>>("HashMap", false, false, &s, |_| 0, |t, k| (0..k).for_each(|x| { t.insert(x as u32, 1); }), &mut out);
        deflt::<U>("user", false, true, &s, |_| 0, |t, k| { t.a = k as u32; t.b = "z".repeat(k as usize) }, &mut out);
        for o in out {
            if seen.insert(o.clone()) {
                let _ = writeln!(so, "{o}");
            }
        }
    }
}
