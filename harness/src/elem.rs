//! The element type, recycling policy and waker used by the scenarios; all
//! constructions, recyclings and destructions are logged.
use crate::rt::{off, rt, rt_opt};
use std::fmt;
use std::task::{RawWaker, RawWakerVTable, Waker};

const MAGIC: u64 = 0x7468_696e_6762_7566;
const DEAD: u64 = 0xdead_dead_dead_dead;

pub struct Elem {
    magic: u64,
    pub id: u64,
    val: i64,
    nval: i64,
}

pub struct UserPanic;

impl Elem {
    /// An element made by the user, to be sent by value.
    pub fn user(v: i64) -> Elem {
        let _o = off();
        let r = rt();
        let id = r.next_elem;
        r.next_elem += 1;
        r.live.insert(id, true);
        Elem { magic: MAGIC, id, val: v, nval: !v }
    }
    fn made(c: char) -> Elem {
        let _o = off();
        let r = rt();
        if r.fault("new") {
            std::panic::panic_any(UserPanic);
        }
        let id = r.next_elem;
        r.next_elem += 1;
        r.live.insert(id, true);
        let cur = r.cur;
        r.th[cur].pol.push(id as i64);
        let _ = c;
        Elem { magic: MAGIC, id, val: 0, nval: !0 }
    }
    /// value, or -1 if torn / not an element
    pub fn get(&self) -> i64 {
        if self.magic == MAGIC && self.val == !self.nval {
            self.val
        } else {
            -1
        }
    }
    pub fn set(&mut self, v: i64) {
        self.val = v;
        self.nval = !v;
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        let _o = off();
        if let Some(r) = rt_opt() {
            if self.magic == DEAD {
                r.log_bad("doubledrop", format!("element dropped twice"));
            } else if self.magic != MAGIC {
                r.log_bad("baddrop", format!("dropped something that is not an element"));
            } else {
                if r.live.remove(&self.id).is_none() {
                    r.log_bad("doubledrop", format!("element dropped twice"));
                }
            }
        }
        self.magic = DEAD;
    }
}

impl Default for Elem {
    fn default() -> Elem {
        Elem::made('n')
    }
}
impl Clone for Elem {
    fn clone(&self) -> Elem {
        let mut e = Elem::made('c');
        e.set(self.get());
        e
    }
}
impl fmt::Debug for Elem {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "E{}", self.get())
    }
}
impl fmt::Display for Elem {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl fmt::Write for Elem {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut v = self.get();
        for c in s.chars() {
            v = v * 10 + c.to_digit(10).ok_or(fmt::Error)? as i64;
        }
        self.set(v);
        Ok(())
    }
}

#[derive(Debug)]
pub struct Policy;
impl thingbuf::Recycle<Elem> for Policy {
    fn new_element(&self) -> Elem {
        Elem::made('n')
    }
    fn recycle(&self, e: &mut Elem) {
        let _o = off();
        let r = rt();
        if r.fault("rec") {
            std::panic::panic_any(UserPanic);
        }
        let cur = r.cur;
        r.th[cur].pol.push(-(e.id as i64));
        e.set(0);
    }
}

// Wakers are told apart by their data and their vtable, and neighbours in the
// sequence of ids differ in just one of them (in turn).
static VT: [RawWakerVTable; 2] = [
    RawWakerVTable::new(w_clone::<0>, w_wake::<0>, w_wake_ref::<0>, w_drop::<0>),
    RawWakerVTable::new(w_clone::<1>, w_wake::<1>, w_wake_ref::<1>, w_drop::<1>),
];
fn raw_waker(id: usize) -> RawWaker {
    RawWaker::new((id / 2 + 1) as *const (), &VT[(id + 1) / 2 % 2])
}
fn wid<const V: usize>(p: *const ()) -> usize {
    let d = p as usize - 1;
    2 * d + if d % 2 == V { 0 } else { 1 }
}
fn w_clone<const V: usize>(p: *const ()) -> RawWaker {
    let id = wid::<V>(p);
    let ok = {
        let _o = off();
        rt().waker_clone(id)
    };
    if !ok {
        std::panic::panic_any(UserPanic);
    }
    raw_waker(id)
}
fn w_wake<const V: usize>(p: *const ()) {
    w_wake_ref::<V>(p);
    w_drop::<V>(p);
}
fn w_wake_ref<const V: usize>(p: *const ()) {
    {
        let _o = off();
        rt().wake(wid::<V>(p));
    }
    crate::interp::on_wake(wid::<V>(p));
}
fn w_drop<const V: usize>(p: *const ()) {
    {
        let _o = off();
        rt().waker_drop(wid::<V>(p));
    }
    crate::interp::on_drop(wid::<V>(p));
}
/// the waker with id `id`; the harness's reference is the one `new_waker` counted
pub fn waker(id: usize) -> Waker {
    unsafe { Waker::from_raw(raw_waker(id)) }
}
