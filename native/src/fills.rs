//! Large capacities: a long walk of one thread between empty and full. Every
//! step is a step of the specification which is the same for every capacity;
//! the first one which goes otherwise is printed.
use serde_json::json;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use thingbuf::{mpsc, StaticThingBuf, ThingBuf};

static LIVE: AtomicI64 = AtomicI64::new(0);
/// Elements of several shapes; each counts in `LIVE`.
trait Elem: Default + Clone + 'static {
    fn make(v: u64) -> Self;
    fn put(&mut self, v: u64);
    /// `ANY` if it cannot tell
    fn val(&self) -> u64;
}
const ANY: u64 = u64::MAX;

macro_rules! elem {
    ($(#[$m:meta])* $name:ident, $t:ty, |$v:ident| $mk:expr, |$x:ident| $val:expr) => {
        $(#[$m])*
        struct $name($t);
        impl Elem for $name {
            fn make($v: u64) -> Self {
                LIVE.fetch_add(1, Relaxed);
                $name($mk)
            }
            fn put(&mut self, $v: u64) {
                self.0 = $mk;
            }
            fn val(&self) -> u64 {
                let $x = &self.0;
                $val
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::make(0)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                LIVE.fetch_add(1, Relaxed);
                $name(self.0.clone())
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                LIVE.fetch_sub(1, Relaxed);
            }
        }
    };
}
elem!(El, u64, |v| v, |x| *x);
elem!(Zst, (), |_v| (), |_x| ANY);
elem!(Byte, u8, |v| v as u8, |x| *x as u64 | BYTE);
const BYTE: u64 = 1 << 63;
elem!(Wide, [u64; 129], |v| [v; 129], |x| if x.iter().all(|y| *y == x[0]) { x[0] } else { ANY - 1 });
elem!(#[repr(align(512))] Align, u64, |v| v, |x| if (x as *const u64 as usize) % 512 == 0 { *x } else { ANY - 1 });
elem!(Heap, Vec<u64>, |v| vec![v; (v % 5) as usize + 1], |x| if x.len() as u64 == x[0] % 5 + 1 { x[0] } else { ANY - 1 });

fn same(got: Option<u64>, want: Option<u64>) -> bool {
    match (got, want) {
        (Some(ANY), Some(_)) => true,
        (Some(g), Some(w)) if g != ANY - 1 && g & BYTE != 0 => (g ^ w) & 0xff == 0,
        (g, w) => g == w,
    }
}

fn bad(what: &str, want: i64, got: i64) -> ! {
    println!("{}", json!({"bad": what, "want": want, "got": got}));
    std::process::exit(0)
}

struct Q<'a> {
    push: &'a dyn Fn(u64, u64) -> bool,
    pop: &'a dyn Fn(u64) -> Option<u64>,
    obs: Option<&'a dyn Fn() -> (usize, bool, usize, usize)>,
}

fn walk(cap: usize, n: u64, seed: u64, q: Q<'_>) {
    let mut rng = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut rnd = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let mut m: VecDeque<u64> = VecDeque::new();
    let mut v = 0u64;
    let mut steps = 0;
    let look = |m: &VecDeque<u64>| {
        if let Some(o) = q.obs {
            let (l, e, r, c) = o();
            for (nm, want, got) in [("len", m.len(), l), ("isempty", m.is_empty() as usize, e as usize), ("remaining", cap - m.len(), r), ("capacity", cap, c)] {
                if want != got {
                    bad(nm, want as i64, got as i64);
                }
            }
        }
    };
    let mut push = |m: &mut VecDeque<u64>, k: u64| {
        v += 1;
        let ok = (q.push)(k, v);
        if ok != (m.len() < cap) {
            bad("push", !ok as i64, ok as i64);
        }
        if ok {
            m.push_back(v);
        }
    };
    let pop = |m: &mut VecDeque<u64>, k: u64| {
        let (g, w) = ((q.pop)(k), m.pop_front());
        if !same(g, w) {
            bad("pop", w.is_some() as i64, g.is_some() as i64);
        }
    };
    let mut lap = 0;
    while steps < n || lap < 8 {
        // where to go next
        let to = match lap % 4 {
            0 => cap,
            1 => 0,
            2 => rnd() as usize % (cap + 1),
            _ => cap - rnd() as usize % (cap + 1).min(3),
        };
        lap += 1;
        look(&m);
        while m.len() != to {
            steps += 1;
            let k = rnd();
            if (m.len() < to) != (k & 0x70 == 0) {
                push(&mut m, k & 3);
            } else {
                pop(&mut m, k & 3);
            }
            if k & 0xfff00 == 0 {
                look(&m);
            }
        }
        look(&m);
        if to == cap {
            push(&mut m, lap & 3);
            push(&mut m, lap & 3);
        }
        if to == 0 {
            pop(&mut m, lap & 3);
            pop(&mut m, lap & 3);
        }
        look(&m);
    }
    // leave something in it
    let to = rnd() as usize % (cap + 1);
    while m.len() > to {
        pop(&mut m, 0);
    }
    look(&m);
    println!("{}", json!({"ok": steps}));
}

macro_rules! buf {
    ($E:ty, $q:ident, $cap:expr, $n:expr, $s:expr) => {
        walk(
            $cap,
            $n,
            $s,
            Q {
                push: &|k, v| match k {
                    0 | 1 => $q.push(<$E>::make(v)).is_ok(),
                    2 => $q.push_with(|x| x.put(v)).is_ok(),
                    _ => $q.push_ref().map(|mut x| x.put(v)).is_ok(),
                },
                pop: &|k| match k {
                    0 | 1 => $q.pop().map(|x| x.val()),
                    2 => $q.pop_with(|x| x.val()),
                    _ => $q.pop_ref().map(|x| x.val()),
                },
                obs: Some(&|| ($q.len(), $q.is_empty(), $q.remaining(), $q.capacity())),
            },
        )
    };
}
macro_rules! chan {
    ($E:ty, $tx:ident, $rx:ident, $cap:expr, $n:expr, $s:expr) => {
        walk(
            $cap,
            $n,
            $s,
            Q {
                push: &|k, v| if k < 2 { $tx.try_send(<$E>::make(v)).is_ok() } else { $tx.try_send_ref().map(|mut x| x.put(v)).is_ok() },
                pop: &|k| if k < 2 { $rx.try_recv().ok().map(|x| x.val()) } else { $rx.try_recv_ref().ok().map(|x| x.val()) },
                obs: None,
            },
        )
    };
}

fn stat<E: Elem, const C: usize>(n: u64, s: u64) {
    let q = Box::new(StaticThingBuf::<E, C>::new());
    buf!(E, q, C, n, s)
}
fn stat_ch<E: Elem, const C: usize>(n: u64, s: u64) {
    let q: &'static mpsc::blocking::StaticChannel<E, C> = Box::leak(Box::new(mpsc::blocking::StaticChannel::new()));
    let (tx, rx) = q.split();
    chan!(E, tx, rx, C, n, s);
    // nothing drops a static channel
    drop((tx, rx));
    LIVE.store(0, Relaxed);
}

fn flavour<E: Elem>(fl: &str, cap: usize, n: u64, s: u64) {
    match fl {
        "tb" => {
            let q = ThingBuf::<E>::new(cap);
            buf!(E, q, cap, n, s)
        }
        "ts" => match cap {
            3 => stat::<E, 3>(n, s),
            64 => stat::<E, 64>(n, s),
            100 => stat::<E, 100>(n, s),
            257 => stat::<E, 257>(n, s),
            _ => stat::<E, 1025>(n, s),
        },
        "bs" => match cap {
            3 => stat_ch::<E, 3>(n, s),
            64 => stat_ch::<E, 64>(n, s),
            100 => stat_ch::<E, 100>(n, s),
            257 => stat_ch::<E, 257>(n, s),
            _ => stat_ch::<E, 1025>(n, s),
        },
        "ad" => {
            let (tx, rx) = mpsc::channel::<E>(cap);
            chan!(E, tx, rx, cap, n, s)
        }
        "bd" => {
            let (tx, rx) = mpsc::blocking::channel::<E>(cap);
            chan!(E, tx, rx, cap, n, s)
        }
        _ => std::process::exit(2),
    }
}

pub fn main(fl: &str, cap: usize, n: u64, s: u64) {
    let (fl, el) = fl.split_once(':').unwrap_or((fl, ""));
    match el {
        "" => flavour::<El>(fl, cap, n, s),
        "zst" => flavour::<Zst>(fl, cap, n, s),
        "byte" => flavour::<Byte>(fl, cap, n, s),
        "wide" => flavour::<Wide>(fl, cap, n, s),
        "align" => flavour::<Align>(fl, cap, n, s),
        "heap" => flavour::<Heap>(fl, cap, n, s),
        _ => std::process::exit(2),
    }
    let l = LIVE.load(Relaxed);
    if l != 0 {
        bad("end", 0, l);
    }
}
