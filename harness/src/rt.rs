//! The deterministic runtime: coroutine threads, scheduling choices, the
//! store-history memory model, race / use-after-free detection, virtual time.
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell as StdCell;
use std::collections::{BTreeMap, HashMap};

pub const MAXT: usize = 6;
pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
/// (in microseconds) stands for Duration::MAX
pub const FOREVER: i64 = 1_000_000_000;
pub type VC = [u32; MAXT];

// ---------------------------------------------------------------------------
// arena allocator: everything allocated by the code under test during one
// execution comes from here; freed memory is never reused within it.
// ---------------------------------------------------------------------------
const ARENA: usize = 8 << 20;
const GRAN: usize = 16;
pub struct Alloc;
static mut A_BASE: usize = 0;
static mut A_TOP: usize = 0;
static mut A_ON: bool = false;
static mut A_DEAD: [u64; ARENA / GRAN / 64] = [0; ARENA / GRAN / 64];

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if A_ON {
            let al = l.align().max(GRAN);
            let p = (A_TOP + al - 1) & !(al - 1);
            // one granule gap between allocations
            A_TOP = p + ((l.size() + GRAN - 1) & !(GRAN - 1)) + GRAN;
            if A_TOP > A_BASE + ARENA {
                fatal("arena exhausted");
            }
            return p as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= A_BASE && a < A_BASE + ARENA {
            if A_ON {
                A_ON = false;
                if let Some(rt) = rt_opt() {
                    rt.retire(a, l.size());
                }
                A_ON = true;
            }
            let (mut g, e) = ((a - A_BASE) / GRAN, (a - A_BASE + l.size() + GRAN - 1) / GRAN);
            while g < e {
                A_DEAD[g / 64] |= 1 << (g % 64);
                g += 1;
            }
            return;
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

pub fn arena_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        A_BASE = p as usize;
        A_TOP = A_BASE;
    }
}

pub fn arena_reset() {
    unsafe {
        let used = (A_TOP - A_BASE).min(ARENA);
        std::ptr::write_bytes(A_BASE as *mut u8, 0xA5, used);
        let words = used / GRAN / 64 + 1;
        for w in 0..words.min(A_DEAD.len()) {
            A_DEAD[w] = 0;
        }
        A_TOP = A_BASE;
    }
}

fn arena_dead(a: usize) -> bool {
    unsafe {
        if a >= A_BASE && a < A_BASE + ARENA {
            let g = (a - A_BASE) / GRAN;
            return A_DEAD[g / 64] >> (g % 64) & 1 != 0;
        }
        false
    }
}

pub struct Off(bool);
pub fn off() -> Off {
    unsafe {
        let o = A_ON;
        A_ON = false;
        Off(o)
    }
}
pub fn on() -> Off {
    unsafe {
        let o = A_ON;
        A_ON = true;
        Off(o)
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        unsafe { A_ON = self.0 }
    }
}

pub fn fatal(m: &str) -> ! {
    unsafe { A_ON = false };
    eprintln!("FATAL {m}");
    unsafe { libc::_exit(70) }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Default, Debug)]
pub struct View(Vec<u32>);
impl View {
    fn get(&self, i: usize) -> u32 {
        self.0.get(i).copied().unwrap_or(0)
    }
    fn set(&mut self, i: usize, t: u32) {
        if self.0.len() <= i {
            self.0.resize(i + 1, 0);
        }
        self.0[i] = self.0[i].max(t);
    }
    fn join(&mut self, o: &View) {
        if self.0.len() < o.0.len() {
            self.0.resize(o.0.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(o.0.iter()) {
            *a = (*a).max(*b);
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Clk {
    pub vc: VC,
    pub view: View,
}
impl Clk {
    fn join(&mut self, o: &Clk) {
        for i in 0..MAXT {
            self.vc[i] = self.vc[i].max(o.vc[i]);
        }
        self.view.join(&o.view);
    }
}

struct Msg {
    val: u64,
    rel: Clk,
}

struct Loc {
    id: usize,
    msgs: Vec<Msg>, // index = timestamp
    acc: VC,
}

#[derive(Default)]
struct CellSt {
    size: usize,
    w: Option<(usize, u32)>,
    r: VC,
}

#[derive(Default)]
struct LockSt {
    held: Option<usize>,
    clk: Clk,
    acc: VC,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Lock(usize),
    Park(Option<u64>),
    Wake(usize),
    Sync,
    Phase,
    Done,
    Frozen,
}

pub struct Th {
    pub co: Option<Coroutine<(), (), (), DefaultStack>>,
    yl: *const Yielder<(), ()>,
    pub st: St,
    token: bool,
    token_clk: Clk,
    timed_out: bool,
    yielded: bool,
    stalled: bool,
    clk: Clk,
    acqp: Clk,
    relf: Clk,
    stack: (usize, usize),
    pub op: i64, // current op id, -1 none
    pub op_deadline: Option<u64>,
    pub locks_held: usize,
    pub pol: Vec<i64>,
    pub base: usize,
    /// time that passed while this thread was able to run, but did not
    pub delay: u64,
}

pub use crate::hist::Ev;

pub struct WakerSt {
    pub woken: bool,
    clones: i64,
    clk: Clk,
    waiter: Option<usize>, // thread blocked on it
    /// the waker is a task, i.e. keeps a future alive: 1 which is not polled
    /// when it is woken (its executor is gone), 2 which is polled at once
    pub task: u8,
}

// ---------------------------------------------------------------------------
// choices
// ---------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Strat {
    Dfs,
    Rand,
    Replay,
}
pub struct Choice {
    pub chosen: u8,
    pub n: u8,
    pub used: u8, // budget used before this choice
    pub costs: [u8; 8],
}
pub struct Chooser {
    pub strat: Strat,
    pub trail: Vec<Choice>,
    pub pos: usize,
    pub budget: u8,
    pub used: u8,
    pub rng: u64,
    pub pdev: u32, // per-mille probability of a deviation in Rand
    pub cut: u64,  // alternatives left out because of the budget
    pub stall: bool, // a preempted thread stays off until the others are blocked
}
impl Chooser {
    pub fn rnd(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    /// `costs[0]` is 0. Returns the index chosen.
    fn choose(&mut self, costs: &[u8]) -> usize {
        debug_assert!(costs[0] == 0);
        let mut n = 0;
        let mut cs = [0u8; 8];
        let mut map = [0u8; 8];
        for (i, c) in costs.iter().enumerate() {
            if self.used + c <= self.budget && n < 8 {
                cs[n] = *c;
                map[n] = i as u8;
                n += 1;
            } else {
                self.cut += 1;
            }
        }
        if n <= 1 {
            return 0;
        }
        let c = match self.strat {
            Strat::Dfs | Strat::Replay => {
                if self.pos < self.trail.len() {
                    let t = &self.trail[self.pos];
                    if t.n != 0 && t.n as usize != n {
                        fatal(&format!("nondeterministic replay at {}: {} vs {}", self.pos, t.n, n));
                    }
                    t.chosen
                } else {
                    self.trail.push(Choice { chosen: 0, n: n as u8, used: self.used, costs: cs });
                    0
                }
            }
            Strat::Rand => {
                let free = cs[..n].iter().filter(|c| **c == 0).count();
                let c = if free > 1 && (free == n || self.rnd() % 1000 >= self.pdev as u64) {
                    (self.rnd() % free as u64) as usize
                } else if self.rnd() % 1000 < self.pdev as u64 {
                    (self.rnd() % n as u64) as usize
                } else {
                    0
                };
                // free options come first in `costs` by construction
                self.trail.push(Choice { chosen: c as u8, n: n as u8, used: self.used, costs: cs });
                c as u8
            }
        };
        self.pos += 1;
        self.used += cs[c as usize];
        map[c as usize] as usize
    }
    /// DFS: move to the next trail; false when exhausted.
    pub fn next(&mut self) -> bool {
        while let Some(t) = self.trail.last_mut() {
            if t.chosen + 1 < t.n {
                t.chosen += 1;
                self.pos = 0;
                self.used = 0;
                return true;
            }
            self.trail.pop();
        }
        false
    }
    pub fn restart(&mut self) {
        self.pos = 0;
        self.used = 0;
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Mode {
    pub weak: u8, // 0 SC, 1 weak + boundary sync, 2 weak
    pub weakcas: bool,
    pub spurious: bool,
    pub timers: bool,
    pub freeze: Option<usize>,
}

pub struct Rt {
    pub th: Vec<Th>,
    pub cur: usize,
    next: usize,
    pub mode: Mode,
    pub ch: Chooser,
    locs: HashMap<usize, Loc>,
    nloc: usize,
    cells: BTreeMap<usize, CellSt>,
    locks: HashMap<usize, LockSt>,
    sc: View,
    bnd: Clk,
    pub now: u64,
    pub steps: u64,
    pub limit: u64,
    last_change: u64,
    idle: u32,
    pub log: Vec<Ev>,
    pub aborted: bool,
    pub wakers: Vec<WakerSt>,
    frozen: bool,
    pub trace: bool,
    /// the only thread runs at full speed, nothing is tracked
    pub warp: bool,
    pub maxpts: u64,
    // element bookkeeping
    pub next_elem: u64,
    pub live: BTreeMap<u64, bool>,
    pub faults: HashMap<&'static str, i64>,
    pub aslp: BTreeMap<i64, usize>, // pending manual/async op -> latest waker
    pub races: u64,
}

const NONE: usize = usize::MAX;
static mut RT: *mut Rt = std::ptr::null_mut();
pub fn rt_opt() -> Option<&'static mut Rt> {
    unsafe { if RT.is_null() { None } else { Some(&mut *RT) } }
}
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
pub fn set_rt(p: *mut Rt) {
    unsafe { RT = p }
}

thread_local! { static POOL: StdCell<Vec<DefaultStack>> = const { StdCell::new(Vec::new()) }; }
fn get_stack() -> DefaultStack {
    POOL.with(|p| {
        let mut v = p.take();
        let s = v.pop();
        p.set(v);
        s.unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap())
    })
}
fn put_stack(s: DefaultStack) {
    POOL.with(|p| {
        let mut v = p.take();
        v.push(s);
        p.set(v);
    })
}

impl Rt {
    pub fn new(mode: Mode, ch: Chooser) -> Rt {
        Rt {
            th: Vec::new(),
            cur: NONE,
            next: NONE,
            mode,
            ch,
            locs: HashMap::new(),
            nloc: 0,
            cells: BTreeMap::new(),
            locks: HashMap::new(),
            sc: View::default(),
            bnd: Clk::default(),
            now: 1_000 * MS + 123_000,
            steps: 0,
            limit: 20_000,
            last_change: 0,
            idle: 0,
            log: Vec::new(),
            aborted: false,
            wakers: Vec::new(),
            frozen: false,
            trace: false,
            warp: false,
            maxpts: 0,
            next_elem: 1,
            live: BTreeMap::new(),
            faults: HashMap::new(),
            aslp: BTreeMap::new(),
            races: 0,
        }
    }

    pub fn reset(&mut self) {
        self.warp = false;
        for t in self.th.iter_mut() {
            if let Some(mut c) = t.co.take() {
                if !c.done() {
                    unsafe { c.force_reset() };
                }
                put_stack(c.into_stack());
            }
        }
        self.th.clear();
        self.cur = NONE;
        self.next = NONE;
        self.locs.clear();
        self.nloc = 0;
        self.cells.clear();
        self.locks.clear();
        self.sc = View::default();
        self.bnd = Clk::default();
        self.now = 1_000 * MS + 123_000;
        self.steps = 0;
        self.last_change = 0;
        self.idle = 0;
        self.log.clear();
        self.aborted = false;
        self.wakers.clear();
        self.frozen = false;
        self.next_elem = 1;
        self.live.clear();
        self.aslp.clear();
        self.ch.restart();
    }

    pub fn spawn(&mut self, st: St, f: impl FnOnce() + 'static) -> usize {
        let id = self.th.len();
        assert!(id < MAXT);
        let stack = get_stack();
        use corosensei::stack::Stack;
        let hi = stack.base().get();
        let lo = stack.limit().get();
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            rt().th[id].yl = y as *const _;
            {
                let _g = on();
                f();
            }
        });
        let mut clk = if self.cur != NONE { self.th[self.cur].clk.clone() } else { Clk::default() };
        clk.vc[id] += 1;
        self.th.push(Th {
            co: Some(co),
            yl: std::ptr::null(),
            st,
            token: false,
            token_clk: Clk::default(),
            timed_out: false,
            yielded: false,
            stalled: false,
            clk,
            acqp: Clk::default(),
            relf: Clk::default(),
            stack: (lo, hi),
            op: -1,
            op_deadline: None,
            locks_held: 0,
            pol: Vec::new(),
            base: lo,
            delay: 0,
        });
        id
    }

    pub fn start_thread(&mut self, t: usize) {
        // called by the current thread: spawn edge
        if self.th[t].st == St::Phase {
            let c = self.th[self.cur].clk.clone();
            self.th[t].clk.join(&c);
            self.th[t].st = St::Ready;
        }
    }

    // ---- scheduling ----
    fn timer_candidate(&self) -> Option<(usize, u64)> {
        let mut best: Option<(usize, u64)> = None;
        for (i, t) in self.th.iter().enumerate() {
            if let St::Park(Some(d)) = t.st {
                if best.map_or(true, |b| d < b.1) {
                    best = Some((i, d));
                }
            }
        }
        best
    }
    fn fire(&mut self, t: usize, d: u64) {
        let dt = d.saturating_sub(self.now);
        for x in self.th.iter_mut() {
            if matches!(x.st, St::Ready | St::Lock(_)) {
                x.delay += dt;
            }
        }
        self.now = self.now.max(d);
        self.th[t].st = St::Ready;
        self.th[t].timed_out = true;
        self.last_change = self.steps;
    }

    /// kind: 0 continue, 1 yield, 2 blocked/finished
    fn pick(&mut self, kind: u8) -> usize {
        let n = self.th.len();
        let cur = self.cur;
        let mut opts: [usize; 8] = [NONE; 8];
        let mut costs: [u8; 8] = [0; 8];
        let mut k = 0;
        const TIMER: usize = 1000;
        const FREEZE: usize = 1001;
        if kind == 0 {
            opts[0] = cur;
            k = 1;
            if self.mode.freeze == Some(cur) && !self.frozen && self.th[cur].locks_held == 0 && self.th[cur].op >= 0 {
                opts[k] = FREEZE;
                costs[k] = 0;
                k += 1;
            }
            for j in 1..n {
                let t = (cur + j) % n;
                if self.th[t].st == St::Ready && k < 7 {
                    opts[k] = t;
                    costs[k] = 1;
                    k += 1;
                }
            }
        } else {
            if kind == 1 {
                self.th[cur].yielded = true;
            }
            loop {
                for j in 1..=n {
                    let t = if cur == NONE { j - 1 } else { (cur + j) % n };
                    if self.th[t].st == St::Ready && !self.th[t].stalled && !self.th[t].yielded && k < 7 {
                        opts[k] = t;
                        costs[k] = if kind == 1 && k > 0 { 1 } else { 0 };
                        k += 1;
                    }
                }
                if k > 0 {
                    break;
                }
                let any = self.th.iter().any(|t| t.st == St::Ready && !t.stalled);
                let stalled = self.th.iter().any(|t| t.st == St::Ready && t.stalled);
                if stalled && (!any || self.idle >= 16) {
                    // the others wait, or have been spinning for long
                    self.idle = 0;
                    for t in self.th.iter_mut() {
                        t.stalled = false;
                    }
                    continue;
                }
                if !any {
                    return NONE;
                }
                for t in self.th.iter_mut() {
                    if t.st == St::Ready {
                        t.yielded = false;
                    }
                }
                // everybody able to run is spinning
                self.idle += 1;
                if self.idle % 8 == 0 && self.idle < 800 && !stalled {
                    self.tick();
                }
                // round robin without choices: everyone yielded
                for j in 1..=n {
                    let t = if cur == NONE { j - 1 } else { (cur + j) % n };
                    if self.th[t].st == St::Ready && !self.th[t].stalled {
                        return t;
                    }
                }
            }
        }
        if self.mode.timers && kind != 2 && k < 8 {
            if self.timer_candidate().is_some() {
                opts[k] = TIMER;
                costs[k] = 1;
                k += 1;
            }
        }
        let c = if k == 1 { 0 } else { self.ch.choose(&costs[..k]) };
        match opts[c] {
            TIMER => {
                let (t, d) = self.timer_candidate().unwrap();
                self.fire(t, d);
                t
            }
            FREEZE => {
                self.frozen = true;
                self.th[cur].st = St::Frozen;
                self.pick(2)
            }
            t => {
                if self.ch.stall && kind == 0 && t != cur {
                    self.th[cur].stalled = true;
                    self.th[t].stalled = false;
                    self.idle = 0;
                }
                t
            }
        }
    }

    fn tick(&mut self) {
        // let time pass a little while all runnable threads merely spin
        let mut d = self.now + MS;
        if let Some((t, x)) = self.timer_candidate() {
            if x <= d {
                d = x;
                self.fire(t, x);
            }
        }
        self.now = self.now.max(d);
        // (not counted as progress)
    }

    fn suspend_to(&mut self, t: usize) {
        if t == self.cur {
            return;
        }
        self.next = t;
        let y = self.th[self.cur].yl;
        let me = self.cur;
        let held = unsafe {
            let o = A_ON;
            A_ON = false;
            o
        };
        unsafe { (*y).suspend(()) };
        unsafe { A_ON = held };
        debug_assert!(self.cur == me);
    }

    fn abort(&mut self, k: &'static str, msg: String) -> ! {
        let op = if self.cur == NONE { -1 } else { self.th[self.cur].op };
        if self.trace {
            eprintln!("  !! {k}: {msg}");
        }
        self.log.push(Ev { k, i: op, o: String::new(), s: msg, ..Default::default() });
        self.aborted = true;
        self.next = NONE;
        let y = self.th[self.cur].yl;
        loop {
            unsafe { (*y).suspend(()) };
        }
    }

    pub fn log_bad(&mut self, k: &'static str, msg: String) {
        let op = if self.cur == NONE { -1 } else { self.th[self.cur].op };
        if self.trace {
            eprintln!("  !! {k}: {msg}");
        }
        self.log.push(Ev { k, i: op, s: msg, ..Default::default() });
    }

    /// A scheduling point before a visible operation of the current thread.
    fn point(&mut self) {
        if self.warp {
            return;
        }
        self.steps += 1;
        if self.steps > self.limit || self.steps - self.last_change > 6000 {
            self.abort("stuck", "no progress".to_string());
        }
        if std::thread::panicking() {
            return;
        }
        let t = self.pick(0);
        self.suspend_to(t);
    }

    fn block(&mut self) {
        let t = self.pick(2);
        if t == self.cur {
            return;
        }
        self.suspend_to(t); // t may be NONE: main loop decides
    }

    fn changed(&mut self) {
        self.last_change = self.steps;
        self.idle = 0;
        for t in self.th.iter_mut() {
            t.yielded = false;
        }
    }

    // ---- memory ----
    fn stack_owner(&self, a: usize) -> Option<usize> {
        self.th.iter().position(|t| a >= t.stack.0 && a < t.stack.1)
    }

    fn check_alive(&mut self, a: usize, known: bool, what: &str) {
        if arena_dead(a) {
            self.abort("uaf", format!("{what} of freed memory"));
        }
        if !known {
            if let Some(o) = self.stack_owner(a) {
                if o != self.cur {
                    self.abort("uaf", format!("{what} of a dead stack slot of thread {o}"));
                }
            }
        }
    }

    fn loc(&mut self, a: usize, size: usize) -> &mut Loc {
        let v = unsafe {
            match size {
                1 => *(a as *const u8) as u64,
                2 => *(a as *const u16) as u64,
                4 => *(a as *const u32) as u64,
                _ => *(a as *const u64),
            }
        };
        // stores go to memory, too: another value there means that something
        // new was placed at this address
        let known = self.locs.get(&a).map_or(false, |l| l.msgs[l.msgs.len() - 1].val == v);
        self.check_alive(a, known, "atomic access");
        if !known {
            let id = self.nloc;
            self.nloc += 1;
            self.locs.insert(a, Loc { id, msgs: vec![Msg { val: v, rel: Clk::default() }], acc: [0; MAXT] });
        }
        self.locs.get_mut(&a).unwrap()
    }

    fn pre(&mut self, sc: bool) {
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        if sc && self.mode.weak > 0 {
            let v = std::mem::take(&mut self.sc);
            self.th[c].clk.view.join(&v);
            self.sc = v;
        }
    }
    fn post(&mut self, sc: bool) {
        if sc && self.mode.weak > 0 {
            let v = std::mem::take(&mut self.th[self.cur].clk.view);
            self.sc.join(&v);
            self.th[self.cur].clk.view = v;
        }
    }
    fn read_msg(&mut self, a: usize, ts: usize, acq: bool) -> u64 {
        let c = self.cur;
        let Rt { locs, th, mode, .. } = self;
        let l = locs.get_mut(&a).unwrap();
        let t = &mut th[c];
        l.acc[c] = t.clk.vc[c];
        if mode.weak > 0 {
            t.clk.view.set(l.id, ts as u32);
        }
        let m = &l.msgs[ts];
        if acq {
            t.clk.join(&m.rel);
        } else {
            t.acqp.join(&m.rel);
        }
        m.val
    }
    fn write_msg(&mut self, a: usize, size: usize, val: u64, rel: bool, rmw: bool) {
        let c = self.cur;
        let weak = self.mode.weak > 0;
        let Rt { locs, th, .. } = self;
        let l = locs.get_mut(&a).unwrap();
        let t = &mut th[c];
        let ts = l.msgs.len();
        let old = l.msgs[ts - 1].val;
        if weak {
            t.clk.view.set(l.id, ts as u32);
        }
        let mut r = if rel { t.clk.clone() } else { t.relf.clone() };
        if rmw {
            r.join(&l.msgs[ts - 1].rel);
        }
        if weak && !rel {
            r.view.set(l.id, ts as u32);
        }
        l.acc[c] = t.clk.vc[c];
        if weak {
            l.msgs.push(Msg { val, rel: r });
        } else {
            l.msgs[0] = Msg { val, rel: r };
        }
        unsafe {
            match size {
                1 => *(a as *mut u8) = val as u8,
                2 => *(a as *mut u16) = val as u16,
                4 => *(a as *mut u32) = val as u32,
                _ => *(a as *mut u64) = val,
            }
        }
        if old != val {
            self.changed();
        }
    }

    fn load(&mut self, a: usize, size: usize, ord: u8) -> u64 {
        self.point();
        let sc = ord == 4;
        self.loc(a, size);
        self.pre(sc);
        let l = &self.locs[&a];
        let last = l.msgs.len() - 1;
        let mut ts = last;
        if self.mode.weak > 0 && !std::thread::panicking() {
            let lo = self.th[self.cur].clk.view.get(l.id) as usize;
            if lo < last {
                // distinct older values still visible, newest first
                let mut cand: [usize; 5] = [last; 5];
                let mut k = 1;
                let mut x = last;
                while x > lo && k < 5 {
                    x -= 1;
                    cand[k] = x;
                    k += 1;
                }
                let costs = [0u8, 1, 1, 1, 1];
                ts = cand[self.ch.choose(&costs[..k])];
            }
        }
        let v = self.read_msg(a, ts, matches!(ord, 1 | 3 | 4));
        self.post(sc);
        if self.trace {
            eprintln!("  t{} load  {:x} o{} -> {:x}{}", self.cur, a & 0xffffff, ord, v, if ts != last { " STALE" } else { "" });
        }
        v
    }
    fn store(&mut self, a: usize, size: usize, v: u64, ord: u8) {
        self.point();
        let sc = ord == 4;
        self.loc(a, size);
        self.pre(sc);
        self.write_msg(a, size, v, matches!(ord, 2 | 3 | 4), false);
        self.post(sc);
        if self.trace {
            eprintln!("  t{} store {:x} o{} <- {:x}", self.cur, a & 0xffffff, ord, v);
        }
    }
    fn rmw(&mut self, a: usize, size: usize, kind: u8, v: u64, ord: u8) -> u64 {
        self.point();
        let sc = ord == 4;
        self.loc(a, size);
        self.pre(sc);
        let last = self.locs[&a].msgs.len() - 1;
        let old = self.read_msg(a, last, matches!(ord, 1 | 3 | 4));
        let new = apply(kind, size, old, v);
        self.write_msg(a, size, new, matches!(ord, 2 | 3 | 4), true);
        self.post(sc);
        if self.trace {
            eprintln!("  t{} rmw{}  {:x} o{} {:x} -> {:x}", self.cur, kind, a & 0xffffff, ord, old, new);
        }
        old
    }
    fn cas(&mut self, a: usize, size: usize, cur: u64, new: u64, su: u8, fa: u8, weak: bool) -> (bool, u64) {
        self.point();
        self.loc(a, size);
        let l = &self.locs[&a];
        let last = l.msgs.len() - 1;
        let val = l.msgs[last].val;
        let mut ok = val == cur;
        let mut ts = last;
        if ok && weak && self.mode.weakcas && self.ch.choose(&[0, 1]) == 1 {
            ok = false;
        }
        if !ok && val != cur && self.mode.weak > 0 && fa != 4 && su != 4 {
            let lo = self.th[self.cur].clk.view.get(l.id) as usize;
            if lo < last && l.msgs[last - 1].val != cur && self.ch.choose(&[0, 1]) == 1 {
                ts = last - 1;
            }
        }
        let r;
        if ok {
            let sc = su == 4;
            self.pre(sc);
            r = self.read_msg(a, last, matches!(su, 1 | 3 | 4));
            self.write_msg(a, size, new, matches!(su, 2 | 3 | 4), true);
            self.post(sc);
        } else {
            let sc = fa == 4;
            self.pre(sc);
            r = self.read_msg(a, ts, matches!(fa, 1 | 3 | 4));
            self.post(sc);
        }
        if self.trace {
            eprintln!("  t{} cas   {:x} {:x}->{:x} = {} {:x}", self.cur, a & 0xffffff, cur, new, ok, r);
        }
        (ok, r)
    }
    fn fence(&mut self, ord: u8) {
        self.point();
        let sc = ord == 4;
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        if matches!(ord, 1 | 3 | 4) {
            let a = std::mem::take(&mut self.th[c].acqp);
            self.th[c].clk.join(&a);
        }
        if sc && self.mode.weak > 0 {
            self.pre(true);
            self.post(true);
        }
        if matches!(ord, 2 | 3 | 4) {
            self.th[c].relf = self.th[c].clk.clone();
        }
    }

    fn race(&mut self, what: String) {
        self.races += 1;
        self.abort("race", what);
    }

    fn access(&mut self, a: usize, size: usize, write: bool) {
        if size == 0 {
            return;
        }
        self.steps += 1;
        if self.steps > self.limit {
            self.abort("stuck", "too many accesses".into());
        }
        let known = self.cells.contains_key(&a);
        self.check_alive(a, known, if write { "write" } else { "read" });
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        let vc = self.th[c].clk.vc;
        let st = self.cells.entry(a).or_default();
        st.size = size;
        let mut bad = None;
        if let Some((wt, wc)) = st.w {
            if wt != c && vc[wt] < wc {
                bad = Some(wt);
            }
        }
        if write {
            for t in 0..MAXT {
                if t != c && st.r[t] > vc[t] {
                    bad = Some(t);
                }
            }
        }
        if write {
            st.w = Some((c, vc[c]));
            st.r = [0; MAXT];
        } else {
            st.r[c] = vc[c];
        }
        if self.trace {
            eprintln!("  t{} {} cell {:x} +{}", c, if write { "W" } else { "R" }, a & 0xffffff, size);
        }
        if let Some(t) = bad {
            self.race(format!("unordered access by threads {} and {}", c.min(t), c.max(t)));
        }
    }

    fn retire(&mut self, a: usize, size: usize) {
        if self.cur == NONE || size == 0 {
            return;
        }
        let c = self.cur;
        let vc = self.th[c].clk.vc;
        let mut bad = None;
        let chk = |acc: &VC, bad: &mut Option<usize>| {
            for t in 0..MAXT {
                if t != c && acc[t] > vc[t] {
                    *bad = Some(t);
                }
            }
        };
        let cells: Vec<usize> = self.cells.range(a..a + size).map(|x| *x.0).collect();
        for k in cells {
            let st = self.cells.remove(&k).unwrap();
            if let Some((wt, wc)) = st.w {
                if wt != c && vc[wt] < wc {
                    bad = Some(wt);
                }
            }
            chk(&st.r, &mut bad);
        }
        let locs: Vec<usize> = self.locs.keys().copied().filter(|k| *k >= a && *k < a + size).collect();
        for k in locs {
            let l = self.locs.remove(&k).unwrap();
            chk(&l.acc, &mut bad);
        }
        let lk: Vec<usize> = self.locks.keys().copied().filter(|k| *k >= a && *k < a + size).collect();
        let mut held = false;
        for k in lk {
            let l = self.locks.remove(&k).unwrap();
            held |= l.held.is_some();
            chk(&l.acc, &mut bad);
        }
        if held {
            self.abort("uaf", "freed a locked mutex".into());
        }
        if let Some(t) = bad {
            self.race(format!("memory freed by thread {c} while used by thread {t}"));
        }
    }

    /// the current operation is over: everything it had on its stack is dead
    pub fn retire_stack(&mut self, sp: usize) {
        let (lo, _) = self.th[self.cur].stack;
        if sp > lo {
            self.retire(lo, sp - lo);
        }
    }

    // ---- locks ----
    fn lock(&mut self, a: usize) {
        self.point();
        let known = self.locks.contains_key(&a);
        self.check_alive(a, known, "lock");
        self.locks.entry(a).or_default();
        while self.locks[&a].held.is_some() {
            if self.locks[&a].held == Some(self.cur) {
                self.abort("stuck", "locks a mutex it holds already".into());
            }
            self.th[self.cur].st = St::Lock(a);
            self.block();
            if arena_dead(a) {
                self.abort("uaf", "lock of freed memory".into());
            }
        }
        self.take_lock(a);
    }
    fn take_lock(&mut self, a: usize) {
        let c = self.cur;
        let l = self.locks.get_mut(&a).unwrap();
        l.held = Some(c);
        self.th[c].clk.vc[c] += 1;
        self.th[c].clk.join(&l.clk);
        l.acc[c] = self.th[c].clk.vc[c];
        self.th[c].locks_held += 1;
        if self.trace {
            eprintln!("  t{} lock {:x}", c, a & 0xffffff);
        }
    }
    fn try_lock(&mut self, a: usize) -> bool {
        self.point();
        let known = self.locks.contains_key(&a);
        self.check_alive(a, known, "lock");
        self.locks.entry(a).or_default();
        if self.locks[&a].held.is_some() {
            return false;
        }
        self.take_lock(a);
        true
    }
    fn unlock(&mut self, a: usize) {
        self.point();
        self.check_alive(a, true, "unlock");
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        self.th[c].locks_held -= 1;
        if let Some(l) = self.locks.get_mut(&a) {
            l.held = None;
            l.clk = self.th[c].clk.clone();
            l.acc[c] = self.th[c].clk.vc[c];
        }
        for t in self.th.iter_mut() {
            if t.st == St::Lock(a) {
                t.st = St::Ready;
            }
        }
        if self.trace {
            eprintln!("  t{} unlock {:x}", c, a & 0xffffff);
        }
    }

    // ---- parking ----
    fn park(&mut self, timeout: Option<u64>) {
        self.point();
        if self.trace {
            eprintln!("  t{} park {:?}", self.cur, timeout.map(|t| t / MS));
        }
        let c = self.cur;
        if !self.th[c].token {
            if timeout == Some(0) {
                return;
            }
            let mut timeout = timeout.filter(|t| *t < FOREVER as u64 * US);
            if self.mode.spurious && !std::thread::panicking() {
                match timeout {
                    // a spurious wakeup after some time, or just too early
                    Some(t) => match self.ch.choose(&[0, 1, 1]) {
                        1 => timeout = Some(t / 2),
                        2 => timeout = Some(t - (t / 2).min(150 * US)),
                        _ => {}
                    },
                    None => {
                        if self.ch.choose(&[0, 1]) == 1 {
                            return;
                        }
                    }
                }
            }
            self.th[c].timed_out = false;
            self.th[c].st = St::Park(timeout.map(|t| self.now.saturating_add(t)));
            self.block();
        }
        if self.th[c].token {
            self.th[c].token = false;
            let k = std::mem::take(&mut self.th[c].token_clk);
            self.th[c].clk.join(&k);
        }
    }
    fn unpark(&mut self, id: u64) {
        self.point();
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        let k = self.th[c].clk.clone();
        if self.trace {
            eprintln!("  t{} unpark t{}", c, id);
        }
        let t = &mut self.th[id as usize];
        let ch = !t.token;
        t.token = true;
        t.token_clk.join(&k);
        if let St::Park(_) = t.st {
            t.st = St::Ready;
        }
        if ch {
            self.changed();
        }
    }
    fn spin(&mut self) {
        self.steps += 1;
        if self.steps > self.limit || self.steps - self.last_change > 6000 {
            self.abort("stuck", "spinning without progress".to_string());
        }
        let t = self.pick(1);
        self.suspend_to(t);
    }

    // ---- harness-level services (called from coroutines, allocator off) ----
    pub fn bcall(&mut self) {
        // boundary of an API call: scheduling point and, in weak mode 1, sync
        self.point();
        if self.mode.weak == 1 {
            let b = std::mem::take(&mut self.bnd);
            self.th[self.cur].clk.view.join(&b.view);
            self.bnd = b;
        }
    }
    pub fn bret(&mut self) {
        if self.mode.weak == 1 {
            let v = self.th[self.cur].clk.view.clone();
            self.bnd.view.join(&v);
        }
        self.last_change = self.steps;
    }
    pub fn new_waker(&mut self) -> usize {
        self.wakers.push(WakerSt { woken: false, clones: 1, clk: Clk::default(), waiter: None, task: 0 });
        self.wakers.len() - 1
    }
    pub fn waker_clone(&mut self, id: usize) -> bool {
        let f = self.faults.entry("wclone").or_insert(0);
        if *f > 0 {
            *f -= 1;
            if *f == 0 {
                return false;
            }
        }
        self.wakers[id].clones += 1;
        true
    }
    pub fn waker_drop(&mut self, id: usize) {
        self.wakers[id].clones -= 1;
        if self.wakers[id].clones < 0 {
            self.abort("doubledrop", "waker dropped twice".into());
        }
        if self.wakers[id].task > 0 {
            self.task_sync(id);
        }
    }
    pub fn waker_clones(&self, id: usize) -> i64 {
        self.wakers[id].clones
    }
    /// the reference count and lock of a task order whatever is done with it
    pub fn task_sync(&mut self, id: usize) {
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        let k = self.wakers[id].clk.clone();
        self.th[c].clk.join(&k);
        self.wakers[id].clk = self.th[c].clk.clone();
    }
    pub fn wakers_leaked(&self) -> i64 {
        self.wakers.iter().map(|w| w.clones).sum()
    }
    pub fn wake(&mut self, id: usize) {
        self.point();
        let c = self.cur;
        self.th[c].clk.vc[c] += 1;
        if self.trace {
            eprintln!("  t{} wake w{}", c, id);
        }
        let k = self.th[c].clk.clone();
        let w = &mut self.wakers[id];
        let ch = !w.woken;
        w.woken = true;
        w.clk.join(&k);
        if let Some(t) = w.waiter.take() {
            if self.th[t].st == St::Wake(id) {
                self.th[t].st = St::Ready;
            }
        }
        if ch {
            self.changed();
        }
    }
    /// A future is polled with this waker again. Others which share the waker and
    /// were woken through it stay woken.
    pub fn rearm(&mut self, wid: usize) {
        if self.wakers[wid].woken {
            self.aslp.retain(|_, w| *w != wid);
            self.wakers[wid].woken = false;
        }
    }
    pub fn wait_wake(&mut self, id: usize) {
        self.point();
        if !self.wakers[id].woken {
            self.wakers[id].waiter = Some(self.cur);
            self.th[self.cur].st = St::Wake(id);
            self.block();
        }
        let k = self.wakers[id].clk.clone();
        let c = self.cur;
        self.th[c].clk.join(&k);
        self.wakers[id].woken = false;
    }
    pub fn wait(&mut self, st: St) {
        let c = self.cur;
        self.th[c].st = st;
        self.block();
    }
    pub fn join_finished(&mut self) {
        let c = self.cur;
        for t in 0..self.th.len() {
            if t != c && self.th[t].st == St::Done {
                let k = self.th[t].clk.clone();
                self.th[c].clk.join(&k);
            }
        }
    }
    /// thread-join edge from a finished or quiescent thread to the current one
    pub fn fault(&mut self, k: &'static str) -> bool {
        let f = self.faults.entry(k).or_insert(0);
        if *f > 0 {
            *f -= 1;
            return *f == 0;
        }
        false
    }

    fn asleep(&self) -> Vec<i64> {
        let mut b = Vec::new();
        for t in self.th.iter() {
            match t.st {
                St::Park(_) | St::Wake(_) if t.op >= 0 => b.push(t.op),
                _ => {}
            }
        }
        for (op, w) in self.aslp.iter() {
            if !self.wakers[*w].woken {
                b.push(*op);
            }
        }
        b.sort();
        b.dedup();
        b
    }
    pub fn log_q(&mut self) {
        let b = self.asleep();
        if self.trace {
            eprintln!("  -- quiescent, asleep {:?}", b);
        }
        if !b.is_empty() {
            self.log.push(Ev { k: "q", i: -1, b, ..Default::default() });
        }
    }

    /// Runs until everything is finished or stuck.
    pub fn run(&mut self) {
        let mut next = 0; // thread 0 is the main script
        loop {
            self.cur = next;
            self.next = NONE;
            let mut co = self.th[next].co.take().unwrap();
            let r = co.resume(());
            self.th[self.cur].co = Some(co);
            let finished = matches!(r, CoroutineResult::Return(()));
            if self.aborted {
                return;
            }
            if finished {
                self.th[self.cur].st = St::Done;
                self.changed();
                next = self.pick(2);
            } else {
                next = self.next;
            }
            if next == NONE {
                next = self.quiesce();
                if next == NONE {
                    return;
                }
            }
        }
    }

    fn quiesce(&mut self) -> usize {
        // deadlock on a lock?
        if let Some(t) = self.th.iter().position(|t| matches!(t.st, St::Lock(_))) {
            if !self.frozen {
                self.log.push(Ev { k: "stuck", i: self.th[t].op, s: "deadlock on a lock".into(), ..Default::default() });
                self.aborted = true;
            }
            return NONE;
        }
        self.log_q();
        if let Some((t, d)) = self.timer_candidate() {
            self.fire(t, d);
            return t;
        }
        let mut any = false;
        for i in 1..self.th.len() {
            if self.th[i].st == St::Sync {
                self.th[i].st = St::Ready;
                any = true;
            }
        }
        if any {
            self.changed();
            let all: Vec<Clk> = self.th.iter().map(|t| t.clk.clone()).collect();
            for i in 1..self.th.len() {
                if self.th[i].st == St::Ready {
                    for k in &all {
                        self.th[i].clk.join(k);
                    }
                }
            }
            return self.pick(2);
        }
        if !self.th.is_empty() && self.th[0].st == St::Phase && !self.frozen {
            self.th[0].st = St::Ready;
            self.changed();
            return 0;
        }
        NONE
    }

    pub fn all_done(&self) -> bool {
        self.th.iter().all(|t| t.st == St::Done)
    }
    pub fn was_frozen(&self) -> bool {
        self.frozen
    }
}

// ---------------------------------------------------------------------------
// the hooks
// ---------------------------------------------------------------------------
macro_rules! live {
    ($dead:expr, $e:expr) => {{
        let _o = off();
        match rt_opt() {
            Some(r) if r.cur != NONE => $e(r),
            _ => $dead,
        }
    }};
}
fn warping() -> bool {
    rt_opt().map_or(false, |r| r.warp)
}
fn raw_put(a: usize, s: usize, v: u64) {
    unsafe {
        match s {
            1 => *(a as *mut u8) = v as u8,
            2 => *(a as *mut u16) = v as u16,
            4 => *(a as *mut u32) = v as u32,
            _ => *(a as *mut u64) = v,
        }
    }
}
fn apply(kind: u8, size: usize, old: u64, v: u64) -> u64 {
    let mask = if size == 8 { u64::MAX } else { (1u64 << (size * 8)) - 1 };
    mask & match kind {
        0 => v,
        1 => old.wrapping_add(v),
        2 => old.wrapping_sub(v),
        3 => old & v,
        4 => old | v,
        5 => old ^ v,
        6 => old.max(v),
        7 => old.min(v),
        _ => !(old & v),
    }
}
#[no_mangle]
fn tbv_load(a: usize, s: usize, o: u8) -> u64 {
    if warping() {
        return raw(a, s);
    }
    live!(raw(a, s), |r: &mut Rt| r.load(a, s, o))
}
fn raw(a: usize, s: usize) -> u64 {
    unsafe {
        match s {
            1 => *(a as *const u8) as u64,
            2 => *(a as *const u16) as u64,
            4 => *(a as *const u32) as u64,
            _ => *(a as *const u64),
        }
    }
}
#[no_mangle]
fn tbv_store(a: usize, s: usize, v: u64, o: u8) {
    if warping() {
        return raw_put(a, s, v);
    }
    live!((), |r: &mut Rt| r.store(a, s, v, o))
}
#[no_mangle]
fn tbv_rmw(a: usize, s: usize, k: u8, v: u64, o: u8) -> u64 {
    if warping() {
        let old = raw(a, s);
        raw_put(a, s, apply(k, s, old, v));
        return old;
    }
    live!(0, |r: &mut Rt| r.rmw(a, s, k, v, o))
}
#[no_mangle]
fn tbv_cas(a: usize, s: usize, c: u64, n: u64, su: u8, fa: u8, w: bool) -> (bool, u64) {
    if warping() {
        let old = raw(a, s);
        if old == c {
            raw_put(a, s, n);
        }
        return (old == c, old);
    }
    live!((false, 0), |r: &mut Rt| r.cas(a, s, c, n, su, fa, w))
}
#[no_mangle]
fn tbv_fence(o: u8) {
    if warping() {
        return;
    }
    live!((), |r: &mut Rt| r.fence(o))
}
#[no_mangle]
fn tbv_access(a: usize, s: usize, w: bool) {
    if warping() {
        return;
    }
    live!((), |r: &mut Rt| r.access(a, s, w))
}
#[no_mangle]
fn tbv_spin() {
    live!((), |r: &mut Rt| r.spin())
}
#[no_mangle]
fn tbv_yield() {
    live!((), |r: &mut Rt| r.spin())
}
#[no_mangle]
fn tbv_park() {
    live!((), |r: &mut Rt| r.park(None))
}
#[no_mangle]
fn tbv_park_timeout(n: u64) {
    live!((), |r: &mut Rt| r.park(Some(n)))
}
#[no_mangle]
fn tbv_unpark(id: u64) {
    live!((), |r: &mut Rt| r.unpark(id))
}
#[no_mangle]
fn tbv_current() -> u64 {
    live!(0, |r: &mut Rt| r.cur as u64)
}
#[no_mangle]
fn tbv_now() -> u64 {
    // A clock which never moved between two reads would make `elapsed() > timeout` differ from `>=`.
    live!(0, |r: &mut Rt| {
        r.now += 1;
        r.now
    })
}
#[no_mangle]
fn tbv_lock(a: usize) {
    live!((), |r: &mut Rt| r.lock(a))
}
#[no_mangle]
fn tbv_try_lock(a: usize) -> bool {
    live!(true, |r: &mut Rt| r.try_lock(a))
}
#[no_mangle]
fn tbv_unlock(a: usize) {
    live!((), |r: &mut Rt| r.unlock(a))
}
