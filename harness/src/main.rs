//! Runs scenarios against thingbuf (built with `--cfg thingbuf_verif`) under a
//! deterministic scheduler and prints the distinct histories that occurred.
//!
//!   tbh explore            scenarios (JSON, one per line) on stdin
//!   tbh replay FILE        {"sc":{..},"trail":[..],"bud":n}: prints the steps
mod api;
mod elem;
mod filter;
mod hist;
mod interp;
mod rt;
use hist::{canon, hash2, key, show};
use interp::{run_one, Scenario};
use rt::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, Write};

extern "C" fn on_signal(sig: i32) {
    // async-signal context: raw writes only
    unsafe {
        let mut buf = [0u8; 16384];
        let mut n = 0;
        let mut put = |s: &[u8], n: &mut usize| {
            for b in s {
                if *n < buf.len() - 8 {
                    buf[*n] = *b;
                    *n += 1;
                }
            }
        };
        let num = |mut x: u64, out: &mut [u8; 20]| -> usize {
            let mut i = 20;
            loop {
                i -= 1;
                out[i] = b'0' + (x % 10) as u8;
                x /= 10;
                if x == 0 {
                    return i;
                }
            }
        };
        put(b"\n{\"crash\":", &mut n);
        let mut d = [0u8; 20];
        let i = num(sig as u64, &mut d);
        put(&d[i..], &mut n);
        if let Some(r) = rt_opt() {
            put(b",\"bud\":", &mut n);
            let i = num(r.ch.budget as u64 + if r.ch.stall { 128 } else { 0 }, &mut d);
            put(&d[i..], &mut n);
            put(b",\"trail\":[", &mut n);
            let mut k = r.ch.trail.len();
            if matches!(r.ch.strat, Strat::Rand) {
                k = r.ch.pos.min(k);
            }
            for j in 0..k {
                if j > 0 {
                    put(b",", &mut n);
                }
                let i = num(r.ch.trail[j].chosen as u64, &mut d);
                put(&d[i..], &mut n);
            }
            put(b"]", &mut n);
        }
        put(b"}\n", &mut n);
        libc::write(1, buf.as_ptr() as *const _, n);
        libc::_exit(if sig == libc::SIGALRM { 43 } else { 42 });
    }
}

fn install() {
    unsafe {
        let sz = 256 * 1024;
        let st = libc::stack_t { ss_sp: libc::malloc(sz), ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&st, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGALRM, libc::SIGTRAP, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("TBH_PANIC").is_some() {
            let _o = off();
            eprintln!("panic: {i}");
        }
    }));
    let _ = std::panic::catch_unwind(|| panic!("warm up {}", 1));
}

/// The histories of one scenario: those the filter does not accept are all
/// kept (up to a limit), of the others a sample.
struct Out {
    seen: HashSet<u128>,
    bad: Vec<String>,
    first: Vec<String>,
    res: Vec<String>,
    cap: usize,
    uniq: u64,
    rejd: u64,
    rng: u64,
}
fn one(rt: &mut Rt, sc: &Scenario, o: &mut Out) -> bool {
    unsafe { libc::alarm(30) };
    run_one(rt, sc);
    let h = canon(&rt.log);
    let k = hash2(&key(&h));
    if !o.seen.insert(k) {
        return false;
    }
    o.uniq += 1;
    let bad = rt.aborted || !filter::accepts(sc.cap, sc.pol, !sc.rawsplit, sc.mode.weak == 2, &h);
    let half = (o.cap / 2) as u64;
    let slot = if bad {
        o.rejd += 1;
        if o.bad.len() < 40 { 0 } else { 3 }
    } else if (o.first.len() as u64) < half {
        1
    } else {
        2
    };
    let mut at = 0;
    if slot == 2 {
        // reservoir
        let n = o.uniq - o.rejd - half;
        o.rng ^= o.rng << 13;
        o.rng ^= o.rng >> 7;
        o.rng ^= o.rng << 17;
        at = if n <= half { (n - 1) as usize } else { (o.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 11) as usize % n as usize };
        if at as u64 >= half {
            return bad;
        }
    }
    if slot == 3 {
        return bad;
    }
    let tr: Vec<u8> = rt.ch.trail.iter().map(|t| t.chosen).collect();
    let ev: Vec<Value> = h.iter().map(show).collect();
    let l = json!({"h": ev, "trail": tr, "bud": rt.ch.budget as u64 + if rt.ch.stall { 128 } else { 0 }, "f": !bad}).to_string();
    match slot {
        0 => o.bad.push(l),
        1 => o.first.push(l),
        _ if at < o.res.len() => o.res[at] = l,
        _ => o.res.push(l),
    }
    bad
}

fn explore(rt: &mut Rt, v: &Value, out: &mut dyn Write) {
    let sc = Scenario::parse(v);
    let cap = v.get("cap_uniq").and_then(|x| x.as_u64()).unwrap_or(40) as usize;
    let tlim = v.get("tlim").and_then(|x| x.as_f64()).unwrap_or(60.0);
    let seed = v.get("seed").and_then(|x| x.as_u64()).unwrap_or(1);
    let t0 = std::time::Instant::now();
    let mut o = Out { seen: HashSet::new(), bad: Vec::new(), first: Vec::new(), res: Vec::new(), cap, uniq: 0, rejd: 0, rng: seed | 1 };
    let mut execs = 0u64;
    let mut bad = 0u64;
    let mut exhausted: i64 = -1;
    let mut maxchoice = 0;
    rt.maxpts = 0;
    let mut trees = 0;
    for stall in [false, true] {
        // (in the second round a preempted thread is kept off for long)
        let lim = if stall { sc.execs } else { (sc.execs * 3 / 5).max(1) };
        'b: for b in (stall as u8)..=sc.budget {
            rt.ch = Chooser { strat: Strat::Dfs, trail: Vec::new(), pos: 0, budget: b, used: 0, rng: 1, pdev: 0, cut: 0, stall };
            loop {
                if execs >= lim || t0.elapsed().as_secs_f64() > tlim || bad > 40 || std::thread::panicking() {
                    break 'b;
                }
                if one(rt, &sc, &mut o) {
                    bad += 1;
                }
                execs += 1;
                maxchoice = maxchoice.max(rt.ch.trail.len());
                if !rt.ch.next() {
                    break;
                }
            }
            if !stall {
                exhausted = b as i64;
            }
            if rt.ch.cut == 0 {
                // no alternative was ever left out: the whole tree was seen
                trees += 1;
                break;
            }
        }
        if trees > 0 && !stall && maxchoice == 0 {
            trees = 2;
            break;
        }
    }
    let complete = trees == 2;
    let mut rn = 0;
    if !complete {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash2(&sc.id) as u64 | 1;
        while rn < sc.rand && t0.elapsed().as_secs_f64() < tlim && bad <= 40 && !std::thread::panicking() {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            let pdev = [15, 40, 80, 160, 320][(s % 5) as usize];
            rt.ch = Chooser { strat: Strat::Rand, trail: Vec::new(), pos: 0, budget: 100, used: 0, rng: s | 1, pdev, cut: 0, stall: s & 64 != 0 };
            if one(rt, &sc, &mut o) {
                bad += 1;
            }
            rn += 1;
        }
    }
    let uniq = o.uniq;
    for l in o.bad.iter().chain(o.first.iter()).chain(o.res.iter()) {
        let _ = writeln!(out, "{l}");
    }
    let _ = writeln!(
        out,
        "{}",
        json!({"done": sc.id, "execs": execs, "rand": rn, "uniq": uniq, "budget": exhausted, "complete": complete,
               "steps": rt.maxpts, "choices": maxchoice, "bad": o.rejd, "restart": std::thread::panicking(), "ms": t0.elapsed().as_millis() as u64})
    );
    let _ = out.flush();
    if std::thread::panicking() {
        // an execution was cut off in the middle of a panic; start afresh
        unsafe { libc::_exit(0) }
    }
}

fn main() {
    arena_init();
    install();
    let args: Vec<String> = std::env::args().collect();
    let mut rt = Box::new(Rt::new(
        Mode::default(),
        Chooser { strat: Strat::Dfs, trail: Vec::new(), pos: 0, budget: 0, used: 0, rng: 1, pdev: 0, cut: 0, stall: false },
    ));
    set_rt(&mut *rt);
    match args.get(1).map(|s| s.as_str()) {
        Some("explore") => {
            let stdin = std::io::stdin();
            for l in stdin.lock().lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(&l).expect("scenario");
                let so = std::io::stdout();
                let mut so = std::io::BufWriter::new(so.lock());
                explore(&mut rt, &v, &mut so);
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let sc = Scenario::parse(&v["sc"]);
            let trail: Vec<Choice> = v["trail"]
                .as_array()
                .map(|a| a.iter().map(|c| Choice { chosen: c.as_u64().unwrap() as u8, n: 0, used: 0, costs: [0; 8] }).collect())
                .unwrap_or_default();
            rt.trace = true;
            rt.ch = Chooser {
                strat: Strat::Replay,
                trail,
                pos: 0,
                budget: v["bud"].as_u64().unwrap_or(2) as u8 & 127,
                stall: v["bud"].as_u64().unwrap_or(2) & 128 != 0,
                used: 0,
                rng: 1,
                pdev: 0,
                cut: 0,
            };
            unsafe { libc::alarm(30) };
            run_one(&mut rt, &sc);
            for e in canon(&rt.log) {
                println!("{}", show(&e));
            }
        }
        _ => {
            eprintln!("usage: tbh explore < scenarios | tbh replay FILE");
            std::process::exit(2);
        }
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}
