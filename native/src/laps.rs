//! Very many laps: `n` pairs of a send and a receive on an empty queue. Each
//! pair is a behaviour of the specification which leads back to where it
//! started; the first pair which goes otherwise is printed as a history.
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use thingbuf::{mpsc, StaticThingBuf, ThingBuf};

static DONE: AtomicU64 = AtomicU64::new(0);

/// None of these operations waits: if none returns for long, one never will.
fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut idle) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let d = DONE.load(Relaxed);
            idle = if d == last { idle + 1 } else { 0 };
            last = d;
            if idle >= 40 {
                println!("{}", json!({"stuck": d}));
                std::process::exit(0);
            }
        }
    });
}

fn run(cap: usize, n: u64, mut push: impl FnMut(u64) -> bool, mut pop: impl FnMut() -> Option<u64>) {
    watch();
    for i in 0..n {
        DONE.store(i, Relaxed);
        let v = (i & 0xffff) + 1;
        if push(v) {
            let g = pop();
            if g == Some(v) {
                continue;
            }
            println!("{}", json!({"bad": i, "cap": cap, "v": v, "push": true, "pop": g}));
        } else {
            println!("{}", json!({"bad": i, "cap": cap, "v": v, "push": false}));
        }
        return;
    }
    println!("{}", json!({"ok": n}));
}

fn stat<const C: usize>(n: u64) {
    let q: &'static StaticThingBuf<u64, C> = Box::leak(Box::new(StaticThingBuf::new()));
    run(C, n, |v| q.push(v).is_ok(), || q.pop());
}

pub fn main(fl: &str, cap: usize, n: u64) {
    match fl {
        "tb" => {
            let q = ThingBuf::<u64>::new(cap);
            run(cap, n, |v| q.push(v).is_ok(), || q.pop())
        }
        "tbr" => {
            let q = ThingBuf::<u64>::new(cap);
            run(cap, n, |v| q.push_with(|x| *x = v).is_ok(), || q.pop_with(|x| *x))
        }
        "ts" => match cap {
            1 => stat::<1>(n),
            2 => stat::<2>(n),
            _ => stat::<3>(n),
        },
        "ad" => {
            let (tx, rx) = mpsc::channel::<u64>(cap);
            run(cap, n, |v| tx.try_send(v).is_ok(), || rx.try_recv().ok())
        }
        "bd" => {
            let (tx, rx) = mpsc::blocking::channel::<u64>(cap);
            run(cap, n, |v| tx.try_send(v).is_ok(), || rx.try_recv().ok())
        }
        _ => std::process::exit(2),
    }
}
