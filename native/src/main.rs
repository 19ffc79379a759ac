//! Runs behaviours of the specification against thingbuf as it is built for
//! users (no instrumentation, real threads).
#[path = "../../harness/src/filter.rs"]
mod filter;
#[path = "../../harness/src/hist.rs"]
mod hist;
mod fills;
mod laps;
mod policies;
mod stress;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("laps") => laps::main(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("fills") => fills::main(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("policies") => policies::main(),
        Some("stress") => stress::main(),
        _ => std::process::exit(2),
    }
}
