//! Workloads for the undefined-behaviour interpreter: no network, no timers of the operating system.
#![allow(dead_code, unused)]
#[path = "../bufs.rs"]
mod bufs;
#[path = "../det.rs"]
mod det;
#[path = "../engine.rs"]
mod engine;
#[path = "../frames.rs"]
mod frames;
#[path = "../ser.rs"]
mod ser;
#[path = "../util.rs"]
mod util;
#[path = "../pool.rs"]
mod pool;
use util::*;

fn main() {
    install_panic_hook();
    let w = std::env::args().nth(1).unwrap_or_default();
    let rep = Report::new("C14", 60, 600);
    match w.as_str() {
        "engine" => engine::run("C01", &rep, 1.0),
        "pool" => pool::run(&rep),
        "bufs" => bufs::s04(&rep),
        "ser" => ser::s01(&rep),
        "ser2" => ser::s02(&rep),
        "frames" => frames::s03(&rep),
        _ => std::process::exit(2),
    }
    std::process::exit(rep.finish());
}
