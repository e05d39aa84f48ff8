mod ask;
mod block;
mod limits;
mod typed;
mod bufs;
mod conf;
mod det;
mod engine;
mod frames;
mod mesh;
mod net;
mod netbase;
mod route;
mod ser;
mod shutdown;
mod stress;
mod send;
mod udp;
mod util;
use util::*;

const STRESS_BASE: u64 = 1_000_000_000;

fn main() {
    install_panic_hook();
    let prop = std::env::args().nth(1).unwrap_or_default();
    let rc = run(&prop);
    std::process::exit(rc);
}

fn run(prop: &str) -> i32 {
    macro_rules! eng {
        ($p:literal) => {{
            let rep = Report::new($p, 25, 300);
            watchdog(&rep, rep.budget() + std::time::Duration::from_secs(500));
            engine::run($p, &rep, 1.0);
            rep.finish()
        }};
        // the engine under a controlled scheduler, then real threads
        ($p:literal, stress) => {{
            let rep = Report::new($p, 40, 400);
            watchdog(&rep, rep.budget() + std::time::Duration::from_secs(400));
            if std::env::var_os("KV_STRESS").is_none() && rep.only_case.is_none_or(|c| c < STRESS_BASE) {
                engine::run($p, &rep, 0.5);
            }
            rep.case_base(STRESS_BASE);
            rep.jitter.store(true, std::sync::atomic::Ordering::SeqCst);
            if rep.only_case.is_none_or(|c| c >= STRESS_BASE) {
                stress::run($p, &rep, 1.0);
            }
            rep.finish()
        }};
    }
    macro_rules! direct {
        ($p:literal, $q:expr, $t:expr, $f:expr) => {{
            let rep = Report::new($p, $q, $t);
            watchdog(&rep, rep.budget() + std::time::Duration::from_secs(300));
            // (delays make no difference to what runs on one thread)
            if !matches!($p, "S01" | "S02" | "S03" | "S05" | "D03" | "G01") {
                rep.jitter.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            $f(&rep);
            rep.finish()
        }};
    }
    match prop {
        "C01" => eng!("C01", stress),
        "C02" => eng!("C02", stress),
        "C03" => eng!("C03", stress),
        "C04" => eng!("C04", stress),
        "C05" => eng!("C05", stress),
        "C06" => eng!("C06"),
        "C07" => eng!("C07", stress),
        "C08" => eng!("C08", stress),
        "C11" => eng!("C11"),
        "C13" => eng!("C13", stress),
        "C09" => direct!("C09",25,300,ask::c09),
        "C10" => direct!("C10",25,300,shutdown::c10),
        "C12" => direct!("C12", 25, 300, stress::c12),
        "S01" => direct!("S01", 25, 300, ser::s01),
        "S02" => direct!("S02", 25, 300, ser::s02),
        "S03" => direct!("S03", 25, 300, frames::s03),
        "S04" => direct!("S04", 25, 300, bufs::s04),
        "D01" => direct!("D01", 25, 300, route::d01),
        "D02" => direct!("D02", 25, 300, route::d02),
        "N01" => direct!("N01", 25, 300, mesh::n01),
        "N02" => direct!("N02", 25, 300, net::n02),
        "G01" => direct!("G01", 20, 200, conf::g01),
        "D04" => direct!("D04", 25, 300, send::d04),
        "N05" => direct!("N05", 25, 300, block::n05),
        "N06" => direct!("N06", 25, 300, limits::n06),
        "S05" => direct!("S05", 20, 200, typed::s05),
        "C15" => direct!("C15", 25, 300, typed::c15),
        "N04" => direct!("N04", 25, 300, udp::n04),
        "N03" => direct!("N03", 25, 300, net::n03),
        "D03" => direct!("D03", 20, 300, ser::d03),
        _ => {
            eprintln!("unknown property {}", prop);
            2
        }
    }
}
