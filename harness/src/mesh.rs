//! Real systems talking to each other over TCP, undisturbed (N01) or with connections cut (N02).
use crate::net::Cx;
use crate::netbase::*;
use crate::util::*;
use kompact::prelude::*;
use kompact_net::{NetworkStatus, NetworkStatusRequest};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

fn port_of(fd: i32, peer: bool) -> Option<u16> {
    unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        let p = &mut a as *mut _ as *mut libc::sockaddr;
        let r = if peer { libc::getpeername(fd, p, &mut l) } else { libc::getsockname(fd, p, &mut l) };
        if r != 0 || a.sin_family as i32 != libc::AF_INET {
            return None;
        }
        Some(u16::from_be(a.sin_port))
    }
}
fn is_stream(fd: i32) -> bool {
    unsafe {
        let mut v: libc::c_int = 0;
        let mut l = 4 as libc::socklen_t;
        libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut v as *mut _ as *mut libc::c_void, &mut l) == 0 && v == libc::SOCK_STREAM
    }
}
/// Shuts down TCP connections of this process one of whose ends is one of `ports`; returns how many.
pub fn cut(ports: &[u16], how: i32, rng: &mut Rng, all: bool) -> usize {
    let mut fds: Vec<i32> = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().filter_map(|e| e.file_name().to_str().and_then(|n| n.parse().ok())).collect())
        .unwrap_or_default();
    rng.shuffle(&mut fds);
    let mut n = 0;
    for fd in fds {
        unsafe {
            // a duplicate cannot turn into another socket between the test and the cut
            let d = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 0);
            if d < 0 {
                continue;
            }
            if is_stream(d)
                && let (Some(a), Some(b)) = (port_of(d, false), port_of(d, true))
                && (ports.contains(&a) || ports.contains(&b))
                && (all || n == 0)
            {
                libc::shutdown(d, how);
                n += 1;
            }
            libc::close(d);
        }
    }
    n
}

struct Sender {
    tag: u64,
    from: usize,
    to: usize,
    sent: Arc<AtomicU64>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Plan {
    Undisturbed,
    /// Sockets are shut down under the systems.
    Cuts,
    /// The systems are asked to disconnect from each other.
    Closes,
}

pub fn mesh_case(rep: &Arc<Report>, case: u64, seed: u64, plan: Plan) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let n = if rng.chance(1, 4) { 3 } else { 2 };
    let mut cfgs: Vec<NodeCfg> = (0..n).map(|_| NodeCfg { retries: 200, retry_ms: *rng.pick(if plan != Plan::Undisturbed { &[20u64, 40, 80] } else { &[150u64, 500, 1000] }), ..gen_cfg(rng) }).collect();
    if rng.chance(1, 3) {
        let c = cfgs[0].chunk;
        for x in &mut cfgs {
            x.chunk = c;
        }
    }
    for c in &mut cfgs {
        c.max_chunks = (256usize << 20) / c.chunk;
    }
    let chunk = cfgs.iter().map(|c| c.chunk).min().unwrap();
    let nodes: Vec<Arc<Node>> = cfgs.iter().map(|c| Arc::new(Node::new(c))).collect();
    let one_way = rng.chance(1, 4);
    let mut pairs = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != j && !(one_way && i > j) {
                pairs.push((i, j));
            }
        }
    }
    let per = rng.range(1, 4);
    let big = *rng.pick(&[100usize, 100, 3_000, 70_000, 200_000]);
    let total = match big {
        100 => 600,
        3_000 => 300,
        70_000 => 80,
        _ => 30,
    } as u64
        / per as u64;
    let stop = Arc::new(AtomicBool::new(false));
    let trickle = Arc::new(AtomicBool::new(false));
    let mut senders = vec![];
    let mut hs = vec![];
    let barrier = Arc::new(Barrier::new(pairs.len() * per));
    let together = rng.chance(1, 2);
    for &(i, j) in &pairs {
        for _ in 0..per {
            let tag = 10 + senders.len() as u64;
            let sent = Arc::new(AtomicU64::new(0));
            senders.push(Sender { tag, from: i, to: j, sent: sent.clone() });
            let (a, to, src) = (nodes[i].clone(), nodes[j].sink_path(), path_at(nodes[i].addr, &format!("s{}", tag)));
            let (stop, trickle, barrier) = (stop.clone(), trickle.clone(), barrier.clone());
            let mut r = Rng::new(mix(seed, 500 + tag));
            let delay = r.below(if together { 1 } else { 40 });
            let pause = r.below(4) as u64;
            hs.push(std::thread::spawn(move || {
                barrier.wait();
                if delay > 0 {
                    std::thread::sleep(Duration::from_millis(delay as u64));
                }
                let mut seq = 0;
                // (serialising gets slow if many chunks are waiting to be written)
                let mut chunks = 0;
                while !stop.load(SeqCst) {
                    if seq >= total {
                        if !trickle.load(SeqCst) {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    let len = if seq >= total || chunks > 1500 || r.chance(1, 3) {
                        r.below(60)
                    } else if r.chance(1, 4) {
                        // around the chunk size
                        (chunk * r.range(1, 3) + r.below(140)).saturating_sub(100).min(big * 2)
                    } else {
                        r.below(big.min(chunk * 60))
                    };
                    chunks += len / chunk;
                    a.send(&to, &src, tag, seq, len);
                    seq += 1;
                    sent.store(seq, SeqCst);
                    if pause > 0 && r.chance(1, 8) {
                        std::thread::sleep(Duration::from_micros(r.below((1500 * pause) as usize) as u64));
                    }
                }
            }));
        }
    }
    let mut cuts = 0;
    let mut closes = 0;
    if plan != Plan::Undisturbed {
        trickle.store(true, SeqCst);
        let rounds = rng.range(1, 8);
        for _ in 0..rounds {
            std::thread::sleep(Duration::from_micros({
                let max = *rng.pick(&[3_000usize, 20_000, 90_000]);
                rng.below(max)
            } as u64));
            let i = rng.below(n);
            if plan == Plan::Closes {
                let j = (i + rng.range(1, n)) % n;
                let to = SystemPath::with_socket(Transport::Tcp, nodes[j].addr);
                let times = rng.range(1, 4);
                for k in 0..times {
                    nodes[i].ctl.tell(NetworkStatusRequest::DisconnectSystem(to.clone()));
                    if k + 1 < times && rng.chance(1, 2) {
                        std::thread::sleep(Duration::from_micros(rng.below(400) as u64));
                    }
                }
                if rng.chance(1, 3) {
                    nodes[j].ctl.tell(NetworkStatusRequest::DisconnectSystem(SystemPath::with_socket(Transport::Tcp, nodes[i].addr)));
                }
                cx.note(format!("node {} disconnects from {}", i, j));
                closes += 1;
                continue;
            }
            let how = *rng.pick(&[libc::SHUT_RDWR, libc::SHUT_RDWR, libc::SHUT_WR, libc::SHUT_RD]);
            let all = rng.chance(1, 3);
            let c = cut(&[nodes[i].addr.port()], how, rng, all);
            cx.note(format!("cut {} sockets of node {} (how {})", c, i, how));
            cuts += c;
        }
        if plan == Plan::Cuts {
            rep.count("sockets cut", cuts as u64);
        } else {
            rep.count("disconnects requested", closes as u64);
        }
        // every sender gets through again
        std::thread::sleep(Duration::from_millis(20));
        let floor: Vec<u64> = senders.iter().map(|s| s.sent.load(SeqCst)).collect();
        for (s, f) in senders.iter().zip(&floor) {
            let ok = nodes[s.to].inbox.wait(Duration::from_secs(90), |g| g.iter().rev().any(|g| g.tag == s.tag && g.seq >= *f));
            if !ok {
                cx.fail(
                    "not-resumed",
                    format!("no message of sender {} ({} -> {}) arrives after the cuts: {:?} / {:?}", s.tag, s.from, s.to, nodes[s.from].stat.dump(), nodes[s.to].stat.dump()),
                );
                break;
            }
        }
        stop.store(true, SeqCst);
    }
    for h in hs {
        let _ = h.join();
    }
    // everything sent last arrives
    if !cx.failed {
        for s in &senders {
            let last = s.sent.load(SeqCst) - 1;
            // two systems connecting to each other at the same time may settle on a session after
            // messages have been sent in the other one
            let disturbed = || [(s.from, s.to), (s.to, s.from)].iter().any(|&(i, j)| nodes[i].stat.about(nodes[j].addr).iter().any(|s| !matches!(s, NetworkStatus::ConnectionEstablished(..))));
            let end = Instant::now() + Duration::from_secs(60);
            let mut there = false;
            while !there && Instant::now() < end {
                there = nodes[s.to].inbox.wait_for(s.tag, last, Duration::from_secs(2));
                if !there && plan == Plan::Undisturbed && disturbed() {
                    break;
                }
            }
            if !there && plan == Plan::Undisturbed && disturbed() {
                rep.count("senders disturbed by a tie", 1);
                continue;
            }
            if !there {
                cx.fail(
                    "messages-missing",
                    format!(
                        "sender {} ({} -> {}): message {} never arrives, last {:?} ({}): {:?} / {:?}",
                        s.tag,
                        s.from,
                        s.to,
                        last,
                        nodes[s.to].inbox.of(s.tag).last().map(|g| g.seq),
                        if disturbed() { "connections were lost" } else { "no connection was lost" },
                        nodes[s.from].stat.dump(),
                        nodes[s.to].stat.dump()
                    ),
                );
                break;
            }
        }
    }
    let mut losses = 0;
    let mut msgs = 0;
    let mut sessions: HashSet<u128> = HashSet::new();
    let mut sig = mix(hash_bytes(b"mesh"), mix(n as u64, cuts as u64));
    for (i, nd) in nodes.iter().enumerate() {
        for b in nd.inbox.bad.lock().unwrap().iter() {
            cx.fail("corrupt-message", b.clone());
        }
        let got = nd.inbox.got.lock().unwrap().clone();
        msgs += got.len() as u64;
        if let Err((s, d)) = session_order(&got) {
            cx.fail(&format!("{}-in-session", s), format!("{}; {:?}", d, nd.stat.dump()));
        }
        let mut high: HashMap<u64, (u64, usize)> = HashMap::new();
        for (pos, g) in got.iter().enumerate() {
            let Some(s) = senders.iter().find(|s| s.tag == g.tag) else {
                cx.fail("misrouted", format!("{:?}", g));
                break;
            };
            if s.to != i || g.sender != path_at(nodes[s.from].addr, &format!("s{}", s.tag)) {
                cx.fail("misrouted", format!("message {}/{} from {} at node {}", g.tag, g.seq, g.sender, i));
                break;
            }
            match g.session {
                None => {
                    cx.fail("no-session", format!("message {}/{} has no session", g.tag, g.seq));
                    break;
                }
                Some(x) => {
                    sessions.insert(x);
                }
            }
            if let Some((h, _)) = high.get(&g.tag)
                && g.seq <= *h
            {
                let dup = got[..pos].iter().any(|o| o.tag == g.tag && o.seq == g.seq);
                cx.fail(if dup { "delivered-again" } else { "reordered" }, format!("sender {}: message {} after {}; {:?}", g.tag, g.seq, h, nd.stat.dump()));
                break;
            }
            high.insert(g.tag, (g.seq, pos));
        }
        let log = nd.stat.log.lock().unwrap().clone();
        for s in &log {
            if matches!(s.s, NetworkStatus::ConnectionLost(..) | NetworkStatus::ConnectionDropped(..) | NetworkStatus::ConnectionClosed(..)) {
                losses += 1;
            }
        }
        for j in 0..n {
            if i != j && let Err(e) = status_ok(&nd.stat.about(nodes[j].addr)) {
                cx.fail("status-inconsistent", format!("{}: {:?}", e, nd.stat.dump()));
            }
        }
        // every session messages arrived in has been announced
        for g in &got {
            if let Some(s) = g.session && !nd.stat.established(s) {
                cx.fail("unannounced-session", format!("message {}/{} arrived in session {:x}: {:?}", g.tag, g.seq, s, nd.stat.dump()));
                break;
            }
        }
        sig = mix(sig, got.iter().fold(0u64, |h, g| mix(h, mix(g.tag, g.seq))));
    }
    if plan == Plan::Closes && !cx.failed {
        // what is sent before a graceful close is written before it
        let lost: HashSet<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| i != j && nodes[i].stat.about(nodes[j].addr).iter().any(|s| matches!(s, NetworkStatus::ConnectionLost(..) | NetworkStatus::ConnectionDropped(..)))).collect();
        for s in &senders {
            if lost.contains(&(s.from, s.to)) || lost.contains(&(s.to, s.from)) {
                rep.count("pairs with losses", 1);
                continue;
            }
            rep.count("pairs without a loss", 1);
            let got = nodes[s.to].inbox.of(s.tag);
            if got.len() as u64 != s.sent.load(SeqCst) {
                let miss: Vec<u64> = (0..s.sent.load(SeqCst)).filter(|q| !got.iter().any(|g| g.seq == *q)).take(10).collect();
                cx.fail("lost-in-graceful-close", format!("sender {} ({} -> {}): {} of {} messages arrived, missing {:?}: {:?} / {:?}", s.tag, s.from, s.to, got.len(), s.sent.load(SeqCst), miss, nodes[s.from].stat.dump(), nodes[s.to].stat.dump()));
                break;
            }
        }
    }
    if plan == Plan::Undisturbed {
        if one_way && !cx.failed {
            for &(i, j) in &pairs {
                if nodes[i].stat.about(nodes[j].addr).iter().any(|s| !matches!(s, NetworkStatus::ConnectionEstablished(..))) {
                    cx.fail("healthy-connection-lost", format!("{} -> {}: {:?} / {:?}", i, j, nodes[i].stat.dump(), nodes[j].stat.dump()));
                }
            }
        }
        if losses > 0 {
            rep.count("losses without a cut", losses);
            cx.note(format!("losses without a cut: {:?}", nodes.iter().map(|n| n.stat.dump()).collect::<Vec<_>>()));
        } else if !cx.failed {
            for s in &senders {
                let got = nodes[s.to].inbox.of(s.tag).len() as u64;
                if got != s.sent.load(SeqCst) {
                    cx.fail("messages-missing", format!("sender {}: {} of {} messages arrived", s.tag, got, s.sent.load(SeqCst)));
                }
            }
        }
    }
    cx.panics(false);
    rep.count("messages delivered", msgs);
    rep.count("sessions", sessions.len() as u64);
    rep.count("status events", nodes.iter().map(|n| n.stat.len() as u64).sum());
    rep.eval(sig, msgs > 0);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "nodes": n, "senders": senders.len(), "chunk": cfgs.iter().map(|c| c.chunk).collect::<Vec<_>>(), "messages": msgs, "sessions": sessions.len(), "cuts": cuts, "script": cx.log, "status": nodes.iter().map(|n| n.stat.dump()).collect::<Vec<_>>()}));
    }
    for nd in nodes {
        if let Ok(nd) = Arc::try_unwrap(nd) {
            nd.close();
        }
    }
}

pub fn n01(rep: &Arc<Report>) {
    rep.rule("one case: two or three systems exchange numbered messages from many threads; distinct by the interleaving of arrivals");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(5, 1.0, u64::MAX, |rep, case, seed| mesh_case(rep, case, seed, Plan::Undisturbed));
}
