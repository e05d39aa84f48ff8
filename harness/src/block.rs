//! N05: blocking and allowing peers.
use crate::net::Cx;
use crate::netbase::*;
use crate::util::*;
use ipnet::IpNet;
use kompact::prelude::*;
use kompact_net::{NetworkStatus, NetworkStatusRequest};
use serde_json::json;
use std::collections::HashSet;
use std::net::{IpAddr, SocketAddr};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// What has been asked for: the last matching rule decides, systems before networks.
#[derive(Default)]
struct Rules {
    nets: Vec<(IpNet, bool)>,
    blocked: HashSet<SocketAddr>,
    allowed: HashSet<SocketAddr>,
}
impl Rules {
    fn is_blocked(&self, a: &SocketAddr) -> bool {
        if self.allowed.contains(a) {
            return false;
        }
        self.blocked.contains(a) || self.nets.iter().rev().find(|(n, _)| n.contains(&a.ip())).is_some_and(|(_, b)| *b)
    }
}
struct Peer {
    n: Node,
    /// a message has got through in both directions since it was last blocked
    settled: bool,
    blocked: bool,
    to: u64,
    from: u64,
    status: usize,
    session: (Option<u128>, Option<u128>),
}
const T: Duration = Duration::from_secs(30);

fn n05_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let retries = *rng.pick(&[2u8, 5, 50]);
    let quick = |addr: SocketAddr| NodeCfg { addr, retries, retry_ms: 15, threads: 1, ..NodeCfg::default() };
    let a = Node::new(&quick(([127, 0, 0, 1], 0).into()));
    // the last two are at one address
    let n = rng.range(2, 5);
    let x = rng.below(200) as u8;
    let ips: Vec<[u8; 4]> = (0..n).map(|i| [127, 1, 40 + x, if i == n - 1 { n as u8 - 1 } else { i as u8 + 1 }]).collect();
    let mut peers: Vec<Peer> = ips
        .iter()
        .map(|ip| Peer { n: Node::new(&quick((*ip, 0).into())), settled: false, blocked: false, to: 0, from: 0, status: 0, session: (None, None) })
        .collect();
    let mut rules = Rules::default();
    let mut sig = hash_bytes(b"n05");
    let mut fence = 0u32;
    let steps = rng.range(4, 14);
    for step in 0..steps {
        if cx.failed {
            break;
        }
        // 1. change the rules
        let marks: Vec<usize> = peers.iter().map(|p| a.stat.about(p.n.addr).len()).collect();
        let changes = if step == 0 && rng.chance(1, 2) { 0 } else { rng.range(1, 4) };
        let mut awaited: Vec<NetworkStatus> = vec![];
        for _ in 0..changes {
            let p = rng.below(n);
            let addr = peers[p].n.addr;
            let ip = addr.ip();
            let net: IpNet = {
                let bits = *rng.pick(&[32u8, 32, 31, 30, 24, 16]);
                IpNet::new(ip, bits).unwrap().trunc()
            };
            let sp = SystemPath::with_socket(Transport::Tcp, addr);
            let host = IpNet::from(ip);
            let (what, req) = match rng.below(8) {
                0 | 1 => {
                    rules.nets.push((host, true));
                    awaited.push(NetworkStatus::BlockedIp(ip));
                    (format!("block ip of {}", p), NetworkStatusRequest::BlockIp(ip))
                }
                2 => {
                    rules.nets.push((host, false));
                    (format!("allow ip of {}", p), NetworkStatusRequest::AllowIp(ip))
                }
                3 => {
                    rules.nets.push((net, true));
                    awaited.push(NetworkStatus::BlockedIpNet(net));
                    (format!("block net {}", net), NetworkStatusRequest::BlockIpNet(net))
                }
                4 => {
                    rules.nets.push((net, false));
                    (format!("allow net {}", net), NetworkStatusRequest::AllowIpNet(net))
                }
                5 | 6 => {
                    rules.blocked.remove(&addr);
                    rules.allowed.insert(addr);
                    (format!("allow system {}", p), NetworkStatusRequest::AllowSystem(sp))
                }
                _ => {
                    rules.allowed.remove(&addr);
                    rules.blocked.insert(addr);
                    awaited.push(NetworkStatus::BlockedSystem(sp.clone()));
                    (format!("block system {}", p), NetworkStatusRequest::BlockSystem(sp))
                }
            };
            sig = mix(sig, hash_bytes(what.as_bytes()));
            cx.note(format!("{} {}", step, what));
            a.ctl.tell(req);
            rep.count("rule changes", 1);
        }
        // a last one tells that all have been carried out
        fence += 1;
        let f: IpAddr = std::net::Ipv4Addr::from(0xCB00_7100 + fence).into();
        a.ctl.tell(NetworkStatusRequest::BlockIp(f));
        if !a.stat.wait(T, |l| l.iter().any(|s| matches!(&s.s, NetworkStatus::BlockedIp(i) if *i == f))) {
            cx.fail("no-indication", format!("no BlockedIp indication: {:?}", a.stat.dump()));
            break;
        }
        for w in &awaited {
            let k = format!("{:?}", w);
            if !a.stat.log.lock().unwrap().iter().any(|s| format!("{:?}", s.s) == k) {
                cx.fail("no-indication", format!("no {} indication: {:?}", k, a.stat.dump()));
            }
        }
        let all_settled: Vec<bool> = peers
            .iter_mut()
            .map(|p| {
                let b = rules.is_blocked(&p.n.addr);
                let was = p.blocked;
                p.blocked = b;
                if b {
                    p.settled = false;
                }
                p.settled && !was
            })
            .collect();
        // changes within the batch may have blocked it for a moment
        let undisturbed: Vec<bool> = (0..n).map(|i| all_settled[i] && changes <= 1).collect();
        // what was on its way arrives
        std::thread::sleep(Duration::from_millis(15));
        let got: Vec<(usize, usize)> = peers.iter().enumerate().map(|(i, p)| (p.n.inbox.of(i as u64 * 2 + 100).len(), a.inbox.of(i as u64 * 2 + 101).len())).collect();
        // 2. everyone talks
        for (i, p) in peers.iter_mut().enumerate() {
            // not both at once, they would have to settle on a connection
            if rng.chance(1, 2) || p.settled {
                a.send(&p.n.sink_path(), &path_at(a.addr, "src"), i as u64 * 2 + 100, p.to, rng.below(200));
                p.to += 1;
            } else {
                p.n.send(&a.sink_path(), &path_at(p.n.addr, "src"), i as u64 * 2 + 101, p.from, rng.below(200));
                p.from += 1;
            }
        }
        // 3. allowed ones get through
        for (i, p) in peers.iter_mut().enumerate() {
            if p.blocked || cx.failed {
                continue;
            }
            for dir in 0..2u64 {
                let end = Instant::now() + T;
                let (src, dst, tag) = if dir == 0 { (&a, &p.n, i as u64 * 2 + 100) } else { (&p.n, &a, i as u64 * 2 + 101) };
                let next = if dir == 0 { &mut p.to } else { &mut p.from };
                let mut there = false;
                while !there && Instant::now() < end {
                    // what was sent while it was blocked may be gone
                    src.send(&dst.sink_path(), &path_at(src.addr, "src"), tag, *next, rng.below(300));
                    let s = *next;
                    *next += 1;
                    there = dst.inbox.wait(Duration::from_millis(250), |g| g.iter().rev().any(|g| g.tag == tag && g.seq == s));
                    if there {
                        let sess = dst.inbox.of(tag).last().and_then(|g| g.session);
                        let old = if dir == 0 { &mut p.session.0 } else { &mut p.session.1 };
                        if undisturbed[i] && *old != sess {
                            cx.fail("allowed-peer-disturbed", format!("peer {} which stays allowed is in another session after {:?}: A {:?} P {:?}", i, cx.log.last(), a.stat.dump(), p.n.stat.dump()));
                        }
                        *old = sess;
                    } else if undisturbed[i] {
                        // it was connected all the time
                        there = dst.inbox.wait(T, |g| g.iter().rev().any(|g| g.tag == tag && g.seq == s));
                        if !there {
                            cx.fail("allowed-peer-disturbed", format!("a message {} peer {} which stays allowed is lost after {:?}: A {:?} P {:?}", if dir == 0 { "to" } else { "from" }, i, cx.log.last(), a.stat.dump(), p.n.stat.dump()));
                        }
                    }
                    if cx.failed {
                        break;
                    }
                }
                if !there && !cx.failed {
                    cx.fail("allowed-peer-cut-off", format!("nothing gets through {} peer {} ({}): A {:?} P {:?}", if dir == 0 { "to" } else { "from" }, i, p.n.addr, a.stat.dump(), p.n.stat.dump()));
                }
                rep.count("messages to allowed peers", 1);
            }
            p.settled = true;
            if undisturbed[i] && !cx.failed {
                let log = a.stat.about(p.n.addr);
                if let Some(s) = log[marks[i]..].iter().find(|s| matches!(s, NetworkStatus::ConnectionLost(..) | NetworkStatus::ConnectionClosed(..) | NetworkStatus::ConnectionDropped(..) | NetworkStatus::ConnectionEstablished(..))) {
                    cx.fail("allowed-peer-disturbed", format!("peer {} which stays allowed: {:?} after {:?}", i, s, cx.log.last()));
                }
            }
        }
        // 4. blocked ones do not
        if peers.iter().any(|p| p.blocked) && !cx.failed {
            for (i, p) in peers.iter_mut().enumerate() {
                if p.blocked {
                    a.send(&p.n.sink_path(), &path_at(a.addr, "src"), i as u64 * 2 + 100, p.to, rng.below(200));
                    p.to += 1;
                    p.n.send(&a.sink_path(), &path_at(p.n.addr, "src"), i as u64 * 2 + 101, p.from, rng.below(200));
                    p.from += 1;
                }
            }
            std::thread::sleep(Duration::from_millis(rng.range(20, 80) as u64));
            for (i, p) in peers.iter().enumerate() {
                if p.blocked {
                    let now = (p.n.inbox.of(i as u64 * 2 + 100).len(), a.inbox.of(i as u64 * 2 + 101).len());
                    if now != got[i] {
                        cx.fail(
                            "blocked-peer-reached",
                            format!("peer {} ({}) is blocked, but {} messages to it and {} from it arrive: A {:?} P {:?}", i, p.n.addr, now.0 - got[i].0, now.1 - got[i].1, a.stat.dump(), p.n.stat.dump()),
                        );
                    }
                    let log = a.stat.about(p.n.addr);
                    if log.iter().rev().take_while(|_| true).next().is_some_and(|s| matches!(s, NetworkStatus::ConnectionEstablished(..))) {
                        // the connection that was dropped is not reported by BlockSystem
                        let at = a.stat.log.lock().unwrap().iter().rposition(|s| matches!(&s.s, NetworkStatus::ConnectionEstablished(q, _) if q.socket_address() == p.n.addr)).unwrap();
                        let fence_at = a.stat.log.lock().unwrap().iter().rposition(|s| matches!(&s.s, NetworkStatus::BlockedIp(i) if *i == f)).unwrap();
                        if at > fence_at {
                            cx.fail("blocked-peer-connected", format!("peer {} ({}) is blocked but gets a connection: {:?}", i, p.n.addr, a.stat.dump()));
                        }
                    }
                    rep.count("blocked peers checked", 1);
                }
            }
        }
        // queued messages of peers which have given up must not confuse the next round
        for p in &mut peers {
            p.status = 0;
        }
        cx.panics(false);
    }
    for (i, p) in peers.iter().enumerate() {
        for (inbox, tag) in [(&p.n.inbox, i as u64 * 2 + 100), (&a.inbox, i as u64 * 2 + 101)] {
            // what is sent while a peer is blocked may be missing, also between messages of one
            // session; losses of peers which stay allowed are checked above
            let got = inbox.of(tag);
            if let Some(w) = got.windows(2).find(|w| w[1].seq <= w[0].seq) {
                cx.fail("reordered", format!("sender {}: message {} after {}", tag, w[1].seq, w[0].seq));
            }
            if let Some(b) = inbox.bad.lock().unwrap().first() {
                cx.fail("altered", b.clone());
            }
        }
    }
    if a.stat.log.lock().unwrap().iter().any(|s| matches!(s.s, NetworkStatus::CriticalNetworkFailure)) {
        cx.fail("network-failure", format!("{:?}", a.stat.dump()));
    }
    rep.count("messages delivered", (a.inbox.len() + peers.iter().map(|p| p.n.inbox.len()).sum::<usize>()) as u64);
    rep.count("status events", a.stat.len() as u64);
    rep.eval(sig, fence > 1);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": cx.log, "peers": peers.iter().map(|p| p.n.addr.to_string()).collect::<Vec<_>>(), "status": a.stat.dump()}));
    }
    for p in peers {
        p.n.close();
    }
    a.close();
    cx.panics(false);
}

pub fn n05(rep: &Arc<Report>) {
    rep.rule("one case: a system blocks and allows addresses, networks and systems of two to four real peers; distinct by the rule changes");
    rep.assume("rules never cover the address connections come from on this host (127.0.0.1)");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(6, 1.0, u64::MAX, n05_case);
}
